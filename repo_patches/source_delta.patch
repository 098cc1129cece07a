From 46edcf0ba6f1489caed516cccec34ecca914cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 01/48] fix: int_to_str and int_to_str_chop drop zero digits
 and overrun 1-char buffers

105 was written as "15", 10 as "1" (int_to_str) or ":" (chop), 0 wrote
two chars without checking the buffer size, and INT32_MIN was negated as a
signed int (undefined behaviour).
---
 util/int_to_str.cc | 140 +++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 87 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..db75860 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -1,6 +1,6 @@
-#include <span>
-#include <cstdint>
+#include "int_to_str.hh"
 #include <cstddef>
+#include <cstdint>
 #include <span>
 
 ///// Method #1: fill available buffer spots, truncating
@@ -18,73 +18,68 @@ constexpr size_t Log10<1>() {
 	return 1;
 }
 
+// Returns the digit of value at the given Place, with 0-9 being '0'-'9'
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
-		unsigned dig = value / Place;
-		value -= dig * Place;
-		return avail > Log10<Place>() ? '0' + dig : 0;
-	}
-	return 0;
+char digit(unsigned value) {
+	return '0' + (value / Place) % 10;
+}
+
+// Returns abs(value). Unlike negating a signed int, this is valid for INT32_MIN
+unsigned magnitude(int32_t value) {
+	return value < 0 ? 0u - static_cast<unsigned>(value) : static_cast<unsigned>(value);
+}
+
+// Writes the digits of value to buf, but only the `num` least significant ones
+unsigned put_digits(unsigned value, unsigned num, char *buf) {
+	unsigned len = 0;
+	if (num >= Log10<1000000000>())
+		buf[len++] = digit<1000000000>(value);
+	if (num >= Log10<100000000>())
+		buf[len++] = digit<100000000>(value);
+	if (num >= Log10<10000000>())
+		buf[len++] = digit<10000000>(value);
+	if (num >= Log10<1000000>())
+		buf[len++] = digit<1000000>(value);
+	if (num >= Log10<100000>())
+		buf[len++] = digit<100000>(value);
+	if (num >= Log10<10000>())
+		buf[len++] = digit<10000>(value);
+	if (num >= Log10<1000>())
+		buf[len++] = digit<1000>(value);
+	if (num >= Log10<100>())
+		buf[len++] = digit<100>(value);
+	if (num >= Log10<10>())
+		buf[len++] = digit<10>(value);
+	if (num >= Log10<1>())
+		buf[len++] = digit<1>(value);
+	return len;
 }
 } // namespace
 
 void int_to_str_chop(int32_t value, const std::span<char> buf) {
-	if (buf.size() <= 1)
+	if (buf.size() == 0)
 		return;
 
-	if (value == 0) {
-		buf[0] = '0';
-		buf[1] = '\0';
-		return;
-	}
+	// Space available, not including the null terminator
+	size_t avail = buf.size() - 1;
 
 	unsigned len = 0;
-	if (value < 0) {
+	if (value < 0 && avail > 0) {
 		buf[len++] = '-';
-		value = -value;
+		avail--;
 	}
-	unsigned val = value;
-
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
-		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
-		buf[len++] = dig;
 
+	unsigned val = magnitude(value);
+	unsigned num = num_digits(val);
+	if (num > avail)
+		num = avail;
+
+	len += put_digits(val, num, buf.data() + len);
 	buf[len] = '\0';
 }
 
 //////////////// Method 2: return false if value exceeds buffer space
 
-namespace
-{
-template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
-		unsigned dig = value / Place;
-		value -= dig * Place;
-		return '0' + dig;
-	}
-	return 0;
-}
-} // namespace
-
 unsigned num_digits(unsigned value) {
 	if (value < 10)
 		return 1;
@@ -100,46 +95,17 @@ unsigned num_digits(unsigned value) {
 }
 
 bool int_to_str(int32_t value, const std::span<char> buf) {
-	int len = 0;
-	if (value < 0) {
-		if (!buf.size())
-			return false;
-		buf[len++] = '-';
-		value = -value;
-	}
-	if (value == 0) {
-		buf[0] = '0';
-		buf[1] = '\0';
-		return true;
-	}
+	unsigned len = value < 0 ? 1 : 0;
+	unsigned val = magnitude(value);
 
-	auto num_dig = num_digits(value);
+	auto num_dig = num_digits(val);
 	if ((num_dig + len + 1) > buf.size())
 		return false;
 
-	unsigned val = value;
-
-	if (char dig = _digit<1000000000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
-		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
-		buf[len++] = dig;
+	if (value < 0)
+		buf[0] = '-';
 
+	len += put_digits(val, num_dig, buf.data() + len);
 	buf[len] = '\0';
 	return true;
 }
-- 
2.43.0


From 7597bd1f9605580f59d699a58ca13e8dad7606ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/48] fix: print of non-null-terminated string_view and of
 INT32_MIN

A string_view was printed up to the next null char instead of to its end,
and INT32_MIN was negated as a signed int (undefined behaviour).
---
 util/print.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..f018e59 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (char c : str)
+		putc(c);
 }
 
 namespace
@@ -50,7 +51,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = 0u - static_cast<unsigned>(val);
 	} else
 		uval = val;
 
-- 
2.43.0


From c1acec91c5984b19312ebe8ffcfccdd602f9143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/48] fix: CircularBufferBlock::write copies elements, not
 bytes

memcpy was given the number of elements, so only part of the block was
written when sizeof(T) > 1.
---
 util/circular_buffer_block.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..464c176 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -17,11 +17,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::memcpy(&*begin, block.data(), block.size() * sizeof(T));
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::memcpy(&*begin, block.data(), space_avail * sizeof(T));
+			std::memcpy(data.data(), block.data() + space_avail, (block.size() - space_avail) * sizeof(T));
 		}
 	}
 
-- 
2.43.0


From 35e5f9195cfd7f1be04adb8ebc0177e0d651b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 04/48] fix: CircularBufferOpt::fill_buffer and
 LockFreeFifoSpsc(span) fill the whole buffer

memcpy and memset were given the number of elements instead of the number
of bytes, and <cstring> was not included.
---
 util/circular_buffer.hh     | 1 +
 util/circular_buffer_opt.hh | 5 +++--
 util/lockfree_fifo_spsc.hh  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..5f2c456 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include "util/math.hh"
 #include <array>
+#include <cstring>
 
 template<class T, size_t max_size_>
 class CircularBuffer {
diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..62ddfcd 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,12 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		for (auto &el : buf_)
+			el = val;
 	}
 
 	// Alias for count()
diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..4f4a50e 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -2,6 +2,7 @@
 #include "util/math.hh"
 #include <array>
 #include <atomic>
+#include <cstring>
 #include <optional>
 #include <span>
 
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		std::memcpy(buf_.data(), src.data(), src.size_bytes());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From 3365c95fe6be4dbca2009a2f06284aa758ecaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 05/48] fix: LockFreeFifoSpsc consumer synchronizes with the
 producer

get() and get_move() read head_ with memory_order_relaxed, so reading the
element was not ordered after the producer's write of it (a data race).
---
 util/lockfree_fifo_spsc.hh     | 4 ++--
 util/lockfree_fifo_spsc_dyn.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 4f4a50e..8e4c86f 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -67,7 +67,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -81,7 +81,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..9f7763d 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
-- 
2.43.0


From 08951e8c1e3e89510a1994b2d3e1407174386572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 06/48] fix: const element access of CircularBuffer and
 ThreadSafePool

Both returned a non-const reference to a const element and did not compile
when used.
---
 util/circular_buffer.hh  | 2 +-
 util/thread_safe_pool.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 5f2c456..efa762a 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -46,7 +46,7 @@ public:
 	}
 
 	// Return a reference to the first element
-	T &first() const {
+	const T &first() const {
 		return buf_[tail_];
 	}
 
diff --git a/util/thread_safe_pool.hh b/util/thread_safe_pool.hh
index 87b84ac..08b950d 100644
--- a/util/thread_safe_pool.hh
+++ b/util/thread_safe_pool.hh
@@ -62,7 +62,7 @@ public:
 		return data[idx];
 	}
 
-	T &operator[](size_t idx) const {
+	const T &operator[](size_t idx) const {
 		return data[idx];
 	}
 };
-- 
2.43.0


From 0f2f48184ab7b5094e344b148e9edead2715a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 07/48] fix: SequentialMap::insert stores the value, const
 operator[] does not dangle

insert() stored only the key, and the const operator[] returned a reference
to a temporary when the key was not found.
---
 util/sequential_map.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..4cffaba 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT default_val{};
+		return default_val;
 	}
 
 	ValT &operator[](const KeyT key) {
@@ -50,6 +51,7 @@ public:
 		}
 
 		data[newsize].first = entry.first;
+		data[newsize].second = entry.second;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From f13fa4d53c7fbff1e33945867d6c507f28ac2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 08/48] fix: CircularStack constructed with values contains
 those values

The values were copied into the storage, but the stack was left empty.
---
 util/circular_stack.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/circular_stack.hh b/util/circular_stack.hh
index ff76d2e..1a250b6 100644
--- a/util/circular_stack.hh
+++ b/util/circular_stack.hh
@@ -21,7 +21,9 @@ public:
 
 	template<typename... Ts>
 	CircularStack(const Ts... t)
-		: data{t...} {
+		: data{t...}
+		, top_idx{sizeof...(Ts) % MaxElements}
+		, full{sizeof...(Ts) == MaxElements} {
 	}
 
 	void push_back(T el) {
-- 
2.43.0


From 67dc8f26a35861184da684a68730e526d3617aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 09/48] fix: SeqMap::remove and remove_last keep the map
 consistent

remove() left a default key with a default value in the map: it could be
found, it was counted in size() and its space was never available again.
After overwrite() replaced the oldest element of a full map, remove_last()
removed an element that was not the last one, and the next overwrites did not
replace the oldest.
---
 util/seq_map.hh | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/util/seq_map.hh b/util/seq_map.hh
index c031b43..f805677 100644
--- a/util/seq_map.hh
+++ b/util/seq_map.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <span>
@@ -56,22 +57,25 @@ struct SeqMap {
 	}
 
 	void remove_last() {
+		put_oldest_first();
 		if (sz > 0)
 			sz--;
 	}
 
 	// returns true if found and removed
 	bool remove(KeyT key) {
-		auto active_keys = std::span<KeyT>{keys}.subspan(0, sz);
-		for (size_t i = 0; auto &k : active_keys) {
-			if (k == key) {
-				k = KeyT{};
-				vals[i] = ValT{};
-				return true;
-			}
-			i++;
-		}
-		return false;
+		if (!key_exists(key))
+			return false;
+
+		put_oldest_first();
+		auto it = std::find(keys.begin(), keys.begin() + sz, key);
+		auto val = vals.begin() + (it - keys.begin());
+		std::move(it + 1, keys.begin() + sz, it);
+		std::move(val + 1, vals.begin() + sz, val);
+		sz--;
+		keys[sz] = KeyT{};
+		vals[sz] = ValT{};
+		return true;
 	}
 
 	bool key_exists(KeyT key) const {
@@ -86,4 +90,13 @@ struct SeqMap {
 	size_t size() const {
 		return sz;
 	}
+
+private:
+	// Once full, overwrite() has moved the position of the oldest element.
+	// Elements can only be removed (or appended) when it's the first one.
+	void put_oldest_first() {
+		std::rotate(keys.begin(), keys.begin() + oldest, keys.begin() + sz);
+		std::rotate(vals.begin(), vals.begin() + oldest, vals.begin() + sz);
+		oldest = 0;
+	}
 };
-- 
2.43.0


From 3add4cef8ee361a56ac5437b2febd860a1185b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 10/48] fix: InterpArray wrapping functions and MathTools::pow2
 with negative values

A negative phase was converted to an unsigned index, which is undefined, so
sin(), cos() and tan() were wrong for a negative angle though sin() is meant
to work for any x. pow2() read before the start of its table.
---
 util/interp_array.hh | 13 ++++++++++++-
 util/math.hh         |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..2fafe21 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -23,6 +23,9 @@ struct InterpArray {
 
 	// Return an interpolated value where index = 0 and index = Size are the first element
 	constexpr T interp_by_index_wrap(const PhaseT index) const {
+		if (index < PhaseT{0})
+			return interp_by_index_wrap(wrap_negative(index));
+
 		unsigned int idx0 = static_cast<unsigned int>(index);
 		const auto phase = index - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
@@ -64,7 +67,8 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		const PhaseT index = phase * Size;
+		auto idx = static_cast<unsigned int>(index < PhaseT{0} ? wrap_negative(index) : index);
 		while (idx >= Size)
 			idx -= Size;
 		return data[idx];
@@ -77,4 +81,11 @@ struct InterpArray {
 		const auto idx = static_cast<unsigned int>(phase * (Size - 1));
 		return data[idx];
 	}
+
+private:
+	// Returns the equivalent index in the range 0..Size (converting a negative index to unsigned is undefined)
+	static constexpr PhaseT wrap_negative(const PhaseT index) {
+		const auto cycles = static_cast<unsigned int>(-index / Size) + 1;
+		return index + static_cast<PhaseT>(cycles) * Size;
+	}
 };
diff --git a/util/math.hh b/util/math.hh
index 082f113..bb9e0ce 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -275,7 +275,10 @@ static inline constexpr float pow2(float x) {
 	x = x / 5.0f;
 	float res = 1.f;
 	for (;;) {
-		if (x < 1.f) {
+		if (x < 0.f) {
+			res /= 32.f;
+			x += 1.f;
+		} else if (x < 1.f) {
 			// Note: exp5Table.interp(x) = 2^(x*5), where 0 <= x <= 1
 			res *= exp5Table.interp(x);
 			break;
-- 
2.43.0


From f9d22eec2adb48772f794909995e1416f564159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 11/48] fix: MathTools::interpolate<PhaseMax> with negative
 values

The sum was converted to unsigned before dividing by PhaseMax.
---
 util/math.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index bb9e0ce..6a07e6b 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,8 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	constexpr auto phase_max = static_cast<int32_t>(PhaseMax);
+	return ((in2 * phase) + in1 * (phase_max - phase)) / phase_max;
 }
 
 template<class T>
-- 
2.43.0


From c33aa6a64846024fc756e13d25c3cccce875ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 12/48] fix: MathTools::is_power_of_2 and next_power_of_2 with
 64-bit values

is_power_of_2 truncated its argument to 32 bits: next_power_of_2(0x100000001)
returned 0x100000001.
---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 6a07e6b..f2e8cb1 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -82,7 +82,7 @@ struct Log2<1> {
 	enum { val = 0 };
 };
 
-constexpr bool is_power_of_2(unsigned int v) {
+constexpr bool is_power_of_2(uint64_t v) {
 	return v && ((v & (v - 1)) == 0);
 }
 
-- 
2.43.0


From f427cfbe6f01ee42a7bd2c3e1e99510a33c90eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 13/48] fix: hysteresis_gate turns on at turn_on_thresh, not at
 the midpoint

The feedback only lowered the threshold when on, so when off the output went
high at the midpoint between the thresholds.
---
 util/math.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index f2e8cb1..b86f1d7 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -341,7 +341,8 @@ static inline bool is_inf_fastmath(float a) {
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
 	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
+	// Lowers the effective threshold when on, and raises it when off
+	float feedback = feedback_amt * (last_output * 2.f - 1.f);
 	float test_signal = new_input + feedback;
 	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
 	return test_signal > threshold ? 1.f : 0.f;
-- 
2.43.0


From 0f9562a870728e1585cfa1781236a80425a8c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 14/48] fix: AnalyzedSig and PeakMeter maximum of a negative
 signal

numeric_limits<float>::min() is the smallest positive float.
---
 util/analyzed_signal.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From 929f961750c1041d316d7fa68b5b6fce5d054023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 15/48] fix: AudioFrame output scaling and sign extension for
 all sample types

scaleOutput() saturated to 24 bits regardless of UsedBits, and 1.0f overflowed
32-bit samples. sign_extend() read past the end of samples smaller than int.
---
 util/audio_frame.hh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..75b18c2 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -36,15 +36,16 @@ public:
 
 			if constexpr (kSampleTypeBits > UsedBits) {
 				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
+				return MathTools::signed_saturate(v, UsedBits);
 			} else {
-				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
-				return static_cast<SampleType>(v * kOutScaling);
+				const float v = MathTools::constrain(val, -1.f, 1.f) * kOutScaling;
+				return v >= kOutScaling ? static_cast<SampleType>(kMaxValue - 1) : static_cast<SampleType>(v);
 			}
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
-			return v * (MathTools::ipow(2, UsedBits) - 1);
+			constexpr auto max = MathTools::ipow(2, UsedBits) - 1;
+			return v >= 1.f ? max : static_cast<SampleType>(v * max);
 		}
 	}
 
@@ -53,10 +54,11 @@ public:
 		if constexpr ((sizeof(SampleType) * 8u) == UsedBits)
 			return v;
 		else {
-			using S = struct {
+			struct {
 				signed Val : UsedBits;
-			};
-			return reinterpret_cast<const S *>(&v)->Val;
+			} extended{};
+			extended.Val = v;
+			return extended.Val;
 		}
 	}
 };
-- 
2.43.0


From 69750d6ae51368b384f8a4236ffaca0b96f6c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 16/48] fix: copying a Function or Callback copies its captures

The implicit copy operations copied the bytes of the callable, so a capture
with a destructor was destroyed more often than it was constructed.
---
 util/callable.hh | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..e3fe924 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -7,7 +7,7 @@
 // Callback is a callable object that takes no parameters,
 // and has a maximum of 8 Bytes of captures (on ARM 32-bit system)
 // Note: [this] takes 4 Bytes (on ARM 32-bit system), so it's quite useful
-// Improvements, possibly: remove m_destroy and make m_data sizeof(void*)
+// Improvements, possibly: remove m_manage and make m_data sizeof(void*)
 // this would reduce the size (on ARM 32-bit) from 16 Bytes to 8 Bytes
 // But it would leak memory if Callable was on the heap
 // (which shouldn't happen, since the point of this is to avoid the heap,
@@ -26,13 +26,28 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(const FunctionSized &other)
+		: m_callback{other.m_callback}
+		, m_manage{other.m_manage} {
+		copy_data(other);
+	}
+
+	FunctionSized &operator=(const FunctionSized &other) {
+		if (this != &other) {
+			destroy_data();
+			m_callback = other.m_callback;
+			m_manage = other.m_manage;
+			copy_data(other);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		destroy_data();
 	}
 
 	Ret call(Args... args) {
@@ -57,18 +72,33 @@ private:
 			return callable(std::forward<Args>(args)...);
 	}
 
+	// Copies the callable from src to object, or destroys object if there is no src
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, const void *src) {
+		if (src) {
+			new (object) Callable(*reinterpret_cast<const Callable *>(src));
+		} else {
+			Callable &callable = *reinterpret_cast<Callable *>(object);
+			callable.~Callable();
+		}
+	}
+
+	void copy_data(const FunctionSized &other) {
+		if (m_manage)
+			m_manage(&m_data[0], &other.m_data[0]);
+	}
+
+	void destroy_data() {
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	using Manager = void (*)(void *, const void *);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From 1888f63cd654d0d90d57cad8301e68aa7b3f42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 17/48] fix: WearLevel reads after a failed read or a failed
 erase

read() ignored a failed read of the storage, and returned whatever the caller
had passed in if that was valid. After a failed erase, WearLeveler no longer
read the data still stored and WearLevel's cell kept going past the last one.
---
 util/wear_level.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..5df34a7 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -65,7 +64,7 @@ public:
 				if (erased_once)
 					return false;
 				if (!storage.erase()) {
-					cell_ = 0;
+					cell_ = Storage::NumCells;
 					return false;
 				}
 				cell_ = 0;
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -113,8 +111,10 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					cell_ = Storage::cell_nr_;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From 8b90f77a6e80f87991d14be23f8a3c810f857368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 18/48] fix: PollEvent expires when polled late around an
 overflow of the time

If the time overflowed and last_poll + period did not (250 -> 1 with a period
of 3 for uint8_t), the event did not happen until the time came around again.
---
 util/poll_event.hh | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..6a3d14c 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -7,24 +8,22 @@ struct PollEvent {
 	}
 
 	void poll(TimeT now, auto action) {
-		bool expired = false;
-
-		// Handle overflow
-		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
-				expired = true;
-			}
-		} else if ((now - last_poll) >= period) {
-			expired = true;
-		}
-
-		if (expired) {
+		if (elapsed(last_poll, now) >= period) {
 			last_poll = now;
 			action();
 		}
 	}
 
 private:
+	static TimeT elapsed(TimeT start, TimeT end) {
+		if constexpr (std::is_integral_v<TimeT>) {
+			// Handle overflow
+			using UnsignedT = std::make_unsigned_t<TimeT>;
+			return static_cast<TimeT>(static_cast<UnsignedT>(end) - static_cast<UnsignedT>(start));
+		} else
+			return end - start;
+	}
+
 	TimeT period;
 	TimeT last_poll{};
 };
-- 
2.43.0


From ed4d33d1ef2e2b0d413c23d16cec2b15a883d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 19/48] fix: MonotonicAllocator can allocate all of its free
 space

allocate(free_space()) failed, so the last byte of the arena was never usable.
---
 util/monotonic_allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/monotonic_allocator.hh b/util/monotonic_allocator.hh
index ac81066..354e137 100644
--- a/util/monotonic_allocator.hh
+++ b/util/monotonic_allocator.hh
@@ -10,8 +10,8 @@ public:
 
 	uint8_t *allocate(std::size_t size) {
 		auto bytesRemaining = arena.size() - offset;
-		if (bytesRemaining > size) {
-			auto result = &arena[offset];
+		if (bytesRemaining >= size) {
+			auto result = arena.data() + offset;
 			offset += size;
 
 			return result;
-- 
2.43.0


From 5014faa36ccaad747b6578279a8035f214fa711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 20/48] fix: ReplaceString::replace_all continues after the
 replacement

It continued after the length of the search string, so it never ended when
replacing "a" with "aa", and missed matches after a shorter replacement.
An empty search string never ended either.
---
 util/string_util.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..c5bedf7 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include <string>
+#include <string_view>
 #include <vector>
 
 struct ReplaceString {
@@ -10,6 +11,9 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
+
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
@@ -17,7 +21,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From aacae49b692ff17b6e6a17e0abeda8722e23095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 21/48] fix: Version of a string_view does not read past the
 end of it

strtol needs a null-terminated string: it crashed with an empty string_view
and read the digits following a partial one. The result was truncated to
unsigned, so 4294967297 was accepted as 1.
---
 util/version_tools.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..d05ab10 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -1,6 +1,7 @@
 #pragma once
+#include <charconv>
+#include <compare>
 #include <cstdint>
-#include <cstdlib>
 #include <string_view>
 
 namespace VersionUtil
@@ -46,7 +47,9 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
+			// Anything that's not a number, or is too large for one, is 0
+			unsigned num = 0;
+			std::from_chars(token.data(), token.data() + token.size(), num);
 			set_field(i++, num);
 
 			if (pos == std::string_view::npos) {
-- 
2.43.0


From 5472a86270db023d2b6d404086b709623ccf681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 22/48] fix: OR() of enums starts from zero

The result was uninitialized.
---
 util/bitfield.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..bec5c21 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <concepts>
 #include <cstdint>
 #include <initializer_list>
 #include <type_traits>
@@ -23,7 +24,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val{};
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From bd2e58d1fa75d6eaf7e560e5f09ad1ab540571ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 23/48] fix: CompactBinaryParser::get_node with a corrupted
 size

With a 64-bit or signed size type, a corrupted size could pass the bounds
check and get_node() returned a span past the end of the data.
---
 util/compact_binary_parser.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..64b7227 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -67,7 +67,8 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		// Do not add offset + sz: it could overflow, and sz could be negative
+		if (size_t(sz) <= blob.size() - offset)
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From 54ed9efbbbba3fe170d6e6840d7f50e07f121225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 24/48] fix: RectC::x_intersects when this contains the other

Rects did not intersect if the other was within the left and right of this.
---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From 22597c516447af70dbd854a22ccebd0cb12a9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 25/48] fix: is_poly_concave with floating point coordinates

A cross product between -1 and 1 was truncated to a sign of 0, so the sign
of the first corner was ignored.
---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 9f7aa78..a2fd925 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -87,7 +87,7 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 			continue;
 
 		if (sign == 0)
-			sign = cross;
+			sign = cross > 0 ? 1 : -1;
 
 		if ((sign > 0 && cross < 0) || (sign < 0 && cross > 0))
 			return true;
-- 
2.43.0


From 820771dbe91e863301ac39f70932fbb1edde7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 26/48] fix: TriangleOscillator::set_period_ms with periods not
 in whole seconds

The period was truncated to seconds, so it divided by zero below 1000 ms.
---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..a632649 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint32_t>(uint64_t{freq_units} * 1000 / period_ms);
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From dc4a85e3463a75329b3f40f98803c713705d096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 27/48] fix: CircularBufferAccess::write without crossfade
 stores the data unchanged

It was converted to float and back, so large integers were rounded, or
overflowed.
---
 util/circular_buffer_ext.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_ext.hh b/util/circular_buffer_ext.hh
index 40b51e9..f73961b 100644
--- a/util/circular_buffer_ext.hh
+++ b/util/circular_buffer_ext.hh
@@ -60,7 +60,7 @@ public:
 	bool write(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = phase == 1.f ? d : d * phase + buf[wr] * (1.f - phase);
 			buf[wr++] = xfade;
 			if (wr >= sz) {
 				wr = 0;
@@ -73,7 +73,7 @@ public:
 	bool write_reverse(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = phase == 1.f ? d : d * phase + buf[wr] * (1.f - phase);
 			buf[wr--] = xfade;
 			if (wr >= sz) {
 				wr = sz - 1;
-- 
2.43.0


From 751b9c6db766f110937a18142fd58cd4589203e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 28/48] fix: MixedRgbLed::flash_once_ms flashes for the
 requested time

The frequency was truncated to whole Hz: 400 ms was 500 ms, and anything over
1000 ms did not flash at all.
---
 util/rgbled.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..cdaebcb 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include "util/colors.hh"
 #include "util/oscs.hh"
+#include <algorithm>
 
 // MixedRgbLed: each color element can have a different
 // LED driver (e.g. PWM, DAC, external chip)
@@ -31,8 +32,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(std::max(ms, 1.f));
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0


From dd4d084c4994ba6fc51bf6a6af36e29eec523bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 29/48] fix: SPSC fifo reset() releases the slots it frees to
 the producer

---
 util/lockfree_fifo_spsc.hh     | 2 +-
 util/lockfree_fifo_spsc_dyn.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 8e4c86f..ad944d2 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -129,7 +129,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index 9f7763d..c65acb0 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -148,7 +148,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
-- 
2.43.0


From 0c59233f70cf27767bb719f28fe62d10128c699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 30/48] fix: CircularBufferAccess::write keeps integers above
 2^24 exact

---
 util/circular_buffer_ext.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_ext.hh b/util/circular_buffer_ext.hh
index f73961b..5bace03 100644
--- a/util/circular_buffer_ext.hh
+++ b/util/circular_buffer_ext.hh
@@ -60,7 +60,7 @@ public:
 	bool write(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = phase == 1.f ? d : d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = phase == 1.f ? d : static_cast<value_type>(d * phase + buf[wr] * (1.f - phase));
 			buf[wr++] = xfade;
 			if (wr >= sz) {
 				wr = 0;
@@ -73,7 +73,7 @@ public:
 	bool write_reverse(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = phase == 1.f ? d : d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = phase == 1.f ? d : static_cast<value_type>(d * phase + buf[wr] * (1.f - phase));
 			buf[wr--] = xfade;
 			if (wr >= sz) {
 				wr = sz - 1;
-- 
2.43.0


From 2eb21a2f3871ce204ae1fc672ce80ccafe7d2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 31/48] fix: SmallestSignedInt with limits of 64 bits

The minimum was negated, which overflows for INT64_MIN: the type for
INT64_MIN .. 5 was int8_t.
---
 util/smallest_integer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/smallest_integer.hh b/util/smallest_integer.hh
index fe79090..b1148fd 100644
--- a/util/smallest_integer.hh
+++ b/util/smallest_integer.hh
@@ -18,7 +18,7 @@ template<int64_t min_val, int64_t max_val>
 requires(min_val <= max_val)
 struct SmallestSignedInt {
 	using type =
-		std::make_signed_t<typename SmallestUnsignedInt<(max_val >= -min_val ? max_val : -min_val - 1) << 1>::type>;
+		std::make_signed_t<typename SmallestUnsignedInt<static_cast<uint64_t>(max_val >= -(min_val + 1) ? max_val : -(min_val + 1)) << 1>::type>;
 };
 
 static_assert(std::is_same_v<SmallestUnsignedInt<0>::type, uint8_t>);
-- 
2.43.0


From ea6c0667a30aa17d03291acd5174ec12d66b3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 32/48] fix: copying a BigBuffer copies its data

The implicit copy operations copied the pointer, so both buffers used
the same data and both deleted it.
---
 util/big_buffer.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/big_buffer.hh b/util/big_buffer.hh
index 9a77253..aa19816 100644
--- a/util/big_buffer.hh
+++ b/util/big_buffer.hh
@@ -14,6 +14,15 @@ struct BigBuffer : BigHeapAllocation {
 	BigBuffer() {
 		data = new T;
 	}
+	// Copying a buffer copies its contents: each buffer owns its own data
+	BigBuffer(const BigBuffer &other)
+		: BigHeapAllocation(other)
+		, data{new T(*other.data)} {
+	}
+	BigBuffer &operator=(const BigBuffer &other) {
+		*data = *other.data;
+		return *this;
+	}
 	~BigBuffer() {
 		delete data;
 	}
-- 
2.43.0


From c5f2158cd9276b67c1999e4ba3f1702fa0441cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 33/48] fix: AlignedAllocator refuses sizes which overflow

The number of bytes wrapped around, so a much smaller block than
requested was returned.
---
 util/aligned_allocator.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..6777086 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -16,6 +16,10 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		// Refuse a size which cannot be represented after rounding it up
+		if (n > (static_cast<std::size_t>(-1) - (Alignment - 1)) / sizeof(T))
+			return nullptr;
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
-- 
2.43.0


From f69005606375c1fecdbfb38910014c9cab17dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 34/48] fix: conversion of a const PaddedAligned to its data

The const conversion was not a const member function, so it could not be
used on a const object.
---
 util/padded_aligned.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/padded_aligned.hh b/util/padded_aligned.hh
index 74d6a16..58b4303 100644
--- a/util/padded_aligned.hh
+++ b/util/padded_aligned.hh
@@ -19,7 +19,7 @@ struct PaddedAligned {
 		return data;
 	}
 
-	operator T const &() {
+	operator T const &() const {
 		return data;
 	}
 
-- 
2.43.0


From d8d7a22031c7be5de8c11d2dc052b882bf02b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 35/48] fix: SineOscillator::val() does not advance the phase

It called process(), so each call returned a different value, and
update() followed by val() advanced the phase twice.
---
 util/oscs.hh | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index a632649..3c6ebb8 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -107,8 +107,12 @@ struct PhaseAccum {
 	uint32_t Process() {
 		return process();
 	}
+	float val_float() {
+		return static_cast<float>(val()) * _to_float_convert;
+	}
 	float process_float() {
-		return static_cast<float>(process()) * _to_float_convert;
+		update();
+		return val_float();
 	}
 
 	void set_frequency(uint32_t freq) {
@@ -140,23 +144,25 @@ struct SineOscillator {
 	void update() {
 		_phaseacc.update();
 	}
+	// Returns 0 .. almost 0xFFFFFFFF, without advancing the phase
 	uint32_t val() {
-		return process();
+		return to_u32(to_unipolar(bipolar_val()));
 	}
 
 	// Returns -1 .. +1
 	float process_bipolar() {
-		return sinTable.interp_wrap(_phaseacc.process_float());
+		update();
+		return bipolar_val();
 	}
 
 	// Returns 0 .. +1
 	float process_unipolar() {
-		return process_bipolar() * 0.5f + 0.5f;
+		return to_unipolar(process_bipolar());
 	}
 
 	// Returns 0 .. almost 0xFFFFFFFF
 	uint32_t process() {
-		return static_cast<uint32_t>(process_unipolar() * _to_u32_convert);
+		return to_u32(process_unipolar());
 	}
 
 	void set_frequency(uint32_t freq) {
@@ -167,6 +173,16 @@ struct SineOscillator {
 	}
 
 private:
+	float bipolar_val() {
+		return sinTable.interp_wrap(_phaseacc.val_float());
+	}
+	static float to_unipolar(float bipolar) {
+		return bipolar * 0.5f + 0.5f;
+	}
+	static uint32_t to_u32(float unipolar) {
+		return static_cast<uint32_t>(unipolar * _to_u32_convert);
+	}
+
 	PhaseAccum<UpdateRateHz> _phaseacc;
 	static constexpr uint32_t max_ = 0xFFFFFFFF;
 	static constexpr float _to_u32_convert = 4294967040.f; // largest value less than 4294967296.f
-- 
2.43.0


From cfef10da6e29c4d09d0951e62798b232adcff0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 36/48] fix: DownCounter: a period shorter than one update
 overflowed the increment

---
 util/oscs.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 3c6ebb8..131e900 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -213,7 +213,9 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		// A period shorter than one update ends at the next update
+		float increment = (float)freq_units / (ms / 1000.f);
+		increment_ = increment < (float)max_ ? static_cast<uint32_t>(increment) : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
-- 
2.43.0


From 46aba0d0cee212a74e65654068472cdc2987f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 37/48] fix: PollChange::force_next_poll right after the start
 or an overflow of the time

---
 util/poll_change.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/poll_change.hh b/util/poll_change.hh
index f2264eb..d3b93b0 100644
--- a/util/poll_change.hh
+++ b/util/poll_change.hh
@@ -13,11 +13,12 @@ public:
 	}
 
 	void force_next_poll() {
-		last_update_time = 0;
+		force_poll = true;
 	}
 
 	void poll(unsigned now, bool state) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_poll || now - last_update_time >= update_ticks) {
+			force_poll = false;
 			last_update_time = now;
 
 			if (current_state != state) {
@@ -30,7 +31,8 @@ public:
 	// Defer calling state_func() until poll time has expired.
 	// Useful if checking the state is a heavy operation.
 	void poll(unsigned now, auto state_func) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_poll || now - last_update_time >= update_ticks) {
+			force_poll = false;
 			last_update_time = now;
 
 			bool state = state_func();
@@ -52,6 +54,7 @@ public:
 private:
 	bool current_state = false;
 	bool change_detected = false;
+	bool force_poll = false;
 	unsigned last_update_time = 0;
 	unsigned update_ticks;
 };
-- 
2.43.0


From e82aabf932b04fa89489ff8f3085b2f4d31a3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 38/48] fix: is_poly_concave with large or unsigned coordinates

---
 util/geometry.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index a2fd925..e555d55 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include <cstdint>
 #include <span>
+#include <type_traits>
 
 struct Rect;
 
@@ -75,7 +76,16 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 	if (n < 3)
 		return false;
 
-	auto X_prod = [](T O, T A, T B) { return (A.x - O.x) * (B.y - O.y) - (A.y - O.y) * (B.x - O.x); };
+	// Integers: signed (also if the coordinates are not), and wide enough for the products
+	auto diff = [](auto a, auto b) {
+		if constexpr (std::is_integral_v<decltype(a)>)
+			return static_cast<int64_t>(a) - static_cast<int64_t>(b);
+		else
+			return a - b;
+	};
+	auto X_prod = [diff](T O, T A, T B) {
+		return diff(A.x, O.x) * diff(B.y, O.y) - diff(A.y, O.y) * diff(B.x, O.x);
+	};
 
 	int sign = 0;
 	for (auto i = 0u; i < points.size(); i++) {
-- 
2.43.0


From b689cf8871e58c0c43b125bd6b33e32de0ce2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 39/48] fix: vmlaq_f32 returns the sum without changing its
 first operand, like the intrinsic

---
 util/soft_neon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/soft_neon.hh b/util/soft_neon.hh
index beb47c3..e1286ed 100644
--- a/util/soft_neon.hh
+++ b/util/soft_neon.hh
@@ -39,7 +39,7 @@ inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) {
 	};
 }
 
-inline float32x4_t vmlaq_f32(float32x4_t &dst, float32x4_t a, float32x4_t b) {
+inline float32x4_t vmlaq_f32(float32x4_t dst, float32x4_t a, float32x4_t b) {
 	dst.v[0] += a.v[0] * b.v[0];
 	dst.v[1] += a.v[1] * b.v[1];
 	dst.v[2] += a.v[2] * b.v[2];
-- 
2.43.0


From f823f7cf5fc0305e78e4499588e1bf122a64da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 40/48] fix: Version of a pre-release with dots in its suffix
 is not a normal release

---
 util/version_tools.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index d05ab10..663027d 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -41,7 +41,8 @@ struct Version {
 		unsigned i = 0;
 		while (true) {
 			auto token = vers;
-			const auto pos = vers.find_first_of(delim);
+			// The rest belongs to the last number: the suffix of a pre-release can contain dots
+			const auto pos = i < 2 ? vers.find_first_of(delim) : std::string_view::npos;
 			if (pos != std::string_view::npos) {
 				token = vers.substr(0, pos);
 				vers = vers.substr(pos + 1);
-- 
2.43.0


From 810107efc2c91a418973c81d34846d6b5b465e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 41/48] fix: TogglerCounter and Debouncers take any non-zero
 reading as high

---
 util/debouncer.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 2bb28b9..667b54a 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -128,7 +128,7 @@ public:
 
 struct TogglerCounter : Toggler {
 	void register_state(unsigned newstate) {
-		if (newstate == is_high_) {
+		if ((newstate != 0) == is_high_) {
 			steady_state_ctr++;
 			return;
 		}
@@ -170,7 +170,7 @@ struct Debouncer : Toggler {
 	}
 
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
+		debounce_state_ = ((debounce_state_ << 1) | (new_state ? 1 : 0)) & StateMask;
 		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 		} else if (debounce_state_ == (FallingEdgePattern & StateMask)) {
@@ -191,7 +191,7 @@ template<unsigned RisingEdgePattern = 0x00000001,
 		 bool DebounceRawState = false>
 struct DebouncerCounter : Toggler {
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
+		debounce_state_ = ((debounce_state_ << 1) | (new_state ? 1 : 0)) & StateMask;
 		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 			steady_state_ctr = 0;
-- 
2.43.0


From 66530602b5230b989e1e712dba0614531198b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 42/48] fix: Debouncer::process() debounces the reading

---
 util/debouncer.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 667b54a..7b7554e 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -181,6 +181,10 @@ struct Debouncer : Toggler {
 		}
 	}
 
+	void process(unsigned new_state) {
+		register_state(new_state);
+	}
+
 private:
 	unsigned debounce_state_;
 };
@@ -205,6 +209,10 @@ struct DebouncerCounter : Toggler {
 		}
 	}
 
+	void process(unsigned new_state) {
+		register_state(new_state);
+	}
+
 	unsigned steady_state_ctr = 0;
 
 private:
-- 
2.43.0


From 9bb17b866238d0e7fd4ca4818ff9e52d2f5d1d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 43/48] fix: AudioFrame::scaleOutput limits levels which
 overflow the sample type

---
 util/audio_frame.hh | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 75b18c2..071e114 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -34,13 +34,8 @@ public:
 
 		if constexpr (std::is_signed_v<SampleType>) {
 
-			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, UsedBits);
-			} else {
-				const float v = MathTools::constrain(val, -1.f, 1.f) * kOutScaling;
-				return v >= kOutScaling ? static_cast<SampleType>(kMaxValue - 1) : static_cast<SampleType>(v);
-			}
+			const float v = MathTools::constrain(val, -1.f, 1.f) * kOutScaling;
+			return v >= kOutScaling ? static_cast<SampleType>(kMaxValue - 1) : static_cast<SampleType>(v);
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
-- 
2.43.0


From 788b0b73a7d85bc889b1342a8d87d39154dddb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 44/48] fix: StaticString of no capacity does not write past
 its end when copying a string_view

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From 446aee2cfc40b8da6b11629367b1c7ab26cbaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 45/48] fix: CircularBuffer::fill_buffer and
 LockFreeFifoSpsc(span) copy elements of any type

They were copied with memcpy, so that two objects (e.g. std::string) owned
the same memory afterwards, which was freed twice.
---
 util/circular_buffer.hh    | 3 +--
 util/lockfree_fifo_spsc.hh | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index efa762a..7609900 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -1,7 +1,6 @@
 #pragma once
 #include "util/math.hh"
 #include <array>
-#include <cstring>
 
 template<class T, size_t max_size_>
 class CircularBuffer {
@@ -89,7 +88,7 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), sizeof(T) * max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index ad944d2..8b02a06 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -1,8 +1,8 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
 #include <array>
 #include <atomic>
-#include <cstring>
 #include <optional>
 #include <span>
 
@@ -18,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		std::memcpy(buf_.data(), src.data(), src.size_bytes());
+		std::copy(src.begin(), src.end(), buf_.begin());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From f544379da333cd34c4f2d5f639d7d803713877c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 46/48] fix: COUNTZIP_SUPPORT_VECTORBOOL includes <vector>
 outside of the namespace

---
 util/iterator_helpers.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/iterator_helpers.hh b/util/iterator_helpers.hh
index ba6a9a0..d6f61ea 100644
--- a/util/iterator_helpers.hh
+++ b/util/iterator_helpers.hh
@@ -1,6 +1,9 @@
 #pragma once
 #include <iterator>
 #include <tuple>
+#ifdef COUNTZIP_SUPPORT_VECTORBOOL
+#include <vector>
+#endif
 
 namespace IteratorHelper
 {
@@ -12,7 +15,6 @@ using select_iterator_for = std::conditional_t<std::is_const_v<std::remove_refer
 
 #ifdef COUNTZIP_SUPPORT_VECTORBOOL
 //Optional if we want to handle vector<bool>:
-#include <vector>
 template<typename Iter>
 using select_access_type_for = std::conditional_t<std::is_same_v<Iter, std::vector<bool>::iterator> ||
 													  std::is_same_v<Iter, std::vector<bool>::const_iterator>,
-- 
2.43.0


From 3b75c69a6af5318a4d25f6d666a33f609c8a282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:56 +0000
Subject: [PATCH 47/48] fix: RGB565 of floats limits negative and large values

A negative float was converted to an unsigned integer before clamping,
so it became the maximum (or undefined).
---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..2b39277 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(static_cast<uint16_t>(std::clamp(blue * 32.f, 0.f, 31.f)))
+		, g(static_cast<uint16_t>(std::clamp(green * 64.f, 0.f, 63.f)))
+		, r(static_cast<uint16_t>(std::clamp(red * 32.f, 0.f, 31.f))) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From 1cbe558b333f08772ead55a6074fa225a6665739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 48/48] fix: headers can be included more than once, and
 byte_block.hh before others

aligned_allocator.hh and contains_word.hh had no include guard,
byte_block.hh used uint8_t without <cstdint>.
---
 util/aligned_allocator.hh | 1 +
 util/byte_block.hh        | 1 +
 util/contains_word.hh     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index 6777086..a3f16cc 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -1,3 +1,4 @@
+#pragma once
 #include <cstddef>
 #include <cstdlib>
 
diff --git a/util/byte_block.hh b/util/byte_block.hh
index 8f21d4f..d82c427 100644
--- a/util/byte_block.hh
+++ b/util/byte_block.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstdint>
 #include <vector>
 
 struct ByteBlock {
diff --git a/util/contains_word.hh b/util/contains_word.hh
index 0dc9983..dc551b5 100644
--- a/util/contains_word.hh
+++ b/util/contains_word.hh
@@ -1,3 +1,4 @@
+#pragma once
 #include <algorithm>
 #include <string>
 
-- 
2.43.0

