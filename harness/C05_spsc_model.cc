// @cases 2000000
// @thorough 20
#include "pbt.hh"
#include <atomic>
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

// Reference: every element ever put, by position; the queue is [tail, head).
template<typename T>
struct Val;
template<typename T>
requires std::is_arithmetic_v<T>
struct Val<T> {
	static T of(uint32_t v) {
		return pbt::number<T>(v);
	}
};
template<>
struct Val<std::string> {
	static std::string of(uint32_t v) {
		return "element number " + std::to_string(v); // longer than the small buffer
	}
};
struct Wide {
	uint16_t a = 0x1234; // T{} is not all zeros
	uint8_t b[5] = {0, 0, 3, 0, 0};
	bool operator==(const Wide &) const = default;
};
template<>
struct Val<Wide> {
	static Wide of(uint32_t v) {
		return {static_cast<uint16_t>(v), {1, static_cast<uint8_t>(v >> 3), 2, static_cast<uint8_t>(v), static_cast<uint8_t>(v ^ 0x55)}};
	}
};

template<typename T>
requires requires(uint32_t v) { T::of(v); }
struct Val<T> : T {};

template<typename T, bool Dyn, typename F>
static void history(pbt::Ctx &c, F &q, size_t size, uint64_t head, uint64_t tail, std::map<uint64_t, T> seen, auto &&resize) {
	// seen: what re-reading a position must give
	constexpr bool Trivial = std::is_trivially_copyable_v<T>;
	auto value = [&](uint64_t pos) {
		auto f = seen.find(pos);
		PBT_CHECK(f != seen.end(), "harness error: unknown position");
		return f->second;
	};
	uint32_t next = 1;
	bool was_full = false, was_empty = false, wrapped = false, moved = false;
	unsigned n = static_cast<unsigned>(c.choice(60));
	auto observe = [&] {
		auto &k = std::as_const(q);
		PBT_EQ(k.num_filled(), size_t(head - tail), "num_filled()");
		PBT_EQ(k.num_free(), size_t(size - (head - tail)), "num_free()");
		PBT_EQ(k.empty(), head == tail, "empty()");
		PBT_EQ(k.full(), head - tail == size, "full()");
		PBT_EQ(k.max_size(), size, "max_size()");
	};
	if (size > 100) { // a large one is filled, or nearly, first
		size_t k = size - c.choice(8);
		PBT_LOG("put " << k << " elements");
		while (head - tail < k) {
			PBT_CHECK(q.put(Val<T>::of(next)), "put() result");
			seen[head] = Val<T>::of(next++);
			head++;
		}
	}
	observe();
	bool bias_put = c.coin();
	for (unsigned op = 0; op < n; op++) {
		switch (c.weighted({bias_put ? 16u : 7u, 5, 3, 3, 2, 1, 1, Trivial ? 1u : 0u, Trivial ? 1u : 0u, Dyn ? 1u : 0u, Trivial ? 1u : 0u})) {
			case 0: {
				bool full = head - tail == size;
				auto v = Val<T>::of(next++);
				bool ok = q.put(v);
				PBT_LOG("put -> " << ok);
				PBT_EQ(ok, !full, "put() into a queue with " << head - tail << " of " << size << " elements");
				if (!full) {
					seen[head] = v;
					seen.erase(head - size);
					head++;
					if (head - tail == size)
						was_full = true;
					if (head % size == 0)
						wrapped = true;
				}
				break;
			}
			case 1: {
				auto r = q.get();
				PBT_LOG("get");
				PBT_EQ(r.has_value(), head != tail, "get() has a value");
				if (r) {
					PBT_CHECK(*r == value(tail), "get() returned the wrong element, at position " << tail);
					tail++;
				} else
					was_empty = true;
				break;
			}
			case 2: {
				auto t = Val<T>::of(0xabcdef);
				auto before = t;
				bool ok = q.get_move(t);
				PBT_LOG("get_move");
				PBT_EQ(ok, head != tail, "get_move() result");
				if (ok) {
					PBT_CHECK(t == value(tail), "get_move() gave the wrong element, at position " << tail);
					tail++;
				} else {
					PBT_CHECK(t == before, "get_move() from an empty queue changed its argument");
					was_empty = true;
				}
				break;
			}
			case 3: {
				auto t = q.get_or_default();
				PBT_LOG("get_or_default");
				if (head != tail) {
					PBT_CHECK(t == value(tail), "get_or_default() returned the wrong element, at position " << tail);
					tail++;
				} else
					PBT_CHECK(t == T{}, "get_or_default() from an empty queue");
				break;
			}
			case 4:
				PBT_LOG("remove_first");
				q.remove_first();
				if (head != tail)
					tail++;
				break;
			case 5:
				PBT_LOG("reset");
				q.reset();
				tail = head;
				break;
			case 6:
				break;
			case 7: { // re-read the latest elements
				uint64_t known = 0;
				while (known < size && seen.count(head - known - 1))
					known++;
				uint64_t off = c.choice(known);
				if (head < size && c.chance(1, 4))
					off = head + 1 + c.choice(3); // not possible: before the first position
				PBT_LOG("set_read_offset " << off);
				q.set_read_offset(static_cast<size_t>(off));
				if (off <= head) {
					tail = head - off;
					moved |= off > 0;
				}
				break;
			}
			case 8: {
				uint64_t known = 0;
				while (known < size && seen.count(head - known - 1))
					known++;
				uint64_t off = c.choice(known);
				PBT_LOG("set_read_pos head - " << off);
				q.set_read_pos(static_cast<size_t>(head - off));
				tail = head - off;
				moved |= off > 0;
				break;
			}
			case 10: { // take back what was put last, or put back what was taken back
				uint64_t upto = tail;
				while (upto - tail < size && seen.count(upto))
					upto++;
				head = tail + c.choice(upto - tail);
				PBT_LOG("set_write_pos tail + " << head - tail);
				q.set_write_pos(static_cast<size_t>(head));
				break;
			}
			case 9: {
				size_t to = c.coin() ? size : c.sz(1, 12);
				PBT_LOG("resize " << to);
				resize(to);
				if (to != size) {
					size = to;
					tail = head;
					seen.clear();
				}
				break;
			}
		}
		observe();
	}
	// what is left comes out in order
	while (head != tail) {
		auto r = q.get();
		PBT_CHECK(r.has_value() && *r == value(tail), "emptying the queue: wrong element at position " << tail << ", " << head - tail << " left");
		tail++;
	}
	PBT_CHECK(!q.get().has_value(), "an element after the last one");
	if (was_full)
		c.label("full");
	if (moved)
		c.label("read position moved back");
	if (wrapped && (was_full || was_empty || moved))
		c.nontrivial();
}

template<typename T, size_t N>
static void static_fifo(pbt::Ctx &c) {
	using F = LockFreeFifoSpsc<T, N>;
	std::unique_ptr<F> q;
	uint64_t head = 0, tail = 0;
	std::map<uint64_t, T> seen;
	switch (c.choice(3)) {
		case 0:
			PBT_LOG("LockFreeFifoSpsc " << N);
			q = pbt::fresh<F>();
			break;
		case 1:
			head = c.choice(N);
			PBT_LOG("LockFreeFifoSpsc " << N << " with head " << head);
			q = std::make_unique<F>(static_cast<size_t>(head));
			for (uint64_t i = 0; i < head; i++)
				seen[i] = T{};
			break;
		case 2:
			{
				auto src = std::make_unique<std::array<T, N>>();
				for (size_t i = 0; i < N; i++)
					(*src)[i] = Val<T>::of(static_cast<uint32_t>(7000 + i));
				q = std::make_unique<F>(std::span<T, N>{*src});
				head = c.choice(N);
				PBT_LOG("LockFreeFifoSpsc " << N << " from a span, write pos " << head);
				if (head || c.coin())
					q->set_write_pos(static_cast<size_t>(head));
				for (uint64_t i = 0; i < head; i++)
					seen[i] = (*src)[i];
			}
			break;
		case 3: { // positions near where they wrap
			head = tail = 0 - static_cast<uint64_t>(c.choice(2 * N));
			PBT_LOG("LockFreeFifoSpsc " << N << " at position " << head);
			q = pbt::fresh<F>();
			q->set_write_pos(static_cast<size_t>(head));
			q->set_read_pos(static_cast<size_t>(tail));
			break;
		}
	}
	history<T, false>(c, *q, N, head, tail, seen, [](size_t) {});
}

template<typename T>
static void dyn_fifo(pbt::Ctx &c, bool large = false) {
	using F = LockFreeFifoSpscDyn<T>;
	std::unique_ptr<F> q;
	size_t size = large ? c.sz(260, 300) : c.sz(1, 12);
	uint64_t head = 0, tail = 0;
	std::map<uint64_t, T> seen;
	switch (c.choice(2)) {
		case 0:
			PBT_LOG("LockFreeFifoSpscDyn " << size);
			q = std::make_unique<F>(size);
			break;
		case 1:
			head = c.choice(size);
			PBT_LOG("LockFreeFifoSpscDyn " << size << " with head " << head);
			q = std::make_unique<F>(size, static_cast<size_t>(head));
			for (uint64_t i = 0; i < head; i++)
				seen[i] = T{};
			break;
		case 2: // far from 0. Positions that wrap around only work for sizes 2^n: see known_findings.txt
			size = size_t{1} << (large ? 9 : c.choice(4));
			head = tail = 0 - static_cast<uint64_t>(c.choice(2 * size));
			q = std::make_unique<F>(size);
			PBT_LOG("LockFreeFifoSpscDyn " << size << " at position " << head);
			q->set_write_pos(static_cast<size_t>(head));
			q->set_read_pos(static_cast<size_t>(tail));
			history<T, false>(c, *q, size, head, tail, seen, [](size_t) {});
			return;
	}
	history<T, true>(c, *q, size, head, tail, seen, [&](size_t to) { q->resize(to); });
}

template<typename T>
static void sized(pbt::Ctx &c) {
	switch (c.choice(4)) {
		case 4: static_fifo<T, 8>(c); break;
		case 0: static_fifo<T, 1>(c); break;
		case 1: static_fifo<T, 2>(c); break;
		case 2: static_fifo<T, 4>(c); break;
		case 3: static_fifo<T, 16>(c); break;
	}
}

#define RULE "the positions went around the buffer, and the queue was full, was empty or was rewound"
PBT("LockFreeFifoSpsc", 2000, RULE) {
	switch (c.choice(5)) {
		case 3: return static_fifo<uint8_t, 4>(c);
		case 4: return static_fifo<uint64_t, 8>(c);
		case 5: return static_fifo<float, 2>(c);
		default: return sized<uint32_t>(c);
	}
}
PBT("LockFreeFifoSpsc of structs", 1000, RULE) {
	switch (c.choice(2)) {
		case 0: return sized<Wide>(c);
		case 1: return sized<pbt::Big>(c);
		default: return sized<pbt::Tri>(c);
	}
}
PBT("LockFreeFifoSpscDyn of structs", 500, RULE) {
	switch (c.choice(2)) {
		case 0: return dyn_fifo<Wide>(c);
		case 1: return dyn_fifo<pbt::Big>(c);
		default: return dyn_fifo<pbt::Tri>(c);
	}
}
PBT("LockFreeFifoSpsc of strings", 1000, RULE) {
	sized<std::string>(c);
}
PBT("LockFreeFifoSpscDyn", 2000, RULE) {
	switch (c.choice(4)) {
		case 3: return dyn_fifo<uint16_t>(c);
		case 4: return dyn_fifo<double>(c);
		default: return dyn_fifo<uint32_t>(c);
	}
}
PBT("LockFreeFifoSpscDyn of strings", 1000, RULE) {
	dyn_fifo<std::string>(c);
}
PBT("Large LockFreeFifoSpsc", 10, RULE) {
	static_fifo<uint32_t, 512>(c);
}
PBT("Large LockFreeFifoSpscDyn", 10, RULE) {
	dyn_fifo<uint32_t>(c, true);
}

// Capacities over 65535: values are known by their position
template<typename F>
static void huge_fifo(pbt::Ctx &c, F &q, size_t size) {
	auto of = [](uint64_t pos) { return static_cast<uint8_t>(pos ^ pos >> 8 ^ pos >> 16 * 3); };
	uint64_t head = 0, tail = 0;
	auto observe = [&] {
		PBT_EQ(q.num_filled(), size_t(head - tail), "num_filled()");
		PBT_EQ(q.num_free(), size_t(size - (head - tail)), "num_free()");
		PBT_EQ(q.empty(), head == tail, "empty()");
		PBT_EQ(q.full(), head - tail == size, "full()");
		PBT_EQ(q.max_size(), size, "max_size()");
	};
	observe();
	unsigned n = 1 + static_cast<unsigned>(c.choice(5));
	bool over = false, wrapped = false;
	for (unsigned op = 0; op < n; op++) {
		uint64_t k = c.choice(2) ? size + 3 - c.choice(6) : c.choice(size);
		if (op % 2 == 0) {
			k = std::min(k, size - (head - tail) + 2);
			PBT_LOG("put " << k << " elements");
			for (uint64_t i = 0; i < k; i++) {
				bool full = head - tail == size;
				PBT_EQ(q.put(of(head)), !full, "put() with " << head - tail << " of " << size << " elements");
				head += !full;
				if (head - tail == 65536 || head - tail == 65535)
					observe();
			}
		} else {
			k = std::min(k, head - tail + 2);
			PBT_LOG("get " << k << " elements");
			for (uint64_t i = 0; i < k; i++) {
				auto r = q.get();
				PBT_EQ(r.has_value(), head != tail, "get() has a value, with " << head - tail << " elements");
				if (r) {
					PBT_EQ(*r, of(tail), "get() at position " << tail);
					tail++;
				}
			}
		}
		over |= head - tail > 65535;
		wrapped |= head > size;
		observe();
	}
	if (over && wrapped)
		c.nontrivial();
}
#define HUGE_RULE "over 65535 elements at a time, and the positions went around the buffer"
PBT("Huge LockFreeFifoSpsc", 1, HUGE_RULE) {
	if (c.coin()) {
		auto q = pbt::fresh<LockFreeFifoSpsc<uint8_t, 65536>>();
		huge_fifo(c, *q, 65536);
	} else {
		auto q = pbt::fresh<LockFreeFifoSpsc<uint8_t, 131072>>();
		huge_fifo(c, *q, 131072);
	}
}
PBT("Huge LockFreeFifoSpscDyn", 1, HUGE_RULE) {
	size_t size = c.coin() ? 65536 + c.choice(5) : 65536 * 2 + c.choice(9000);
	auto q = std::make_unique<LockFreeFifoSpscDyn<uint8_t>>(size);
	huge_fifo(c, *q, size);
}
