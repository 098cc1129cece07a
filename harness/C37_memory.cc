// @cases 1500000
// @thorough 20
#include "pbt.hh"
#include "util/aligned_allocator.hh"
#include "util/aligned_allocator.hh" // (can be included twice)
#include "util/monotonic_allocator.hh"
#include "util/padded_aligned.hh"
#include "util/big_buffer.hh"
#include <deque>
#include <sys/mman.h>

// Bytes allocated by the program, from AddressSanitizer
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
// (address space only, of 4 GiB)
extern "C" bool pbt_large_allocations() {
	return true;
}
#include <new>

PBT("MonotonicAllocator", 2, "an allocation failed, a later one succeeded, and reset() was called") {
	size_t size = c.choice(5) ? c.choice(64) : c.choice(4096);
	std::unique_ptr<uint8_t[]> mem{new uint8_t[size]};
	auto a = std::make_unique<MonotonicAllocator>(std::span<uint8_t>{mem.get(), size});
	PBT_LOG("arena of " << size);
	struct Block {
		size_t at, n;
		uint8_t fill;
	};
	std::vector<Block> live;
	size_t used = 0;
	bool failed = false, after = false, reset = false;
	unsigned n = static_cast<unsigned>(c.choice(24));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, a);
		PBT_EQ(a->total_size(), size, "total_size()");
		PBT_EQ(a->free_space(), size - used, "free_space()");
		if (c.chance(1, 12)) {
			PBT_LOG("reset");
			a->reset();
			used = 0;
			live.clear();
			reset = true;
			continue;
		}
		size_t k;
		switch (c.choice(4)) {
			case 0: k = c.choice(8); break;
			case 1: k = size - used - std::min<size_t>(size - used, c.choice(1)); break; // all, or almost
			case 2: k = size - used + 1; break;                                          // too much
			case 3: k = c.one_of<size_t>({~size_t{}, ~size_t{} - 1, size_t{1} << 63, size_t{1} << 32}); break;
			default: k = c.choice(size); break;
		}
		PBT_LOG("allocate " << k);
		uint8_t *p = a->allocate(k);
		bool fits = k <= size - used;
		if (!fits) {
			PBT_CHECK(!p, "allocate(" << k << ") with " << size - used << " bytes left did not fail");
			failed = true;
		} else {
			if (size)
				PBT_CHECK(p, "allocate(" << k << ") with " << size - used << " bytes left failed");
			if (k) {
				size_t at = static_cast<size_t>(p - mem.get());
				PBT_CHECK(p >= mem.get() && at + k <= size, "allocated outside of the arena");
				for (auto &b : live)
					PBT_CHECK(at >= b.at + b.n || at + k <= b.at, "allocated memory which is in use");
				live.push_back({at, k, static_cast<uint8_t>(i)});
				std::memset(p, static_cast<int>(i), k);
			}
			used += k;
			after |= failed;
		}
		for (auto &b : live)
			for (size_t j = 0; j < b.n; j++)
				PBT_CHECK(mem[b.at + j] == b.fill, "allocated memory was changed");
	}
	PBT_EQ(a->free_space(), size - used, "free_space() in the end");
	if (failed && after && reset)
		c.nontrivial();
}

// The allocator never touches the memory itself, so that an arena of any size will do: address space is reserved for it
PBT("large arenas", 1, "blocks start beyond the first 64 KiB") {
	static const size_t space = size_t{5} << 30;
	static uint8_t *const mem = static_cast<uint8_t *>(mmap(nullptr, space, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (mem == MAP_FAILED)
		return;
	size_t size = c.coin() ? c.choice(300000) : c.coin() ? c.choice(0x2000000) : space - c.choice(100);
	MonotonicAllocator a{std::span<uint8_t>{mem, size}};
	PBT_LOG("arena of " << size);
	size_t used = 0, n = c.choice(12);
	for (size_t i = 0; i < n; i++) {
		size_t left = size - used, k;
		switch (c.choice(6)) {
			case 0: k = std::min(left, c.one_of<size_t>({0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000})); break;
			case 1: k = left / 2; break;
			case 2: k = left - std::min<size_t>(left, c.choice(300)); break;
			case 3: k = left + 1 + c.choice(300); break;
			case 4: k = c.choice(300); break;
			case 5: k = c.choice(70000); break;
			default:
				a.reset();
				used = 0;
				PBT_LOG("reset");
				continue;
		}
		PBT_LOG("allocate " << k);
		uint8_t *p = a.allocate(k);
		if (k > left)
			PBT_CHECK(!p, "allocate(" << k << ") with " << left << " bytes left did not fail");
		else {
			PBT_CHECK(p || !size, "allocate(" << k << ") with " << left << " bytes left failed");
			if (k) {
				PBT_CHECK(p >= mem + used && p + k <= mem + size, "allocate(" << k << ") with " << left << " bytes left overlaps the one before or is not in the arena");
				if (used > 0xffff)
					c.nontrivial();
			}
			used += k;
		}
		PBT_EQ(a.free_space(), size - used, "free_space()");
		PBT_EQ(a.total_size(), size, "total_size()");
	}
}

template<typename T, size_t Align>
static void aligned(pbt::Ctx &c) {
	using A = std::conditional_t<Align == 64, AlignedAllocator<T>, AlignedAllocator<T, Align>>;
	PBT_LOG(sizeof(T) << " byte elements, aligned to " << Align);
	A a;
	A other{AlignedAllocator<char, Align>{}};
	PBT_CHECK(a == other && !(a != other), "all are equal");
	static_assert(std::is_same_v<typename std::allocator_traits<A>::template rebind_alloc<double>, AlignedAllocator<double, Align>>);
	PBT_CHECK(a.allocate(0) == nullptr, "allocate(0)");
	{ // more bytes than a size can tell: the count (or its rounding up) wraps around
		size_t most = (~size_t{} - (Align - 1)) / sizeof(T), m;
		switch (c.choice(2)) {
			case 0: m = most + 1 + c.choice(Align / sizeof(T)); break;
			case 1: m = most + 1 + c.choice(200); break;
			default: m = ~size_t{} - c.choice(100); break;
		}
		bool refused = false;
		try {
			refused = m <= most || a.allocate(m) == nullptr;
		} catch (const std::bad_alloc &) {
			refused = true;
		}
		PBT_CHECK(refused, "allocate(" << m << ") of " << sizeof(T) << " bytes each succeeds");
	}
	if constexpr (sizeof(T) <= 2)
		if (c.choice(29) == 29) { // counts which do not fit in 32 bits: refused, or all of the memory is there
			size_t m = (size_t{1} << 32) / sizeof(T) + c.choice(100);
			T *p = nullptr;
			try {
				p = a.allocate(m);
			} catch (const std::bad_alloc &) {
			}
			if (p) {
				PBT_CHECK(__sanitizer_get_allocated_size(p) >= m * sizeof(T), "allocate(" << m << ") of " << sizeof(T) << " bytes each has only " << __sanitizer_get_allocated_size(p));
				a.deallocate(p, m);
			}
		}
	// blocks, of exactly the size asked for or more
	std::vector<std::pair<T *, size_t>> live;
	unsigned n = static_cast<unsigned>(c.choice(10));
	size_t total = 0;
	for (unsigned i = 0; i < n; i++) {
		if (!live.empty() && c.chance(1, 3)) {
			auto k = c.choice(live.size() - 1);
			auto [p, m] = live[k];
			live.erase(live.begin() + static_cast<ptrdiff_t>(k));
			(c.coin() ? a : other).deallocate(p, m); // any one of them can
			continue;
		}
		size_t m = c.choice(c.choice(15) ? c.coin() ? 4 : 200 : c.chance(1, 30) ? 200000 : 5000) + 1;
		T *p = a.allocate(m);
		total += m;
		PBT_LOG("allocate " << m);
		PBT_CHECK(p, "allocate(" << m << ") failed");
		PBT_CHECK(reinterpret_cast<uintptr_t>(p) % Align == 0, "allocate(" << m << ") is not aligned to " << Align);
		std::memset(static_cast<void *>(p), static_cast<int>(i), m * sizeof(T)); // checked by the sanitizer
		for (auto [q, k] : live)
			PBT_CHECK(p + m <= q || q + k <= p, "allocated memory which is in use");
		live.push_back({p, m});
	}
	for (auto [p, m] : live)
		a.deallocate(p, m);
	size_t before = __sanitizer_get_current_allocated_bytes();
	for (unsigned i = 0; i < 3; i++) {
		T *p = a.allocate(n + 1);
		other.deallocate(p, n + 1);
	}
	PBT_CHECK(__sanitizer_get_current_allocated_bytes() <= before, "deallocate() does not free the memory");
	// as the allocator of containers
	std::vector<T, A> v;
	std::vector<T> ref;
	for (unsigned i = 0, k = static_cast<unsigned>(c.choice(40)); i < k; i++) {
		T x{};
		std::memset(static_cast<void *>(&x), static_cast<int>(c.choice(255)), 1);
		v.push_back(x);
		ref.push_back(x);
		PBT_CHECK(reinterpret_cast<uintptr_t>(v.data()) % Align == 0, "a vector's data is not aligned to " << Align);
	}
	PBT_CHECK(v.size() == ref.size() && std::memcmp(static_cast<void *>(v.data()), static_cast<void *>(ref.data()), v.size() * sizeof(T)) == 0, "a vector with this allocator");
	if (total > 3 && ref.size() > 3)
		c.nontrivial();
}
struct Odd {
	char x[13];
};
struct Long {
	char x[200];
};
PBT("AlignedAllocator", 1, "more than 3 elements were allocated, directly and by a vector") {
	switch (c.choice(6)) {
		case 6: return aligned<Long, 64>(c);
		case 5: return aligned<Long, 128>(c);
		case 4: return aligned<uint16_t, 1024>(c);
		case 0: return aligned<uint32_t, 64>(c);
		case 1: return aligned<char, 32>(c);
		case 2: return aligned<Odd, 128>(c);
		default: return aligned<double, 16>(c);
	}
}

// Data of every size: aligned, padded, and never sharing a line
template<size_t N, size_t Align>
static void padded_one(pbt::Ctx &c) {
	struct Data {
		uint8_t x[N];
	};
	using P = PaddedAligned<Data, Align>;
	auto arr = std::make_unique<std::array<P, 3>>();
	PBT_LOG(N << " bytes, aligned to " << Align);
	PBT_EQ(sizeof(P) % Align, 0u, "the size modulo the alignment");
	PBT_CHECK(sizeof(P) >= N && sizeof(P) < N + Align, "the size is " << sizeof(P));
	PBT_EQ(P::data_sz, N, "data_sz");
	PBT_EQ(P::aligned_sz, sizeof(P), "aligned_sz");
	PBT_EQ(P::pad_sz, sizeof(P) - N, "pad_sz");
	unsigned who = static_cast<unsigned>(c.choice(2));
	for (unsigned k = 0; k < 3; k++) {
		P &p = (*arr)[k];
		PBT_CHECK(reinterpret_cast<uintptr_t>(&p.data) % Align == 0, "the data is not aligned");
		PBT_CHECK(&p.data == &p() && &p.data == &static_cast<Data &>(p), "access to the data");
		PBT_CHECK(&p.data == &static_cast<const Data &>(std::as_const(p)), "access to constant data");
		for (auto x : p.data.x)
			PBT_EQ(+x, 0, "the data in the beginning");
	}
	std::memset((*arr)[who].data.x, 0xa5, N);
	for (unsigned k = 0; k < 3; k++)
		for (auto x : (*arr)[k]().x)
			PBT_EQ(+x, k == who ? 0xa5 : 0, "the data of " << k << " after " << who << " was written");
	if (N % Align)
		c.nontrivial();
}
PBT("PaddedAligned", 1, "the size is no multiple of the alignment") {
	switch (c.choice(13)) {
		case 0: return padded_one<1, 32>(c);
		case 1: return padded_one<4, 4>(c);
		case 2: return padded_one<31, 32>(c);
		case 3: return padded_one<32, 32>(c);
		case 4: return padded_one<33, 32>(c);
		case 5: return padded_one<63, 64>(c);
		case 6: return padded_one<64, 64>(c);
		case 7: return padded_one<65, 64>(c);
		case 8: return padded_one<100, 16>(c);
		case 10: return padded_one<300, 32>(c);
		case 11: return padded_one<1000, 256>(c);
		case 12: return padded_one<65, 1024>(c);
		case 13: return padded_one<66000, 16>(c);
		default: return padded_one<7, 8>(c);
	}
}

struct Counted {
	static inline int live = 0, made = 0;
	std::array<int, 17> a{};
	Counted() {
		live++;
		made++;
	}
	Counted(const Counted &other)
		: a{other.a} {
		live++;
		made++;
	}
	Counted &operator=(const Counted &) = default;
	~Counted() {
		live--;
	}
	int &operator[](size_t i) {
		return a[i];
	}
};

PBT("BigBuffer", 1, "a copy was made or assigned, and then one of the two was changed") {
	Counted::live = Counted::made = 0;
	{
		// up to 4 buffers, some of them copies of others
		std::vector<std::unique_ptr<BigBuffer<Counted>>> b;
		std::vector<std::array<int, 17>> model;
		for (int k = 0; k < 2; k++) {
			b.push_back(pbt::fresh<BigBuffer<Counted>>());
			model.push_back({});
		}
		PBT_EQ(Counted::made, 2, "buffers made");
		bool copied = false;
		unsigned n = static_cast<unsigned>(c.choice(16));
		for (unsigned i = 0; i < n; i++) {
			size_t k = c.choice(b.size() - 1);
			switch (c.weighted({8, 1, 1, 1})) {
				case 0: {
					size_t at = c.choice(16);
					int v = c.i(-100, 100);
					PBT_LOG(k << "[" << at << "]=" << v);
					if (c.coin())
						(*b[k])[at] = v;
					else
						b[k]->get()[at] = v;
					model[k][at] = v;
					if (copied)
						c.nontrivial();
					break;
				}
				case 1:
					if (b.size() < 4) {
						PBT_LOG("copy " << k);
						b.push_back(std::make_unique<BigBuffer<Counted>>(std::as_const(*b[k])));
						model.push_back(std::array<int, 17>{model[k]});
						copied = true;
					}
					break;
				case 2: {
					size_t from = c.choice(b.size() - 1);
					PBT_LOG(k << "=" << from);
					auto *source = &b[from]->get();
					*b[k] = std::as_const(*b[from]);
					PBT_CHECK(source == &b[from]->get(), "the data of a buffer moves when it is assigned to another one");
					model[k] = std::array<int, 17>{model[from]};
					copied = true;
					break;
				}
				case 3:
					if (b.size() > 1) {
						PBT_LOG("destroy " << k);
						b.erase(b.begin() + static_cast<ptrdiff_t>(k));
						model.erase(model.begin() + static_cast<ptrdiff_t>(k));
					}
					break;
			}
			PBT_EQ(Counted::live, int(b.size()), "objects alive");
			for (k = 0; k < b.size(); k++)
				for (size_t at = 0; at < 17; at++) {
					PBT_EQ((*b[k])[at], model[k][at], "element " << at << " of " << k);
					PBT_EQ(std::as_const(*b[k])[at], model[k][at], "element " << at << " of " << k);
					PBT_EQ(b[k]->get()[at], model[k][at], "element " << at << " of " << k);
				}
		}
	}
	PBT_EQ(Counted::live, 0, "objects alive at the end");
	if (c.choice(99) == 99) {
		BigBuffer<std::array<uint16_t, 400>> big;
		for (size_t i = 0; i < 400; i++)
			big[i] = static_cast<uint16_t>(i * 3);
		for (size_t i = 0; i < 400; i++)
			PBT_EQ(std::as_const(big)[i], i * 3, "element " << i << " of a large buffer");
		if (c.choice(19) == 19) {
			constexpr size_t N = 70000;
			auto huge = std::make_unique<BigBuffer<std::array<int, N>>>();
			for (size_t i = 0; i < N; i++)
				(*huge)[i] = static_cast<int>(i);
			for (size_t i = 0; i < N; i++)
				PBT_EQ(std::as_const(*huge)[i], int(i), "element " << i << " of a huge buffer");
		}
	}
}
