// @cases 6000000
// @thorough 10
#include "util/byte_block.hh" // (before all others)
#include "pbt.hh"
#include "util/bitfield.hh"
#include "util/input_output_buffer.hh"
#include "util/overloaded.hh"
#include "util/smallest_integer.hh"
#include <variant>

template<typename T, size_t N>
static void stream_buffers(pbt::Ctx &c) {
	auto in = pbt::fresh<InputBuffer<T, N>>();
	auto out = pbt::fresh<OutputBuffer<T, N>>();
	std::vector<T> iref(N, T{}), oref(N, T{});
	size_t ihead = 0, ohead = 0;
	bool refused = false, depleted = false, reset = false;
	int next = 1;
	PBT_LOG("buffers of " << N);
	unsigned n = static_cast<unsigned>(c.choice(N > 100 ? 30 : 4 * N));
	auto burst = [&] { return N > 100 ? c.choice(N) + 1 : 1; };
	auto make = [&](int v) {
		if constexpr (std::is_same_v<T, std::string>)
			return "a string that is long enough to be on the heap " + std::to_string(v);
		else
			return pbt::number<T>(static_cast<uint64_t>(v));
	};
	pbt::Copies copies{c}, copies_out{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, in);
		copies_out(i, out);
		switch (c.weighted({6, 6, 1, 1, 2})) {
			case 0: {
				auto times = burst();
				PBT_LOG("put x" << times);
				while (times--) {
					auto v = make(next++);
					in->put(v);
					if (ihead < N)
						iref[ihead++] = v;
					else
						refused = true;
				}
				break;
			}
			case 1: {
				auto times = burst();
				PBT_LOG("get x" << times);
				while (times--) {
					T got = out->get();
					if (ohead < N) {
						PBT_CHECK(got == oref[ohead], "get() number " << ohead << " is another one");
						ohead++;
					} else {
						PBT_CHECK(got == T{}, "get() of a depleted buffer is not the default");
						depleted = true;
					}
				}
				break;
			}
			case 2:
				PBT_LOG("reset");
				if (c.coin()) {
					in->reset();
					ihead = 0;
				} else {
					out->reset();
					ohead = 0;
				}
				reset = true;
				break;
			case 3: { // by iteration
				PBT_LOG("fill the output");
				for (size_t k = 0; auto &x : *out) {
					x = make(next++);
					oref[k++] = x;
				}
				break;
			}
			case 4: {
				auto k = c.choice(N - 1);
				PBT_LOG("output " << k);
				oref[k] = make(next++);
				out->data()[k] = oref[k];
				break;
			}
		}
		PBT_EQ(in->full(), ihead >= N, "full() of the input");
		PBT_EQ(out->full(), ohead >= N, "full() of the output");
		PBT_CHECK(in->size() == N && out->size() == N, "size()");
		PBT_CHECK(in->begin() == in->data() && in->end() == in->data() + N, "begin(), end() of the input");
		PBT_CHECK(out->begin() == out->data() && out->end() == out->data() + N, "begin(), end() of the output");
		PBT_CHECK(std::equal(in->begin(), in->end(), iref.begin()), "the input differs");
		PBT_CHECK(std::equal(out->begin(), out->end(), oref.begin()), "the output differs");
	}
	if ((refused || depleted) && reset)
		c.nontrivial();
}
PBT("InputBuffer, OutputBuffer", 200, "a full or depleted buffer, and a reset") {
	switch (c.choice(3)) {
		case 0: return stream_buffers<int, 1>(c);
		case 1: return stream_buffers<uint8_t, 4>(c);
		case 2: return stream_buffers<std::string, 3>(c);
		default: return stream_buffers<float, 7>(c);
	}
}

PBT("Large InputBuffer, OutputBuffer", 1, "a full or depleted buffer, and a reset") {
	switch (c.choice(2)) {
		case 0: return stream_buffers<uint16_t, 256>(c);
		case 1: return stream_buffers<int, 300>(c);
		default: return stream_buffers<uint16_t, 66000>(c);
	}
}

PBT("ByteBlock", 200, "at least 2 widths") {
	auto b = pbt::fresh<ByteBlock>();
	std::vector<unsigned char> ref;
	unsigned widths = 0;
	unsigned n = static_cast<unsigned>(c.choice(12));
	auto add = [&](uint64_t v, unsigned bytes) {
		for (unsigned k = 0; k < bytes; k++)
			ref.push_back(static_cast<unsigned char>(v >> 8 * k));
		widths |= bytes;
	};
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, b);
		auto v = c.any_int<uint32_t>();
		bool named = c.coin();
		switch (c.choice(3)) {
			case 0:
				PBT_LOG("8 bits of " << v);
				if (named)
					b->printU8(static_cast<uint8_t>(v));
				else
					b->print(static_cast<uint8_t>(v));
				add(v, 1);
				break;
			case 1:
				PBT_LOG("16 bits of " << v);
				if (named)
					b->printU16LE(static_cast<uint16_t>(v));
				else
					b->print(static_cast<uint16_t>(v));
				add(v, 2);
				break;
			case 2:
				PBT_LOG("32 bits of " << v);
				if (named)
					b->printU32LE(v);
				else
					b->print(v);
				add(v, 4);
				break;
			case 3: {
				size_t k = c.choice(20);
				PBT_LOG(k << " raw bytes");
				if (c.choice(49) == 49)
					k += c.choice(19) == 19 ? 65536 : 256;
				std::unique_ptr<unsigned char[]> raw{new unsigned char[k]};
				for (size_t j = 0; j < k; j++)
					raw[j] = static_cast<unsigned char>(j < 300 ? c.choice(255) : j * 7);
				b->printRaw(raw.get(), k);
				ref.insert(ref.end(), raw.get(), raw.get() + k);
				widths |= 8;
				break;
			}
		}
		PBT_CHECK(b->data == ref, "the bytes differ after " << i + 1 << " values");
	}
	if (std::popcount(widths) >= 2)
		c.nontrivial();
}

enum class E8 : uint8_t {};
enum class E16 : uint16_t {};
enum class E32 : uint32_t {};
enum class E64 : uint64_t {};
enum Plain : uint16_t {};

template<typename E>
static void bits(pbt::Ctx &c) {
	using U = std::underlying_type_t<E>;
	U x[4];
	for (auto &v : x)
		v = c.any_int<U>();
	PBT_LOG(sizeof(U) << " bytes: " << +x[0] << " " << +x[1] << " " << +x[2] << " " << +x[3]);
	E e[4] = {E(x[0]), E(x[1]), E(x[2]), E(x[3])};
	PBT_EQ(+bitfield(e[0]), +x[0], "bitfield() of an enum");
	PBT_EQ(+bitfield(x[0]), +x[0], "bitfield() of an integer");
	PBT_EQ(+val(e[0]), +x[0], "val()");
	PBT_EQ(uint64_t(bitfield(e[0], e[1])), uint64_t(x[0]) | x[1], "bitfield() of 2");
	PBT_EQ(uint64_t(bitfield(e[0], e[1], e[2], e[3])), uint64_t(x[0]) | x[1] | x[2] | x[3], "bitfield() of 4");
	PBT_EQ(uint64_t(bitfield(x[0], x[1], x[2])), uint64_t(x[0]) | x[1] | x[2], "bitfield() of 3 integers");
	PBT_EQ(+OR<E>({}), 0, "OR() of none");
	PBT_EQ(+OR({e[0]}), +x[0], "OR() of 1");
	PBT_EQ(uint64_t(OR({e[0], e[1], e[2]})), uint64_t(x[0]) | x[1] | x[2], "OR() of 3");
	PBT_EQ(uint64_t(OR({e[0], e[1], e[2], e[3]})), uint64_t(x[0]) | x[1] | x[2] | x[3], "OR() of 4");
	static_assert(std::is_same_v<decltype(OR({e[0]})), U> && std::is_same_v<decltype(val(e[0])), U>);
	if (x[0] != x[1] && x[1] != x[2] && x[2])
		c.nontrivial();
}
PBT("bitfield", 200, "at least 3 different values") {
	switch (c.choice(4)) {
		case 0: return bits<E8>(c);
		case 1: return bits<E16>(c);
		case 2: return bits<E64>(c);
		case 3: return bits<Plain>(c);
		default: return bits<E32>(c);
	}
}

// Limits around the powers of 2, at compile time
struct Chosen {
	__int128 lo, hi;
	unsigned bytes;
	bool is_signed;
};
static constexpr unsigned Powers[] = {0, 1, 7, 8, 15, 16, 31, 32, 63};
template<size_t I>
static constexpr uint64_t ulimit = (uint64_t{1} << Powers[I / 3]) + I % 3 - 1; // 2^n - 1, 2^n, 2^n + 1
template<size_t I>
static constexpr int64_t slimit = (I & 1) ? -1 - static_cast<int64_t>(ulimit<I / 2> & INT64_MAX) : static_cast<int64_t>(ulimit<I / 2> & INT64_MAX);
static constexpr size_t NU = std::size(Powers) * 3, NS = NU * 2;

template<size_t... I>
static std::vector<Chosen> unsigned_types(std::index_sequence<I...>) {
	std::vector<Chosen> v{{0, __int128(UINT64_MAX), sizeof(typename SmallestUnsignedInt<UINT64_MAX>::type), false}};
	(v.push_back({0, __int128(ulimit<I>), sizeof(typename SmallestUnsignedInt<ulimit<I>>::type), std::is_signed_v<typename SmallestUnsignedInt<ulimit<I>>::type>}), ...);
	return v;
}
template<size_t I, size_t J>
static void signed_type(std::vector<Chosen> &v) {
	if constexpr (slimit<I> <= slimit<J>) {
		using T = typename SmallestSignedInt<slimit<I>, slimit<J>>::type;
		v.push_back({slimit<I>, slimit<J>, sizeof(T), std::is_signed_v<T>});
	}
}
template<size_t... K>
static std::vector<Chosen> signed_types(std::index_sequence<K...>) {
	std::vector<Chosen> v;
	(signed_type<K % NS, (K * 7 + K / NS) % NS>(v), ...);
	return v;
}
PBT("smallest integers", 100, "limits which do not include 0 only") {
	static const auto u = unsigned_types(std::make_index_sequence<NU>{});
	static const auto s = signed_types(std::make_index_sequence<NS * 12>{});
	bool sig = c.choice(3) != 0;
	auto &x = sig ? s[c.choice(s.size() - 1)] : u[c.choice(u.size() - 1)];
	PBT_LOG((sig ? "signed " : "unsigned ") << double(x.lo) << " .. " << double(x.hi) << " has " << x.bytes << " bytes");
	PBT_EQ(x.is_signed, sig, "whether it is signed");
	auto holds = [&](unsigned bytes) {
		__int128 top = __int128{1} << (bytes * 8 - (sig ? 1 : 0));
		return x.hi < top && (!sig || x.lo >= -top);
	};
	PBT_CHECK(holds(x.bytes), "the type is too small");
	PBT_CHECK(x.bytes == 1 || !holds(x.bytes / 2), "the type is larger than necessary");
	if (x.hi || x.lo)
		c.nontrivial();
}

PBT("overloaded", 100, "a string") {
	std::variant<int, double, std::string> v;
	int i = c.i(-1000, 1000);
	switch (c.choice(2)) {
		case 0: v = i; break;
		case 1: v = i / 2.; break;
		default: v = std::to_string(i); break;
	}
	PBT_LOG(v.index() << " " << i);
	int seen = 0;
	auto f = overloaded{
		[&](int x) { seen += 1; return x == i ? 0 : -1; },
		[&](double x) { seen += 10; return x == i / 2. ? 1 : -1; },
		[&](const std::string &x) { seen += 100; return x == std::to_string(i) ? 2 : -1; },
	};
	PBT_EQ(std::visit(f, v), static_cast<int>(v.index()), "the function called");
	PBT_EQ(seen, v.index() == 0 ? 1 : v.index() == 1 ? 10 : 100, "the functions called");
	if (v.index() == 2)
		c.nontrivial();
}
