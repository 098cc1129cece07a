// A small choice-sequence property-based testing engine (header).
//
// A case is a function of a sequence of bounded integer choices drawn through
// pbt::Ctx. The sequence comes from a PRNG seeded by (VERIF_SEED, target, case
// index), from a replay file, from the shrinker, or from libFuzzer's bytes.
// Because every random decision goes through Ctx::choice, any failing case can
// be shrunk (by deleting and lowering choices) and replayed exactly.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt
{

struct Failure {
	std::string msg;
};
struct Reject {};

static constexpr size_t MaxChoices = 1 << 15;
static constexpr unsigned MaxLabels = 64;

// A default-initialized T in memory filled beforehand with a byte (chosen for
// each case, sometimes zero): a member nobody initializes is noticed.
void *fill_fresh(void *p, size_t n);

template<typename T>
std::unique_ptr<T> fresh() {
	void *p;
	if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
		p = ::operator new(sizeof(T), std::align_val_t{alignof(T)});
	else
		p = ::operator new(sizeof(T));
	return std::unique_ptr<T>{::new (fill_fresh(p, sizeof(T))) T};
}

// Storage for the choices of the case being run. Lives in memory shared with
// the parent, so that the choices survive a crash of the worker.
struct Trail {
	uint64_t n;
	uint64_t v[MaxChoices];
};

class Ctx {
public:
	enum class Mode { Random, Replay, Bytes };

	Mode mode = Mode::Random;
	bool verbose = false;
	std::string out;

	uint64_t state[2]{};
	const std::vector<uint64_t> *in = nullptr;
	size_t pos = 0;
	const uint8_t *bytes = nullptr;
	size_t nbytes = 0;

	Trail *trail = nullptr;
	bool is_nontrivial = false;
	uint64_t labels = 0; // bitset, of label ids in this target

	// Uniform-ish choice in [0, bound] (inclusive)
	uint64_t choice(uint64_t bound);

	bool exhausted() const; // no input left (bytes/replay)

	//
	// Derived generators. 0 choices always give the simplest value.
	//
	uint64_t u64(uint64_t lo, uint64_t hi) {
		return lo + choice(hi - lo);
	}
	template<typename T>
	T in_range(T lo, T hi) {
		static_assert(std::is_integral_v<T>);
		uint64_t span = static_cast<uint64_t>(static_cast<int64_t>(hi)) - static_cast<uint64_t>(static_cast<int64_t>(lo));
		return static_cast<T>(static_cast<uint64_t>(static_cast<int64_t>(lo)) + choice(span));
	}
	int i(int lo, int hi) {
		return in_range<int>(lo, hi);
	}
	size_t sz(size_t lo, size_t hi) {
		return lo + choice(hi - lo);
	}
	bool coin() {
		return choice(1);
	}
	// true with probability num/den
	bool chance(unsigned num, unsigned den) {
		return choice(den - 1) >= den - num;
	}
	template<typename C>
	auto &pick(C &c) {
		return c[choice(c.size() - 1)];
	}
	template<typename T>
	T one_of(std::initializer_list<T> l) {
		return *(l.begin() + choice(l.size() - 1));
	}
	// Index, chosen with the given weights
	unsigned weighted(std::initializer_list<unsigned> w) {
		unsigned total = 0;
		for (auto x : w)
			total += x;
		uint64_t r = choice(total - 1);
		unsigned k = 0;
		for (auto x : w) {
			if (r < x)
				return k;
			r -= x;
			k++;
		}
		return 0;
	}

	// Any value of an integral type: mixes small, boundary, power-of-2
	// neighbours, decimal-like and uniform values
	template<typename T>
	T any_int() {
		using U = std::make_unsigned_t<T>;
		constexpr unsigned B = sizeof(T) * 8;
		constexpr U max = std::numeric_limits<U>::max();
		U v{};
		switch (choice(5)) {
			case 0: v = static_cast<U>(choice(std::min<uint64_t>(16, max))); break;
			case 1: v = static_cast<U>((U{1} << choice(B - 1)) + static_cast<U>(choice(2)) - U{1}); break;
			case 2: v = static_cast<U>(static_cast<U>(std::numeric_limits<T>::max()) - static_cast<U>(choice(3)) + static_cast<U>(choice(3))); break;
			case 3: { // a random number of bits
				unsigned b = static_cast<unsigned>(choice(B - 1)) + 1;
				v = static_cast<U>(choice(b >= 64 ? ~0ull : (1ull << b) - 1));
				break;
			}
			case 4: { // digits with many zeros
				uint64_t x = 0;
				unsigned nd = static_cast<unsigned>(choice(19)) + 1;
				for (unsigned k = 0; k < nd; k++)
					x = x * 10 + (choice(2) ? 0 : choice(9));
				v = static_cast<U>(x);
				break;
			}
			default: v = static_cast<U>(choice(max)); break;
		}
		if constexpr (std::is_signed_v<T>) {
			if (choice(1))
				v = static_cast<U>(U{0} - v);
		}
		return static_cast<T>(v);
	}

	// A float in [lo, hi], with k/2^20 resolution and exact end points
	// (either end is drawn about once in 64)
	float f(float lo, float hi) {
		uint64_t k = choice((1 << 20) + (1 << 14));
		if (k >= (1 << 20))
			return k & 1 ? lo : hi;
		return lo + (hi - lo) * (static_cast<float>(k) / static_cast<float>(1 << 20));
	}
	double d(double lo, double hi) {
		uint64_t k = choice((1ull << 40) + (1ull << 34));
		if (k >= (1ull << 40))
			return k & 1 ? lo : hi;
		return lo + (hi - lo) * (static_cast<double>(k) / static_cast<double>(1ull << 40));
	}

	std::string str(size_t maxlen, std::string_view alphabet) {
		std::string s;
		size_t n = choice(maxlen);
		for (size_t k = 0; k < n; k++)
			s += alphabet[choice(alphabet.size() - 1)];
		return s;
	}

	void nontrivial() {
		is_nontrivial = true;
	}
	void label(const char *name);

	void log(const std::string &s) {
		if (out.size() < 60000) {
			out += s;
			out += "; ";
		}
	}
};

using Fn = void (*)(Ctx &);

struct Target {
	const char *name;
	unsigned weight;
	const char *rule;
	Fn fn;
	std::vector<std::string> label_names;
};

std::vector<Target> &targets();

struct Reg {
	Reg(const char *name, unsigned weight, const char *rule, Fn fn) {
		targets().push_back({name, weight, rule, fn, {}});
	}
};

// Called before every case: harnesses with global state reset it here
extern void (*reset_hook)();

[[noreturn]] inline void fail(const std::string &m) {
	throw Failure{m};
}

// A number which needs every bit of its type, and is another one for every v (below 2^17, or as many as there are); 0 for 0
template<typename T>
constexpr T number(uint64_t v) {
	if constexpr (std::is_same_v<T, float>)
		return static_cast<T>(v) * (1 + 1.f / 64);
	else if constexpr (std::is_floating_point_v<T>)
		return static_cast<T>(v) * (1 + 1. / (1 << 30));
	else
		return static_cast<T>(v * 0x9e3779b97f4a7c15u);
}

// Different keys, the one for 0 is K{}: they can differ in any place
template<typename K>
class Keys {
	unsigned scheme;
	unsigned shift = 0;

public:
	Keys(Ctx &c, size_t most)
		: scheme{static_cast<unsigned>(c.choice(3))} {
		if constexpr (std::is_integral_v<K>) {
			int room = static_cast<int>(sizeof(K) * 8) - std::bit_width(most);
			if (room > 0)
				shift = static_cast<unsigned>(c.choice(static_cast<uint64_t>(room)));
		}
	}
	K operator()(size_t q) const {
		if (q == 0)
			return K{};
		if constexpr (std::is_same_v<K, std::string>)
			switch (scheme) {
				case 0: return "a string that is not short: " + std::to_string(q);
				case 1: return std::string(q, 'a');
				case 2: return std::to_string(q);
				default: return std::to_string(q) + " is where a string begins";
			}
		else if constexpr (requires { K::of(q); })
			return K::of(q);
		else if constexpr (std::is_integral_v<K>) {
			switch (scheme) {
				case 0: return static_cast<K>(q);
				case 1: return number<K>(q);
				case 2: return static_cast<K>(uint64_t{q} << shift);
				default: return static_cast<K>(0 - (uint64_t{q} << shift));
			}
		} else
			return static_cast<K>(q);
	}
};

// Elements of unusual sizes
struct Big { // 73 bytes and padding
	uint64_t w[9]{5};
	uint8_t last = 3;
	bool operator==(const Big &) const = default;
	static Big of(uint64_t v) {
		Big b;
		for (uint64_t i = 0; i < 9; i++)
			b.w[i] = v * 0x9e3779b97f4a7c15u + i;
		b.last = static_cast<uint8_t>(v);
		return b;
	}
};
struct Tri { // 3 bytes
	uint8_t b[3]{0, 1, 0};
	bool operator==(const Tri &) const = default;
	static Tri of(uint64_t v) {
		Tri t;
		t.b[0] = static_cast<uint8_t>(v);
		t.b[1] = static_cast<uint8_t>(v >> 8);
		t.b[2] = static_cast<uint8_t>(v * 7);
		return t;
	}
};

// For printing values in messages
template<typename T>
std::string show(const T &v) {
	std::ostringstream o;
	if constexpr (std::is_same_v<T, bool>)
		o << (v ? "true" : "false");
	else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>)
		o << static_cast<int>(v);
	else if constexpr (std::is_floating_point_v<T>) {
		o.precision(std::numeric_limits<T>::max_digits10);
		o << v;
	} else if constexpr (std::is_enum_v<T>)
		o << static_cast<long long>(v);
	else if constexpr (requires { v.has_value(); *v; }) {
		if (v)
			return "some(" + show(*v) + ")";
		return "none";
	} else if constexpr (std::is_convertible_v<T, std::string_view>) {
		std::string s{"\""};
		for (char c : std::string_view(v)) {
			if (c >= 32 && c < 127 && c != '"' && c != '\\')
				s += c;
			else {
				char b[8];
				snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c));
				s += b;
			}
		}
		return s + "\"";
	} else if constexpr (requires { v.begin(); v.end(); }) {
		std::string s = "[";
		size_t n = 0;
		for (auto &x : v) {
			if (n)
				s += ",";
			if (++n > 64) {
				s += "...";
				break;
			}
			s += show(x);
		}
		return s + "]";
	} else if constexpr (requires { o << v; })
		o << v;
	else
		o << "?";
	return o.str();
}

// In some of the cases, a copy takes the place of the object at some time, and the original is gone.
struct Copies {
	Ctx &c;
	uint64_t at = ~uint64_t{0};
	std::shared_ptr<void> earlier; // a copy made before, which is assigned to

	explicit Copies(Ctx &ctx)
		: c{ctx} {
		if (c.choice(4) == 4)
			at = c.choice(15);
	}
	// step: of the history. Returns whether p was replaced
	template<typename P>
	bool operator()(uint64_t step, std::unique_ptr<P> &p) {
		if (step != at)
			return false;
		static_assert(std::is_copy_constructible_v<P>);
		auto kind = c.choice(7);
		at = c.coin() ? step + 1 + c.choice(7) : ~uint64_t{0};
		if constexpr (std::is_default_constructible_v<P>)
			if (kind == 5) { // another object comes and goes, which makes no difference
				if (c.verbose)
					c.log("(another one)");
				fresh<P>();
				return false;
			}
		if constexpr (std::is_copy_assignable_v<P>) {
			if (earlier) {
				auto &e = *static_cast<P *>(earlier.get());
				if (c.verbose)
					c.log("(assigned to an earlier copy)");
				e = std::as_const(*p);
				p = std::make_unique<P>(std::move(e));
				earlier = {};
				return true;
			}
			if (kind >= 6) {
				if (c.verbose)
					c.log("(a copy is kept)");
				earlier = std::make_shared<P>(std::as_const(*p));
				at = step + 1 + c.choice(7);
				return false;
			}
		}
		if (c.verbose)
			c.log("(a copy)");
		std::unique_ptr<P> q;
		if constexpr (std::is_copy_assignable_v<P> && std::is_move_assignable_v<P>) {
			if (kind == 2) {
				q = std::make_unique<P>(std::as_const(*p));
				*q = std::as_const(*p); // again
			}
			if constexpr (std::is_default_constructible_v<P>) {
				if (kind == 1) {
					q = fresh<P>();
					*q = std::as_const(*p);
				} else if (kind == 3) {
					q = fresh<P>();
					*q = std::move(*p);
				}
			}
		}
		if (!q && kind == 4)
			q = std::make_unique<P>(std::move(*p));
		if (!q)
			q = std::make_unique<P>(std::as_const(*p));
		p = std::move(q);
		return true;
	}
};

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

// PBT("name", weight, "what makes a case non-trivial") { ... uses c ... }
#define PBT(NAME, WEIGHT, RULE)                                                                                        \
	static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Ctx & c);                                                              \
	static pbt::Reg PBT_CAT(pbt_reg_, __LINE__){NAME, WEIGHT, RULE, &PBT_CAT(pbt_fn_, __LINE__)};                      \
	static void PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] pbt::Ctx & c)

#define PBT_LOG(EXPR)                                                                                                  \
	do {                                                                                                               \
		if (c.verbose) {                                                                                               \
			std::ostringstream pbt_o;                                                                                  \
			pbt_o << EXPR;                                                                                             \
			c.log(pbt_o.str());                                                                                        \
		}                                                                                                              \
	} while (0)

#define PBT_CHECK(COND, EXPR)                                                                                          \
	do {                                                                                                               \
		if (!(COND)) {                                                                                                 \
			std::ostringstream pbt_o;                                                                                  \
			pbt_o << EXPR << " [" << #COND << "]";                                                                     \
			pbt::fail(pbt_o.str());                                                                                    \
		}                                                                                                              \
	} while (0)

#define PBT_EQ(GOT, WANT, EXPR)                                                                                        \
	do {                                                                                                               \
		auto pbt_g = (GOT);                                                                                            \
		auto pbt_w = (WANT);                                                                                           \
		if (!(pbt_g == pbt_w)) {                                                                                       \
			std::ostringstream pbt_o;                                                                                  \
			pbt_o << EXPR << ": got " << pbt::show(pbt_g) << ", expected " << pbt::show(pbt_w) << " [" << #GOT << "]"; \
			pbt::fail(pbt_o.str());                                                                                    \
		}                                                                                                              \
	} while (0)
