// @cases 16000000
// @thorough 8
// @repo_src util/int_to_str.cc
#include "pbt.hh"
#include "util/int_to_str.hh"

static std::string text(int32_t v) {
	char b[32];
	snprintf(b, sizeof b, "%d", v);
	return b;
}

static constexpr char Poison = '~';

struct Buf { // exactly n chars, on the heap
	size_t n;
	std::unique_ptr<char[]> p;
	Buf(size_t n)
		: n{n}
		, p{new char[n]} {
		std::fill(p.get(), p.get() + n, Poison);
	}
	std::span<char> span() {
		return {p.get(), n};
	}
	std::optional<std::string> str() const {
		for (size_t i = 0; i < n; i++)
			if (!p[i])
				return std::string(p.get(), i);
		return std::nullopt;
	}
};

// Also the numbers around those with few digits other than 0
static int32_t number(pbt::Ctx &c) {
	if (c.coin())
		return c.any_int<int32_t>();
	int64_t v = c.choice(99);
	for (auto k = c.choice(9); k; k--)
		v *= 10;
	v = v * (c.coin() ? 1 : -1) + static_cast<int64_t>(c.choice(12)) - 6;
	return static_cast<int32_t>(v);
}
static size_t room(pbt::Ctx &c) {
	return c.chance(1, 100) ? 250 + c.choice(20) : c.choice(14);
}

PBT("int_to_str", 1, "the value is negative or has at least 5 digits, and the buffer is smaller than 12") {
	auto v = number(c);
	auto want = text(v);
	size_t n = room(c);
	PBT_LOG("int_to_str " << v << " in " << n);
	Buf b{n};
	bool ok = int_to_str(v, b.span());
	PBT_EQ(ok, want.size() + 1 <= n, "int_to_str(" << v << ") result for a buffer of " << n);
	if (ok)
		PBT_EQ(b.str().value_or("not terminated"), want, "int_to_str(" << v << ") in a buffer of " << n);
	else
		c.label("does not fit");
	if ((v < 0 || v > 9999) && n < 12)
		c.nontrivial();
}

PBT("int_to_str_chop", 1, "digits were chopped") {
	auto v = number(c);
	auto full = text(v);
	std::string sign = v < 0 ? "-" : "", digits = full.substr(sign.size());
	size_t n = room(c);
	PBT_LOG("int_to_str_chop " << v << " in " << n);
	Buf b{n};
	int_to_str_chop(v, b.span());
	if (!n)
		return;
	std::string want = sign.substr(0, n - 1);
	size_t room = n - 1 - want.size();
	if (room < digits.size()) {
		want += digits.substr(digits.size() - room);
		c.nontrivial();
	} else
		want += digits;
	PBT_EQ(b.str().value_or("not terminated"), want, "int_to_str_chop(" << v << ") in a buffer of " << n);
}

PBT("num_digits", 1, "at least 4 digits") {
	auto v = c.any_int<uint32_t>();
	if (c.coin()) { // around powers of ten
		uint64_t p = 1;
		for (uint64_t k = c.choice(9); k; k--)
			p *= 10;
		v = static_cast<uint32_t>(p - 1 + c.choice(2));
	}
	PBT_LOG("num_digits " << v);
	auto want = std::to_string(v).size();
	PBT_EQ(size_t(num_digits(v)), want, "num_digits(" << v << ")");
	if (want >= 4)
		c.nontrivial();
}
