// @cases 9000000
// @thorough 10
// @fuzz several values
#include "pbt.hh"
#include "util/print.hh"

static std::string out, out2;
static void put(const char c) {
	out += c;
}
static void put2(const char c) {
	out2 += c;
}

static const bool reset = [] {
	pbt::reset_hook = [] {
		out.clear();
		out2.clear();
	};
	return true;
}();

static std::string dec(int32_t v) {
	char b[32];
	snprintf(b, sizeof b, "%d", v);
	return b;
}
static std::string hex(uint32_t v) {
	char b[32];
	snprintf(b, sizeof b, "%X", v);
	return b;
}

PBT("integers", 2, "the value has a zero digit after the first one") {
	auto v = c.any_int<int32_t>();
	PBT_LOG(v);
	print<put>(v);
	auto want = dec(v);
	PBT_EQ(out, want, "print(" << v << ")");
	// narrower types, too
	out.clear();
	print<put>(static_cast<int16_t>(v), " ", static_cast<uint16_t>(v), " ", static_cast<uint8_t>(v), " ", static_cast<int8_t>(v));
	PBT_EQ(out, dec(static_cast<int16_t>(v)) + " " + dec(static_cast<uint16_t>(v)) + " " + dec(static_cast<uint8_t>(v)) + " " + dec(static_cast<int8_t>(v)), "print() of " << v << " as 16 and 8 bits");
	if (want.find('0') != want.npos && want.size() > 1)
		c.nontrivial();
}

PBT("hexadecimal", 2, "the value has a zero digit after the first one") {
	auto v = c.any_int<uint32_t>();
	if (c.coin()) { // with digits 0
		for (unsigned i = 0; i < 8; i++)
			if (c.coin())
				v &= ~(0xfu << (4 * i));
	}
	PBT_LOG(hex(v));
	print<put>(Hex{v});
	auto want = hex(v);
	PBT_EQ(out, want, "print(Hex{" << want << "})");
	if (want.find('0') != want.npos && want.size() > 1)
		c.nontrivial();
}

PBT("strings", 1, "a string_view which is not terminated, or contains a 0") {
	std::string s;
	size_t n = c.choice(12);
	for (size_t i = 0; i < n; i++)
		s += static_cast<char>(c.coin() ? 'a' + static_cast<char>(c.choice(3)) : static_cast<char>(c.choice(255)));
	PBT_LOG(pbt::show(s));
	switch (c.choice(2)) {
		case 0: {
			auto z = std::make_unique<char[]>(s.size() + 1);
			std::copy(s.begin(), s.end(), z.get());
			print<put>(static_cast<const char *>(z.get()));
			PBT_EQ(out, std::string(s.c_str()), "a const char *");
			break;
		}
		case 1: {
			auto z = std::make_unique<unsigned char[]>(s.size() + 1);
			std::copy(s.begin(), s.end(), z.get());
			print<put>(static_cast<const unsigned char *>(z.get()));
			PBT_EQ(out, std::string(s.c_str()), "a const unsigned char *");
			break;
		}
		case 2: { // exactly the characters
			std::unique_ptr<char[]> z{new char[s.size()]};
			std::copy(s.begin(), s.end(), z.get());
			print<put>(std::string_view(z.get(), s.size()));
			PBT_EQ(out, s, "a string_view");
			c.nontrivial();
			break;
		}
	}
}

template<typename... Ts>
static void several(pbt::Ctx &c, std::string want, unsigned left, Ts... args) {
	if constexpr (sizeof...(Ts) < 3) {
		if (left) {
			static const char *const strs[] = {"", "x=", "Some ", "100%", "\n"};
			auto str = strs[c.choice(4)];
			auto v = c.any_int<int32_t>();
			switch (c.choice(3)) {
				case 0: return several(c, want + dec(v), left - 1, args..., v);
				case 1: return several(c, want + hex(static_cast<uint32_t>(v)), left - 1, args..., Hex{static_cast<uint32_t>(v)});
				case 2: return several(c, want + str, left - 1, args..., str);
				case 3: return several(c, want + str, left - 1, args..., std::string_view{str});
			}
		}
	}
	PBT_LOG(pbt::show(want));
	print<put2>(args...);
	PBT_EQ(out2, want, "print() of " << sizeof...(Ts) << " values");
	PBT_EQ(out.size(), size_t(0), "characters given to another function");
}

PBT("several values", 1, "at least 3 values") {
	unsigned n = static_cast<unsigned>(c.choice(3));
	several(c, "", n);
	if (n >= 3)
		c.nontrivial();
}
