// @cases 16000000
// @thorough 8
// @fuzz parsing
#include "pbt.hh"
#include "util/version_tools.hh"

using VersionUtil::Version;

PBT("parsing", 2, "2 or 3 numbers, or a pre-release") {
	std::string s;
	unsigned want[3]{};
	bool normal = true;
	unsigned n = static_cast<unsigned>(c.choice(4)) + 1; // fields
	if (n == 5)
		n = 3;
	for (unsigned k = 0; k < n; k++) {
		if (k)
			s += '.';
		unsigned v = 0;
		switch (c.weighted({8, 2, 1, 1, 1, 1, 1, 1})) {
			case 0:
				v = static_cast<unsigned>(c.choice(255));
				s += std::to_string(v);
				break;
			case 1:
				v = c.one_of({0u, 9u, 10u, 99u, 100u, 199u, 200u, 254u, 255u});
				s += std::to_string(v);
				break;
			case 2: // too large: ignored
				s += std::to_string(256 + c.choice(100000));
				break;
			case 3: // much too large
				s += "4294967" + std::to_string(296 + c.choice(9000));
				break;
			case 4:
				s += c.one_of({"", "x", "BAD", "v2", " 3", "+4", "\t5"});
				break;
			case 5: // leading zeros
				v = static_cast<unsigned>(c.choice(99));
				s += "00" + std::to_string(v);
				break;
			case 6: // text after the number
				v = static_cast<unsigned>(c.choice(255));
				s += std::to_string(v) + c.one_of({"a", "rc", " "});
				break;
			case 7:
				if (k + 1 < n && k < 2)
					s += "-22"; // not a number that can be used
				else
					s += "0";
				break;
		}
		if (k < 3)
			want[k] = v;
	}
	if (c.chance(1, 500)) {
		// fields after the third one do not count
		for (unsigned k = n; k < 300; k++)
			s += k < 3 ? ".0" : ".9";
		n = 300;
	}
	if (c.chance(1, 3)) {
		// dots in it are part of it, if there are three numbers
		s += "-" + (n >= 3 ? c.str(7, "abcdev.0123456789-") : c.str(5, "abcdev0123456789"));
		normal = false;
	}
	PBT_LOG(pbt::show(s));
	// exactly the characters, followed by something that must not be read
	std::unique_ptr<char[]> exact{new char[s.size()]};
	std::copy(s.begin(), s.end(), exact.get());
	auto v = Version(std::string_view{exact.get(), s.size()});
	PBT_CHECK(v.major == want[0] && v.minor == want[1] && v.revision == want[2],
			  "parsing " << pbt::show(s) << ": got " << +v.major << "." << +v.minor << "." << +v.revision << ", expected " << want[0] << "." << want[1] << "." << want[2]);
	PBT_EQ(v.is_normal, normal, "is_normal of " << pbt::show(s));
	// part of a longer string
	std::string longer = "1" + s + "7.8";
	auto w = Version(std::string_view{longer}.substr(1, s.size()));
	PBT_CHECK(w == v, "parsing " << pbt::show(s) << " as a part of " << pbt::show(longer));
	if (n == 2 || n == 3 || !normal)
		c.nontrivial();
}

static Version gen(pbt::Ctx &c) {
	auto num = [&] { return static_cast<uint8_t>(c.choice(3) ? c.choice(2) : c.choice(255)); };
	Version v{num(), num(), num()};
	v.is_normal = !c.coin();
	return v;
}
static auto key(const Version &v) {
	return std::tuple{v.major, v.minor, v.revision, v.is_normal};
}
static std::string show(const Version &v) {
	return std::to_string(v.major) + "." + std::to_string(v.minor) + "." + std::to_string(v.revision) + (v.is_normal ? "" : "-pre");
}

PBT("ordering", 1, "the versions differ in more than one field") {
	auto a = gen(c), b = gen(c);
	PBT_LOG(show(a) << " and " << show(b));
	auto ka = key(a), kb = key(b);
	auto what = show(a) + " and " + show(b);
	PBT_EQ(a == b, ka == kb, what << " ==");
	PBT_EQ(a != b, ka != kb, what << " !=");
	PBT_EQ(a < b, ka < kb, what << " <");
	PBT_EQ(a <= b, ka <= kb, what << " <=");
	PBT_EQ(a > b, ka > kb, what << " >");
	PBT_EQ(a >= b, ka >= kb, what << " >=");
	PBT_EQ(a.is_later(b), ka > kb, what << " is_later");
	PBT_EQ(a.can_host_version(b), a.major == b.major && b.minor <= a.minor, show(a) << " can host " << show(b));
	int diff = (a.major != b.major) + (a.minor != b.minor) + (a.revision != b.revision) + (a.is_normal != b.is_normal);
	if (diff > 1)
		c.nontrivial();
}

PBT("set_field", 1, "the value does not fit") {
	Version v{1, 2, 3};
	unsigned i = static_cast<unsigned>(c.choice(4));
	unsigned val = c.any_int<unsigned>();
	PBT_LOG("field " << i << " = " << val);
	v.set_field(i, val);
	unsigned want[5] = {1, 2, 3, 0, 0};
	if (val <= 255)
		want[i] = val;
	else
		c.nontrivial();
	PBT_CHECK(v.major == want[0] && v.minor == want[1] && v.revision == want[2] && v.is_normal, "set_field(" << i << ", " << val << ") of 1.2.3 gave " << show(v));
	auto d = *pbt::fresh<Version>();
	PBT_CHECK(d.major == 0 && d.minor == 0 && d.revision == 0 && d.is_normal, "default version is " << show(d));
}
