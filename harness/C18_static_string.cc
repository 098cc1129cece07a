// @cases 2000000
// @thorough 20
// @flags -DCPPUTIL_STATIC_STRING_USE_STD_STRING
#include "pbt.hh"
#include "util/static_string.hh"

static std::string gen(pbt::Ctx &c, size_t around) {
	std::string s;
	if (around > 1000) { // a pattern, mostly near the capacity
		size_t n = c.coin() ? around - 3 + c.choice(6) : c.choice(around + 3);
		s.resize(n);
		size_t period = 1 + c.choice(5), from = c.choice(3);
		for (size_t i = 0; i < n; i++)
			s[i] = static_cast<char>('a' + (i / period + from) % 3);
		return s;
	}
	size_t n = c.choice(around + 3);
	for (size_t i = 0; i < n; i++)
		s += static_cast<char>(c.chance(1, 10) ? 1 + static_cast<int>(c.choice(254)) : 'a' + static_cast<int>(c.choice(1)));
	return s;
}

// A heap copy of exactly the characters
struct Exact {
	std::unique_ptr<char[]> p;
	size_t n;
	Exact(const std::string &s, bool terminated)
		: p{new char[s.size() + terminated]}
		, n{s.size()} {
		std::copy(s.begin(), s.end(), p.get());
		if (terminated)
			p[n] = 0;
	}
	const char *c_str() const {
		return p.get();
	}
	std::string_view view() const {
		return {p.get(), n};
	}
};

template<size_t N>
static void check(pbt::Ctx &, const StaticString<N> &s, const std::string &want) {
	PBT_CHECK(s.c_str()[std::min(want.size(), N)] == '\0', "not terminated after " << want.size());
	PBT_EQ(std::string(s.c_str()), want, "c_str()");
	PBT_EQ(std::string(s.data()), want, "data()");
	PBT_EQ(s.length(), want.size(), "length()");
	PBT_EQ(s.size(), want.size(), "size()");
	PBT_EQ(s.available(), N - want.size(), "available()");
	PBT_EQ(std::string(s.begin(), s.end()), want, "begin(), end()");
	PBT_EQ(std::string(static_cast<std::string_view>(s)), want, "as a string_view");
	PBT_EQ(std::string(static_cast<const char *>(s)), want, "as a const char *");
	PBT_EQ(s.operator std::string(), want, "as a string");
	auto copy = std::make_unique<StaticString<N>>(s); // not constant
	PBT_CHECK(std::equal(copy->begin(), copy->end(), want.begin(), want.end()), "begin(), end() of a string which is not constant");
	PBT_EQ(copy->operator std::string(), want, "as a string, not constant");
	if (want.size()) {
		*(copy->end() - 1) = 'Z';
		PBT_EQ(std::string(copy->c_str()), want.substr(0, want.size() - 1) + "Z", "after a character was changed");
	}
	PBT_CHECK(s.is_equal(want.c_str()), "is_equal() of the same string");
	PBT_CHECK(!s.is_equal((want + "b").c_str()), "is_equal() of a longer string");
	if (want.size()) {
		PBT_CHECK(!s.is_equal(want.substr(0, want.size() - 1).c_str()), "is_equal() of a shorter string");
		auto other = want;
		other.back() = static_cast<char>(other.back() ^ 1);
		PBT_CHECK(!s.is_equal(other.c_str()), "is_equal() of another string");
	}
}

template<size_t N, size_t M>
static void history(pbt::Ctx &c) {
	auto s = pbt::fresh<StaticString<N>>();
	auto t = pbt::fresh<StaticString<M>>();
	std::string ref, ref2;
	PBT_LOG("StaticString of " << N << " and " << M);
	bool cut = false, copied = false;
	check(c, *s, "");
	unsigned n = static_cast<unsigned>(c.choice(N > 1000 ? 4 : 10)) + 1;
	for (unsigned op = 0; op < n; op++) {
		auto str = gen(c, N);
		auto fit = str.substr(0, N);
		cut |= str.size() > N;
		switch (c.choice(12)) {
			case 0:
				PBT_LOG("copy " << pbt::show(str));
				s->copy(Exact{str, true}.c_str());
				ref = fit;
				break;
			case 1:
				PBT_LOG("copy view " << pbt::show(str));
				s->copy(Exact{str, false}.view());
				ref = fit;
				break;
			case 2:
				PBT_LOG("construct " << pbt::show(str));
				s = std::make_unique<StaticString<N>>(Exact{str, true}.c_str());
				ref = fit;
				break;
			case 3:
				PBT_LOG("construct from view " << pbt::show(str));
				s = std::make_unique<StaticString<N>>(Exact{str, false}.view());
				ref = fit;
				break;
			case 4:
				PBT_LOG("construct from string " << pbt::show(str));
				s = std::make_unique<StaticString<N>>(str);
				ref = fit;
				break;
			case 5:
				PBT_LOG("clear");
				s->clear();
				ref.clear();
				break;
			case 6:
				PBT_LOG("other copy " << pbt::show(str));
				t->copy(Exact{str, true}.c_str());
				ref2 = str.substr(0, M);
				break;
			case 7:
				PBT_LOG("copy the other");
				s->copy(*t);
				ref = ref2.substr(0, N);
				copied = true;
				break;
			case 8:
				PBT_LOG("other copies this");
				t->copy(*s);
				ref2 = ref.substr(0, M);
				copied = true;
				break;
			case 12: { // the same text, after something else
				PBT_LOG("both copy " << pbt::show(fit));
				s->copy(Exact{fit, true}.c_str());
				t->copy(Exact{fit, c.coin()}.view());
				ref = fit;
				ref2 = fit.substr(0, M);
				break;
			}
			case 9: {
				auto copy = std::make_unique<StaticString<N>>(*s);
				check(c, *copy, ref);
				auto assigned = std::make_unique<StaticString<N>>("zz");
				*assigned = *s;
				check(c, *assigned, ref);
				PBT_CHECK(*copy == *assigned, "copies are equal");
				break;
			}
			case 10: {
				PBT_LOG("volatile copy " << pbt::show(str));
				volatile StaticString<N> *v = s.get();
				v->copy(Exact{str, true}.c_str());
				ref = fit;
				break;
			}
			case 11: {
				PBT_LOG("volatile copy of the other");
				volatile StaticString<N> *v = s.get();
				if (c.coin()) {
					const volatile StaticString<M> &o = *t;
					v->copy(o);
				} else {
					const StaticString<M> &o = *t;
					v->copy(o);
				}
				ref = ref2.substr(0, N);
				copied = true;
				break;
			}
		}
		check(c, *s, ref);
		check(c, *t, ref2);
		PBT_EQ(*s == *t, ref == ref2, "equality of " << pbt::show(ref) << " and " << pbt::show(ref2));
	}
	if (cut && copied)
		c.nontrivial();
}

#define RULE "a string was cut to the capacity, and one was copied between different capacities"
PBT("StaticString", 3000, RULE) {
	switch (c.choice(7)) {
		case 7: history<0, 2>(c); break;
		case 0: history<1, 3>(c); break;
		case 1: history<4, 3>(c); break;
		case 2: history<5, 7>(c); break;
		case 3: history<15, 8>(c); break;
		case 4: history<6, 6>(c); break;
		case 5: history<8, 8>(c); break;
		case 6: history<16, 16>(c); break;
	}
}
PBT("longer StaticString", 30, RULE) {
	switch (c.choice(3)) {
		case 0: history<300, 256>(c); break;
		case 1: history<256, 255>(c); break;
		case 2: history<520, 40>(c); break;
		case 3: history<256, 256>(c); break;
	}
}
PBT("huge StaticString", 1, RULE) {
	history<65700, 65536>(c);
}
