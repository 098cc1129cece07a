// @cases 15000000
// @thorough 6
// @fuzz replace_all, tokenize_string, contains_word
#include "pbt.hh"
#include "util/contains_word.hh"
#include "util/contains_word.hh" // (can be included twice)
#include "util/string_compare.hh"
#include "util/string_util.hh"

// The parts of s between occurrences of find, from left to right
static std::vector<std::string> parts(const std::string &s, const std::string &find) {
	std::vector<std::string> v{""};
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, find.size(), find) == 0) {
			v.push_back("");
			i += find.size();
		} else
			v.back() += s[i++];
	}
	return v;
}

// Text of up to about 300 characters, now and then; "" otherwise
static std::string padding(pbt::Ctx &c, std::string_view alphabet) {
	if (!c.chance(1, 12))
		return "";
	auto unit = c.str(5, alphabet);
	size_t n = c.choice(2) ? c.sz(10, 70) : c.sz(120, 300);
	std::string s;
	while (unit.size() && s.size() + unit.size() <= n)
		s += unit;
	return s;
}

PBT("replace_all", 2, "at least 2 replacements, and the replacement contains what is looked for or has another length") {
	bool nul = c.chance(1, 8);
	std::string_view abc = nul ? std::string_view{"a\0b", 3} : "abc", ab = nul ? std::string_view{"a\0", 2} : "ab";
	auto s = c.str(14, abc) + padding(c, "abc") + c.str(3, "abc");
	unsigned n = static_cast<unsigned>(c.choice(2)) + 1; // (text can contain null characters)
	ReplaceString r{s};
	PBT_LOG(pbt::show(s));
	for (unsigned k = 0; k < n; k++) {
		auto find = c.str(3, ab), with = c.str(4, "abX");
		if (c.chance(1, 20))
			find += padding(c, "ab");
		if (c.chance(1, 20))
			with += padding(c, "abX");
		int own = s.size() <= 300 && c.chance(1, 16) ? 1 + static_cast<int>(c.coin()) : 0;
		if (own)
			(own == 1 ? with : find) = s;
		PBT_LOG("replace " << pbt::show(find) << " with " << pbt::show(with));
		std::string want = s;
		if (find.size()) {
			auto p = parts(s, find);
			want = p[0];
			for (size_t i = 1; i < p.size(); i++)
				want += with + p[i];
			if (p.size() >= 3 && (with.find(find) != with.npos || with.size() != find.size()))
				c.nontrivial();
		}
		if (own) // the text of the object itself is an argument
			PBT_LOG("(which is its own text)");
		auto &same = own == 1 ? r.replace_all(find, r.str) : own == 2 ? r.replace_all(r.str, with) : r.replace_all(find, with);
		PBT_CHECK(&same == &r, "replace_all() returns the object");
		PBT_EQ(r.str, want, "replacing " << pbt::show(find) << " with " << pbt::show(with) << " in " << pbt::show(s));
		s = want;
	}
}

PBT("tokenize_string", 2, "at least 2 tokens, and delimiters at the start, at the end or next to each other") {
	auto s = c.str(16, c.chance(1, 8) ? std::string_view{"a,\0b ", 5} : "a,;b ") + padding(c, "a,;b ") + c.str(4, "a,;b ");
	std::string delims = c.choice(2) ? c.chance(1, 8) ? c.str(3, std::string_view{",\0", 2}) : c.str(3, ",; ") : ",";
	std::vector<std::string> want, got;
	if (c.chance(1, 4))
		want = got = {"already here"};
	size_t had = want.size();
	std::string cur;
	for (char x : s + delims.substr(0, 1)) {
		if (delims.find(x) != delims.npos) {
			if (cur.size())
				want.push_back(cur);
			cur.clear();
		} else
			cur += x;
	}
	if (cur.size())
		want.push_back(cur);
	PBT_LOG(pbt::show(s) << " by " << pbt::show(delims));
	std::unique_ptr<char[]> exact{new char[s.size()]};
	std::copy(s.begin(), s.end(), exact.get());
	std::string_view view{exact.get(), s.size()};
	if (delims == "," && c.coin())
		tokenize_string(view, got);
	else
		tokenize_string(view, got, delims);
	PBT_EQ(got, want, "tokens of " << pbt::show(s) << " by " << pbt::show(delims));
	size_t ndelim = 0;
	for (char x : s)
		ndelim += delims.find(x) != delims.npos;
	if (want.size() - had >= 2 && ndelim >= want.size() - had)
		c.nontrivial();
}

static char lower(char x) {
	return x >= 'A' && x <= 'Z' ? static_cast<char>(x + 32) : x;
}
static std::string lower(std::string s) {
	for (auto &x : s)
		x = lower(x);
	return s;
}

static constexpr std::string_view Letters{"aAbBzZ_[@{09\xe9\xc9\xff\0", 16};
static std::string gen_ci(pbt::Ctx &c, const std::string &like) {
	if (c.choice(3) == 0)
		return c.str(6, Letters);
	std::string s = like;
	for (auto &x : s)
		if (c.choice(3) == 0)
			x = x >= 'a' && x <= 'z' ? static_cast<char>(x - 32) : lower(x);
	switch (c.choice(4)) {
		case 0: s += "a"; break;
		case 1:
			if (s.size())
				s.pop_back();
			break;
		case 2:
			if (s.size())
				s[c.choice(s.size() - 1)] = c.one_of({'a', 'B', '_', '\xe9'});
			break;
	}
	return s;
}

PBT("less_ci, equal_ci", 1, "both have letters in different cases") {
	auto a = c.str(6, Letters);
	auto b = gen_ci(c, a), d = gen_ci(c, b);
	if (auto same = padding(c, "aBzZ_9 "); same.size()) { // the difference comes late
		a = same + a;
		b = (c.coin() ? lower(same) : same) + b;
		d = same + d;
	}
	PBT_LOG(pbt::show(a) << " " << pbt::show(b) << " " << pbt::show(d));
	auto la = lower(a), lb = lower(b);
	// (std::string compares as unsigned char)
	PBT_EQ(equal_ci(a, b), la == lb, "equal_ci(" << pbt::show(a) << ", " << pbt::show(b) << ")");
	PBT_EQ(less_ci(a, b), la < lb, "less_ci(" << pbt::show(a) << ", " << pbt::show(b) << ")");
	PBT_EQ(equal_ci(a, b), equal_ci(b, a), "equal_ci() is symmetric");
	PBT_CHECK(!(less_ci(a, b) && less_ci(b, a)), "less_ci() both ways");
	PBT_EQ(!less_ci(a, b) && !less_ci(b, a), equal_ci(a, b), "neither is less");
	if (less_ci(a, b) && less_ci(b, d))
		PBT_CHECK(less_ci(a, d), "less_ci() is transitive");
	if (a != b && la == lb)
		c.label("equal but for the case");
	if (la != a && lb != b)
		c.nontrivial();
}

PBT("contains_word", 2, "the word occurs in the name") {
	auto word = c.str(3, "aBn");
	if (word.empty())
		word = "in";
	if (c.chance(1, 8))
		word += " " + c.str(2, "ab") + "c";
	if (c.chance(1, 20))
		word += padding(c, "aBn");
	if (c.chance(1, 12)) // any char may be a part of a word
		word.insert(c.choice(word.size()), c.str(1, "-_1.+\t"));
	auto name = padding(c, "aBn ");
	unsigned n = static_cast<unsigned>(c.choice(5));
	for (unsigned k = 0; k < n; k++) {
		switch (c.choice(4)) {
			case 0: name += word; break;
			case 1: name += c.chance(1, 6) ? c.str(1, "-_\t.,/+'()\n") : " "; break; // only a space separates
			case 2: name += c.str(3, "aBnx1"); break;
			case 3: name += lower(word); break;
			case 4:
				for (char x : word)
					name += x >= 'a' && x <= 'z' ? static_cast<char>(x - 32) : x;
				break;
		}
	}
	PBT_LOG(pbt::show(name) << " contains " << pbt::show(word));
	auto ln = lower(name), lw = lower(word);
	bool want = false;
	for (size_t i = 0; i + lw.size() <= ln.size(); i++)
		if (ln.compare(i, lw.size(), lw) == 0) {
			c.nontrivial();
			want |= (i == 0 || ln[i - 1] == ' ') && (i + lw.size() == ln.size() || ln[i + lw.size()] == ' ');
		}
	PBT_EQ(contains_word(name, word), want, "contains_word(" << pbt::show(name) << ", " << pbt::show(word) << ")");
}
