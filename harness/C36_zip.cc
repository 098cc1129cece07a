// @cases 4000000
// @thorough 10
#include "pbt.hh"
#include <deque>
#include "util/countzip.hh"
#include "util/zip.hh"

static std::vector<int> ints(pbt::Ctx &c) {
	if (c.chance(1, 300)) {
		c.label("long");
		std::vector<int> v((c.chance(1, 10) ? 65534 : 254) + c.choice(4));
		for (size_t i = 0; i < v.size(); i++)
			v[i] = static_cast<int>(i % 7);
		return v;
	}
	std::vector<int> v(c.choice(7));
	for (auto &x : v)
		x = c.i(-100, 100);
	return v;
}

PBT("zip", 1, "different lengths, the shortest one has at least 2") {
	auto a = ints(c);
	const auto b = ints(c);
	std::vector<std::string> s;
	for (unsigned i = 0, n = static_cast<unsigned>(c.choice(7)); i < n; i++)
		s.push_back("a string that needs memory " + std::to_string(i));
	std::deque<int> d;
	for (auto x : ints(c))
		d.push_back(x);
	PBT_LOG(a.size() << " " << b.size() << " " << s.size() << " " << d.size());
	auto a0 = a;
	auto s0 = s;
	size_t i = 0;
	// elements can be written through
	for (auto [x, y, str] : zip(a, b, s)) {
		PBT_CHECK(i < std::min({a.size(), b.size(), s.size()}), "goes past the end of the shortest one");
		PBT_CHECK(&x == &a[i] && &y == &b[i] && &str == &s[i], "element " << i << " is another one");
		static_assert(std::is_const_v<std::remove_reference_t<decltype(y)>>);
		x += y;
		str += "!";
		i++;
	}
	PBT_EQ(i, std::min({a.size(), b.size(), s.size()}), "elements visited");
	for (size_t k = 0; k < a.size(); k++)
		PBT_EQ(a[k], k < i ? a0[k] + b[k] : a0[k], "element " << k << " after all");
	for (size_t k = 0; k < s.size(); k++)
		PBT_EQ(s[k], k < i ? s0[k] + "!" : s0[k], "string " << k << " after all");
	// one, two, a deque, a temporary
	i = 0;
	for (auto [x] : zip(b))
		PBT_CHECK(i < b.size() && &x == &b[i++], "element " << i << " of a single one");
	PBT_EQ(i, b.size(), "elements of a single one");
	i = 0;
	for (auto [x, y] : zip(d, std::vector<int>(b))) {
		PBT_CHECK(i < std::min(d.size(), b.size()), "goes past the end of the shortest one");
		PBT_CHECK(&x == &d[i] && y == b[i], "element " << i << " of a deque and a temporary");
		i++;
	}
	PBT_EQ(i, std::min(d.size(), b.size()), "elements visited of a deque and a temporary");
	// iterators
	auto z = zip(a, b);
	auto it = z.begin();
	size_t pos = 0, m = std::min(a.size(), b.size());
	auto posts = c.choice(~uint64_t{}); // which steps use it++, repeated
	while (pos < m) {
		PBT_CHECK(it != z.end() && !(it == z.end()), "the iterator is at the end after " << pos);
		bool post = posts >> pos % 61 & 1;
		auto before = post ? it++ : ++it;
		auto want = post ? pos : pos + 1;
		pos++;
		if (want < m) {
			PBT_CHECK(&std::get<0>(*before) == &a[want] && &std::get<1>(*before) == &b[want], (post ? "it++" : "++it") << " to " << pos << " gives another element");
		}
		if (pos < m)
			PBT_CHECK(&std::get<0>(*it) == &a[pos], "the iterator is not at " << pos);
	}
	PBT_CHECK(it == z.end() && !(it != z.end()), "the iterator is not at the end after " << pos);
	if (i >= 2 && d.size() != b.size())
		c.nontrivial();
}

template<typename F>
static void counting(pbt::Ctx &c, F make, const char *name) {
	auto a = ints(c);
	const auto b = ints(c);
	std::array<int, 5> arr{1, 2, 3, 4, 5};
	PBT_LOG(name << " " << a.size() << " " << b.size());
	auto a0 = a;
	size_t i = 0;
	for (auto [n, x, y] : make(a, b)) {
		PBT_CHECK(i < std::min(a.size(), b.size()), "goes past the end of the shortest one");
		PBT_EQ(n, i, "the count");
		PBT_CHECK(&x == &a[i] && &y == &b[i], "element " << i << " is another one");
		x = static_cast<int>(n) * 7;
		i++;
	}
	PBT_EQ(i, std::min(a.size(), b.size()), "elements visited");
	for (size_t k = 0; k < a.size(); k++)
		PBT_EQ(a[k], k < i ? static_cast<int>(k) * 7 : a0[k], "element " << k << " after all");
	i = 0;
	for (auto [n, x] : make(arr)) {
		PBT_CHECK(n == i && &x == &arr[i], "element " << i << " of an array");
		i++;
	}
	PBT_EQ(i, arr.size(), "elements of an array");
	i = 0;
	for (auto [n, x, y, w] : make(b, std::vector<int>(a), arr)) {
		PBT_CHECK(n == i && i < std::min({a.size(), b.size(), arr.size()}), "goes past the end of the shortest one");
		PBT_CHECK(&x == &b[i] && y == a[i] && &w == &arr[i], "element " << i << " of three");
		i++;
	}
	PBT_EQ(i, std::min({a.size(), b.size(), arr.size()}), "elements of three");
	auto z = make(a);
	auto it = z.begin();
	auto posts = c.choice(~uint64_t{}); // which steps use it++, repeated
	for (size_t pos = 0; pos < a.size();) {
		bool post = posts >> pos % 61 & 1;
		auto before = post ? it++ : ++it;
		auto want = post ? pos : pos + 1;
		pos++;
		if (want < a.size())
			PBT_CHECK(std::get<0>(*before) == want && &std::get<1>(*before) == &a[want], (post ? "it++" : "++it") << " to " << pos << " gives another element");
		if (pos < a.size())
			PBT_EQ(std::get<0>(*it), pos, "the count of the iterator");
	}
	PBT_CHECK(it == z.end() && !(it != z.end()), "the iterator is not at the end");
	if (std::min(a.size(), b.size()) >= 2 && a.size() != b.size())
		c.nontrivial();
}
PBT("countzip", 1, "different lengths, the shortest one has at least 2") {
	counting(c, [](auto &&...x) { return countzip(std::forward<decltype(x)>(x)...); }, "countzip");
}
PBT("enumerate", 1, "different lengths, the shortest one has at least 2") {
	counting(c, [](auto &&...x) { return enumerate(std::forward<decltype(x)>(x)...); }, "enumerate");
}
