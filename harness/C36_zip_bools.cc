// With this the elements of a vector<bool> are copies, not proxies. It comes before any other header: it must not matter which
// ones were included before.
#define COUNTZIP_SUPPORT_VECTORBOOL
#include "util/zip.hh"
//
#include "util/countzip.hh"
//
#include "pbt.hh"
#include <vector>

static std::vector<bool> bools(pbt::Ctx &c) {
	std::vector<bool> v;
	for (unsigned i = 0, n = static_cast<unsigned>(c.chance(1, 10) ? 60 + c.choice(80) : c.choice(8)); i < n; i++)
		v.push_back(c.chance(1, 2));
	return v;
}

PBT("zip and countzip with bits", 1, "different lengths, the shortest one has at least 2") {
	auto v = bools(c);
	const auto w = bools(c);
	std::vector<int> a(c.choice(8));
	for (auto &x : a)
		x = c.i(-100, 100);
	PBT_LOG(v.size() << " " << w.size() << " " << a.size());
	auto v0 = v;
	auto a0 = a;
	size_t shortest = std::min({v.size(), w.size(), a.size()});
	size_t i = 0;
	for (auto [b, k, x] : zip(v, w, a)) {
		PBT_CHECK(i < shortest, "goes past the end of the shortest one");
		PBT_CHECK(bool(b) == v0[i] && bool(k) == w[i] && &x == &a[i], "element " << i << " is another one");
		x += 1;
		i++;
	}
	PBT_EQ(i, shortest, "elements visited");
	i = 0;
	for (auto [n, k, x, b] : countzip(w, a, v)) {
		PBT_CHECK(i < shortest, "goes past the end of the shortest one (counted)");
		PBT_EQ(static_cast<size_t>(n), i, "number");
		PBT_CHECK(bool(b) == v0[i] && bool(k) == w[i] && &x == &a[i], "element " << i << " is another one (counted)");
		x += 1;
		i++;
	}
	PBT_EQ(i, shortest, "elements visited (counted)");
	PBT_CHECK(v == v0, "the bits have changed");
	for (size_t k = 0; k < a.size(); k++)
		PBT_EQ(a[k], k < shortest ? a0[k] + 2 : a0[k], "element " << k << " after all");
	i = 0;
	for (auto [n, b] : countzip(v)) {
		PBT_CHECK(i < v.size() && static_cast<size_t>(n) == i && bool(b) == v0[i], "bit " << i << " of a single one");
		i++;
	}
	PBT_EQ(i, v.size(), "bits of a single one");
	bool differ = v.size() != w.size() || v.size() != a.size();
	if (differ)
		c.label("different lengths");
	if (differ && shortest >= 2)
		c.nontrivial();
}
