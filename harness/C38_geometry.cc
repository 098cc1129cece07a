// @cases 15000000
// @thorough 10
#include "pbt.hh"
#include "util/geometry.hh"

static int coord(pbt::Ctx &c) {
	switch (c.choice(3)) {
		case 0: return c.i(-4, 4);
		case 1: return c.i(-100, 400);
		case 2: return c.i(-1073741823, 1073741823);
		default: return c.i(0, 12);
	}
}

PBT("RectC", 20000, "the rectangles overlap in one direction only, or touch") {
	RectC r[2];
	bool small = c.coin();
	for (auto &x : r) {
		int a = small ? c.i(0, 6) : coord(c), b = small ? c.i(0, 6) : coord(c);
		int p = small ? c.i(0, 6) : coord(c), q = small ? c.i(0, 6) : coord(c);
		x = {std::min(a, b), std::min(p, q), std::max(a, b), std::max(p, q)};
		PBT_LOG(x.left << " " << x.top << " " << x.right << " " << x.bottom);
	}
	for (auto &x : r) {
		PBT_EQ(x.width(), x.right - x.left, "width()");
		PBT_EQ(x.height(), x.bottom - x.top, "height()");
		// half of the sum, rounded towards 0
		// (halves of negative numbers may be rounded down or towards zero)
		auto center = [](int64_t got, int64_t low, int64_t high, const char *what) {
			int64_t sum = low + high;
			if (low <= high && sum >= 0)
				PBT_EQ(got, sum / 2, what);
			else
				PBT_CHECK(std::abs(2 * got - sum) <= 1, what << ": got " << got << ", expected " << sum / 2.);
		};
		center(x.center_x(), x.left, x.right, "center_x()");
		center(x.center_y(), x.top, x.bottom, "center_y()");
		Rect s{x.left, x.top, x.width(), x.height()};
		PBT_EQ(s.right(), x.right, "right() of the Rect");
		PBT_EQ(s.bottom(), x.bottom, "bottom() of the Rect");
		PBT_EQ(s.center_x(), s.left + s.width / 2, "center_x() of the Rect");
		PBT_EQ(s.center_y(), s.top + s.height / 2, "center_y() of the Rect");
	}
	// they have a coordinate in common, the edges belong to them
	bool x = std::max(r[0].left, r[1].left) <= std::min(r[0].right, r[1].right);
	bool y = std::max(r[0].top, r[1].top) <= std::min(r[0].bottom, r[1].bottom);
	for (unsigned k = 0; k < 2; k++) {
		PBT_EQ(r[k].x_intersects(r[1 - k]), x, "x_intersects() of " << k);
		PBT_EQ(r[k].y_intersects(r[1 - k]), y, "y_intersects() of " << k);
		PBT_EQ(r[k].is_intersecting(r[1 - k]), x && y, "is_intersecting() of " << k);
		PBT_CHECK(r[k].is_intersecting(r[k]), "a rectangle intersects itself");
	}
	if (x != y || r[0].left == r[1].right || r[0].bottom == r[1].top)
		c.nontrivial();
}

template<typename V>
struct Point {
	V x, y;
};

template<typename V>
static void polygon(pbt::Ctx &c, const char *name) {
	std::vector<Point<V>> p;
	std::string s;
	unsigned kind = static_cast<unsigned>(c.choice(2));
	size_t n = c.choice(9);
	constexpr bool fp = std::is_floating_point_v<V>;
	auto make = [&](double x, double y) {
		p.push_back({static_cast<V>(x), static_cast<V>(y)});
	};
	double unit = fp ? 1. / 64 : 1;
	double scale = 1;
	// Coordinates of whole screens and beyond, and as far as they can go if they have 32 bits
	if (!fp && c.coin())
		scale = sizeof(V) == 1 ? c.one_of({2., 5.}) : sizeof(V) == 2 ? c.one_of({100., 300., 600.}) : c.one_of({700., 3000., 10000., 100000., 1e6, 1e7, 4e7});
	unit *= scale;
	bool convex = false;
	if (kind == 0) {
		for (size_t i = 0; i < n; i++) {
			double x = double(c.choice(fp ? 64 : 6)), y = double(c.choice(fp ? 64 : 6));
			auto off = [&] { return scale > 1 && c.choice(2) ? double(c.choice(static_cast<uint64_t>(scale) - 1)) : 0.; };
			make(x * unit + off(), y * unit + off());
		}
	} else {
		// points on a convex curve, perhaps one of them is moved inside; perhaps duplicates
		std::set<int> xs;
		for (size_t i = 0; i < n; i++)
			xs.insert(c.i(-7, 7));
		for (auto x : xs)
			make((x + 8) * unit, x * x * unit);
		convex = true;
		if (p.size() > 3 && kind == 2) {
			auto k = c.choice(p.size() - 1);
			auto q = c.choice(p.size() - 1);
			if (k != q) {
				p[k] = p[q];
				convex = false; // unless they were neighbours
			}
		}
		if (p.size() && c.coin())
			std::rotate(p.begin(), p.begin() + static_cast<ptrdiff_t>(c.choice(p.size() - 1)), p.end());
		if (c.coin())
			std::reverse(p.begin(), p.end());
	}
	n = p.size();
	for (auto &q : p)
		s += "(" + std::to_string(q.x) + "," + std::to_string(q.y) + ")";
	PBT_LOG(name << " " << s);
	bool left = false, right = false;
	for (size_t i = 0; n >= 3 && i < n; i++) {
		auto o = p[i], a = p[(i + 1) % n], b = p[(i + 2) % n];
		long double cross = ((long double)a.x - o.x) * ((long double)b.y - o.y) - ((long double)a.y - o.y) * ((long double)b.x - o.x);
		left |= cross > 0;
		right |= cross < 0;
	}
	bool want = left && right;
	auto ask = [&] {
		std::unique_ptr<Point<V>[]> exact{new Point<V>[n]};
		std::copy(p.begin(), p.end(), exact.get());
		return is_poly_concave<Point<V>>(std::span<const Point<V>>{exact.get(), n});
	};
	PBT_EQ(ask(), want, "is_poly_concave()");
	if (convex)
		PBT_CHECK(!want && !ask(), "points on a convex curve are concave");
	if (n) { // does not depend on the first point or the direction
		std::rotate(p.begin(), p.begin() + static_cast<ptrdiff_t>(c.choice(n - 1)), p.end());
		PBT_EQ(ask(), want, "is_poly_concave() with another first point");
		std::reverse(p.begin(), p.end());
		PBT_EQ(ask(), want, "is_poly_concave() in the other direction");
	}
	if (n > 3 && (want || convex))
		c.nontrivial();
}
PBT("is_poly_concave", 10000, "a concave polygon, or a convex one made of more than 3 points") {
	switch (c.choice(6)) {
		case 4: return polygon<uint16_t>(c, "uint16_t");
		case 5: return polygon<int16_t>(c, "int16_t");
		case 6: return polygon<uint32_t>(c, "uint32_t");
		case 0: return polygon<int>(c, "int");
		case 1: return polygon<float>(c, "float");
		case 2: return polygon<uint8_t>(c, "uint8_t");
		default: return polygon<double>(c, "double");
	}
}

// Nothing limits the number of points
PBT("is_poly_concave of many points", 8, "a dent") {
	size_t n = 3 + c.choice(c.choice(9) ? 600 : 66000);
	// a parabola: every corner turns the same way, but for the ones at a dent, which is 3 points wide
	std::vector<Point<double>> p(n);
	for (size_t i = 0; i < n; i++)
		p[i] = {double(i), double(i) * double(i)};
	bool dent = n > 5 && c.coin();
	size_t at = 0;
	if (dent) {
		at = 2 + c.choice(n - 5);
		p[at].y += 1.5; // the middle of its neighbours is 1 above it
	}
	auto shift = c.choice(n - 1);
	std::rotate(p.begin(), p.begin() + static_cast<ptrdiff_t>(shift), p.end());
	PBT_LOG(n << " points" << (dent ? ", a dent at " : " ") << at << ", rotated by " << shift);
	PBT_EQ(is_poly_concave<Point<double>>(std::span<const Point<double>>{p}), dent, "is_poly_concave()");
	if (dent)
		c.nontrivial();
}
