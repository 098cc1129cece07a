// @cases 6000000
// @thorough 15
#include "pbt.hh"
#include <concepts>
#include "util/interp_array.hh"
#include "util/lookup_table.hh"

// Reference: linear interpolation in long double. The tolerance is what the
// rounding of the index (in PhaseT) and of the result (in T) can make.
template<typename T, unsigned Size, typename PhaseT>
static void interp_array(pbt::Ctx &c) {
	using A = InterpArray<T, Size, PhaseT>;
	using L = long double;
	auto a = pbt::fresh<A>();
	L biggest = 0, steepest = 0;
	std::vector<L> v(Size);
	unsigned kind = static_cast<unsigned>(c.choice(2));
	for (unsigned i = 0; i < Size; i++) {
		T x = kind == 0 ? static_cast<T>(i) : kind == 1 ? static_cast<T>(c.i(-8, 8)) : static_cast<T>(c.f(-100, 100));
		switch (i % 3) {
			case 0: a->data[i] = x; break;
			case 1: a->set(i, x); break;
			case 2:
				if (i & 1)
					(*a)[i] = x;
				else
					a->set(i) = x;
				break;
		}
		v[i] = x;
		biggest = std::max<L>(biggest, std::abs(v[i]));
	}
	for (unsigned i = 0; i < Size; i++) {
		PBT_CHECK(std::as_const(*a)[i] == static_cast<T>(v[i]) && a->get(i) == static_cast<T>(v[i]), "element " << i);
		steepest = std::max(steepest, std::abs(v[(i + 1) % Size] - v[i]));
	}
	constexpr L Eps = std::max<L>(std::numeric_limits<PhaseT>::epsilon(), std::numeric_limits<T>::epsilon());
	auto at = [&](L index) { // wraps
		L r = std::fmod(index, L(Size));
		if (r < 0)
			r += Size;
		auto i = static_cast<unsigned>(r) % Size;
		L ph = r - std::floor(r);
		return v[i] * (1 - ph) + v[(i + 1) % Size] * ph;
	};
	auto expect = [&](T got, L index, L rounding, const std::string &what) {
		L want = at(index);
		L tol = 4 * Eps * biggest + steepest * rounding;
		if constexpr (std::is_integral_v<T>) // rounded in either way
			tol += 1;
		PBT_CHECK(std::abs(L(got) - want) <= tol, what << " of " << Size << " is " << pbt::show(double(got)) << ", expected " << double(want) << " +- " << double(tol));
	};
	// a float value: grid points, just beside them, and others
	auto point = [&](L unit, double lo, double hi) {
		PhaseT x;
		if (c.choice(2)) {
			L k = std::floor(c.d(lo, hi) / double(unit));
			x = static_cast<PhaseT>(k * unit);
			for (auto n = c.choice(1); n; n--)
				x = std::nextafter(x, c.coin() ? PhaseT(1e9) : PhaseT(-1e9));
		} else
			x = static_cast<PhaseT>(c.d(lo, hi));
		return std::clamp(x, static_cast<PhaseT>(lo), static_cast<PhaseT>(hi));
	};
	unsigned n = static_cast<unsigned>(c.choice(3)) + 1;
	pbt::Copies copies{c};
	for (unsigned k = 0; k < n; k++) {
		copies(k, a);
		std::ostringstream o;
		o.precision(12);
		switch (c.choice(5)) {
			case 0: {
				auto x = c.choice(3) ? point(1, -3. * Size, 3. * Size) : point(1, -1000. * Size, 1000. * Size);
				o << "interp_by_index_wrap(" << x << ")";
				PBT_LOG(o.str());
				// (a negative index is moved to 0 .. Size, which rounds it)
				expect(a->interp_by_index_wrap(x), x, 4 * Eps * (std::abs(L(x)) + Size), o.str());
				if (x < 0 || x > Size)
					c.nontrivial();
				break;
			}
			case 1: {
				if (Size < 2)
					break;
				auto x = point(1, 0, Size - 1);
				o << "interp_by_index(" << x << ")";
				PBT_LOG(o.str());
				expect(a->interp_by_index(x), x, 2 * Eps, o.str());
				break;
			}
			case 2: {
				auto x = c.choice(3) ? point(L(1) / Size, -3, 3) : point(L(1) / Size, -1000, 1000);
				o << "interp_wrap(" << x << ")";
				PBT_LOG(o.str());
				expect(a->interp_wrap(x), L(x) * Size, 4 * Eps * (std::abs(L(x)) + 1) * Size, o.str());
				if (x < 0 || x > 1)
					c.nontrivial();
				break;
			}
			case 3: {
				if (Size < 2)
					break;
				auto x = point(L(1) / (Size - 1), 0, 1);
				o << "interp(" << x << ")";
				PBT_LOG(o.str());
				expect(a->interp(x), L(x) * (Size - 1), 4 * Eps * Size, o.str());
				if (x == 1)
					PBT_CHECK(a->interp(x) == a->data[Size - 1], "interp(1) is not the last element");
				if (x == 0)
					PBT_CHECK(a->interp(x) == a->data[0], "interp(0) is not the first element");
				break;
			}
			case 4:
			case 5: { // floor
				bool wrap = c.coin();
				double far = c.choice(3) ? 5 : 2000;
				auto x = wrap ? point(L(1) / Size, -far, far) : point(L(1) / (Size > 1 ? Size - 1 : 1), 0, 1);
				o << (wrap ? "closest_wrap(" : "closest(") << x << ")";
				PBT_LOG(o.str());
				T got = wrap ? a->closest_wrap(x) : a->closest(x);
				L index = wrap ? L(x) * Size : L(x) * (Size - 1);
				L err = 4 * Eps * (std::abs(index) + Size);
				bool ok = false;
				for (L e : {index - err, index, index + err}) {
					L r = std::fmod(std::floor(e), L(Size));
					if (r < 0)
						r += Size;
					ok |= got == static_cast<T>(v[static_cast<unsigned>(r)]);
				}
				PBT_CHECK(ok, o.str() << " of " << Size << " is " << pbt::show(double(got)) << ", expected element " << double(std::floor(index)));
				if (x < 0 || x > 1)
					c.nontrivial();
				break;
			}
		}
	}
}

PBT("InterpArray", 3, "a negative phase or index, or one after the first cycle") {
	switch (c.choice(12)) {
		case 9: interp_array<float, 8, float>(c); break;
		case 10: interp_array<double, 3, float>(c); break;
		case 11: interp_array<int, 4, double>(c); break;
		case 12: interp_array<float, 100, float>(c); break;
		case 7: interp_array<int16_t, 6, float>(c); break;
		case 8: interp_array<int, 11, float>(c); break;
		case 0: interp_array<float, 4, float>(c); break;
		case 1: interp_array<float, 2, float>(c); break;
		case 2: interp_array<float, 7, float>(c); break;
		case 3: interp_array<double, 5, double>(c); break;
		case 4: interp_array<double, 16, double>(c); break;
		case 5: interp_array<float, 1, float>(c); break;
		case 6: interp_array<float, 33, double>(c); break;
	}
}

template<size_t N, typename T>
static void table(pbt::Ctx &c) {
	T min, max;
	if (c.coin()) {
		min = static_cast<T>(c.i(-20, 20));
		max = min + static_cast<T>(c.i(1, 40));
	} else {
		min = static_cast<T>(c.f(-10, 10));
		max = min + static_cast<T>(c.f(0.01f, 50));
	}
	bool falling = c.choice(7) == 7; // from the larger to the smaller one
	if (falling)
		std::swap(min, max);
	auto points = std::make_unique<std::array<T, N>>();
	double biggest = 0, steepest = 0;
	for (size_t i = 0; i < N; i++) {
		(*points)[i] = static_cast<T>(c.coin() ? c.i(-5, 5) : c.f(-100, 100));
		biggest = std::max(biggest, std::abs(double((*points)[i])));
		if (i)
			steepest = std::max(steepest, std::abs(double((*points)[i]) - double((*points)[i - 1])));
	}
	auto t = std::make_unique<LookupTable<N, T>>(min, max, *points);
	auto p = *points;
	points.reset(); // the table has its own copy
	unsigned n = static_cast<unsigned>(c.choice(5)) + 1;
	PBT_LOG("LookupTable of " << N << " from " << min << " to " << max);
	pbt::Copies copies{c};
	for (unsigned k = 0; k < n; k++) {
		copies(k, t);
		T x;
		switch (c.choice(6)) {
			case 5: x = (c.coin() ? 1 : -1) * (c.coin() ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max()); break;
			case 0: x = static_cast<T>(min + (max - min) * c.choice(N - 1) / (N - 1)); break; // at a point
			case 1: x = min; break;
			case 2: x = max; break;
			case 3: x = min + (falling ? 1 : -1) * static_cast<T>(c.f(0, 1e6f)); break;
			case 4: x = max + (falling ? -1 : 1) * static_cast<T>(c.f(0, 1e6f)); break;
			default: x = min + (max - min) * static_cast<T>(c.f(0, 1)); break;
		}
		T got = c.coin() ? std::as_const(*t).lookup(x) : std::as_const(*t)(x);
		double idx = (double(x) - double(min)) / (double(max) - double(min)) * (N - 1);
		double want;
		if (idx <= 0)
			want = p[0];
		else if (idx >= N - 1)
			want = p[N - 1];
		else {
			auto i = static_cast<size_t>(idx);
			double ph = idx - double(i);
			want = p[i] * (1 - ph) + p[i + 1] * ph;
			if (i > 0)
				c.nontrivial();
		}
		double eps = std::numeric_limits<T>::epsilon();
		double span = std::abs(double(max) - double(min));
		double tol = 8 * eps * (biggest + 1) + steepest * 8 * eps * N * (1 + (std::abs(double(min)) + std::abs(double(max))) / span);
		PBT_CHECK(std::abs(double(got) - want) <= tol, "lookup(" << pbt::show(x) << ") of " << N << " points from " << min << " to " << max << " is " << pbt::show(got) << ", expected " << want << " +- " << tol);
		if (falling ? x >= min : x <= min)
			PBT_CHECK(got == p[0], "lookup() at or below the minimum is not the first point");
		if (falling ? x <= max : x >= max)
			PBT_CHECK(std::abs(double(got) - double(p[N - 1])) <= (x != max ? 0 : tol), "lookup() at or above the maximum is not the last point");
	}
}

PBT("LookupTable", 2, "a lookup between two points, after the first two") {
	switch (c.choice(3)) {
		case 0: table<2, float>(c); break;
		case 1: table<3, float>(c); break;
		case 2: table<10, float>(c); break;
		case 3: table<5, double>(c); break;
	}
}

// Tables generated from a function
struct R1 {
	static constexpr float min = -2.f, max = 3.f;
};
struct R2 {
	static constexpr float min = 0.f, max = 10.f;
};
struct R3 {
	static constexpr float min = 5.f, max = 6.f;
};
static constexpr auto square = [](auto x) { return x * x; };
static constexpr auto cubic = [](auto x) { return x * x * x - 2 * x; };
static constexpr auto line = [](auto x) { return 3 * x - 1; };

template<size_t N, typename R, typename F>
static void generated(pbt::Ctx &c, F f) {
	static constexpr auto t = LookupTable<N>::template generate<R>(F{});
	float x = c.coin() ? R::min + (R::max - R::min) * static_cast<float>(c.choice(N - 1)) / (N - 1) : c.f(R::min - 1, R::max + 1);
	PBT_LOG("lookup " << x);
	double cl = std::clamp<double>(x, R::min, R::max);
	double idx = (cl - R::min) / (double(R::max) - R::min) * (N - 1);
	double i = std::min<double>(std::floor(idx), N - 2), ph = idx - i;
	auto node = [&](double k) { return double(f(R::min + k * (double(R::max) - R::min) / (N - 1))); };
	double want = node(i) * (1 - ph) + node(i + 1) * ph;
	double tol = 1e-5 * std::max(1., N / 50.) * (1 + std::abs(node(i)) + std::abs(node(i + 1)));
	PBT_CHECK(std::abs(t.lookup(x) - want) <= tol, "generated table of " << N << " from " << R::min << " to " << R::max << ": lookup(" << pbt::show(x) << ") is " << pbt::show(t.lookup(x)) << ", expected " << want);
	if (x > R::min && x < R::max)
		c.nontrivial();
}
PBT("LookupTable generated from a function", 1, "a value inside of the range") {
	switch (c.choice(4)) {
		case 0: generated<3, R1>(c, square); break;
		case 1: generated<17, R1>(c, cubic); break;
		case 2: generated<2, R2>(c, line); break;
		case 3: generated<100, R2>(c, square); break;
		case 4: generated<6, R3>(c, cubic); break;
	}
}

// More elements than one or two bytes count
static double pattern(uint64_t i) { return double((i * 2654435761u >> 7) & 1023) - 500; }

template<size_t N, typename T>
static void large_table(pbt::Ctx &c) {
	static const auto t = [] {
		auto points = std::make_unique<std::array<T, N>>();
		for (size_t i = 0; i < N; i++)
			(*points)[i] = static_cast<T>(pattern(i));
		return std::make_unique<LookupTable<N, T>>(T(-3), T(5), *points);
	}();
	T x = c.choice(3) ? static_cast<T>(c.d(-3, 5)) : static_cast<T>(-3 + 8. * c.choice(N - 1) / (N - 1));
	double idx = (double(x) + 3) / 8 * (N - 1);
	auto i = std::min<size_t>(static_cast<size_t>(std::max(idx, 0.)), N - 2);
	double want = pattern(i) + (pattern(i + 1) - pattern(i)) * (idx - double(i));
	double got = (*t)(x);
	PBT_LOG("LookupTable of " << N << " at " << double(x));
	PBT_CHECK(std::abs(got - want) <= 2 * 1024 * N * 16. * std::numeric_limits<T>::epsilon() + 1e-6, "lookup(" << pbt::show(x) << ") is " << pbt::show(got) << ", expected " << want << " near point " << idx);
	if (i > 255)
		c.nontrivial();
}

template<size_t N, typename T, typename PhaseT>
static void large_array(pbt::Ctx &c) {
	static const auto a = [] {
		auto p = pbt::fresh<InterpArray<T, N, PhaseT>>();
		for (unsigned i = 0; i < N; i++) {
			if (i & 1)
				p->set(i, static_cast<T>(pattern(i)));
			else
				(*p)[i] = static_cast<T>(pattern(i));
		}
		return p;
	}();
	double idx = c.choice(3) ? c.d(0, N - 1) : double(c.choice(N - 1));
	auto x = static_cast<PhaseT>(idx);
	auto i = static_cast<unsigned>(x);
	double f = double(x) - double(i), want = pattern(i) * (1 - f) + (f > 0 ? pattern((i + 1) % N) * f : 0);
	double tol = 1e-3 + 2 * 1024 * N * 16. * std::numeric_limits<PhaseT>::epsilon();
	PBT_LOG("InterpArray of " << N << " at " << double(x));
	PBT_CHECK(a->get(i) == T(pattern(i)) && std::as_const(*a)[i] == T(pattern(i)), "element " << i);
	auto near = [&](double got, const char *what) { PBT_CHECK(std::abs(got - want) <= tol, what << " at index " << double(x) << " is " << pbt::show(got) << ", expected " << want); };
	near(a->interp_by_index(x), "interp_by_index()");
	near(a->interp_by_index_wrap(x + PhaseT(N) * PhaseT(c.choice(3))), "interp_by_index_wrap()");
	if (f == 0 || i + 1 < N)
		near(a->interp(x / PhaseT(N - 1)), "interp()");
	near(a->interp_wrap(x / PhaseT(N)), "interp_wrap()");
	double l = a->closest_wrap(x / PhaseT(N)), g = 16. * N * std::numeric_limits<PhaseT>::epsilon();
	PBT_CHECK(l == pattern(i) || (f < g && l == pattern((i + N - 1) % N)) || (f > 1 - g && l == pattern((i + 1) % N)), "closest_wrap() at index " << double(x) << " is " << pbt::show(l));
	if (i > 255)
		c.nontrivial();
}

PBT("Large tables", 1, "a value after the first 256 points") {
	switch (c.choice(5)) {
		case 0: return large_table<300, float>(c);
		case 1: return large_table<70000, double>(c);
		case 2: return large_array<300, float, float>(c);
		case 3: return large_array<70000, float, double>(c);
		case 4: return large_array<258, double, double>(c);
		case 5: return generated<300, R1>(c, cubic);
	}
}
