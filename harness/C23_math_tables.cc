// @cases 20000000
// @thorough 6
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include <concepts>
#include "util/math.hh"
#include "util/math_tables.hh"

// Reference: the functions of <cmath>, in double. The tolerances are what
// linear interpolation between 2048 points of 6 decimals, and rounding the
// argument, can make.
static constexpr double Pi = 3.14159265358979323846;

// An argument: near a point of the table, or anywhere
static float near_point(pbt::Ctx &c, double unit, double lo, double hi) {
	double x = c.d(lo, hi);
	if (c.choice(2)) {
		x = std::floor(x / unit) * unit;
		if (c.coin())
			x += unit * c.one_of({0.25, 0.5, 0.75, 1e-3, -1e-3});
	}
	return static_cast<float>(std::clamp(x, lo, hi));
}

static void expect(const char *what, double got, double x, double want, double tol) {
	PBT_CHECK(std::abs(got - want) <= tol, what << "(" << pbt::show(x) << ") is " << pbt::show(got) << ", expected " << pbt::show(want) << " +- " << tol);
}

static float angle(pbt::Ctx &c, double period) {
	double r = c.choice(2) ? period * 1.2 : c.choice(3) ? 20 : 1000;
	return near_point(c, period / 2048, -r, r);
}

PBT("sin, cos", 3, "an angle outside of 0 .. 2 pi") {
	float x = angle(c, 2 * Pi);
	PBT_LOG(x);
	double tol = 3.5e-6 + 2.5e-7 * std::abs(x);
	switch (c.choice(3)) {
		case 0: expect("sin", MathTools::sin(x), x, std::sin(double(x)), tol); break;
		case 1: expect("cos", MathTools::cos(x), x, std::cos(double(x)), tol); break;
		case 2: expect("cos_close", MathTools::cos_close(x), x, std::cos(double(x)), tol + 2 * Pi / 2048 * 1.01); break;
		case 3: {
			float p = near_point(c, 1. / 2048, c.coin() ? 0 : -50, c.coin() ? 1 : 50);
			PBT_LOG(p);
			expect("sin01", MathTools::sin01(p), p, std::sin(2 * Pi * p), 3.5e-6 + 1e-6 * std::abs(p));
			break;
		}
	}
	if (x < 0 || x > 6.3)
		c.nontrivial();
}

PBT("tan", 1, "an angle outside of 0 .. pi") {
	float x = c.choice(3) ? near_point(c, Pi / 2048, -5, 5) : angle(c, Pi);
	PBT_LOG(x);
	double t = std::tan(double(x));
	if (std::abs(t) > 50 || std::abs(x) > 30) // too near to a pole
		return;
	double err = 2e-6 + 3e-7 * std::abs(x);
	if (c.coin())
		expect("tan", MathTools::tan(x), x, t, (1 + t * t) * (err + 1.2e-6 * std::abs(t)));
	else
		expect("tan_close", MathTools::tan_close(x), x, t, (1 + t * t) * (err + Pi / 2048 * (1.02 + 0.004 * std::abs(t))));
	if (x < 0 || x > 3.15)
		c.nontrivial();
}

PBT("pow2", 2, "a negative exponent, or one above 5") {
	float x = near_point(c, 5. / 2047, c.coin() ? -5 : -100, c.coin() ? 5 : 100);
	if (c.chance(1, 6)) // whole numbers
		x = static_cast<float>(c.i(-100, 100));
	PBT_LOG(x);
	double want = std::exp2(double(x));
	expect("pow2", MathTools::pow2(x), x, want, want * (2e-6 + 2.5e-7 * std::abs(x)));
	if (x < 0 || x > 5)
		c.nontrivial();
}

PBT("setPitchMultiple", 1, "a negative value, or one outside of -1 .. 1") {
	float x = near_point(c, 1. / 2047, -1.2, 1.2);
	if (c.chance(1, 10))
		x = c.f(-1e6f, 1e6f);
	PBT_LOG(x);
	double want = std::exp2(5 * std::clamp<double>(x, -1, 1));
	expect("setPitchMultiple", MathTools::setPitchMultiple(x), x, want, want * 3e-6);
	if (x < 0 || x > 1)
		c.nontrivial();
}

PBT("audioFreqToNorm", 1, "a frequency inside of 20 .. 20000") {
	float x = static_cast<float>(c.choice(3) ? 20 + 19980. / 2047 * (static_cast<double>(c.choice(2047)) + c.d(0, 1)) : c.d(-100, 30000));
	PBT_LOG(x);
	double f = std::clamp<double>(x, 20, 20000);
	double step = 19980. / 2047, k = std::floor((f - 20) / step), cell = 20 + step * std::max(0., k - 1e-3);
	double want = std::log(f / 20) / std::log(1000.);
	// linear interpolation of a logarithm
	double tol = 2e-6 + step * step / 8 / (cell * cell) / std::log(1000.) * 1.1 + 3e-3 / cell;
	expect("audioFreqToNorm", MathTools::audioFreqToNorm(x), x, want, tol);
	if (x <= 20)
		expect("audioFreqToNorm", MathTools::audioFreqToNorm(x), x, 0, 3e-6);
	if (x >= 20000)
		expect("audioFreqToNorm", MathTools::audioFreqToNorm(x), x, 1, 3e-6);
	if (x > 20 && x < 20000)
		c.nontrivial();
}

PBT("faster_sine", 1, "an argument which is not a multiple of 1/4") {
	float x = near_point(c, 1. / 64, 0, 1);
	PBT_LOG(x);
	double y = 2. * x - 1;
	expect("faster_sine", MathTools::faster_sine(x), x, 4 * (y - y * std::abs(y)), 1e-6);
	expect("faster_sine", MathTools::faster_sine(x), x, -std::sin(2 * Pi * x), 0.0565);
	if (x * 4 != std::floor(x * 4))
		c.nontrivial();
}

PBT("table entries", 2, "an entry after the first one") {
	unsigned i = static_cast<unsigned>(c.choice(2047));
	PBT_LOG(i);
	auto one = [&](const char *what, float got, double want, double tol) {
		PBT_CHECK(std::abs(got - want) <= tol, what << "[" << i << "] is " << pbt::show(got) << ", expected " << pbt::show(want));
	};
	one("sinTable", sinTable[i], std::sin(2 * Pi * i / 2048), 1.2e-6);
	one("exp5Table", exp5Table[i], std::exp2(5. * i / 2047), 1.2e-6 * std::exp2(5. * i / 2047));
	one("exp10Table", exp10Table[i], std::exp2(10. * i / 2047), 1.2e-6 * std::exp2(10. * i / 2047));
	one("logTable", logTable[i], std::log(20 + 19980. * i / 2047), 3e-6);
	double t = std::tan(Pi * i / 2048);
	if (std::abs(t) < 1000)
		one("tanTable", tanTable[i], t, 2e-6 + 6e-8 * (1 + t * t));
	// the steepness of a power grows: it rises from 0 to 1, ever faster
	if (i)
		PBT_CHECK(pow9Table[i] >= pow9Table[i - 1], "pow9Table falls at " << i);
	if (i > 1)
		PBT_CHECK(pow9Table[i] - 2 * pow9Table[i - 1] + pow9Table[i - 2] >= -2.2e-6, "pow9Table rises more slowly at " << i);
	PBT_CHECK(pow9Table[0] == 0 && std::abs(pow9Table[2047] - 1) < 1e-6, "pow9Table's first or last value");
	if (i)
		c.nontrivial();
}
