// @cases 18000000
// @thorough 10
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include <concepts>
#include "util/math.hh"
#include "util/cortex_math.hh"

namespace M = MathTools;
using i64 = long long;

template<typename T>
static T number(pbt::Ctx &c) {
	if constexpr (std::is_floating_point_v<T>)
		switch (c.choice(7)) {
			case 0: return static_cast<T>(c.d(-1, 1) * 1e-30);
			case 1: return static_cast<T>(c.d(-1, 1) * 1e30);
			case 2: return std::nextafter(static_cast<T>(c.i(-4, 4)), T(c.i(-100, 100)));
			case 3:
			case 4: return static_cast<T>(c.d(-1000, 1000));
			default: return static_cast<T>(c.i(-4, 4));
		}
	else
		return c.any_int<T>();
}

template<typename T>
static void ordering(pbt::Ctx &c) {
	T x = number<T>(c), a = number<T>(c), b = c.chance(1, 4) ? a : number<T>(c);
	if (c.chance(1, 6))
		x = a;
	PBT_LOG(pbt::show(x) << " " << pbt::show(a) << " " << pbt::show(b));
	PBT_EQ(M::max(a, b), a < b ? b : a, "max(" << pbt::show(a) << ", " << pbt::show(b) << ")");
	PBT_EQ(M::min(a, b), a < b ? a : b, "min(" << pbt::show(a) << ", " << pbt::show(b) << ")");
	T lo = std::min(a, b), hi = std::max(a, b);
	PBT_EQ(M::constrain(x, lo, hi), std::clamp(x, lo, hi), "constrain(" << pbt::show(x) << ", " << pbt::show(lo) << ", " << pbt::show(hi) << ")");
	if constexpr (std::is_floating_point_v<T>) {
		auto r = M::between(x, lo, hi);
		PBT_EQ(r.has_value(), x >= lo && x <= hi, "between(" << x << ", " << lo << ", " << hi << ") has a value");
		if (r)
			PBT_EQ(*r, static_cast<T>(x - lo), "between(" << x << ", " << lo << ", " << hi << ")");
		PBT_EQ(M::abs_diff(a, b), static_cast<T>(std::abs(a - b)), "abs_diff()");
		PBT_EQ(M::diff(a, b), static_cast<T>(std::abs(a - b)), "diff()");
	} else {
		// where the result fits in the type
		__int128 span = __int128(hi) - lo;
		auto r = M::between(x, lo, hi);
		PBT_EQ(r.has_value(), x >= lo && x <= hi, "between(" << pbt::show(x) << ", " << pbt::show(lo) << ", " << pbt::show(hi) << ") has a value");
		if (span <= __int128(std::numeric_limits<T>::max())) {
			if (r)
				PBT_CHECK(__int128(*r) == __int128(x) - lo, "between(" << pbt::show(x) << ", " << pbt::show(lo) << ", " << pbt::show(hi) << ") is " << pbt::show(*r));
			PBT_CHECK(__int128(M::abs_diff(a, b)) == span, "abs_diff(" << pbt::show(a) << ", " << pbt::show(b) << ") is " << pbt::show(M::abs_diff(a, b)));
			PBT_CHECK(__int128(M::diff(a, b)) == span, "diff(" << pbt::show(a) << ", " << pbt::show(b) << ") is " << pbt::show(M::diff(a, b)));
		}
	}
	if (a != b)
		c.nontrivial();
}

PBT("constrain, min, max, between, diff", 2, "different limits") {
	switch (c.choice(6)) {
		case 0: ordering<int32_t>(c); break;
		case 1: ordering<uint32_t>(c); break;
		case 2: ordering<float>(c); break;
		case 3: ordering<uint8_t>(c); break;
		case 4: ordering<int16_t>(c); break;
		case 5: ordering<int64_t>(c); break;
		case 6: ordering<double>(c); break;
	}
}

PBT("map_value", 1, "an input range which does not start at 0") {
	if (c.chance(1, 4)) { // different types: an integer to a float, and narrow ones
		int in_min = c.i(-4095, 4095), in_max = c.i(-4095, 4095), x = c.i(-6000, 6000);
		if (in_min == in_max)
			in_max++;
		float out_min = c.f(-100, 100), out_max = c.f(-100, 100);
		PBT_LOG("map_value(" << x << ", " << in_min << ", " << in_max << ", " << out_min << ", " << out_max << ")");
		double want = double(x - in_min) * (double(out_max) - out_min) / (in_max - in_min) + out_min;
		double tol = 1e-6 * (200 + std::abs(want - out_min) * 3);
		double got = M::map_value(x, in_min, in_max, out_min, out_max);
		PBT_CHECK(std::abs(got - want) <= tol, "map_value() of an int to floats is " << got << ", expected " << want);
		got = M::map_value(static_cast<float>(x), in_min, in_max, out_min, out_max);
		PBT_CHECK(std::abs(got - want) <= tol, "map_value() of a float in a range of ints is " << got << ", expected " << want);
		got = M::map_value(static_cast<int16_t>(x), static_cast<int16_t>(in_min), static_cast<int16_t>(in_max), out_min, out_max);
		PBT_CHECK(std::abs(got - want) <= tol, "map_value() of an int16_t to floats is " << got << ", expected " << want);
		uint8_t to = static_cast<uint8_t>(c.choice(255));
		int y = std::clamp(x, std::min(in_min, in_max), std::max(in_min, in_max));
		double w8 = double(y - in_min) * to / (in_max - in_min);
		int got8 = M::map_value(y, in_min, in_max, uint8_t{0}, to);
		PBT_CHECK(std::abs(got8 - w8) < 1 + 1e-9, "map_value() to a uint8_t is " << got8 << ", expected " << w8);
		c.nontrivial();
		return;
	}
	if (c.coin()) {
		int in_min = c.i(-1000, 1000), in_max = c.i(-1000, 1000);
		if (in_min == in_max)
			in_max++;
		int out_min = c.i(-10000, 10000), out_max = c.i(-10000, 10000);
		int x = c.i(-1500, 1500);
		if (c.chance(1, 4)) { // to a small range, whose products fit
			in_min = c.i(-10000000, 10000000);
			in_max = c.i(-10000000, 10000000);
			if (in_min == in_max)
				in_max++;
			x = c.i(-10000000, 10000000);
			out_min = c.i(-50, 50);
			out_max = c.i(-50, 50);
		}
		if (c.chance(1, 4))
			x = c.coin() ? in_min : in_max;
		PBT_LOG("map_value(" << x << ", " << in_min << ", " << in_max << ", " << out_min << ", " << out_max << ")");
		int got = M::map_value(x, in_min, in_max, out_min, out_max);
		int want = (x - in_min) * (out_max - out_min) / (in_max - in_min) + out_min;
		double exact = double(x - in_min) * (out_max - out_min) / (in_max - in_min) + out_min;
		PBT_CHECK(std::abs(got - exact) < 1 + 1e-9, "map_value() is " << got << ", expected " << exact);
		(void)want;
		if (x == in_min)
			PBT_EQ(got, out_min, "map_value() of the minimum");
		if (x == in_max)
			PBT_EQ(got, out_max, "map_value() of the maximum");
		if (in_min)
			c.nontrivial();
	} else {
		float in_unit = std::ldexp(1.f, c.choice(2) ? 0 : c.i(-20, 20)), out_unit = std::ldexp(1.f, c.choice(2) ? 0 : c.i(-20, 20));
		float in_min = in_unit * c.f(-10, 10), in_max = in_min + in_unit * c.f(0.1f, 20), out_min = out_unit * c.f(-100, 100), out_max = out_unit * c.f(-100, 100);
		if (c.chance(1, 4))
			std::swap(in_min, in_max);
		float x = in_min + (in_max - in_min) * c.f(-0.5f, 1.5f);
		PBT_LOG("map_value(" << x << ", " << in_min << ", " << in_max << ", " << out_min << ", " << out_max << ")");
		double want = (double(x) - in_min) * (double(out_max) - out_min) / (double(in_max) - in_min) + out_min;
		PBT_CHECK(std::abs(M::map_value(x, in_min, in_max, out_min, out_max) - want) <= 0.02 * double(out_unit), "map_value() is " << M::map_value(x, in_min, in_max, out_min, out_max) << ", expected " << want);
		c.nontrivial();
	}
}

template<uint32_t Max>
static void int_interpolate(pbt::Ctx &c) {
	int32_t lim = static_cast<int32_t>((1u << 30) / Max);
	int32_t a = c.coin() ? c.i(-std::min(lim, 200), std::min(lim, 200)) : c.i(-lim, lim);
	int32_t b = c.coin() ? c.i(-std::min(lim, 200), std::min(lim, 200)) : c.i(-lim, lim);
	int32_t ph = c.chance(1, 5) ? (c.coin() ? 0 : static_cast<int32_t>(Max)) : static_cast<int32_t>(c.choice(Max));
	PBT_LOG("interpolate<" << Max << ">(" << a << ", " << b << ", " << ph << ")");
	int32_t got = M::interpolate<Max>(a, b, ph);
	double want = (double(b) * ph + double(a) * (double(Max) - ph)) / Max;
	PBT_CHECK(std::abs(got - want) < 1 + 1e-9, "interpolate<" << Max << ">(" << a << ", " << b << ", " << ph << ") is " << got << ", expected " << want);
	if (ph == 0)
		PBT_EQ(got, a, "interpolate() at phase 0");
	if (ph == static_cast<int32_t>(Max))
		PBT_EQ(got, b, "interpolate() at the maximum phase");
	if (a < 0 || b < 0)
		c.nontrivial();
}

PBT("interpolate", 2, "negative values") {
	switch (c.choice(5)) {
		case 0: {
			float unit = std::ldexp(1.f, c.choice(2) ? 0 : c.i(-20, 20));
			float a = unit * c.f(-100, 100), b = unit * c.f(-100, 100), ph = c.f(0, 1);
			PBT_LOG("interpolate(" << a << ", " << b << ", " << ph << ")");
			double want = a + (double(b) - a) * ph;
			PBT_CHECK(std::abs(M::interpolate(a, b, ph) - want) <= 5e-5 * double(unit), "interpolate() is " << M::interpolate(a, b, ph) << ", expected " << want);
			PBT_CHECK(std::abs(M::interpolate3(a, b, ph) - want) <= 5e-5 * double(unit), "interpolate3() is " << M::interpolate3(a, b, ph) << ", expected " << want);
			float eps = 2.5e-7f * std::max(std::abs(a), std::abs(b));
			PBT_CHECK(std::abs(M::interpolate(a, b, 0.f) - a) <= eps, "interpolate() at phase 0");
			PBT_CHECK(std::abs(M::interpolate(a, b, 1.f) - b) <= eps, "interpolate() at phase 1");
			PBT_CHECK(std::abs(M::interpolate3(a, b, 0.f) - a) <= eps, "interpolate3() at phase 0");
			PBT_CHECK(std::abs(M::interpolate3(a, b, 1.f) - b) <= eps, "interpolate3() at phase 1");
			if (a < 0 || b < 0)
				c.nontrivial();
			break;
		}
		case 1: int_interpolate<256>(c); break;
		case 2: int_interpolate<10>(c); break;
		case 3: int_interpolate<4095>(c); break;
		case 4: int_interpolate<65536>(c); break;
		case 5: int_interpolate<1000000>(c); break;
	}
}

template<typename T>
static void next_pow2(pbt::Ctx &c) {
	T v = c.any_int<T>();
	PBT_LOG("next_power_of_2(" << pbt::show(v) << ") of " << sizeof(T) << " bytes");
	T want = 1;
	while (want && want < v)
		want = static_cast<T>(want << 1);
	PBT_EQ(M::next_power_of_2(v), want, "next_power_of_2(" << pbt::show(v) << ") of " << sizeof(T) << " bytes");
	if (v != want)
		c.nontrivial();
}

PBT("powers of 2", 2, "not a power of 2") {
	switch (c.choice(6)) {
		case 0: next_pow2<uint8_t>(c); break;
		case 1: next_pow2<uint16_t>(c); break;
		case 2: next_pow2<uint32_t>(c); break;
		case 3: next_pow2<uint64_t>(c); break;
		case 4: {
			auto v = c.any_int<uint64_t>();
			PBT_LOG("is_power_of_2(" << v << ")");
			PBT_EQ(M::is_power_of_2(v), std::popcount(v) == 1, "is_power_of_2(" << v << ")");
			if (std::popcount(v) != 1)
				c.nontrivial();
			break;
		}
		case 5: {
			auto v = c.any_int<uint32_t>();
			PBT_LOG("log2_floor(" << v << ")");
			unsigned want = 0;
			for (uint32_t x = v; x > 1; x /= 2)
				want++;
			PBT_EQ(M::log2_floor(v), want, "log2_floor(" << v << ")");
			if (std::popcount(v) != 1)
				c.nontrivial();
			break;
		}
		case 6: {
			unsigned a = static_cast<unsigned>(c.choice(20)), b = static_cast<unsigned>(c.choice(40));
			PBT_LOG("ipow(" << a << ", " << b << ")");
			unsigned want = 1;
			for (unsigned k = 0; k < b; k++)
				want *= a;
			PBT_EQ(M::ipow(a, b), want, "ipow(" << a << ", " << b << ")");
			PBT_CHECK(M::bipolar_type_range(int8_t{}) == 127 && M::bipolar_type_range(int16_t{}) == 32767 && M::bipolar_type_range(uint8_t{}) == 127 && M::bipolar_type_range(int32_t{}) == 2147483647u, "bipolar_type_range()");
			PBT_CHECK(M::Log2<1>::val == 0 && M::Log2<2>::val == 1 && M::Log2<3>::val == 1 && M::Log2<1000>::val == 9 && M::Log2<1024>::val == 10 && M::Log2<0x80000000u>::val == 31, "Log2");
			if (b > 1)
				c.nontrivial();
			break;
		}
	}
}

template<uint32_t Max, typename T = uint32_t>
static void wrap_max(pbt::Ctx &c) {
	T v = static_cast<T>(c.choice(std::min<uint64_t>(uint64_t{Max} * 20, static_cast<uint64_t>(std::numeric_limits<T>::max()))));
	PBT_LOG("wrap<" << Max << ">(" << +v << ") of " << sizeof(T) << " bytes");
	PBT_EQ(+(M::wrap<Max, T>(v)), +static_cast<T>(v % Max), "wrap<" << Max << ">(" << +v << ")");
	if constexpr (std::is_same_v<T, uint32_t>)
		PBT_EQ(M::wrap<Max>(v), v % Max, "wrap<" << Max << ">(" << v << ")");
	if (v >= Max)
		c.nontrivial();
}
PBT("wrap", 2, "a value outside of the range") {
	if (c.choice(2)) {
		bool wide = c.chance(1, 4);
		int min = wide ? c.i(-200000, 200000) : c.i(-500, 500), max = min + (wide ? c.i(0, 1000000) : c.i(0, 60)), range = max - min + 1;
		int v = min + c.i(-20 * range, 20 * range);
		PBT_LOG("wrap(" << v << ", " << min << ", " << max << ")");
		int want = ((v - min) % range + range) % range + min;
		PBT_EQ(M::wrap(v, min, max), want, "wrap(" << v << ", " << min << ", " << max << ")");
		if (!wide)
			PBT_EQ(M::wrap<int16_t>(static_cast<int16_t>(v), static_cast<int16_t>(min), static_cast<int16_t>(max)), static_cast<int16_t>(want), "wrap(" << v << ", " << min << ", " << max << ") of 16 bits");
		if (v < min || v > max)
			c.nontrivial();
	} else
		switch (c.choice(11)) {
			case 0: wrap_max<1>(c); break;
			case 1: wrap_max<7>(c); break;
			case 2: wrap_max<64>(c); break;
			case 3: wrap_max<1000>(c); break;
			case 4: wrap_max<70000>(c); break;
			case 5: wrap_max<3000000000u>(c); break;
			case 6: wrap_max<3000000000u, uint64_t>(c); break;
			case 7: wrap_max<1000, uint64_t>(c); break;
			case 8: wrap_max<24, uint8_t>(c); break;
			case 9: wrap_max<200, uint8_t>(c); break;
			case 10: wrap_max<3000, uint16_t>(c); break;
			case 11: wrap_max<40000, uint16_t>(c); break;
		}
}

static i64 plateau_ref(i64 v, i64 width, i64 center) {
	i64 high = center + width / 2, low = center - width / 2;
	return v > high ? v - high : v < low ? v - low : 0;
}
PBT("plateau", 1, "a value outside of the plateau") {
	int32_t v = c.coin() ? c.i(-100, 100) : c.i(-1000000, 1000000), center = c.coin() ? 0 : c.coin() ? c.i(-1000, 1000) : c.i(-1000000, 1000000);
	uint32_t width = static_cast<uint32_t>(c.coin() ? c.choice(100) : c.choice(100000));
	PBT_LOG("plateau(" << v << ", " << width << ", " << center << ")");
	i64 want = plateau_ref(v, width, center);
	PBT_EQ(i64(M::plateau(v, width, center)), want, "plateau(" << v << ", " << width << ", " << center << ")");
	PBT_EQ(i64(M::plateau<60>(v, center)), plateau_ref(v, 60, center), "plateau<60>(" << v << ", " << center << ")");
	PBT_EQ(i64(M::plateau<61, 10>(v)), plateau_ref(v, 61, 10), "plateau<61, 10>(" << v << ")");
	PBT_EQ(i64(M::plateau<60>(v)), plateau_ref(v, 60, 0), "plateau<60>(" << v << ")");
	PBT_EQ(i64(M::plateau<60, int64_t>(v)), plateau_ref(v, 60, 0), "plateau<60, int64_t>(" << v << ")");
	PBT_EQ(i64(M::plateau<1000>(v, center)), plateau_ref(v, 1000, center), "plateau<1000>(" << v << ", " << center << ")");
	PBT_EQ(i64(M::plateau<70000, 40000>(v)), plateau_ref(v, 70000, 40000), "plateau<70000, 40000>(" << v << ")");
	PBT_EQ(i64(M::plateau<70000>(v, center)), plateau_ref(v, 70000, center), "plateau<70000>(" << v << ", " << center << ")");
	if (want)
		c.nontrivial();
}

PBT("bytes", 1, "the bytes differ") {
	auto w = c.any_int<uint32_t>();
	auto h = static_cast<uint16_t>(w), g = c.any_int<uint16_t>();
	PBT_LOG(w << " " << g);
	auto b = [](uint64_t v, unsigned k) { return static_cast<uint32_t>(v >> (8 * k) & 0xff); };
	PBT_EQ(M::swap_bytes16(h), static_cast<uint16_t>(b(h, 0) << 8 | b(h, 1)), "swap_bytes16(" << h << ")");
	PBT_EQ(M::swap_bytes32(w), b(w, 0) << 24 | b(w, 1) << 16 | b(w, 2) << 8 | b(w, 3), "swap_bytes32(" << w << ")");
	PBT_EQ(M::swap_bytes_and_combine(h, g), b(h, 0) << 24 | b(h, 1) << 16 | b(g, 0) << 8 | b(g, 1), "swap_bytes_and_combine(" << h << ", " << g << ")");
	if (b(w, 0) != b(w, 1) && b(w, 2) != b(w, 3))
		c.nontrivial();
}

PBT("saturate", 2, "the value does not fit") {
	auto v = c.any_int<int32_t>();
	uint32_t sat = static_cast<uint32_t>(c.choice(9) == 9 ? c.any_int<uint32_t>() : c.choice(33));
	if (c.coin() && sat >= 1 && sat <= 32) // near the limits
		v = static_cast<int32_t>((c.coin() ? -(i64{1} << (sat - 1)) : (i64{1} << (sat - 1))) + c.i(-2, 2));
	PBT_LOG("saturate " << v << " to " << sat);
	i64 want = v;
	if (sat >= 1 && sat <= 32)
		want = std::clamp<i64>(v, -(i64{1} << (sat - 1)), (i64{1} << (sat - 1)) - 1);
	PBT_EQ(i64(M::signed_saturate(v, sat)), want, "signed_saturate(" << v << ", " << sat << ")");
	if (want != v)
		c.nontrivial();
	want = v;
	if (sat <= 31)
		want = std::clamp<i64>(v, 0, (i64{1} << sat) - 1);
	PBT_EQ(i64(M::unsigned_saturate(v, sat)), want, "unsigned_saturate(" << v << ", " << sat << ")");
}

PBT("floats", 1, "not a number, infinite, or nearly so") {
	uint32_t bits = c.any_int<uint32_t>();
	switch (c.choice(5)) {
		case 0: bits = 0x7f800000; break;
		case 1: bits = 0xff800000; break;
		case 2: bits = 0x7f7fffff | static_cast<uint32_t>(c.choice(1)) << 31; break;
		case 3: bits = (0x7f800000 + static_cast<uint32_t>(c.choice(0x7fffff))) | static_cast<uint32_t>(c.choice(1)) << 31; break;
	}
	float f = std::bit_cast<float>(bits);
	PBT_LOG(f << " (" << bits << ")");
	PBT_EQ(M::is_finite_fastmath(f), (bits & 0x7f800000) != 0x7f800000, "is_finite_fastmath() of " << pbt::show(f));
	PBT_EQ(M::is_inf_fastmath(f), (bits & 0x7fffffff) == 0x7f800000, "is_inf_fastmath() of " << pbt::show(f));
	if (!std::isnan(f))
		PBT_EQ(M::f_abs(f), std::fabs(f), "f_abs() of " << pbt::show(f));
	if ((bits & 0x7f000000) == 0x7f000000)
		c.nontrivial();
}

PBT("randomNumber", 1, "a range of at least 2 values") {
	int lo = c.i(-1000, 1000), hi = lo + (c.choice(2) ? c.i(0, 2000) : c.i(0, 1000000));
	if (c.choice(5) == 5) {
		int span = (hi - lo) % 1000 * 1000;
		lo *= 1000;
		hi = lo + span;
	}
	std::srand(static_cast<unsigned>(c.choice(1 << 20)));
	PBT_LOG("randomNumber(" << lo << ", " << hi << ")");
	bool differ = false;
	int first = M::randomNumber(lo, hi);
	for (int k = 0; k < 30; k++) {
		int r = M::randomNumber(lo, hi);
		PBT_CHECK(r >= lo && r <= hi, "randomNumber(" << lo << ", " << hi << ") is " << r);
		differ |= r != first;
		float f = M::randomNumber(static_cast<float>(lo), static_cast<float>(hi));
		PBT_CHECK(f >= lo && f <= hi, "randomNumber(" << lo << ".f, " << hi << ".f) is " << f);
	}
	if (hi > lo + 100)
		PBT_CHECK(differ, "30 random numbers are all " << first);
	if (hi > lo)
		c.nontrivial();
}

PBT("array_adj_diff", 1, "always") {
	static constexpr std::array<int, 5> a{3, 10, -4, -4, 100};
	static constexpr auto d = M::array_adj_diff(a);
	static_assert(d.size() == 4);
	auto i = c.choice(3);
	PBT_EQ(d[i], a[i + 1] - a[i], "array_adj_diff()[" << i << "]");
	static constexpr std::array<float, 3> f{1.f, 4.f, 2.5f};
	static constexpr auto e = M::array_adj_diff(f);
	PBT_CHECK(e[0] == 3.f && e[1] == -1.5f, "array_adj_diff() of floats");
	c.nontrivial();
}
