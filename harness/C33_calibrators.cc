// @cases 16000000
// @thorough 8
#include "pbt.hh"
#include "util/calibrator.hh"
#include "util/voct_calibrator.hh"

static constexpr double Eps = 1.2e-7;

static float value(pbt::Ctx &c) {
	switch (c.choice(3)) {
		case 0: return static_cast<float>(c.i(-10, 10));
		case 1: return c.f(-1, 1);
		case 2: return static_cast<float>(c.i(-8388608, 8388607));
		default: return c.f(-10, 10);
	}
}

PBT("Calibrator", 2, "a slope other than 1 and an offset other than 0") {
	std::unique_ptr<Calibrator> k;
	double slope = 1, offset = 0;
	double tol_off = 0; // how far the offset can be from the exact one
	unsigned how = static_cast<unsigned>(c.choice(5));
	auto target_low = value(c), target_high = value(c), low = value(c), high = value(c);
	if (how == 0) {
		k = pbt::fresh<Calibrator>();
	} else if (how <= 2) {
		float s = c.coin() ? c.f(0.001f, 4) : -c.f(0.001f, 4), o = value(c);
		if (how == 1)
			k = std::make_unique<Calibrator>(s, o);
		else {
			k = std::make_unique<Calibrator>(2.f, 3.f);
			k->set_slope_offset(s, o);
		}
		slope = s;
		offset = o;
		PBT_CHECK(k->slope() == s && k->offset() == o, "slope and offset");
	} else {
		// two points
		if (std::abs(target_high - target_low) < 0.01f * (std::abs(target_low) + 1))
			target_high = target_low + std::abs(target_low) + 1;
		if (std::abs(high - low) < 0.01f * (std::abs(low) + 1))
			high = low + std::abs(low) + 1;
		if (how == 3) {
			k = std::make_unique<Calibrator>(std::pair{target_low, target_high}, std::pair{low, high});
		} else {
			k = std::make_unique<Calibrator>(2.f, 3.f);
			if (how == 4)
				k->calibrate_chan(target_low, target_high, low, high);
			else
				k->calibrate_chan({target_low, target_high}, {low, high});
		}
		slope = (double(target_high) - target_low) / (double(high) - low);
		offset = low - target_low / slope;
		tol_off = 4 * Eps * (std::abs(low) + 4 * std::abs(target_low / slope));
		PBT_CHECK(std::abs(k->slope() - slope) <= 4 * Eps * std::abs(slope), "slope() is " << pbt::show(k->slope()) << ", expected " << pbt::show(slope));
		PBT_CHECK(std::abs(k->offset() - offset) <= tol_off, "offset() is " << pbt::show(k->offset()) << ", expected " << pbt::show(offset));
	}
	PBT_LOG("slope " << slope << " offset " << offset << " made in way " << how);
	auto tol = [&](double raw) { return 8 * Eps * (std::abs(raw) + std::abs(offset)) * std::abs(slope) + 2 * tol_off * std::abs(slope) + 1e-12; };
	auto check_adjust = [&](float raw, double want, const char *what) {
		float got = k->adjust(raw);
		PBT_CHECK(std::abs(got - want) <= tol(raw), what << ": adjust(" << pbt::show(raw) << ") is " << pbt::show(got) << ", expected " << pbt::show(want));
	};
	if (how > 2) {
		check_adjust(low, target_low, "the low point");
		check_adjust(high, target_high, "the high point");
	}
	float x = value(c);
	PBT_LOG(pbt::show(x));
	check_adjust(x, (double(x) - offset) * slope, "a value");
	double back = k->reverse_calibrate(k->adjust(x));
	PBT_CHECK(std::abs(back - x) <= 2 * tol(x) / std::abs(slope), "reverse_calibrate(adjust(" << pbt::show(x) << ")) is " << pbt::show(back));
	double rev = k->reverse_calibrate(x), want = x / slope + offset;
	PBT_CHECK(std::abs(rev - want) <= 8 * Eps * (std::abs(x / slope) + std::abs(offset)) + 2 * tol_off, "reverse_calibrate(" << pbt::show(x) << ") is " << pbt::show(rev) << ", expected " << pbt::show(want));
	if (slope != 1 && offset != 0)
		c.nontrivial();
}

// The slope is that of the latest two measurements, if they are different. The
// offset is the latest measurement of C0, or where their line(s) meet C0.
template<typename T>
static void voct(pbt::Ctx &c) {
	using V = VoctCalibrator<T>;
	constexpr bool integral = std::is_integral_v<T>;
	auto v = pbt::fresh<V>();
	std::vector<std::pair<int, double>> pts;
	std::optional<double> c0;
	double slope = 0, offset = 0, scale = 0;
	unsigned lines = 0;
	// an input with some slope and offset, and noise
	double unit = integral || c.choice(2) ? 1 : std::ldexp(1., c.i(-20, 20));
	double in_slope = integral ? double(c.i(100, sizeof(T) == 2 ? 120 : sizeof(T) == 8 ? 2000000000 : c.coin() ? 30000 : 8000000)) : unit * c.d(0.5, 2);
	if (c.chance(1, 8))
		in_slope = -in_slope;
	double in_offset = integral ? double(c.i(-500, 500)) : unit * c.d(-0.2, 0.2);
	bool exact = c.coin();
	bool used_c0 = false;
	PBT_LOG("VoctCalibrator, measuring " << in_offset << " + " << in_slope << " * octave");
	unsigned n = static_cast<unsigned>(c.choice(8));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, v);
		if (c.chance(1, 12)) {
			PBT_LOG("reset");
			v->reset();
			pts.clear();
			c0.reset();
			slope = offset = 0;
		} else if (c.chance(1, 12)) {
			PBT_LOG("None");
			v->record_measurement(V::None, T(5));
		} else {
			int note = static_cast<int>(c.choice(10));
			double m = in_offset + in_slope * note;
			if (!exact)
				m += integral ? double(c.i(-50, 50)) : unit * c.d(-0.05, 0.05);
			if (c.chance(1, 10) && !pts.empty())
				m = pts.back().second; // nothing was connected
			T t = static_cast<T>(m);
			m = double(t);
			PBT_LOG("C" << note << " is " << m);
			v->record_measurement(static_cast<typename V::Note>(note), t);
			scale = std::max({scale, std::abs(m), 10 * std::abs(slope)});
			if (note == 0) {
				c0 = m;
				offset = m;
				used_c0 = true;
			}
			pts.push_back({note, m});
			if (pts.size() >= 2) {
				auto [na, a] = pts[pts.size() - 2];
				auto [nb, b] = pts[pts.size() - 1];
				if (na != nb && a != b) {
					slope = (a - b) / (na - nb);
					if (integral)
						slope = std::trunc(slope);
					lines++;
				}
				if (!c0) {
					offset = ((a - slope * na) + (b - slope * nb)) / 2;
					if (integral)
						offset = std::trunc(offset);
				}
			}
		}
		double tol = integral ? 0 : (std::is_same_v<T, float> ? 32 * Eps : 1e-14) * (scale + 10 * std::abs(slope));
		PBT_CHECK(std::abs(double(v->slope()) - slope) <= tol, "slope() is " << pbt::show(v->slope()) << ", expected " << pbt::show(slope));
		PBT_CHECK(std::abs(double(v->offset()) - offset) <= tol, "offset() is " << pbt::show(v->offset()) << ", expected " << pbt::show(offset));
		if (c0)
			PBT_CHECK(double(v->offset()) == *c0, "offset() is " << pbt::show(v->offset()) << ", C0 was measured as " << *c0);
	}
	if (lines >= 2 || (lines && used_c0))
		c.nontrivial();
}
PBT("VoctCalibrator", 1, "2 slopes were calculated, or one and C0 was measured") {
	switch (c.choice(4)) {
		case 3: return voct<int16_t>(c);
		case 4: return voct<int64_t>(c);
		case 0: return voct<float>(c);
		case 1: return voct<int>(c);
		default: return voct<double>(c);
	}
}
