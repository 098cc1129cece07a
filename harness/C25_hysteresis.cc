// @cases 15000000
// @thorough 6
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include "util/math.hh"
#include "util/schmitt_trigger.hh"

// Inputs near and between two thresholds. Never closer to one of them than the
// rounding of the sums could matter, unless it is exact.
struct Thresholds {
	float off, on;
};
static Thresholds thresholds(pbt::Ctx &c) {
	float a = static_cast<float>(c.choice(1024)) / 1024.f;
	float b = static_cast<float>(c.choice(1024)) / 1024.f;
	if (c.chance(1, 8)) {
		a = a * 8 - 4;
		b = b * 8 - 4;
	}
	return {std::min(a, b), std::max(a, b)};
}
static float input(pbt::Ctx &c, Thresholds t) {
	float d = static_cast<float>(c.choice(63) + 1) / 4096.f;
	switch (c.choice(6)) {
		case 0: return t.off - d;
		case 1: return t.off + d;
		case 2: return t.on - d;
		case 3: return t.on + d;
		case 4: return t.off + (t.on - t.off) * 0.5f;
		case 5: return static_cast<float>(c.choice(2048)) / 1024.f - 0.5f + 1.f / 8192.f;
		default: return c.one_of({-0.01f, 0.f, 1.f, 1.01f, -10.f, 10.f, 1e30f, -1e30f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()});
	}
}

// Rises only above `on`, falls only below `off`
struct Model {
	bool high = false;
	unsigned held_in_between = 0, rises = 0, falls = 0;
	void step(Thresholds t, float x) {
		if (!high && x > t.on) {
			high = true;
			rises++;
		} else if (high && x < t.off) {
			high = false;
			falls++;
		} else if (x > t.off && x < t.on)
			held_in_between++;
	}
	bool nontrivial() const {
		return rises + falls >= 3 && held_in_between >= 2;
	}
};
#define RULE "at least 3 changes of the output, and 2 inputs between the thresholds"

PBT("hysteresis_gate", 1, RULE) {
	auto t = thresholds(c);
	PBT_LOG("off " << t.off << " on " << t.on);
	Model m;
	float out = 0;
	if (c.coin()) {
		out = 1.f;
		m.high = true;
	}
	unsigned n = static_cast<unsigned>(c.choice(14));
	for (unsigned i = 0; i < n; i++) {
		float x = input(c, t);
		if (x == t.on || x == t.off)
			continue; // documented one way or the other by ">" and "<" only
		PBT_LOG(pbt::show(x));
		m.step(t, x);
		float prev = out;
		out = MathTools::hysteresis_gate(t.off, t.on, out, x);
		PBT_CHECK(out == (m.high ? 1.f : 0.f), "hysteresis_gate(" << pbt::show(t.off) << ", " << pbt::show(t.on) << ", " << prev << ", " << pbt::show(x) << ") is " << pbt::show(out));
	}
	if (m.nontrivial())
		c.nontrivial();
}

// on = thresh, off = thresh - feedback
PBT("hysteresis_feedback", 1, RULE) {
	auto t = thresholds(c);
	float coef = t.on - t.off;
	PBT_LOG("feedback " << coef << " thresh " << t.on);
	Model m;
	float out = 0;
	unsigned n = static_cast<unsigned>(c.choice(14));
	for (unsigned i = 0; i < n; i++) {
		float x = input(c, t);
		if (x == t.on || x == t.off)
			continue;
		PBT_LOG(pbt::show(x));
		m.step(t, x);
		float prev = out;
		out = MathTools::hysteresis_feedback(coef, t.on, out, x);
		PBT_CHECK(out == (m.high ? 1.f : 0.f), "hysteresis_feedback(" << pbt::show(coef) << ", " << pbt::show(t.on) << ", " << prev << ", " << pbt::show(x) << ") is " << pbt::show(out));
	}
	if (m.nontrivial())
		c.nontrivial();
}

PBT("SchmittTrigger", 1, RULE) {
	bool defaults = c.chance(1, 8);
	auto t = thresholds(c);
	if (defaults)
		t = {0.4f, 0.6f};
	bool one = !defaults && t.off < 0.6f && c.chance(1, 8); // only the lower one given
	if (one)
		t.on = 0.6f;
	PBT_LOG("low " << t.off << " high " << t.on);
	auto s = defaults ? pbt::fresh<cpputil::SchmittTrigger>() : one ? std::make_unique<cpputil::SchmittTrigger>(t.off) : std::make_unique<cpputil::SchmittTrigger>(t.off, t.on);
	Model m;
	bool rose = false, fell = false; // events not read yet: the last one only
	PBT_CHECK(!s->is_high() && !s->just_went_high() && !s->just_went_low(), "the initial state is low, without events");
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, s);
		if (c.choice(3)) {
			float x = c.choice(9) == 9 ? (c.coin() ? t.on : t.off) : input(c, t);
			PBT_LOG(pbt::show(x));
			auto r = m.rises, f = m.falls;
			m.step(t, x);
			s->process(x);
			if (m.rises != r) {
				rose = true;
				fell = false;
			}
			if (m.falls != f) {
				fell = true;
				rose = false;
			}
		} else {
			PBT_LOG("read");
			if (c.coin())
				PBT_EQ(s->just_went_high(), std::exchange(rose, false), "just_went_high()");
			if (c.coin())
				PBT_EQ(s->just_went_low(), std::exchange(fell, false), "just_went_low()");
			if (c.chance(1, 6)) {
				s->clear_events();
				rose = fell = false;
			}
			if (c.chance(1, 12)) {
				PBT_LOG("reset");
				s->reset();
				rose = fell = m.high = false;
			}
		}
		PBT_EQ(s->is_high(), m.high, "is_high()");
		PBT_EQ(static_cast<bool>(*s), m.high, "as a bool");
	}
	PBT_EQ(s->just_went_high(), rose, "just_went_high() in the end");
	PBT_EQ(s->just_went_low(), fell, "just_went_low() in the end");
	if (m.nontrivial())
		c.nontrivial();
}

PBT("RisingSchmittTrigger", 1, RULE) {
	bool defaults = c.chance(1, 8);
	auto t = thresholds(c);
	if (defaults)
		t = {0.4f, 0.6f};
	bool one = !defaults && t.off < 0.6f && c.chance(1, 8); // only the lower one given
	if (one)
		t.on = 0.6f;
	PBT_LOG("low " << t.off << " high " << t.on);
	auto s = defaults ? pbt::fresh<cpputil::RisingSchmittTrigger>() : one ? std::make_unique<cpputil::RisingSchmittTrigger>(t.off) : std::make_unique<cpputil::RisingSchmittTrigger>(t.off, t.on);
	Model m;
	unsigned n = static_cast<unsigned>(c.choice(14));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, s);
		float x = c.choice(9) == 9 ? (c.coin() ? t.on : t.off) : input(c, t);
		PBT_LOG(pbt::show(x));
		auto r = m.rises;
		m.step(t, x);
		PBT_EQ(s->update(x), m.rises != r, "update(" << pbt::show(x) << ")");
	}
	if (m.nontrivial())
		c.nontrivial();
}
