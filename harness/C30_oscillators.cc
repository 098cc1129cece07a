// @cases 6000000
// @thorough 8
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include "util/oscs.hh"

static constexpr uint64_t Max = 0xffffffffu;

// One unit of frequency adds this to the phase, which has 2^32 units per cycle
template<int Rate>
static constexpr uint32_t units = static_cast<uint32_t>(Max / Rate);

static uint32_t frequency(pbt::Ctx &c, unsigned rate) {
	switch (c.choice(3)) {
		case 0: return static_cast<uint32_t>(c.choice(8));
		case 1: return static_cast<uint32_t>(c.choice(rate));
		case 2: return static_cast<uint32_t>(rate / (c.choice(15) + 1));
		default: return static_cast<uint32_t>(c.choice(std::min(rate, 1000u)));
	}
}

static uint32_t phase(pbt::Ctx &c) {
	switch (c.choice(2)) {
		case 0: return static_cast<uint32_t>(c.one_of({0ull, 1ull, 0x7fffffffull, 0x80000000ull, 0x80000001ull, 0xffffffffull}) + c.choice(3));
		case 1: return static_cast<uint32_t>(c.choice(0xffff) << 16);
		default: return static_cast<uint32_t>(c.choice(Max));
	}
}

static uint32_t triangle(uint32_t ph) {
	return static_cast<uint32_t>(ph <= Max / 2 ? 2ull * ph : 2 * Max + 1 - 2ull * ph);
}

#define RULE "the phase went past the end of a cycle, and the frequency changed in the middle"
template<int Rate>
static void triangle_osc(pbt::Ctx &c) {
	uint32_t f = frequency(c, Rate);
	std::unique_ptr<TriangleOscillator<Rate>> o;
	if (c.coin())
		o = std::make_unique<TriangleOscillator<Rate>>(f);
	else {
		o = pbt::fresh<TriangleOscillator<Rate>>();
		f = 0;
	}
	PBT_LOG("TriangleOscillator " << Rate << " at " << f);
	uint32_t ph = 0, inc = f * units<Rate>;
	bool wrapped = false, changed = false;
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, o);
		switch (c.weighted({4, 4, 4, 2, 1, 1, 1, 1, 1, 1})) {
			case 0: {
				PBT_LOG("update");
				o->update();
				wrapped |= ph + inc < ph;
				ph += inc;
				PBT_EQ(o->val(), triangle(ph), "val() at phase " << ph);
				PBT_EQ(o->val(), triangle(ph), "val() again");
				break;
			}
			case 1: {
				PBT_LOG("process");
				wrapped |= ph + inc < ph;
				ph += inc;
				PBT_EQ(o->process(), triangle(ph), "process() to phase " << ph);
				break;
			}
			case 2: {
				PBT_LOG("process_float");
				wrapped |= ph + inc < ph;
				ph += inc;
				float got = o->process_float();
				PBT_CHECK(std::abs(got - double(triangle(ph)) / Max) <= 3e-7 && got >= 0 && got <= 1, "process_float() is " << pbt::show(got) << " at phase " << ph);
				break;
			}
			case 3:
				ph = phase(c);
				PBT_LOG("set_phase " << ph);
				o->set_phase(ph);
				break;
			case 4:
				f = frequency(c, Rate);
				PBT_LOG("set_frequency " << f);
				o->set_frequency(f);
				inc = f * units<Rate>;
				changed = true;
				break;
			case 5: {
				int g = c.i(-Rate, Rate);
				PBT_LOG("set_frequency int " << g);
				o->set_frequency(g);
				inc = static_cast<uint32_t>(g * static_cast<int64_t>(units<Rate>));
				changed = true;
				break;
			}
			case 6: {
				// slow ones too; exact if the product has at most 24 bits
				float g = static_cast<float>(c.choice(255)) / 256.f + static_cast<float>(c.choice(3));
				PBT_LOG("set_frequency float " << g);
				o->set_frequency(g);
				double want = double(g) * units<Rate>;
				o->set_phase(0);
				o->update();
				double got = o->val() / 2.;
				PBT_CHECK(std::abs(got - want) <= 1.6 + want * 2e-7, "a step of the phase is " << got << " at " << g << " Hz, expected " << want);
				o->set_frequency(f);
				o->set_phase(ph);
				inc = f * units<Rate>;
				break;
			}
			case 7: {
				uint32_t ms = static_cast<uint32_t>(c.choice(c.coin() ? 20000 : c.choice(2) ? 20 : c.coin() ? 0x40000 : 0xfffff000u)) + 1;
				if (Rate < 1000 && ms < 1000)
					ms += 1000;
				PBT_LOG("set_period_ms " << ms);
				o->set_period_ms(ms);
				inc = static_cast<uint32_t>(uint64_t{units<Rate>} * 1000 / ms);
				changed = true;
				break;
			}
			case 8: {
				uint32_t s = static_cast<uint32_t>(c.choice(c.choice(3) ? 100 : c.coin() ? 100000 : 20000000)) + 1;
				PBT_LOG("set_period_sec " << s);
				o->set_period_sec(s);
				inc = units<Rate> / s;
				changed = true;
				break;
			}
			case 9: { // a whole cycle
				unsigned k = 0;
				uint64_t done = 0;
				PBT_LOG("many updates");
				for (; done < Max && k < 300; k++) {
					o->update();
					done += inc;
					wrapped |= ph + inc < ph;
					ph += inc;
				}
				PBT_EQ(o->val(), triangle(ph), "val() after " << k << " updates");
				break;
			}
		}
	}
	if (wrapped && changed)
		c.nontrivial();
}
PBT("TriangleOscillator", 1, RULE) {
	switch (c.choice(4)) {
		case 0: return triangle_osc<48000>(c);
		case 4: return triangle_osc<192000>(c);
		case 1: return triangle_osc<1000>(c);
		case 2: return triangle_osc<60>(c);
		default: return triangle_osc<44100>(c);
	}
}

template<int Rate, bool Sine>
static void ramp_or_sine(pbt::Ctx &c) {
	using Osc = std::conditional_t<Sine, SineOscillator<Rate>, RampOscillator<Rate>>;
	uint32_t f = frequency(c, Rate);
	std::unique_ptr<Osc> o;
	if (c.coin())
		o = std::make_unique<Osc>(f);
	else {
		o = pbt::fresh<Osc>();
		f = 0;
	}
	PBT_LOG((Sine ? "SineOscillator " : "PhaseAccum ") << Rate << " at " << f);
	uint32_t ph = 0, inc = f * units<Rate>;
	bool wrapped = false, changed = false;
	unsigned n = static_cast<unsigned>(c.choice(16));
	auto step = [&] {
		wrapped |= ph + inc < ph;
		ph += inc;
	};
	auto value = [&] { // which advances nothing
		for (int again = 0; again < 2; again++)
			if constexpr (Sine) {
				double want = (std::sin(2 * M_PI * (double(ph) / Max)) + 1) / 2;
				uint32_t got = o->val();
				PBT_CHECK(std::abs(got / double(Max) - want) < 3e-6, "val() is " << got << ", " << got / double(Max) << " of the range, expected " << want << " at phase " << ph << (again ? ", the second time" : ""));
			} else {
				PBT_EQ(o->val(), ph, "val()");
				float got = o->val_float();
				PBT_CHECK(std::abs(got - double(ph) / Max) < 2e-7 && got >= 0 && got <= 1, "val_float() is " << pbt::show(got) << " at phase " << ph);
			}
	};
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, o);
		switch (c.weighted({3, 3, 3, 3, 2, 2})) {
			case 0:
				PBT_LOG("update");
				o->update();
				step();
				value();
				break;
			case 1: {
				PBT_LOG("process");
				step();
				auto got = o->process();
				if constexpr (Sine) {
					double want = (std::sin(2 * M_PI * (double(ph) / Max)) + 1) / 2;
					PBT_CHECK(std::abs(got / double(Max) - want) < 3e-6, "process() is " << got << ", " << got / double(Max) << " of the range, expected " << want << " at phase " << ph);
				} else
					PBT_EQ(got, ph, "process()");
				break;
			}
			case 2: {
				step();
				if constexpr (Sine) {
					PBT_LOG("process_bipolar");
					double want = std::sin(2 * M_PI * (double(ph) / Max));
					float got = o->process_bipolar();
					PBT_CHECK(std::abs(got - want) < 4e-6 && got >= -1 && got <= 1, "process_bipolar() is " << pbt::show(got) << ", expected " << want << " at phase " << ph);
				} else {
					PBT_LOG("process_float");
					float got = o->process_float();
					PBT_CHECK(std::abs(got - double(ph) / Max) < 2e-7 && got >= 0 && got <= 1, "process_float() is " << pbt::show(got) << " at phase " << ph);
				}
				break;
			}
			case 3: {
				step();
				if constexpr (Sine) {
					PBT_LOG("process_unipolar");
					double want = (std::sin(2 * M_PI * (double(ph) / Max)) + 1) / 2;
					float got = o->process_unipolar();
					PBT_CHECK(std::abs(got - want) < 3e-6 && got >= 0 && got <= 1, "process_unipolar() is " << pbt::show(got) << ", expected " << want << " at phase " << ph);
				} else {
					PBT_LOG("Process");
					PBT_EQ(o->Process(), ph, "Process()");
				}
				break;
			}
			case 4:
				ph = phase(c);
				PBT_LOG("set_phase " << ph);
				o->set_phase(ph);
				break;
			case 5:
				f = frequency(c, Rate);
				PBT_LOG("set_frequency " << f);
				o->set_frequency(f);
				inc = f * units<Rate>;
				changed = true;
				break;
		}
		if (c.coin())
			value();
	}
	if (wrapped && changed)
		c.nontrivial();
}
PBT("PhaseAccum", 1, RULE) {
	if (c.coin())
		return ramp_or_sine<48000, false>(c);
	if (c.coin())
		return ramp_or_sine<200000, false>(c);
	return ramp_or_sine<1000, false>(c);
}
PBT("SineOscillator", 1, RULE) {
	if (c.coin())
		return ramp_or_sine<48000, true>(c);
	if (c.coin())
		return ramp_or_sine<200000, true>(c);
	return ramp_or_sine<1000, true>(c);
}

template<int Rate>
static void down_counter(pbt::Ctx &c) {
	auto d = pbt::fresh<DownCounter<Rate>>();
	uint32_t ph = 0xffffffffu, inc = 0xffffffffu;
	bool ended = false, restarted = false;
	PBT_LOG("DownCounter " << Rate);
	PBT_EQ(d->val(), ph, "val() in the beginning");
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, d);
		switch (c.weighted({6, 2, 2, 2, 1})) {
			case 0: {
				unsigned run = static_cast<unsigned>(c.choice(8)) + 1;
				PBT_LOG("update x" << run);
				while (run--) {
					d->update();
					ph = inc && ph > inc ? ph - inc : 0;
					PBT_EQ(d->val(), ph, "val()");
				}
				ended |= ph == 0;
				break;
			}
			case 1:
				PBT_LOG("reset");
				d->reset();
				ph = 0xffffffffu;
				restarted |= ended;
				break;
			case 2: {
				uint32_t f = frequency(c, Rate);
				PBT_LOG("set_frequency " << f);
				d->set_frequency(f);
				inc = f * units<Rate>;
				break;
			}
			case 3: {
				uint32_t ms = static_cast<uint32_t>(c.choice(c.coin() ? 100000 : c.choice(3) ? 20 : 5000000));
				PBT_LOG("set_period_ms " << ms);
				d->set_period_ms(ms);
				// measure the step, then go back
				d->set_phase(0xffffffffu);
				d->update();
				inc = 0xffffffffu - d->val();
				double want = std::min(double(units<Rate>) * 1000 / ms, 4294967295.); // shorter than one update: the next one ends it
				PBT_CHECK(std::abs(inc - want) <= 1 + want * 4e-7, "a step is " << inc << " for " << ms << " ms, expected " << want);
				d->set_phase(ph);
				break;
			}
			case 4:
				ph = phase(c);
				PBT_LOG("set_phase " << ph);
				d->set_phase(ph);
				break;
		}
		PBT_EQ(d->val(), ph, "val()");
	}
	if (restarted)
		c.nontrivial();
}
PBT("DownCounter", 1, "it reached 0, and was restarted") {
	if (c.coin())
		return down_counter<48000>(c);
	if (c.choice(2) == 2)
		return c.coin() ? down_counter<60>(c) : down_counter<300>(c);
	if (c.coin())
		return down_counter<200000>(c);
	return down_counter<1000>(c);
}

PBT("OneShot", 1, "a pulse ended by itself, and another one was stopped or restarted") {
	// dyadic rates and widths: exact
	unsigned e = static_cast<unsigned>(c.choice(8)) + 3;
	bool dyadic = c.choice(3);
	float rate = dyadic ? float(1u << e) : 48000.f;
	auto o = !dyadic && c.coin() ? pbt::fresh<OneShot>() : std::make_unique<OneShot>(rate);
	PBT_LOG("OneShot at " << rate);
	int left = 0; // updates which return true; one more or less if not dyadic
	double time = 0; // if dyadic: what is left, in seconds
	int slack = 0;
	bool ended = false, cut = false;
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, o);
		switch (c.weighted({6, 4, 1, 1, 1})) {
			case 0: {
				unsigned run = static_cast<unsigned>(c.choice(c.coin() ? 2 : 40)) + 1;
				PBT_LOG("update x" << run);
				while (run--) {
					bool got = o->update();
					if (dyadic) {
						PBT_EQ(got, time > 0, "update() with " << time << " s left");
						if (got) {
							time -= 1. / double(rate);
							ended |= time <= 0;
						}
						continue;
					}
					left--;
					if (left >= slack)
						PBT_CHECK(got, "the pulse ended early");
					else if (left < -slack) {
						PBT_CHECK(!got, "the pulse goes on after its end");
						ended |= left == -slack - 1;
						if (left < -1000)
							left = -1000;
					}
				}
				break;
			}
			case 1: {
				int k = static_cast<int>(c.choice(60));
				PBT_LOG("start " << k << " updates");
				cut |= dyadic ? time > 0 : left > slack;
				o->start(static_cast<float>(k) / rate);
				left = k;
				time = k / double(rate);
				slack = k ? 1 : 0;
				break;
			}
			case 2:
				PBT_LOG("stop");
				cut |= dyadic ? time > 0 : left > slack;
				o->stop();
				left = 0;
				time = 0;
				slack = 0;
				break;
			case 3:
				PBT_LOG("set_update_rate_hz 0");
				o->set_update_rate_hz(c.coin() ? 0.f : -100.f);
				break;
			case 4:
				if (dyadic) {
					int r = static_cast<int>(c.choice(14)) - 4;
					rate = std::ldexp(1.f, r);
					PBT_LOG("set_update_rate_hz " << rate);
					o->set_update_rate_hz(rate);
				}
				break;
		}
	}
	if (ended && cut)
		c.nontrivial();
}
