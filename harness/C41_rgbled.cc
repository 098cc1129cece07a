// @cases 1000000
// @thorough 20
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include "util/rgbled.hh"

struct Led {
	int *out;
	void set(uint8_t v) const {
		*out = v;
	}
};
// Other kinds of LEDs
struct InvertedLed {
	int *out;
	void set(uint8_t v) const {
		*out = 255 - uint8_t(~v & 0xff);
	}
};
struct SharedLed {
	int *out{};
	mutable unsigned calls = 0;
	template<typename V>
	void set(V v) const {
		*out = static_cast<uint8_t>(v);
		calls++;
	}
};
using RGB = std::array<int, 3>;

static RGB gen(pbt::Ctx &c) {
	RGB x;
	for (auto &k : x)
		k = c.choice(2) ? static_cast<int>(c.choice(255)) : c.one_of({0, 1, 127, 128, 254, 255});
	return x;
}
static Color col(RGB x) {
	return Color(static_cast<uint8_t>(x[0]), static_cast<uint8_t>(x[1]), static_cast<uint8_t>(x[2]));
}
static std::string show(RGB x) {
	return "(" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + ")";
}
static constexpr double Cycle = 4294967296.;

// A phase, known up to the rounding of its step
struct Phase {
	double at = 0, step = 0, slack = 0;
	double slack_per_step = 0;
};
static unsigned tri(double ph) { // the highest 8 bits of a triangle
	ph = std::fmod(std::floor(ph) + 4 * Cycle, Cycle);
	double v = ph < Cycle / 2 ? 2 * ph : 2 * Cycle - 1 - 2 * ph;
	return static_cast<unsigned>(v / 16777216.);
}

template<typename R, typename G, typename B, unsigned Rate>
static void led_of(pbt::Ctx &c) {
	auto out = std::make_unique<RGB>(RGB{-1, -1, -1});
	constexpr bool same = std::is_same_v<R, G> && std::is_same_v<R, B>;
	using L = std::conditional_t<!same, std::conditional_t<Rate == 1000, MixedRgbLed<R, G, B>, MixedRgbLed<R, G, B, Rate>>,
								 std::conditional_t<Rate == 1000, RgbLed<R>, RgbLed<R, Rate>>>;
	auto l = std::make_unique<L>(R{&(*out)[0]}, G{&(*out)[1]}, B{&(*out)[2]});
	PBT_LOG("RgbLed updated at " << Rate);
	RGB base{0, 0, 0}, breathe{255, 0, 0}, flash{255, 255, 255}, cal{128, 128, 128};
	Phase fader, flasher; // the flasher counts down, and is over
	bool smooth = false, flashed = false, ended = false, breathed = false, over_base = false;
	auto mix = [](RGB a, RGB b, unsigned p) {
		RGB r;
		for (unsigned i = 0; i < 3; i++)
			r[i] = (a[i] * static_cast<int>(256 - p) + b[i] * static_cast<int>(p)) >> 8;
		return r;
	};
	auto shown = [&](RGB x) {
		for (unsigned i = 0; i < 3; i++)
			x[i] = std::min(255, x[i] * cal[i] / 128);
		return x;
	};
	auto update = [&] {
		l->update_animation();
		fader.at = std::fmod(fader.at + fader.step, Cycle);
		fader.slack += fader.slack_per_step;
		flasher.at = std::max(0., flasher.at - flasher.step);
		if (flasher.at > 0)
			flasher.slack += flasher.slack_per_step;
		std::vector<RGB> ok;
		double lo = flasher.at - flasher.slack, hi = flasher.at + flasher.slack;
		bool flashing = flasher.at > 0 || (flasher.step && flasher.slack > flasher.step * 1e-3 && hi > 0 && lo <= 0);
		if (flashing || hi > 0) {
			// still flashing, or just at the end of it
			if (hi > 0 && (flasher.at > 0 || flasher.slack > 0)) {
				if (smooth)
					for (double x : {lo, flasher.at, hi}) {
						x = std::clamp(x, 0., Cycle - 1);
						ok.push_back(shown(mix(base, flash, static_cast<unsigned>(x / 16777216.))));
					}
				else
					ok.push_back(shown(flash));
			}
		}
		if (lo <= 0) {
			for (double x : {fader.at - fader.slack, fader.at, fader.at + fader.slack})
				ok.push_back(shown(mix(base, breathe, tri(x))));
			flasher.at = std::max(flasher.at, 0.);
		}
		// settle which one it was
		bool is_ok = std::find(ok.begin(), ok.end(), *out) != ok.end();
		PBT_CHECK(is_ok, "the LED shows " << show(*out) << ", expected " << show(ok[0]) << " (of " << ok.size() << ")" << (flasher.at > 0 ? " while flashing" : fader.step ? " while breathing" : ""));
		ended |= flashed && flasher.at <= 0;
		breathed |= flasher.at <= 0 && fader.step && tri(fader.at) > 0;
		over_base |= base != RGB{0, 0, 0};
	};
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, l);
		switch (c.weighted({8, 2, 1, 1, 2, 2, 3, 1, 1, 2})) {
			case 0: {
				unsigned k = static_cast<unsigned>(c.choice(c.coin() ? 3 : 60)) + 1;
				PBT_LOG("update x" << k);
				while (k--)
					update();
				break;
			}
			case 1:
				base = gen(c);
				PBT_LOG("set_base_color " << show(base));
				l->set_base_color(col(base));
				break;
			case 2: {
				RGB x = gen(c);
				PBT_LOG("blend_base_color " << show(x));
				l->blend_base_color(col(x));
				for (unsigned k = 0; k < 3; k++)
					base[k] = base[k] / 2 + x[k] / 2;
				break;
			}
			case 3: {
				RGB x = gen(c);
				for (unsigned k = 0; k < 3; k++)
					x[k] = std::min(x[k], 255 - base[k]);
				PBT_LOG("add_base_color " << show(x));
				l->add_base_color(col(x));
				for (unsigned k = 0; k < 3; k++)
					base[k] += x[k];
				break;
			}
			case 4:
			case 5: {
				smooth = c.coin();
				flash = gen(c);
				float ms = static_cast<float>(c.choice(c.coin() ? 40 : 3000)) + (c.coin() ? 1.f : 0.f);
				if (c.chance(1, 20))
					ms = c.f(0, 1); // like 1 ms
				else if (c.chance(1, 8))
					ms = static_cast<float>(c.sz(3000, c.coin() ? 100000 : 5000000)); // more than an hour
				PBT_LOG((smooth ? "fade_once_ms " : "flash_once_ms ") << show(flash) << " " << ms);
				if (smooth)
					l->fade_once_ms(col(flash), ms);
				else
					l->flash_once_ms(col(flash), ms);
				double t = std::max(1., std::floor(double(ms)));
				flasher.at = Cycle - 1;
				flasher.step = std::min(std::floor(4294967295. / Rate) * 1000 / t, 4294967295.); // shorter than one update: the next one ends it
				flasher.slack = 0;
				flasher.slack_per_step = 1 + flasher.step * 4e-7;
				flashed = true;
				break;
			}
			case 6: {
				breathe = gen(c);
				float f = c.coin() ? static_cast<float>(c.choice(8)) : c.f(0, 20);
				PBT_LOG("breathe " << show(breathe) << " " << f);
				l->breathe(col(breathe), f);
				fader.step = double(f) * std::floor(4294967295. / Rate);
				fader.slack_per_step = fader.step ? 1 + fader.step * 2e-7 : 0;
				break;
			}
			case 7:
				PBT_LOG("reset_breathe");
				l->reset_breathe();
				fader = {};
				break;
			case 8:
				cal = gen(c);
				PBT_LOG("set_color_calibration " << show(cal));
				l->set_color_calibration({static_cast<uint8_t>(cal[0]), static_cast<uint8_t>(cal[1]), static_cast<uint8_t>(cal[2])});
				break;
			case 9: { // directly
				RGB x = gen(c), want = x;
				switch (c.choice(2)) {
					case 0: l->set_color(col(x)); break;
					case 1: {
						auto b = static_cast<uint8_t>(c.choice(255));
						l->set_color(col(x), b);
						for (auto &k : want)
							k = k * b / 256;
						break;
					}
					default: {
						float b = static_cast<float>(c.choice(256)) / 256.f;
						l->set_color(col(x), b);
						for (auto &k : want)
							k = static_cast<int>(k * b);
						break;
					}
				}
				PBT_LOG("set_color " << show(x));
				PBT_CHECK(*out == want, "set_color() shows " << show(*out) << ", expected " << show(want));
				break;
			}
		}
	}
	if (ended && breathed && over_base)
		c.nontrivial();
}
PBT("RgbLed", 1, "a flash ended, it breathed, and the base color is not off") {
	switch (c.choice(6)) {
		case 0: return led_of<Led, Led, Led, 60>(c);
		case 1: return led_of<Led, Led, Led, 2>(c);
		case 4: return led_of<Led, SharedLed, InvertedLed, 1000>(c);
		case 5: return led_of<SharedLed, InvertedLed, Led, 250>(c);
		case 6: return led_of<Led, Led, Led, 48000>(c);
		default: return led_of<Led, Led, Led, 1000>(c);
	}
}
