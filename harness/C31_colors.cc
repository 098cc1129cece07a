// @cases 20000000
// @thorough 8
#include <bit>
#include "pbt.hh"
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"

using RGB = std::array<int, 3>;

static uint8_t comp(pbt::Ctx &c) {
	return c.choice(2) ? static_cast<uint8_t>(c.choice(255)) : c.one_of<uint8_t>({0, 1, 7, 8, 127, 128, 248, 254, 255});
}
static RGB gen(pbt::Ctx &c) {
	return {comp(c), comp(c), comp(c)};
}
static Color col(RGB x) {
	return Color(static_cast<uint8_t>(x[0]), static_cast<uint8_t>(x[1]), static_cast<uint8_t>(x[2]));
}
static RGB rgb(Color x) {
	return {x.red(), x.green(), x.blue()};
}
static std::string show(RGB x) {
	return "(" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + ")";
}
static void same(Color got, RGB want, const char *what) {
	PBT_CHECK(rgb(got) == want, what << " is " << show(rgb(got)) << ", expected " << show(want));
}
// Truncated, where the exact value may be rounded first
static void trunc_near(Color got, std::array<double, 3> want, const char *what) {
	for (unsigned i = 0; i < 3; i++) {
		int g = rgb(got)[i];
		PBT_CHECK(g <= want[i] + 1e-4 && g > want[i] - 1 - 1e-4, what << ": component " << i << " is " << g << ", expected " << pbt::show(want[i]) << " truncated");
	}
}

PBT("Color", 3, "two different colors and a phase which is not at an end") {
	RGB a = gen(c), b = gen(c);
	if (unsigned alike = static_cast<unsigned>(c.choice(11)); alike > 7) { // equal, or but for one component
		RGB d = b;
		b = a;
		if (alike < 11)
			b[alike - 8] = d[alike - 8];
	}
	PBT_LOG(show(a) << " " << show(b));
	Color x = col(a), y = col(b);
	same(x, a, "the color");
	same(Color{}, {0, 0, 0}, "the default");
	same(*pbt::fresh<Color>(), {0, 0, 0}, "the default, not zeroed before");
	PBT_EQ(x == y, a == b, "==");
	PBT_EQ(x != y, a != b, "!=");
	RGB want;
	auto each = [&](auto f) {
		for (unsigned i = 0; i < 3; i++)
			want[i] = f(a[i], b[i]);
		return want;
	};
	same(x.blend(y), each([](int p, int q) { return p / 2 + q / 2; }), "blend(that)");
	same(x.combine(y), each([](int p, int q) { return std::min(p + q, 255); }), "combine(that)");
	Color::Adjustment adj{static_cast<uint8_t>(b[0]), static_cast<uint8_t>(b[1]), static_cast<uint8_t>(b[2])};
	same(x.adjust(adj), each([](int p, int q) { return std::min(p * q / 128, 255); }), "adjust(that)");
	// more than white is not defined on all platforms
	if (a[0] + b[0] <= 255 && a[1] + b[1] <= 255 && a[2] + b[2] <= 255)
		same(x + y, each([](int p, int q) { return p + q; }), "+");
	auto p8 = comp(c);
	PBT_LOG("phase " << +p8);
	same(x.blend(y, p8), each([&](int p, int q) { return (p * (255 - p8) + q * p8) / 255; }), "blend(that, uint8_t)");
	auto p32 = static_cast<uint32_t>(uint32_t{p8} << 24) | static_cast<uint32_t>(c.choice(0xffffff));
	same(x.blend(y, p32), each([&](int p, int q) { return (p * (256 - p8) + q * p8) / 256; }), "blend(that, uint32_t)");
	float pf = c.choice(3) ? c.f(0, 1) : c.one_of({0.f, 1.f, 0.5f});
	PBT_LOG(pbt::show(pf));
	std::array<double, 3> mix, scaled;
	for (unsigned i = 0; i < 3; i++) {
		mix[i] = a[i] * (1. - pf) + b[i] * double(pf);
		scaled[i] = a[i] * double(pf);
	}
	trunc_near(x.blend(y, pf), mix, "blend(that, float)");
	trunc_near(x * pf, scaled, "* float");
	if (pf == 0 || pf == 1)
		same(x.blend(y, pf), pf == 0 ? a : b, "blend(that, float) at an end");
	// 16 bits
	PBT_EQ(x.Rgb565(), static_cast<uint16_t>(a[0] / 8 << 11 | a[1] / 4 << 5 | a[2] / 8), "Rgb565()");
	if (a != b && p8 && p8 != 255 && pf > 0 && pf < 1)
		c.nontrivial();
}

PBT("16 bit colors", 3, "different colors and a phase which is not at an end") {
	uint16_t a = c.any_int<uint16_t>(), b = c.any_int<uint16_t>();
	PBT_LOG(pbt::show(a) << " " << pbt::show(b));
	Color x{a};
	same(x, {a >> 11 << 3, (a >> 5 & 63) << 2, (a & 31) << 3}, "a Color from 16 bits");
	PBT_EQ(x.Rgb565(), a, "Rgb565() of a color from 16 bits");
	auto fields = [](uint16_t v) { return RGB{v >> 11, v >> 5 & 63, v & 31}; };
	auto mix = [&](unsigned alpha) {
		unsigned p = (alpha + 4) / 8; // 32 steps
		RGB f = fields(a), g = fields(b), w;
		for (unsigned i = 0; i < 3; i++)
			w[i] = static_cast<int>((static_cast<unsigned>(f[i]) * (32 - p) + static_cast<unsigned>(g[i]) * p) / 32);
		return w;
	};
	auto p8 = comp(c);
	PBT_LOG(+p8);
	PBT_CHECK(fields(Color::blend(a, b, p8)) == mix(p8), "blend of 16 bit colors at " << +p8 << " is " << show(fields(Color::blend(a, b, p8))) << ", expected " << show(mix(p8)));
	float pf = static_cast<float>(c.choice(1024)) / 1024.f;
	unsigned alpha = static_cast<unsigned>(pf * 255.); // exact
	PBT_LOG(pf);
	PBT_CHECK(fields(Color::blend(a, b, pf)) == mix(alpha), "blend of 16 bit colors at " << pf << " is " << show(fields(Color::blend(a, b, pf))) << ", expected " << show(mix(alpha)));
	RGB xa = rgb(Color{a}), xb = rgb(Color{b}), w;
	for (unsigned i = 0; i < 3; i++)
		w[i] = static_cast<int>((static_cast<unsigned>(xa[i]) * (255 - alpha) + static_cast<unsigned>(xb[i]) * alpha) / 255) >> (i == 1 ? 2 : 3);
	PBT_CHECK(fields(Color::slow_blend(a, b, pf)) == w, "slow_blend at " << pf << " is " << show(fields(Color::slow_blend(a, b, pf))) << ", expected " << show(w));
	if (a != b && alpha && alpha != 255)
		c.nontrivial();
}

PBT("RGB565", 2, "three different components") {
	RGB a = gen(c);
	PBT_LOG(show(a));
	auto check = [](RGB565 got, int r, int g, int b, const char *what) {
		PBT_CHECK(got.r == r && got.g == g && got.b == b, what << " is " << +got.r << "," << +got.g << "," << +got.b << ", expected " << r << "," << g << "," << b);
		PBT_EQ(got.raw(), static_cast<uint16_t>(r << 11 | g << 5 | b), "raw() of " << what);
		PBT_EQ(static_cast<uint16_t>(got), static_cast<uint16_t>(r << 11 | g << 5 | b), "as 16 bits, " << what);
		PBT_EQ(+got.red(), r * 8, "red() of " << what);
		PBT_EQ(+got.green(), g * 4, "green() of " << what);
		PBT_EQ(+got.blue(), b * 8, "blue() of " << what);
	};
	check(RGB565{}, 0, 0, 0, "the default");
	check(*pbt::fresh<RGB565>(), 0, 0, 0, "the default, not zeroed before");
	check(RGB565{static_cast<uint8_t>(a[0]), static_cast<uint8_t>(a[1]), static_cast<uint8_t>(a[2])}, a[0] / 8, a[1] / 4, a[2] / 8, "of 8 bit components");
	uint32_t v = static_cast<uint32_t>(a[0] << 16 | a[1] << 8 | a[2]) | static_cast<uint32_t>(c.choice(255) << 24);
	check(RGB565{v}, a[0] / 8, a[1] / 4, a[2] / 8, "of 24 bits");
	uint16_t raw = c.any_int<uint16_t>();
	RGB565 x{v};
	uint16_t returned = (x = raw).raw();
	PBT_EQ(returned, raw, "what the assignment from 16 bits gives");
	check(x, raw >> 11, raw >> 5 & 63, raw & 31, "assigned from 16 bits");
	// of floats: 0 .. 1, and too small or too large ones
	float f[3];
	for (auto &q : f)
		q = c.choice(7) ? static_cast<float>(c.choice(1024)) / 1024.f : c.choice(3) ? c.f(1, 100) : c.coin() ? c.f(-100, 0) : c.f(-1e9f, 1e9f);
	auto k = [](float q, float n) { return static_cast<int>(std::clamp(q * n, 0.f, n - 1)); };
	PBT_LOG(f[0] << " " << f[1] << " " << f[2]);
	check(RGB565{f[0], f[1], f[2]}, k(f[0], 32), k(f[1], 64), k(f[2], 32), "of floats");
	if (a[0] != a[1] && a[1] != a[2] && a[0] != a[2])
		c.nontrivial();
}

PBT("HSVColor", 3, "a saturated, bright color") {
	uint8_t h = comp(c), s = comp(c), v = comp(c);
	PBT_LOG(+h << " " << +s << " " << +v);
	RGB got = rgb(static_cast<Color>(HSVColor{h, s, v}));
	// the largest component is the value, the smallest one goes with the saturation
	int p = s ? v * (255 - s) / 256 : v;
	PBT_EQ(*std::max_element(got.begin(), got.end()), +v, "the largest component");
	PBT_EQ(*std::min_element(got.begin(), got.end()), p, "the smallest component");
	// six regions of 43 hues, the middle component goes up and down
	int region = h / 43, part = h % 43 * 6;
	double hue = part / 256.; // 0 .. 1 within the region
	double mid = region % 2 ? v * (1 - s / 255. * hue) : v * (1 - s / 255. * (1 - hue));
	static constexpr int largest[] = {0, 1, 1, 2, 2, 0}, middle[] = {1, 0, 2, 1, 0, 2};
	int low = 3 - largest[region] - middle[region];
	PBT_EQ(got[static_cast<size_t>(largest[region])], +v, "the component which should be the largest");
	PBT_EQ(got[static_cast<size_t>(low)], p, "the component which should be the smallest");
	if (s) {
		int m = got[static_cast<size_t>(middle[region])];
		PBT_CHECK(std::abs(m - mid) < 3.1, "the component in the middle is " << m << ", expected about " << mid);
		int f = region % 2 ? part : 255 - part;
		PBT_EQ(m, v * (255 - s * f / 256) / 256, "the component in the middle");
	}
	if (s > 100 && v > 100)
		c.nontrivial();
}
