// @cases 6000000
// @thorough 8
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include "util/filter.hh"

static void near(float got, double want, double scale, const char *what, size_t i) {
	PBT_CHECK(std::abs(double(got) - want) <= 1e-6 * scale + 1e-9, what << " is " << pbt::show(got) << ", expected " << pbt::show(want) << " after " << i << " values");
}

// Values of an ADC with `bits` bits: steps, noise, and the extremes
template<typename T>
struct Values {
	unsigned bits;
	uint64_t base = 0;
	T next(pbt::Ctx &c) {
		uint64_t max = (1ull << bits) - 1;
		switch (c.choice(5)) {
			case 0: break;
			case 1: base = c.choice(max); break;
			case 2: base = max; break;
			case 3: base = std::min<uint64_t>(max, base + c.choice(3)); break;
			case 4: base = 0; break;
			case 5: base = base > 3 ? base - 3 : base; break;
		}
		return static_cast<T>(base);
	}
};

template<unsigned Size, typename T, unsigned Bits>
static void moving_average(pbt::Ctx &c) {
	auto f = pbt::fresh<MovingAverage<Size, T, Bits>>();
	std::vector<uint64_t> all(Size, 0);
	Values<T> v{Bits};
	unsigned n = static_cast<unsigned>(c.choice(3 * Size));
	PBT_LOG("MovingAverage of " << Size << ", " << Bits << " bits, " << n << " values");
	PBT_EQ(+f->val(), 0, "val() in the beginning");
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, f);
		T x = v.next(c);
		all.push_back(x);
		uint64_t sum = 0;
		for (unsigned k = 0; k < Size; k++)
			sum += all[all.size() - 1 - k];
		T got = f->add_val(x);
		PBT_EQ(+got, +static_cast<T>(sum / Size), "add_val(" << +x << "), number " << i);
		PBT_EQ(+f->val(), +static_cast<T>(sum / Size), "val() after " << i + 1 << " values");
	}
	if (n > Size && Size > 1)
		c.nontrivial();
}
PBT("MovingAverage", 200, "more values than the size") {
	switch (c.choice(6)) {
		case 0: return moving_average<1, unsigned, 12>(c);
		case 1: return moving_average<2, unsigned, 31>(c);
		case 2: return moving_average<4, uint16_t, 16>(c);
		case 3: return moving_average<8, uint8_t, 8>(c);
		case 4: return moving_average<16, unsigned, 12>(c);
		case 5: return moving_average<16, unsigned, 28>(c);
		default: return moving_average<4, int, 12>(c);
	}
}

template<template<unsigned, class, unsigned> typename F, unsigned Size, typename T, unsigned Bits, bool Float>
static void oversampler(pbt::Ctx &c) {
	auto f = pbt::fresh<F<Size, T, Bits>>();
	Values<T> v{Bits};
	unsigned n = static_cast<unsigned>(c.choice(4 * Size));
	PBT_LOG("oversampler of " << Size << ", " << Bits << " bits, " << n << " values, float " << Float);
	uint64_t sum = 0;
	double want = 0;
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, f);
		T x = v.next(c);
		sum += x;
		if ((i + 1) % Size == 0) {
			want = Float ? double(sum) / Size : double(static_cast<T>(sum / Size));
			sum = 0;
		}
		auto a = f->add_val(x);
		auto b = f->val();
		if constexpr (Float) {
			near(a, want, want, "add_val()", i + 1);
			near(b, want, want, "val()", i + 1);
		} else {
			PBT_EQ(double(a), want, "add_val(), number " << i);
			PBT_EQ(double(b), want, "val() after " << i + 1 << " values");
		}
	}
	if (n > 2 * Size && Size > 1)
		c.nontrivial();
}
PBT("Oversampler", 100, "more than 2 blocks") {
	switch (c.choice(4)) {
		case 0: return oversampler<Oversampler, 1, unsigned, 12, false>(c);
		case 1: return oversampler<Oversampler, 2, unsigned, 31, false>(c);
		case 2: return oversampler<Oversampler, 8, uint8_t, 8, false>(c);
		case 3: return oversampler<Oversampler, 16, unsigned, 28, false>(c);
		default: return oversampler<Oversampler, 4, uint16_t, 16, false>(c);
	}
}
PBT("SmoothOversampler", 100, "more than 2 blocks") {
	switch (c.choice(6)) {
		case 3: return oversampler<SmoothOversampler, 3, unsigned, 12, true>(c);
		case 4: return oversampler<SmoothOversampler, 5, uint8_t, 8, true>(c);
		case 5: return oversampler<SmoothOversampler, 12, uint16_t, 16, true>(c);
		case 0: return oversampler<SmoothOversampler, 1, unsigned, 12, true>(c);
		case 1: return oversampler<SmoothOversampler, 4, uint16_t, 16, true>(c);
		case 2: return oversampler<SmoothOversampler, 8, unsigned, 24, true>(c);
		default: return oversampler<SmoothOversampler, 16, uint8_t, 8, true>(c);
	}
}

PBT("Large averages", 1, "more values than the size") {
	switch (c.choice(5)) {
		case 0: return moving_average<256, unsigned, 12>(c);
		case 1: return moving_average<512, uint16_t, 16>(c);
		case 2: return oversampler<Oversampler, 256, uint8_t, 8, false>(c);
		case 3: return oversampler<Oversampler, 1024, unsigned, 22, false>(c);
		case 4: return oversampler<SmoothOversampler, 300, unsigned, 12, true>(c);
		default: return oversampler<SmoothOversampler, 512, uint8_t, 8, true>(c);
	}
}

PBT("ResizingOversampler", 200, "at least 2 blocks, and the size changed in the middle of one") {
	unsigned size = 1;
	std::unique_ptr<ResizingOversampler> f;
	if (c.coin()) {
		size = static_cast<unsigned>(c.choice(9)) + 1;
		f = std::make_unique<ResizingOversampler>(size);
	} else
		f = pbt::fresh<ResizingOversampler>();
	PBT_LOG("size " << size);
	std::vector<double> block;
	double want = 0, scale = 0;
	float unit = std::ldexp(1.f, c.choice(2) ? 0 : c.i(-10, 20));
	unsigned blocks = 0;
	bool mid = false;
	auto finish = [&] {
		double sum = 0;
		for (auto x : block)
			sum += x;
		want = sum / double(block.size());
		block.clear();
		blocks++;
	};
	unsigned n = static_cast<unsigned>(c.choice(40));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, f);
		switch (c.weighted({20, 3, 1, 1})) {
			case 0: {
				float x = unit * c.f(-10.f, 10.f);
				scale = std::max(scale, double(std::abs(x)));
				for (unsigned times = size > 100 ? static_cast<unsigned>(c.choice(300)) + 1 : 1; times--;) {
					block.push_back(x);
					if (block.size() >= size)
						finish();
					near(f->add_val(x), want, (4 + size / 4) * scale, "add_val()", i);
				}
				break;
			}
			case 1: {
				size = c.chance(1, 500) ? c.one_of({255u, 256u, 257u, 300u}) : static_cast<unsigned>(c.choice(11)) + 1;
				PBT_LOG("set_size " << size << " at " << block.size());
				mid |= !block.empty();
				f->set_size(size);
				if (block.size() >= size)
					finish();
				break;
			}
			case 2:
				PBT_LOG("reset");
				f->reset();
				block.clear();
				want = 0;
				break;
			case 3: {
				PBT_LOG("copy");
				auto g = std::make_unique<ResizingOversampler>(3);
				g->add_val(1);
				*g = *f;
				std::swap(f, g);
				break;
			}
		}
		near(f->val(), want, (4 + size / 4) * scale, "val()", i);
	}
	if (blocks >= 2 && mid)
		c.nontrivial();
}

template<size_t Num, size_t Div>
static void hysteresis(pbt::Ctx &c) {
	constexpr double flat = double(Num) / Div;
	auto f = pbt::fresh<HysteresisFilter<Num, Div>>();
	PBT_LOG("HysteresisFilter " << Num << "/" << Div);
	double state = 0;
	unsigned moved = 0, held = 0;
	PBT_CHECK(f->val() == 0, "val() in the beginning");
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, f);
		float x = c.coin() ? float(state) + c.f(-2, 2) * float(flat) : c.f(-4, 4) * float(flat);
		PBT_LOG(pbt::show(x));
		float before = f->val();
		float got = f->add_val(x);
		double d = double(x) - before;
		state = before + (d - std::clamp(d, -flat, flat));
		near(got, state, 4 * flat + std::abs(x), "add_val()", i + 1);
		if (std::abs(d) < flat * (1 - 1e-5)) {
			PBT_CHECK(got == before, "add_val(" << pbt::show(x) << ") moved from " << before << " to " << got << " within the flat part");
			held++;
		} else
			moved++;
		state = got;
		PBT_CHECK(f->val() == got, "val()");
	}
	if (moved >= 2 && held >= 2)
		c.nontrivial();
}
static void hysteresis_int(pbt::Ctx &c) {
	auto f = pbt::fresh<HysteresisFilter<5, 1, int>>();
	PBT_LOG("HysteresisFilter of ints, 5");
	int state = 0;
	unsigned moved = 0, held = 0;
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, f);
		int x = c.coin() ? state + c.i(-8, 8) : c.choice(3) ? c.i(-4095, 4095) : c.i(-4000000, 4000000);
		PBT_LOG(x);
		int d = x - state;
		(std::abs(d) > 5 ? moved : held)++;
		state = d > 5 ? x - 5 : d < -5 ? x + 5 : state;
		PBT_EQ(f->add_val(x), state, "add_val(" << x << ")");
		PBT_EQ(f->val(), state, "val()");
	}
	if (moved >= 2 && held >= 2)
		c.nontrivial();
}
PBT("HysteresisFilter", 100, "it moved at least twice, and stayed at least twice") {
	switch (c.choice(3)) {
		case 0: return hysteresis<1, 1>(c);
		case 1: return hysteresis<1, 100>(c);
		case 2: return hysteresis<3, 4>(c);
		default: return hysteresis_int(c);
	}
}

template<size_t Div>
static void quadratic(pbt::Ctx &c) {
	auto f = pbt::fresh<QuadraticOnePoleLp<Div>>();
	PBT_LOG("QuadraticOnePoleLp " << Div);
	bool up = false, down = false;
	PBT_CHECK(f->val() == 0, "val() in the beginning");
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, f);
		float before = f->val();
		float x = before + c.f(-1, 1) * float(Div);
		PBT_LOG(pbt::show(x));
		float got = f->add_val(x);
		double d = double(x) - before;
		near(got, before + std::abs(d) * d / Div, std::abs(before) + std::abs(d), "add_val()", i + 1);
		PBT_CHECK(f->val() == got, "val()");
		up |= d > 0;
		down |= d < 0;
	}
	if (n > 3 && up && down)
		c.nontrivial();
}
struct Half {
	static float Process(float x) {
		return x * 0.5f;
	}
};
PBT("QuadraticOnePoleLp", 100, "more than 3 values, above and below the state") {
	switch (c.choice(3)) {
		case 0: return quadratic<1>(c);
		case 1: return quadratic<16>(c);
		case 2: return quadratic<4096>(c);
		default: {
			// any transfer function, any initial state
			float state = c.f(-100, 100);
			NonLinearOnePoleLp<float, Half> f{state};
			PBT_CHECK(f.val() == state, "the initial state");
			unsigned n = static_cast<unsigned>(c.choice(8));
			for (unsigned i = 0; i < n; i++) {
				float x = c.f(-100, 100);
				near(f.add_val(x), (double(state) + x) / 2, 100, "add_val()", i + 1);
				state = f.val();
			}
		}
	}
}

PBT("NoFilter, CascadingFilter", 100, "at least 5 reads of the second filter") {
	auto nfp = pbt::fresh<NoFilter<int>>();
	auto &nf = *nfp;
	PBT_EQ(nf.val(), 0, "NoFilter::val() in the beginning");
	// Only reading feeds the second filter
	auto fp = pbt::fresh<CascadingFilter<unsigned, MovingAverage<4>, Oversampler<2>>>();
	auto gp = pbt::fresh<CascadingFilter<unsigned, NoFilter<>, MovingAverage<2>>>();
	std::vector<unsigned> all(4, 0), last{0, 0};
	unsigned second = 0, sum = 0, reads = 0, newest = 0;
	unsigned n = static_cast<unsigned>(c.choice(24));
	pbt::Copies copies{c}, copies_of_g{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, fp);
		copies_of_g(i, gp);
		auto &f = *fp;
		auto &g = *gp;
		if (c.coin()) {
			unsigned x = static_cast<unsigned>(c.choice(4095));
			PBT_LOG(x);
			all.push_back(x);
			unsigned m = 0;
			for (unsigned k = 0; k < 4; k++)
				m += all[all.size() - 1 - k];
			PBT_EQ(f.add_val(x), m / 4, "CascadingFilter::add_val()");
			PBT_EQ(g.add_val(x), x, "CascadingFilter::add_val() with NoFilter");
			int y = static_cast<int>(x) - 2000;
			PBT_EQ(nf.add_val(y), y, "NoFilter::add_val()");
			PBT_EQ(nf.val(), y, "NoFilter::val()");
			newest = x;
		} else {
			PBT_LOG("read");
			unsigned m = 0;
			for (unsigned k = 0; k < 4; k++)
				m += all[all.size() - 1 - k];
			sum += m / 4;
			if (++reads % 2 == 0) {
				second = sum / 2;
				sum = 0;
			}
			PBT_EQ(f.val(), second, "CascadingFilter::val()");
			last.push_back(newest);
			PBT_EQ(g.val(), (last[last.size() - 1] + last[last.size() - 2]) / 2, "CascadingFilter::val() with NoFilter");
		}
	}
	if (reads >= 5)
		c.nontrivial();
}
