// @cases 16000000
// @thorough 8
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include "util/audio_frame.hh"
#include "util/cortex_math.hh"

template<typename T>
static T raw(pbt::Ctx &c) {
	return static_cast<T>(c.any_int<T>());
}

static float level(pbt::Ctx &c, int used) {
	double one = std::ldexp(1., used - 1);
	switch (c.choice(5)) {
		case 0: return c.one_of({0.f, 1.f, -1.f, 0.5f, -0.5f, 0.9999999f, -0.9999999f, 1.0000001f, -1.0000001f});
		case 1: { // near a step
			double k = double(c.in_range<int64_t>(-(int64_t{1} << (used - 1)), int64_t{1} << (used - 1)));
			return static_cast<float>((k + double(c.choice(4)) / 4 - 0.5) / one);
		}
		case 2: { // near full scale
			double k = one - double(c.choice(4)) + 2;
			return static_cast<float>((c.coin() ? k : -k) / one);
		}
		case 3: // too loud, and far too loud
			return c.choice(7) ? c.f(-1, 1) * std::ldexp(1.f, static_cast<int>(c.choice(c.coin() ? 8 : 40))) : c.one_of({1e30f, -1e30f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()});
		case 4: return c.f(-1, 1) * std::ldexp(1.f, -static_cast<int>(c.choice(20)));
		default: return c.f(-1, 1);
	}
}

template<typename T, int Used, int Channels>
static void frame(pbt::Ctx &c) {
	using F = AudioFrame<T, Used, Channels>;
	constexpr int bits = sizeof(T) * 8;
	PBT_LOG(bits << " bit samples, " << Used << " used, " << Channels << " channels, signed " << std::is_signed_v<T>);
	auto f = pbt::fresh<F>();
	std::array<T, Channels> ref{};
	f->chan = ref;
	bool saturated = false, exact_one = false;
	unsigned n = static_cast<unsigned>(c.choice(4)) + 1;
	for (unsigned i = 0; i < n; i++) {
		unsigned ch = static_cast<unsigned>(c.choice(Channels - 1));
		if constexpr (std::is_signed_v<T>) {
			if (c.coin()) {
				T v = raw<T>(c);
				PBT_LOG("chan " << ch << " raw " << +v);
				f->chan[ch] = ref[ch] = v;
				int64_t want = static_cast<int64_t>(static_cast<uint64_t>(static_cast<int64_t>(v)) << (64 - Used)) >> (64 - Used);
				PBT_EQ(+F::sign_extend(v), want, "sign_extend(" << +v << ")");
				PBT_EQ(+f->sign_extend_chan(ch), want, "sign_extend_chan()");
				float in = F::scaleInput(v);
				PBT_EQ(double(in), double(static_cast<float>(want)) / std::ldexp(1., Used - 1), "scaleInput(" << +v << ")");
				PBT_EQ(f->scale_input_chan(ch), in, "scale_input_chan()");
				PBT_CHECK(in >= -1 && in <= 1, "scaleInput() is out of range");
				if (Used <= 24)
					PBT_EQ(+F::scaleOutput(in), want, "scaleOutput(scaleInput(" << +v << "))");
			}
		}
		float x = level(c, Used);
		PBT_LOG("chan " << ch << " output " << pbt::show(x));
		f->set_scaled_output(ch, x);
		T got = f->chan[ch];
		PBT_EQ(+F::scaleOutput(x), +got, "scaleOutput() and set_scaled_output()");
		if constexpr (std::is_signed_v<T>) {
			double one = std::ldexp(1., Used - 1);
			auto want = static_cast<int64_t>(std::trunc(std::clamp(double(x) * one, -one, one - 1)));
			if (Used == 32 && x >= 1) // the largest float is not the largest sample
				PBT_CHECK(got >= 0x7fffff80, "scaleOutput(" << pbt::show(x) << ") is " << +got);
			else
				PBT_EQ(+got, want, "scaleOutput(" << pbt::show(x) << ")");
		} else {
			double max = std::ldexp(1., Used) - 1;
			double want = std::clamp(double(x) * 0.5 + 0.5, 0., 1.) * max;
			PBT_CHECK(std::abs(double(got) - want) <= 1 + max * 1.3e-7, "scaleOutput(" << pbt::show(x) << ") is " << +got << ", expected " << want);
			if (x >= 1 || x <= -1)
				PBT_EQ(double(got), x >= 1 ? max : 0., "scaleOutput(" << pbt::show(x) << ")");
		}
		ref[ch] = got;
		saturated |= x > 1 || x < -1;
		exact_one |= x > -1 && x < 1 && x != 0;
		for (unsigned k = 0; k < Channels; k++)
			PBT_EQ(+f->chan[k], +ref[k], "channel " << k);
	}
	if (saturated && exact_one)
		c.nontrivial();
}

#define RULE "an output within and one beyond full scale"
PBT("signed samples", 3, RULE) {
	// by default all bits are used, of two channels
	PBT_CHECK((std::is_same_v<AudioFrame<int16_t>, AudioFrame<int16_t, 16, 2>> && std::is_same_v<AudioFrame<int32_t, 24>, AudioFrame<int32_t, 24, 2>>), "the default number of bits or channels");
	if (c.chance(1, 200))
		return frame<int16_t, 16, 300>(c);
	switch (c.choice(12)) {
		case 8: return frame<int32_t, 31, 2>(c);
		case 9: return frame<int32_t, 30, 2>(c);
		case 10: return frame<int16_t, 15, 2>(c);
		case 11: return frame<int16_t, 14, 2>(c);
		case 12: return frame<int8_t, 6, 3>(c);
		case 0: return frame<int32_t, 24, 2>(c);
		case 1: return frame<int16_t, 16, 2>(c);
		case 2: return frame<int32_t, 32, 2>(c);
		case 3: return frame<int32_t, 16, 4>(c);
		case 4: return frame<int8_t, 8, 1>(c);
		case 5: return frame<int32_t, 20, 2>(c);
		case 6: return frame<int16_t, 12, 8>(c);
		default: return frame<int32_t, 24, 8>(c);
	}
}
PBT("unsigned samples", 1, RULE) {
	switch (c.choice(6)) {
		case 4: return frame<uint32_t, 31, 2>(c);
		case 5: return frame<uint16_t, 15, 2>(c);
		case 6: return frame<uint8_t, 4, 2>(c);
		case 0: return frame<uint8_t, 8, 2>(c);
		case 1: return frame<uint16_t, 16, 2>(c);
		case 2: return frame<uint16_t, 12, 1>(c);
		default: return frame<uint32_t, 24, 4>(c);
	}
}

PBT("saturation", 1, "the number is beyond one of the limits") {
	int32_t val = c.any_int<int32_t>();
	uint32_t bits = static_cast<uint32_t>(c.in_range(1, 32));
	if (c.coin()) // near a limit
		val = static_cast<int32_t>((int64_t{1} << c.in_range<uint32_t>(0, 31)) * (c.coin() ? 1 : -1) + static_cast<int64_t>(c.choice(4)) - 2);
	PBT_LOG(val << " to " << bits << " bits");
	int64_t half = int64_t{1} << (bits - 1);
	int64_t want = std::clamp<int64_t>(val, -half, half - 1);
	if (want != val)
		c.nontrivial();
	PBT_EQ(int64_t{MathTools::signed_saturate(val, bits)}, want, "signed_saturate(" << val << ", " << bits << ")");
	bits--;
	want = std::clamp<int64_t>(val, 0, (int64_t{1} << bits) - 1);
	PBT_EQ(int64_t{MathTools::unsigned_saturate(val, bits)}, want, "unsigned_saturate(" << val << ", " << bits << ")");
}
