// @cases 10000000
// @thorough 8
// @repo_src util/math_tables.cc
#include "pbt.hh"
#include "util/analyzed_signal.hh"
#include "util/parameter.hh"

// Changes count when they reach a minimum, compared with the value which was kept
template<typename T, unsigned Num, unsigned Den>
static void latched(pbt::Ctx &c) {
	using P = std::conditional_t<Den == 1, LatchedParam<T, Num>, LatchedParam<T, Num, Den>>;
	auto p = pbt::fresh<P>();
	double min = std::is_integral_v<T> ? double(Num / Den) : double(Num) / Den;
	double unit = std::is_integral_v<T> ? 1 : 1. / 1024; // exact
	double val = 0;
	bool changed = false, drift = false;
	unsigned stored = 0, kept = 0;
	double last = 0;
	PBT_LOG("LatchedParam, at least " << min);
	PBT_CHECK(double(p->val) == 0 && !p->changed, "the initial state");
	unsigned n = static_cast<unsigned>(c.choice(20));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, p);
		switch (c.weighted({8, 3, 1, 1})) {
			case 0: {
				double x;
				switch (c.choice(4)) {
					case 0: x = val + min; break;
					case 1: x = val - min; break;
					case 2: x = last + unit; break; // slowly
					case 3: x = double(c.choice(static_cast<unsigned>(min * 4 / unit) + 200)) * unit; break;
					default: x = val + (c.coin() ? 1 : -1) * (min - unit); break;
				}
				if constexpr (std::is_unsigned_v<T>) {
					if (c.chance(1, 4)) // all of the range
						x = double(c.any_int<T>());
					x = std::clamp(x, 0., double(std::numeric_limits<T>::max()));
				} else if constexpr (std::is_integral_v<T>) {
					constexpr int Half = std::numeric_limits<T>::max() / 2; // a difference always fits
					if (c.chance(1, 4))
						x = double(c.i(-Half, Half));
					x = std::clamp(x, -double(Half), double(Half));
				}
				T t = static_cast<T>(x);
				x = double(t);
				PBT_LOG("store " << x);
				bool want = std::abs(x - val) >= min;
				PBT_EQ(p->store_changed(t), want, "store_changed(" << x << ") with " << val);
				if (want) {
					drift |= x != val && std::abs(x - last) < min;
					val = x;
					changed = true;
					stored++;
				} else
					kept++;
				last = x;
				break;
			}
			case 1:
				PBT_LOG("did_change");
				PBT_EQ(p->did_change(), std::exchange(changed, false), "did_change()");
				PBT_EQ(p->did_change(), false, "did_change() again");
				break;
			case 2: { // not a change
				T t = static_cast<T>(c.i(std::is_unsigned_v<T> ? 0 : -100, 100));
				PBT_LOG("= " << double(t));
				*p = t;
				val = double(t);
				break;
			}
			case 3: {
				PBT_LOG("copy");
				P q;
				q = *p;
				*p = T{7};
				p->changed = !changed;
				*p = q;
				break;
			}
		}
		PBT_CHECK(double(p->val) == val && double(static_cast<T>(*p)) == val, "the value is " << double(p->val) << ", expected " << val);
		PBT_EQ(p->changed, changed, "changed");
	}
	if (stored >= 2 && kept)
		c.nontrivial();
	if (drift)
		c.label("slow changes added up");
}
PBT("LatchedParam", 2, "at least 2 changes kept, and one ignored") {
	switch (c.choice(8)) {
		case 7: return latched<int16_t, 7, 2>(c);
		case 8: return latched<double, 5, 32>(c);
		case 4: return latched<int, 1000, 1>(c);
		case 5: return latched<float, 70000, 512>(c);
		case 0: return latched<int, 5, 1>(c);
		case 1: return latched<float, 1, 64>(c);
		case 2: return latched<uint8_t, 2, 1>(c);
		case 3: return latched<unsigned, 10, 2>(c);
		default: return latched<float, 3, 1>(c);
	}
}

// Mostly one of a few; or close to v, or anything
template<typename T>
static T value(pbt::Ctx &c, T v) {
	if (c.choice(3))
		return static_cast<T>(c.i(0, 3));
	if constexpr (std::is_integral_v<T>) {
		if (c.coin()) {
			T x = c.any_int<T>();
			return x;
		}
		using U = std::make_unsigned_t<T>;
		return static_cast<T>(static_cast<U>(v) ^ static_cast<U>(U{1} << c.choice(sizeof(T) * 8 - 1)));
	} else
		switch (c.choice(3)) {
			case 0: return static_cast<T>(c.f(-3, 3));
			case 1: return static_cast<T>(c.f(-1, 1) * 1e-30f);
			case 2: return static_cast<T>(c.f(-1, 1) * 1e30f);
			default: return std::nextafter(v, T(c.coin() ? 1 : -1));
		}
}

template<typename T>
static void parameter(pbt::Ctx &c) {
	bool init = c.coin();
	T v = init ? value(c, T(0)) : T(0);
	std::unique_ptr<Parameter<T>> p{init ? new Parameter<T>(v) : new Parameter<T>()};
	// nobody has seen the initial value
	bool changed = true, back = false;
	T seen = v;
	unsigned changes = 0;
	PBT_LOG("Parameter " << double(v));
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, p);
		if (c.choice(3)) {
			T x = value(c, v);
			PBT_LOG("set " << pbt::show(x));
			if (c.coin())
				p->setValue(x);
			else
				*p = x;
			if (x != v) {
				changed = true;
				changes++;
				back |= x == seen;
			}
			v = x;
		} else {
			PBT_LOG("isChanged");
			PBT_EQ(p->isChanged(), std::exchange(changed, false), "isChanged()");
			PBT_EQ(p->isChanged(), false, "isChanged() again");
			seen = v;
		}
		PBT_CHECK(p->getValue() == v && static_cast<T>(*p) == v, "the value is " << double(p->getValue()));
	}
	if (changes >= 3 && back)
		c.nontrivial();
}
PBT("Parameter", 1, "at least 3 changes, and one back to the value seen last") {
	switch (c.choice(6)) {
		case 0: return parameter<double>(c);
		case 1: return parameter<uint8_t>(c);
		case 2: return parameter<uint64_t>(c);
		case 3:
		case 4: return parameter<float>(c);
		default: return parameter<int>(c);
	}
}

template<typename T>
static void ref_parameter(pbt::Ctx &c) {
	T v = value(c, T(0));
	T *where = new T(v);
	std::unique_ptr<T> owner{where};
	auto p = std::make_unique<RefParameter<T>>(*where);
	T seen = 0;
	unsigned changes = 0;
	bool back = false;
	PBT_LOG("RefParameter " << pbt::show(v));
	unsigned n = static_cast<unsigned>(c.choice(16));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, p);
		if (c.choice(3)) {
			T x = value(c, v);
			back |= v != seen && x == seen;
			v = x;
			PBT_LOG("set " << pbt::show(x));
			switch (c.choice(2)) {
				case 0: p->setValue(x); break;
				case 1: *p = x; break;
				default: *where = x; break; // behind its back
			}
		} else {
			PBT_LOG("isChanged");
			PBT_EQ(p->isChanged(), v != seen, "isChanged()");
			PBT_EQ(p->isChanged(), false, "isChanged() again");
			changes += v != seen;
			seen = v;
		}
		PBT_CHECK(*where == v, "the value referred to is " << pbt::show(*where));
		PBT_CHECK(p->getValue() == v && static_cast<T>(*p) == v, "the value is " << pbt::show(p->getValue()));
	}
	if (changes >= 2 && back)
		c.nontrivial();
}
PBT("RefParameter", 1, "at least 2 changes seen, and one which was undone before") {
	switch (c.choice(4)) {
		case 0: return ref_parameter<float>(c);
		case 1: return ref_parameter<uint8_t>(c);
		case 2: return ref_parameter<double>(c);
		default: return ref_parameter<int>(c);
	}
}

template<typename S>
static void analyzed(pbt::Ctx &c, S *sp, double coef) {
	std::unique_ptr<S> s{sp};
	double iir = 0, scale = 0;
	std::vector<float> v; // since the reset
	bool was_reset = false, negative = true;
	float sign = c.coin() ? -1.f : 1.f;
	float unit = c.choice(3) ? 1.f : c.one_of({1e-9f, 1e-3f, 1e5f, 1e30f});
	unsigned n = static_cast<unsigned>(c.choice(20));
	PBT_LOG("AnalyzedSig " << coef);
	PBT_CHECK(s->iir == 0 && s->avg == 0 && s->min > s->max, "the initial state");
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, s);
		float x = unit * (c.choice(3) ? sign * c.f(0, 10) : c.f(-10, 10));
		if (c.chance(1, 10)) {
			PBT_LOG("reset_to " << x);
			s->reset_to(x);
			v = {x};
			iir = x;
			was_reset = true;
		} else {
			PBT_LOG(x);
			s->update(x);
			v.push_back(x);
			iir += coef * (x - iir);
		}
		negative &= x < 0;
		scale = std::max(scale, double(std::abs(x)));
		PBT_EQ(s->min, *std::min_element(v.begin(), v.end()), "min");
		PBT_EQ(s->max, *std::max_element(v.begin(), v.end()), "max");
		PBT_CHECK(std::abs(s->iir - iir) <= 2e-7 * scale * (i + 4), "iir is " << s->iir << ", expected " << iir);
		PBT_CHECK(std::abs(s->avg - iir) <= 2e-7 * scale * (i + 4), "avg is " << s->avg << ", expected " << iir);
		iir = s->iir;
	}
	if (n >= 4 && (was_reset || negative))
		c.nontrivial();
}
PBT("AnalyzedSig", 1, "at least 4 values, which are all negative or with a reset") {
	switch (c.choice(2)) {
		case 0: return analyzed(c, new AnalyzedSignal<4>, 1. / 4);
		case 1: return c.coin() ? analyzed(c, new AnalyzedSignal<1000>, 1. / 1000) : analyzed(c, new AnalyzedSignal<100000>, 1. / 100000);
		default: {
			float k = c.f(0, 1);
			return analyzed(c, new AnalyzedSig{k}, k);
		}
	}
}

template<typename T>
static void peak(pbt::Ctx &c) {
	auto m = pbt::fresh<PeakMeter<T>>();
	std::vector<T> v;
	bool was_reset = false;
	[[maybe_unused]] float sign = c.coin() ? -1.f : 1.f;
	unsigned n = static_cast<unsigned>(c.choice(16));
	PBT_LOG("PeakMeter");
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, m);
		if (c.chance(1, 8)) {
			PBT_LOG("reset");
			m->reset();
			v.clear();
			was_reset = true;
		} else {
			T x;
			if constexpr (std::is_integral_v<T>)
				x = c.any_int<T>();
			else
				x = static_cast<T>(sign * (c.choice(3) ? c.f(0, 100) : c.f(-1e30f, 1e30f)));
			PBT_LOG(double(x));
			m->update(x);
			v.push_back(x);
		}
		if (v.empty())
			PBT_CHECK(m->min == std::numeric_limits<T>::max() && m->max == std::numeric_limits<T>::lowest(), "min and max of nothing");
		else {
			PBT_EQ(m->min, *std::min_element(v.begin(), v.end()), "min");
			PBT_EQ(m->max, *std::max_element(v.begin(), v.end()), "max");
		}
	}
	if (n >= 4 && was_reset)
		c.nontrivial();
}
PBT("PeakMeter", 1, "at least 4 values and a reset") {
	switch (c.choice(4)) {
		case 0: return peak<int>(c);
		case 1: return peak<uint8_t>(c);
		case 3: return peak<int16_t>(c);
		case 4: return peak<double>(c);
		default: return peak<float>(c);
	}
}
