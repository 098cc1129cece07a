// @cases 3000000
// @thorough 15
#include "pbt.hh"
#include "util/filtered_interp_array.hh"
#include "util/interp_param.hh"

static constexpr double Eps = 1.2e-7;

static void near(double got, double want, double tol, const char *what, unsigned step) {
	PBT_CHECK(std::abs(got - want) <= tol, what << " is " << pbt::show(got) << ", expected " << pbt::show(want) << " at step " << step);
}

template<typename T>
static T value(pbt::Ctx &c) {
	if constexpr (std::is_integral_v<T>)
		return static_cast<T>(c.choice(3) ? c.i(-30000, 30000) : c.i(-1000000, 1000000));
	else
		switch (c.choice(6)) {
			case 5: return static_cast<T>(c.f(-1, 1) * 1e-6f);
			case 6: return static_cast<T>(c.f(-1, 1) * 1e9f);
			case 0: return static_cast<T>(c.i(-4, 4));
			case 1: return static_cast<T>(c.f(-1000, 1000));
			default: return static_cast<T>(c.f(-1, 1));
		}
}

// A straight line from the value where it was set, one step per next()
template<typename T>
struct Line {
	double start = 0, step = 0, scale = 0;
	unsigned k = 0;
	void set(double to, unsigned n) {
		start = at();
		k = 0;
		step = std::is_integral_v<T> ? double(static_cast<int64_t>(to - start) / static_cast<int64_t>(n)) : (to - start) / n;
		scale = std::max({scale, std::abs(to), std::abs(start)});
	}
	double at() const {
		return start + step * k;
	}
	double tol() const {
		if (std::is_integral_v<T>)
			return 0;
		return (std::is_same_v<T, float> ? Eps : 2.3e-16) * (scale + std::abs(step) * k) * (k + 4) * 2;
	}
	void resync(double got) { // so that rounding does not add up
		start = got;
		scale = std::max(scale, std::abs(got));
		k = 0;
	}
};

#define RULE "it was set at least twice, and once in the middle of the way"
template<typename T, int N>
static void interp_param(pbt::Ctx &c) {
	auto p = pbt::fresh<InterpParam<T, N>>();
	Line<T> l;
	unsigned sets = 0, since = N, mid = 0;
	T target{};
	PBT_LOG("InterpParam " << N);
	PBT_CHECK(p->cur_val == T(0) && p->get_step_size() == T(0), "starts at 0");
	unsigned n = static_cast<unsigned>(c.choice(20));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, p);
		if (c.chance(1, 10)) { // it is public: it goes on from there
			T v = value<T>(c);
			PBT_LOG("cur_val = " << pbt::show(v));
			p->cur_val = v;
			l.resync(double(v));
			if (since < N)
				since = N + 1;
		} else if (c.choice(2) == 0) {
			T v = value<T>(c);
			PBT_LOG("set " << pbt::show(v));
			target = v;
			mid += since < N && since > 0;
			l.resync(double(p->cur_val));
			l.set(double(v), N);
			p->set_new_value(v);
			sets++;
			since = 0;
		} else {
			unsigned run = c.choice(2) ? static_cast<unsigned>(c.choice(3)) : (since < N ? N - since : 0);
			PBT_LOG("next x" << run);
			while (run--) {
				T got = p->next();
				l.k++;
				since++;
				near(double(got), l.at(), l.tol(), "next()", since);
				PBT_CHECK(p->cur_val == got, "cur_val differs from what next() returned");
				if (since == N && sets && !std::is_integral_v<T>)
					near(double(got), double(target), l.tol(), "next() at the end of the way", since);
			}
		}
		near(double(p->get_step_size()), l.step, l.tol(), "get_step_size()", since);
	}
	if (sets >= 2 && mid)
		c.nontrivial();
}
PBT("InterpParam", 200, RULE) {
	switch (c.choice(4)) {
		case 0: return interp_param<float, 1>(c);
		case 1: return interp_param<float, 7>(c);
		case 2: return interp_param<int, 10>(c);
		case 3: return interp_param<double, 3>(c);
		default: return interp_param<float, 64>(c);
	}
}

template<typename T>
static void interp_param_var(pbt::Ctx &c) {
	auto p = pbt::fresh<InterpParamVar<T>>();
	Line<T> l;
	double target = 0, cur = 0;
	unsigned sets = 0, mid = 0, way = 0, since = 0;
	PBT_LOG("InterpParamVar");
	unsigned n = static_cast<unsigned>(c.choice(20));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, p);
		switch (c.weighted({3, 5, 1})) {
			case 0: {
				T v = value<T>(c);
				unsigned k = c.choice(4) ? static_cast<unsigned>(c.choice(20)) + 1 : 0;
				PBT_LOG("set " << pbt::show(v) << " in " << k);
				mid += since && since < way;
				p->set_new_value(v, k);
				target = double(v);
				if (k) {
					l.resync(cur);
					l.set(double(v), k);
					way = k;
					since = 0;
				}
				sets++;
				break;
			}
			case 1: {
				unsigned run = c.choice(2) ? static_cast<unsigned>(c.choice(3)) : (since < way ? way - since : 0);
				PBT_LOG("next x" << run);
				while (run--) {
					T got = p->next();
					l.k++;
					since++;
					near(double(got), l.at(), l.tol(), "next()", since);
					if (since == way && l.start + l.step * way == target && !std::is_integral_v<T>)
						near(double(got), target, l.tol(), "next() at the end of the way", since);
					cur = double(got);
				}
				break;
			}
			case 2: {
				PBT_LOG("snap_to_target");
				PBT_EQ(double(p->snap_to_target()), target, "snap_to_target()");
				auto step = l.step;
				l.resync(target);
				l.step = step;
				cur = target;
				since = way;
				break;
			}
		}
		near(double(p->get_step_size()), l.step, l.tol(), "get_step_size()", since);
	}
	if (sets >= 2 && mid)
		c.nontrivial();
}
PBT("InterpParamVar", 200, RULE) {
	switch (c.choice(2)) {
		case 0: return interp_param_var<float>(c);
		case 1: return interp_param_var<int>(c);
		default: return interp_param_var<double>(c);
	}
}

template<typename T>
static void interp_param_variable(pbt::Ctx &c) {
	unsigned updates = 256;
	std::unique_ptr<InterpParamVariable<T>> p;
	if (c.coin()) {
		updates = static_cast<unsigned>(c.choice(30)) + 1;
		p = std::make_unique<InterpParamVariable<T>>(updates);
	} else
		p = pbt::fresh<InterpParamVariable<T>>();
	Line<T> l;
	unsigned sets = 0, mid = 0, way = 0, since = 0;
	T target{};
	PBT_LOG("InterpParamVariable " << updates);
	unsigned n = static_cast<unsigned>(c.choice(20));
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, p);
		switch (c.weighted({3, 5, 2, 1})) {
			case 3: { // it is public: it goes on from there
				T v = value<T>(c);
				PBT_LOG("cur_val = " << pbt::show(v));
				p->cur_val = v;
				l.resync(double(v));
				if (since < way)
					since = way + 1;
				break;
			}
			case 0: {
				T v = value<T>(c);
				PBT_LOG("set " << pbt::show(v));
				mid += since && since < way;
				l.resync(double(p->cur_val));
				l.set(double(v), updates);
				p->set_new_value(v);
				target = v;
				way = updates;
				since = 0;
				sets++;
				break;
			}
			case 1: {
				unsigned run = c.choice(2) ? static_cast<unsigned>(c.choice(3)) : (since < way ? way - since : 0);
				PBT_LOG("next x" << run);
				while (run--) {
					T got = p->next();
					l.k++;
					since++;
					near(double(got), l.at(), l.tol(), "next()", since);
					PBT_CHECK(p->cur_val == got, "cur_val differs from what next() returned");
					if (since == way && sets && !std::is_integral_v<T>)
						near(double(got), double(target), l.tol(), "next() at the end of the way", since);
				}
				break;
			}
			case 2:
				updates = c.choice(15) ? static_cast<unsigned>(c.choice(30)) + 1 : static_cast<unsigned>(c.coin() ? c.sz(250, 300) : c.sz(65530, 65600));
				PBT_LOG("set_num_updates " << updates);
				p->set_num_updates(updates);
				break;
		}
		PBT_CHECK(p->target_val == target, "target_val");
		PBT_EQ(p->get_num_updates(), updates, "get_num_updates()");
		near(double(p->get_step_size()), l.step, l.tol(), "get_step_size()", since);
	}
	if (sets >= 2 && mid)
		c.nontrivial();
}
PBT("InterpParamVariable", 200, RULE) {
	switch (c.choice(2)) {
		case 0: return interp_param_variable<float>(c);
		case 1: return interp_param_variable<int>(c);
		default: return interp_param_variable<double>(c);
	}
}

// Adds the last two, so that each filter's own history shows
struct SumOfTwo {
	float last = 0;
	float add_val(float v) {
		return std::exchange(last, v) + v;
	}
};
struct Same {
	template<typename T>
	T add_val(T v) {
		return v;
	}
};

template<size_t N, typename Filter, bool long_way = false, typename T = float>
static void filtered(pbt::Ctx &c) {
	auto a = pbt::fresh<FilteredInterpArray<N, Filter, T>>();
	std::array<Filter, N> filters{};
	std::array<double, N> cur{}, target{}, step{};
	PBT_LOG("FilteredInterpArray of " << N);
	static_assert(FilteredInterpArray<N, Filter, T>::size() == N);
	unsigned updates = 256, count = 0, readings = 0, snaps = 0, between = 0;
	bool ready = false, was_set = false;
	double scale = 0;
	auto set_updates = [&] {
		updates = c.chance(1, 30) ? c.one_of({255u, 256u, 257u, 300u}) : long_way && c.coin() ? static_cast<unsigned>(c.sz(65530, 66000)) : static_cast<unsigned>(c.choice(12));
		PBT_LOG("set_num_updates " << updates);
		a->set_num_updates(updates);
	};
	if (c.coin())
		set_updates();
	unsigned n = static_cast<unsigned>(c.choice(24));
	for (unsigned i = 0; i < n; i++) {
		switch (c.weighted({2, 3, 5})) {
			case 0:
				PBT_LOG("mark_new_data_ready");
				a->mark_new_data_ready();
				ready = true;
				break;
			case 1: {
				std::array<T, N> in{};
				for (unsigned k = 0; k < N; k++)
					in[k] = k >= 4 ? in[k % 4] + static_cast<T>(k) : c.coin() ? static_cast<T>(c.f(-1, 1)) : static_cast<T>(c.choice(4095));
				PBT_LOG("add_new_readings " << pbt::show(in[0]) << (ready ? "" : " (not ready)"));
				unsigned calls = 0;
				// new data may be marked (by an interrupt) while the readings are taken
				bool again = false;
				auto mark_at = c.chance(1, 4) ? c.choice(N - 1) : N;
				a->add_new_readings([&](unsigned k) {
					if (k == mark_at) {
						PBT_LOG("mark_new_data_ready while reading");
						a->mark_new_data_ready();
						again = true;
					}
					PBT_CHECK(k == calls, "reading " << k << " is asked for, expected " << calls);
					calls++;
					return in[k];
				});
				PBT_EQ(calls, ready ? N : 0, "readings asked for");
				if (ready) {
					ready = again;
					readings++;
					was_set = true;
					if (count)
						updates = count;
					count = 0;
					for (unsigned k = 0; k < N; k++) {
						target[k] = filters[k].add_val(in[k]);
						if (updates)
							step[k] = (target[k] - cur[k]) / updates;
						scale = std::max(scale, std::abs(target[k]));
					}
				}
				break;
			}
			case 2: {
				unsigned run = c.choice(2) ? static_cast<unsigned>(c.choice(3)) + 1 : std::min(updates > count ? updates - count : 1, long_way ? 70000u : 300u);
				PBT_LOG("get_interp_values x" << run);
				while (run--) {
					count++;
					bool last = count >= updates;
					unsigned calls = 0;
					std::array<double, N> before = cur;
					bool mark = run <= 300 && c.chance(1, 16);
					a->get_interp_values([&](unsigned k, T v) {
						if (mark) {
							a->mark_new_data_ready();
							ready = true;
						}
						PBT_CHECK(k == calls, "output " << k << ", expected " << calls);
						calls++;
						cur[k] = v;
					});
					PBT_EQ(calls, N, "outputs");
					for (unsigned k = 0; k < N; k++) {
						if (last)
							PBT_CHECK(cur[k] == target[k], "output " << k << " is " << cur[k] << " after all " << updates << " steps, the last reading is " << target[k]);
						else
							near(cur[k], before[k] + step[k], 4 * Eps * scale, "an output", count);
					}
					(last ? snaps : between)++;
				}
				break;
			}
		}
	}
	(void)was_set;
	if (readings >= 2 && snaps && between)
		c.nontrivial();
}
PBT("FilteredInterpArray", 400, "at least 2 readings, and outputs both on the way and at the end of it") {
	switch (c.choice(3)) {
		case 3: return filtered<2, Same, false, double>(c);
		case 0: return filtered<1, Same>(c);
		case 1: return filtered<3, SumOfTwo>(c);
		default: return filtered<4, Same>(c);
	}
}
PBT("Large FilteredInterpArray", 1, "at least 2 readings, and outputs both on the way and at the end of it") {
	return c.coin() ? filtered<256, SumOfTwo>(c) : filtered<300, Same>(c);
}
PBT("FilteredInterpArray with a long way", 1, "at least 2 readings, and outputs both on the way and at the end of it") {
	c.coin() ? filtered<1, Same, true>(c) : filtered<1, Same, true, double>(c);
}
