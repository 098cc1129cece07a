// @cases 3000000
// @thorough 20
#include "pbt.hh"
#include "util/quadrature_encoder.hh"
#include "util/rotary_motion.hh"

// The states of the two switches, a in bit 0, b in bit 1. At rest both are high
// (both low if inverted), and a turn to the next rest goes through all four.
template<bool Inv>
static std::vector<unsigned> turn(bool cw) {
	std::vector<unsigned> s = cw ? std::vector<unsigned>{1, 0, 2, 3} : std::vector<unsigned>{2, 0, 1, 3};
	if (Inv)
		for (auto &x : s)
			x ^= 3;
	return s;
}

// Any readings: a turn is reported exactly when the last four different ones make it
template<bool Inv>
static void any_readings(pbt::Ctx &c) {
	using E = QuadratureEncoder<Inv>;
	auto e = pbt::fresh<E>();
	std::vector<unsigned> hist{0};
	// before the first reading: as if it had been low for ever
	PBT_LOG("inverted " << Inv);
	unsigned turns = 0, n = static_cast<unsigned>(c.choice(40));
	std::vector<unsigned> plan; // of readings
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, e);
		if (plan.empty()) {
			if (c.coin())
				plan = turn<Inv>(c.coin());
			else
				plan = {static_cast<unsigned>(c.choice(3))};
			if (c.chance(1, 4)) // a bounce
				plan.insert(plan.begin() + static_cast<ptrdiff_t>(c.choice(plan.size() - 1)), static_cast<unsigned>(c.choice(3)));
		}
		unsigned s = plan.front();
		if (c.chance(3, 4))
			plan.erase(plan.begin()); // otherwise it is read again
		int want = 0;
		if (s != hist.back()) {
			hist.push_back(s);
			if (hist.size() >= 4) {
				std::vector<unsigned> last(hist.end() - 4, hist.end());
				want = last == turn<Inv>(true) ? 1 : last == turn<Inv>(false) ? -1 : 0;
			} else if (hist.size() == 3) {
				// the zeros before the first one
				std::vector<unsigned> last{0, hist[0], hist[1], hist[2]};
				want = last == turn<Inv>(true) ? 1 : last == turn<Inv>(false) ? -1 : 0;
			}
		}
		PBT_LOG(s);
		int got = e->get_motion(s & 1, s >> 1);
		PBT_EQ(got, want, "get_motion(" << (s & 1) << ", " << (s >> 1) << ")");
		turns += want != 0;
	}
	if (turns >= 2)
		c.nontrivial();
}
PBT("QuadratureEncoder, any readings", 2, "at least 2 turns reported") {
	if (c.coin())
		return any_readings<true>(c);
	return any_readings<false>(c);
}

// A knob which is turned, without bouncing, and read often enough
template<bool Inv>
static void knob(pbt::Ctx &c) {
	auto e = pbt::fresh<QuadratureEncoder<Inv>>();
	RotaryMotion m;
	// 4 positions per rest; the rest is at multiples of 4
	static constexpr unsigned cycle[] = {3, 1, 0, 2};
	auto read = [&](int pos) {
		unsigned s = cycle[static_cast<unsigned>(pos) & 3];
		if (Inv)
			s ^= 3;
		int got = e->get_motion(s & 1, s >> 1);
		m.motion += got;
		m.abs_pos += got;
		return got;
	};
	int pos = 0, count = 0;
	read(pos);
	read(pos);
	m = {};
	bool back = false, part = false;
	unsigned n = static_cast<unsigned>(c.choice(16));
	PBT_LOG("inverted " << Inv);
	// A turn counts when it reaches a rest, coming from the rest before without turning back
	int run = 0; // positions passed in one direction since the last change of direction
	pbt::Copies copies{c};
	for (unsigned i = 0; i < n; i++) {
		copies(i, e);
		int steps = c.coin() ? 4 * c.i(-2, 2) : c.i(-5, 5);
		PBT_LOG("turn by " << steps);
		int dir = steps < 0 ? -1 : 1;
		back |= steps && run && (run > 0) != (steps > 0);
		part |= steps % 4 != 0;
		for (int k = 0; k < std::abs(steps); k++) {
			pos += dir;
			run = (run > 0) == (dir > 0) && run ? run + dir : dir;
			int want = 0;
			// the last four readings are one whole turn
			if (pos % 4 == 0 && std::abs(run) >= 4)
				want = dir;
			else if (pos % 4 == 0 && std::abs(run) == 3)
				want = dir; // turned back just one step past the rest
			int got = read(pos);
			PBT_EQ(got, want, "get_motion() at position " << pos << " after " << run << " steps in this direction");
			count += want;
			if (c.choice(2) == 0)
				PBT_EQ(read(pos), 0, "get_motion() without a motion");
		}
		PBT_EQ(m.motion, count, "turns counted");
		if (!part)
			PBT_EQ(m.abs_pos, pos / 4, "turns counted, if all are whole turns");
	}
	if (back && n >= 3)
		c.nontrivial();
}
PBT("QuadratureEncoder, a knob", 1, "turned in both directions") {
	if (c.coin())
		return knob<true>(c);
	return knob<false>(c);
}

PBT("RotaryMotion", 1, "motion was transferred, added and used") {
	std::array<RotaryMotion, 3> m;
	std::array<std::array<int64_t, 2>, 3> ref{}; // motion, position
	bool used = false, added = false, transferred = false;
	unsigned n = static_cast<unsigned>(c.choice(20));
	for (unsigned i = 0; i < n; i++) {
		auto a = c.choice(2), b = c.choice(2);
		switch (c.choice(3)) {
			case 0: {
				int d = c.i(-100000, 100000);
				PBT_LOG(a << " moves " << d);
				RotaryMotion x;
				x.motion = d;
				m[a].add_motion(x);
				ref[a][0] += d;
				ref[a][1] += d;
				break;
			}
			case 1:
				PBT_LOG("use " << a);
				PBT_EQ(m[a].use_motion(), ref[a][0], "use_motion()");
				used |= ref[a][0] != 0;
				ref[a][0] = 0;
				break;
			case 2:
				if (a == b)
					break;
				PBT_LOG("add " << b << " to " << a);
				m[a].add_motion(m[b]);
				ref[a][0] += ref[b][0];
				ref[a][1] += ref[b][0];
				added |= ref[b][0] != 0;
				break;
			case 3:
				if (a == b)
					break;
				PBT_LOG("transfer " << b << " to " << a);
				m[a].transfer_motion(m[b]);
				ref[a][0] += ref[b][0];
				ref[a][1] += ref[b][0];
				transferred |= ref[b][0] != 0;
				ref[b][0] = 0;
				break;
		}
		if (std::abs(ref[a][1]) > 500000000)
			break;
		for (unsigned k = 0; k < 3; k++) {
			PBT_EQ(m[k].motion, ref[k][0], "motion of " << k);
			PBT_EQ(m[k].abs_pos, ref[k][1], "abs_pos of " << k);
		}
	}
	if (used && added && transferred)
		c.nontrivial();
}
