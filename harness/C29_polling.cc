// @cases 15000000
// @thorough 6
#include "pbt.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"

// Time as it really goes, without overflow; the code gets it truncated
template<typename T>
static void poll_event(pbt::Ctx &c, const char *name) {
	constexpr bool integral = std::is_integral_v<T>;
	uint64_t max = 1u << 20;
	if constexpr (integral)
		max = std::min<uint64_t>(static_cast<uint64_t>(std::numeric_limits<T>::max()), ~0ull >> 2);
	uint64_t period = c.choice(2) ? c.choice(std::min<uint64_t>(max, 12)) : c.choice(max);
	auto p = std::make_unique<PollEvent<T>>(static_cast<T>(period));
	uint64_t now = 0, last = 0;
	bool first = true, over = false;
	unsigned events = 0, n = static_cast<unsigned>(c.choice(20));
	PBT_LOG("PollEvent of " << name << ", period " << period);
	for (unsigned i = 0; i < n; i++) {
		uint64_t step;
		switch (c.choice(5)) {
			case 0: step = c.choice(2); break;
			case 1: step = now - last < period ? period - (now - last) : 1; break;                              // just then
			case 2: step = now - last < period && period - (now - last) > 1 ? period - (now - last) - 1 : 0; break; // just before
			case 3: step = c.choice(period * 3 < max ? period * 3 : max); break;
			case 4: { // to the overflow
				uint64_t span = integral ? (c.coin() ? max + 1 : 2 * (max + 1)) : max;
				uint64_t to = span - now % span;
				step = to - c.choice(std::min<uint64_t>(to, 3));
				break;
			}
			default: step = c.choice(max); break;
		}
		if (!integral && now + step > max)
			break;
		// not polled for longer than the type can count: nobody can tell
		step = std::min(step, max - (now - last));
		now += step;
		over |= now > max;
		bool want = now - last >= period;
		bool got = false;
		PBT_LOG(now);
		p->poll(static_cast<T>(now), [&] { got = true; });
		PBT_EQ(got, want, "the event at " << now << ", " << now - last << " after the last one (at " << last << ")");
		if (want) {
			last = now;
			events++;
			first = false;
		}
	}
	(void)first;
	if (events >= 3 && (over || !integral))
		c.nontrivial();
}
PBT("PollEvent", 2, "at least 3 events, and the time went past the maximum of its type") {
	switch (c.choice(5)) {
		case 0: return poll_event<uint8_t>(c, "uint8_t");
		case 1: return poll_event<int>(c, "int");
		case 2: return poll_event<uint32_t>(c, "uint32_t");
		case 3: return poll_event<int16_t>(c, "int16_t");
		case 4: return poll_event<double>(c, "double");
		default: return poll_event<long>(c, "long");
	}
}

PBT("PollChange", 1, "a change was seen, one was not as it was over before the next poll, and the time overflowed") {
	uint32_t ticks = c.choice(3) ? static_cast<uint32_t>(c.choice(12)) : static_cast<uint32_t>(c.choice(0xffffffffu));
	auto p = std::make_unique<PollChange>(ticks);
	uint64_t now = 0, last = 0;
	bool state = false, seen = false, change = false, forced = false;
	bool took = false, missed = false, over = false;
	unsigned n = static_cast<unsigned>(c.choice(24));
	PBT_LOG("PollChange of " << ticks);
	for (unsigned i = 0; i < n; i++) {
		switch (c.weighted({10, 3, 1, 1})) {
			case 0: {
				uint64_t step;
				switch (c.choice(4)) {
					case 0: step = c.choice(2); break;
					case 1: step = now - last < ticks ? ticks - (now - last) : 1; break;
					case 2: step = now - last < ticks && ticks - (now - last) > 1 ? ticks - (now - last) - 1 : 0; break;
					case 3: step = (1ull << 32) - (now & 0xffffffffu) - c.choice(1); break;
					default: step = c.choice(3ull * ticks); break;
				}
				step = std::min<uint64_t>(step, 0xffffffffu - (now - last));
				now += step;
				over |= now > 0xffffffffu;
				auto t = static_cast<uint32_t>(now);
				if (c.coin())
					state = !state;
				bool due = forced || now - last >= ticks;
				bool lazy = c.coin();
				PBT_LOG("poll at " << now << " state " << state << (lazy ? " (asked)" : ""));
				if (lazy) {
					unsigned calls = 0;
					p->poll(t, [&] {
						calls++;
						return state;
					});
					PBT_EQ(calls, due ? 1u : 0u, "calls for the state at " << now << ", " << now - last << " after the last one");
				} else
					p->poll(t, state);
				if (due) {
					last = now;
					forced = false;
					change |= state != seen;
					seen = state;
				} else
					missed |= state != seen;
				break;
			}
			case 1:
				PBT_LOG("take_change");
				PBT_EQ(p->take_change(), change, "take_change()");
				took |= change;
				change = false;
				break;
			case 2:
				PBT_LOG("reset");
				p->reset();
				change = true;
				break;
			case 3:
				PBT_LOG("force_next_poll");
				p->force_next_poll();
				forced = true;
				break;
		}
	}
	PBT_EQ(p->take_change(), change, "take_change() in the end");
	PBT_EQ(p->take_change(), false, "take_change() again");
	if (took && missed && over)
		c.nontrivial();
}
