// @cases 4000000
// @thorough 15
#include "pbt.hh"
#include "util/change_detector.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"
#include "util/edge_detector.hh"

struct Ref {
	bool high = false, rose = false, fell = false;
};

template<typename T>
static void check_reads(pbt::Ctx &c, T &t, Ref &r) {
	PBT_EQ(t.is_high(), r.high, "is_high()");
	PBT_EQ(t.is_pressed(), r.high, "is_pressed()");
	PBT_EQ(static_cast<bool>(t), r.high, "as a bool");
	switch (c.choice(7)) {
		case 1:
			PBT_EQ(t.is_just_pressed(), std::exchange(r.rose, false), "is_just_pressed()");
			break;
		case 2:
			PBT_EQ(t.just_went_high(), std::exchange(r.rose, false), "just_went_high()");
			break;
		case 3:
			PBT_EQ(t.is_just_released(), std::exchange(r.fell, false), "is_just_released()");
			break;
		case 4:
			PBT_EQ(t.just_went_low(), std::exchange(r.fell, false), "just_went_low()");
			break;
		case 5: // reading an event clears it
			PBT_EQ(t.just_went_high(), r.rose, "just_went_high()");
			PBT_EQ(t.just_went_high(), false, "just_went_high() again");
			r.rose = false;
			break;
	}
}

template<typename T>
static void final_reads(T &t, const Ref &r, const char *what) {
	PBT_EQ(t.is_high(), r.high, "is_high() of " << what);
	PBT_EQ(t.just_went_high(), r.rose, "just_went_high() of " << what);
	PBT_EQ(t.just_went_low(), r.fell, "just_went_low() of " << what);
}

// A low or high reading: any number but 0 is high, e.g. masked bits of a port
static unsigned reading(pbt::Ctx &c, bool s) {
	return !s ? 0 : c.choice(7) ? 1 : c.one_of({2u, 3u, 6u, 0x100u, 0x8000u, 0x10000u, 0x80000000u, 0xffffffffu});
}

template<typename T, bool Counter>
static void toggler(pbt::Ctx &c) {
	auto t = pbt::fresh<T>();
	auto u = pbt::fresh<T>();
	Ref r, q;
	unsigned steady = 0;
	bool between = false;
	unsigned events = 0;
	unsigned n = static_cast<unsigned>(c.choice(16));
	auto set = [&](bool s) {
		if (s == r.high) {
			steady++;
			return;
		}
		steady = 0;
		r.high = s;
		(s ? r.rose : r.fell) = true;
		events++;
	};
	for (unsigned i = 0; i < n; i++) {
		switch (c.weighted({6, 2, 1, 1, 1, 1, 1, 3, 2, 1, 1})) {
			case 0: {
				bool s = c.coin();
				if (c.chance(1, 2000)) {
					c.label("long stretch");
					unsigned times = (c.chance(1, 20) ? 65530 : 250) + static_cast<unsigned>(c.choice(15));
					PBT_LOG("register_state " << s << ", " << times << " times before the next");
					for (unsigned k = 0; k < times; k++) {
						t->register_state(s);
						set(s);
					}
				}
				unsigned v = reading(c, s);
				PBT_LOG("register_state " << v);
				t->register_state(v);
				set(s);
				break;
			}
			case 1: {
				bool s = c.coin();
				unsigned v = reading(c, s);
				PBT_LOG("process " << v);
				t->process(v);
				set(s);
				break;
			}
			case 2:
				PBT_LOG("register_rising_edge");
				t->register_rising_edge();
				r = {true, true, false};
				break;
			case 3:
				PBT_LOG("register_falling_edge");
				t->register_falling_edge();
				r = {false, false, true};
				break;
			case 4: {
				unsigned s = c.one_of({0u, 1u, 2u, 0x80000000u});
				PBT_LOG("set_state_no_events " << s);
				t->set_state_no_events(s);
				r.high = s != 0;
				break;
			}
			case 5:
				PBT_LOG("clear_events");
				t->clear_events();
				r.rose = r.fell = false;
				break;
			case 6:
				PBT_LOG("reset");
				t->reset();
				r = {};
				break;
			case 7: {
				bool s = c.coin();
				PBT_LOG("other register_state " << s);
				u->register_state(s);
				if (s != q.high) {
					q.high = s;
					(s ? q.rose : q.fell) = true;
				}
				break;
			}
			case 8: {
				// if the other one has both events, it is not documented which counts
				if (q.rose && q.fell) {
					u->clear_events();
					q.rose = q.fell = false;
				}
				bool transfer = c.coin();
				PBT_LOG((transfer ? "transfer_events" : "update_state"));
				if (transfer)
					t->transfer_events(*u);
				else
					t->update_state(*u);
				r.high = q.high;
				r.rose |= q.rose;
				r.fell |= q.fell;
				if (transfer)
					q.rose = q.fell = false;
				between = true;
				break;
			}
			case 9:
				PBT_LOG("copy_state");
				t->copy_state(*u);
				r = q;
				between = true;
				break;
			case 10:
				if constexpr (!Counter) {
					PBT_LOG("assign");
					*t = *u;
					r = q;
					between = true;
				} else {
					PBT_LOG("reset_count");
					t->reset_count();
					steady = 0;
				}
				break;
		}
		check_reads(c, *t, r);
		if constexpr (Counter)
			PBT_EQ(t->steady_state_count(), steady, "steady_state_count()");
	}
	final_reads(*t, r, "this");
	final_reads(*u, q, "the other");
	if (events >= 2 && between)
		c.nontrivial();
}
#define TRULE "at least 2 changes of the state, and a transfer or copy from another one"
PBT("Toggler", 1, TRULE) {
	toggler<Toggler, false>(c);
}
PBT("TogglerCompact", 1, TRULE) {
	toggler<TogglerCompact, false>(c);
}
PBT("TogglerCounter", 1, TRULE) {
	toggler<TogglerCounter, true>(c);
}

// The last 32 readings (fewer are all low before the first) decide: the newest
// popcount(Mask) of them are compared with the patterns.
template<typename D, unsigned R, unsigned F, unsigned M, bool Deb, bool Counter>
static void debouncer(pbt::Ctx &c) {
	auto d = pbt::fresh<D>();
	PBT_LOG("rising " << pbt::show(R) << " falling " << pbt::show(F) << " mask " << pbt::show(M) << " debounce raw " << Deb);
	std::vector<bool> hist(32, false); // newest last
	Ref r;
	unsigned steady = 0, edges = 0, bounces = 0;
	unsigned n = static_cast<unsigned>(c.choice(12));
	bool level = false;
	for (unsigned k = 0; k < n; k++) {
		// a stretch of one level, perhaps after bouncing
		level = !level;
		unsigned bounce = c.choice(2) ? 0 : static_cast<unsigned>(c.choice(4));
		unsigned len = c.choice(2) ? std::bit_width(M) - 2 + static_cast<unsigned>(c.choice(4)) : static_cast<unsigned>(c.choice(3));
		if (c.chance(1, 2000)) {
			len = (c.chance(1, 20) ? 65530 : 250) + static_cast<unsigned>(c.choice(15));
			c.label("long stretch");
		}
		bounces += bounce;
		for (unsigned i = 0; i < bounce + len; i++) {
			bool s = i < bounce ? c.coin() : level;
			bool plain = i > bounce + 60 && i + 10 < bounce + len; // (no choices for each reading of a long stretch)
			unsigned v = plain ? s : reading(c, s);
			if (v > 1)
				PBT_LOG("reading " << v << " next");
			if (plain || c.choice(3))
				d->register_state(v);
			else
				d->process(v);
			hist.push_back(s);
			auto matches = [&](unsigned pattern) {
				for (unsigned b = 0; b < 32; b++)
					if ((M >> b & 1) && hist[hist.size() - 1 - b] != (pattern >> b & 1))
						return false;
				return true;
			};
			bool edge = true;
			if (matches(R)) {
				r = {true, true, false};
			} else if (matches(F)) {
				r = {false, false, true};
			} else {
				edge = false;
				if (!Deb)
					r.high = s;
			}
			edges += edge;
			steady = edge ? 0 : steady + 1;
			if constexpr (Counter)
				PBT_EQ(d->steady_state_ctr, steady, "steady_state_ctr");
			PBT_EQ(d->is_high(), r.high, "is_high() after the reading " << s << ", number " << hist.size() - 32);
			if (!plain && c.chance(1, 4)) {
				PBT_EQ(d->just_went_high(), std::exchange(r.rose, false), "just_went_high() after " << hist.size() - 32 << " readings");
				PBT_EQ(d->just_went_low(), std::exchange(r.fell, false), "just_went_low() after " << hist.size() - 32 << " readings");
			}
		}
		PBT_LOG(level << " for " << len << " after " << bounce << " others");
		switch (c.choice(9)) {
			case 6:
				PBT_LOG("clear_events");
				d->clear_events();
				r.rose = r.fell = false;
				break;
			case 7: { // goes on with a copy of it, constructed or assigned
				bool assigned = c.coin();
				PBT_LOG((assigned ? "copy by assignment" : "copy by construction"));
				auto e = assigned ? pbt::fresh<D>() : std::make_unique<D>(std::as_const(*d));
				if (assigned) {
					for (auto k = c.choice(3); k; k--)
						e->register_state(static_cast<unsigned>(c.choice(1)));
					*e = std::as_const(*d);
				}
				d = std::move(e);
				break;
			}
			case 8: { // events are passed on to a toggler
				bool transfer = c.coin();
				if (r.rose && r.fell)
					break; // (only one of them, if a reading does both)
				Ref q{r.high, r.rose, r.fell};
				auto t = pbt::fresh<Toggler>();
				PBT_LOG((transfer ? "transfer_events to a toggler" : "update_state of a toggler"));
				if (transfer) {
					t->transfer_events(*d);
					r.rose = r.fell = false;
				} else
					t->update_state(*d);
				final_reads(*t, q, "the toggler");
				break;
			}
			default: break;
		}
	}
	final_reads(*d, r, "the debouncer");
	if (edges >= 2 && bounces)
		c.nontrivial();
}
template<template<unsigned, unsigned, unsigned, bool> typename D, typename Default, bool Counter>
static void debouncers(pbt::Ctx &c) {
	switch (c.choice(8)) {
		case 8: return debouncer<D<0x5, 0xA, 0xF, true>, 0x5, 0xA, 0xF, true, Counter>(c);
		case 0: return debouncer<D<0x00000001, 0xFFFFFFFE, 0x00000FFF, false>, 0x00000001, 0xFFFFFFFE, 0x00000FFF, false, Counter>(c);
		case 1: return debouncer<D<0x00000001, 0xFFFFFFFE, 0x00000FFF, true>, 0x00000001, 0xFFFFFFFE, 0x00000FFF, true, Counter>(c);
		case 2: return debouncer<D<0x1, 0xE, 0xF, false>, 0x1, 0xE, 0xF, false, Counter>(c);
		case 3: return debouncer<D<0x3, 0xC, 0xF, true>, 0x3, 0xC, 0xF, true, Counter>(c);
		case 4: return debouncer<D<0xFFFFFFFF, 0x0, 0x3, true>, 0xFFFFFFFF, 0x0, 0x3, true, Counter>(c);
		case 5: return debouncer<D<0x00000001, 0xFFFFFFFE, 0xFFFFFFFF, true>, 0x00000001, 0xFFFFFFFE, 0xFFFFFFFF, true, Counter>(c);
		case 6: return debouncer<Default, 0x00000001, 0xFFFFFFFE, 0x00000FFF, false, Counter>(c);
		default: return debouncer<D<0x0F, 0xF0, 0xFF, false>, 0x0F, 0xF0, 0xFF, false, Counter>(c);
	}
}
#define DRULE "at least 2 edges, and bouncing"
PBT("Debouncer", 1, DRULE) {
	debouncers<Debouncer, Debouncer<>, false>(c);
}
PBT("DebouncerCounter", 1, DRULE) {
	debouncers<DebouncerCounter, DebouncerCounter<>, true>(c);
}

PBT("edge and change detectors", 1, "at least 3 edges") {
	auto e = pbt::fresh<EdgeStateDetector>();
	auto rise = pbt::fresh<RisingEdgeDetector>();
	auto fall = pbt::fresh<FallingEdgeDetector>();
	auto ch = pbt::fresh<ChangeDetector>();
	bool last = false, state = false, changed = false;
	bool prev = false; // of those which are never reset
	unsigned edges = 0;
	unsigned n = static_cast<unsigned>(c.choice(16));
	PBT_CHECK(!e->is_high() && !e->changed() && !e->went_high() && !e->went_low() && !e->staying_high() && e->staying_low(), "a new one is not low");
	PBT_CHECK(!ch->changed(), "a new one has changed");
	for (unsigned i = 0; i < n; i++) {
		if (c.chance(1, 8)) {
			PBT_LOG("reset");
			e->reset();
			last = state = false;
		} else {
			bool s = c.coin();
			PBT_LOG(s);
			e->update(s);
			last = std::exchange(state, s);
			PBT_EQ(rise->update(s), s && !prev, "RisingEdgeDetector::update(" << s << ")");
			PBT_EQ(fall->update(s), !s && prev, "FallingEdgeDetector::update(" << s << ")");
			ch->update(s);
			changed |= s != prev;
			edges += s != prev;
			prev = s;
		}
		if (c.choice(1)) {
			PBT_EQ(ch->changed(), std::exchange(changed, false), "ChangeDetector::changed()");
			PBT_EQ(ch->changed(), false, "ChangeDetector::changed() again");
		}
		PBT_EQ(e->is_high(), state, "is_high()");
		PBT_EQ(e->changed(), state != last, "changed()");
		PBT_EQ(e->went_high(), state && !last, "went_high()");
		PBT_EQ(e->went_low(), !state && last, "went_low()");
		PBT_EQ(e->staying_high(), state && last, "staying_high()");
		PBT_EQ(e->staying_low(), !state && !last, "staying_low()");
	}
	if (edges >= 3)
		c.nontrivial();
}
