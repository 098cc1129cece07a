// @cases 8000000
// @thorough 15
// @san none
#include "cvatomic.hh"
#include "util/thread_safe_pool.hh"

using cv::El;

// What is known of the entries, apart from the pool itself
struct Hist {
	std::vector<int> owner;				// thread that owns the entry, 0 if none
	std::vector<uint32_t> creates_done; // per entry
	std::vector<uint32_t> destroys_started, destroys_done;
	unsigned creating = 0; // threads inside create()
	bool weak = false;
	unsigned handovers = 0;
	unsigned nones = 0;
};

template<size_t N>
static void user(pbt::Ctx &c, cpputil::ThreadSafePool<El, N> &p, Hist &h, int me, unsigned ops, unsigned max_own) {
	std::map<size_t, uint32_t> mine;
	uint32_t next = static_cast<uint32_t>(me) * 1000;
	for (unsigned k = 0; k < ops; k++) {
		switch (c.weighted({4, 3, 2, 1, 1})) {
			case 0: {
				if (mine.size() >= max_own)
					break;
				auto owner0 = h.owner;
				auto creates0 = h.creates_done, started0 = h.destroys_started, done0 = h.destroys_done;
				h.creating++;
				auto i = p.create();
				h.creating--;
				PBT_LOG(me << " create " << pbt::show(i));
				if (!i) {
					h.nones++;
					// each entry was in use at some time during the call
					unsigned free_all_along = 0;
					for (size_t e = 0; e < N; e++)
						free_all_along += !owner0[e] && started0[e] == done0[e] && h.creates_done[e] == creates0[e];
					if (!h.weak) // others which are inside create() may have them
						PBT_CHECK(free_all_along <= h.creating, "create() found no entry, while " << free_all_along << " were free all the time");
					break;
				}
				PBT_CHECK(*i < N, "index created is " << *i);
				PBT_CHECK(!h.owner[*i], "entry " << *i << " was given to thread " << me << " while thread " << h.owner[*i] << " owns it");
				if (h.creates_done[*i])
					h.handovers++;
				h.owner[*i] = me;
				h.creates_done[*i]++;
				p[*i].set(++next);
				mine[*i] = next;
				PBT_CHECK(p.is_used(*i), "is_used() of a created entry is false");
				break;
			}
			case 1: {
				if (mine.empty())
					break;
				auto it = std::next(mine.begin(), static_cast<long>(mine.size() > 1 ? c.choice(mine.size() - 1) : 0));
				size_t i = it->first;
				PBT_EQ(p[i].read(), it->second, "value of an entry owned by thread " << me);
				h.owner[i] = 0; // from here on it may be given to another
				h.destroys_started[i]++;
				bool ok = p.destroy(i);
				PBT_LOG(me << " destroy " << i);
				PBT_CHECK(ok, "destroy() of an entry owned by thread " << me << " failed");
				h.destroys_done[i]++;
				mine.erase(it);
				break;
			}
			case 2:
				for (auto &[i, v] : mine) {
					PBT_EQ(std::as_const(p)[i].read(), v, "value of an entry owned by thread " << me);
					p[i].set(++next);
					v = next;
				}
				break;
			case 3:
				for (auto &[i, v] : mine)
					PBT_CHECK(p.is_used(i), "is_used() of an entry owned by thread " << me << " is false");
				PBT_CHECK(!p.is_used(N), "is_used() of an index out of range");
				PBT_CHECK(!p.destroy(N + c.choice(3)), "destroy() of an index out of range");
				break;
			case 4:
				break;
		}
	}
	// give everything back
	if (c.coin())
		for (auto &[i, v] : mine) {
			PBT_EQ(p[i].read(), v, "value of an entry owned by thread " << me);
			h.owner[i] = 0;
			h.destroys_started[i]++;
			PBT_CHECK(p.destroy(i), "destroy() of an entry owned by thread " << me << " failed");
			h.destroys_done[i]++;
		}
}

template<size_t N>
static void schedule(pbt::Ctx &c) {
	bool weak = c.coin();
	unsigned nt = 2 + static_cast<unsigned>(c.choice(1));
	cv::begin(c, weak);
	auto p = pbt::fresh<cpputil::ThreadSafePool<El, N>>();
	Hist h;
	h.weak = weak;
	h.owner.resize(N);
	h.creates_done.resize(N);
	h.destroys_started.resize(N);
	h.destroys_done.resize(N);
	PBT_LOG(nt << " threads, pool of " << N);
	std::vector<std::function<void()>> fns;
	for (unsigned t = 1; t <= nt; t++) {
		unsigned ops = static_cast<unsigned>(c.choice(6)) + 1;
		fns.push_back([&, t, ops] { user<N>(c, *p, h, static_cast<int>(t), ops, N); });
	}
	cv::run(fns);
	size_t used = 0;
	for (size_t i = 0; i < N; i++) {
		PBT_EQ(p->is_used(i), h.owner[i] != 0, "is_used(" << i << ") afterwards");
		used += h.owner[i] != 0;
	}
	for (; used < N; used++) {
		auto i = p->create();
		PBT_CHECK(i && !h.owner[*i], "creating the rest of the entries afterwards");
		h.owner[*i] = 9;
	}
	PBT_CHECK(!p->create(), "created more entries than the pool has");
	if (h.nones)
		c.label("pool full");
	if (h.handovers)
		c.label("an entry went from one owner to another");
	if (cv::S.switches >= 3 && (h.handovers || h.nones))
		c.nontrivial();
}

// Two threads destroy the same entries: each is destroyed once
template<size_t N>
static void contended(pbt::Ctx &c) {
	cv::begin(c, c.coin());
	auto p = pbt::fresh<cpputil::ThreadSafePool<El, N>>();
	size_t n = c.choice(N);
	for (size_t i = 0; i < n; i++)
		PBT_CHECK(p->create().has_value(), "create()");
	PBT_LOG("pool of " << N << ", " << n << " in use");
	std::vector<unsigned> created(N), destroyed(N);
	for (size_t i = 0; i < n; i++)
		created[i] = 1;
	unsigned clash = 0;
	std::vector<std::function<void()>> fns;
	unsigned nt = 2 + static_cast<unsigned>(c.choice(1));
	for (unsigned t = 1; t <= nt; t++)
		fns.push_back([&, t] {
			unsigned ops = static_cast<unsigned>(c.choice(5)) + 1;
			for (unsigned k = 0; k < ops; k++) {
				if (c.choice(2)) {
					size_t i = c.choice(N - 1);
					bool ok = p->destroy(i);
					PBT_LOG(t << " destroy " << i << " -> " << ok);
					if (ok)
						destroyed[i]++;
					else
						clash++;
				} else {
					auto i = p->create();
					PBT_LOG(t << " create " << pbt::show(i));
					if (i)
						created[*i]++;
				}
			}
		});
	cv::run(fns);
	for (size_t i = 0; i < N; i++) {
		PBT_CHECK(created[i] == destroyed[i] || created[i] == destroyed[i] + 1, "entry " << i << " was created " << created[i] << " times and destroyed " << destroyed[i] << " times");
		PBT_EQ(p->is_used(i), created[i] == destroyed[i] + 1, "is_used(" << i << ") after it was created " << created[i] << " times and destroyed " << destroyed[i] << " times");
	}
	if (clash && cv::S.switches >= 2)
		c.nontrivial();
}

// Who finds that an entry is not used any more sees everything its owner did to it
template<size_t N>
static void watched(pbt::Ctx &c) {
	cv::begin(c, c.coin());
	auto p = pbt::fresh<cpputil::ThreadSafePool<El, N>>();
	for (size_t i = 0; i < N; i++)
		PBT_CHECK(p->create() == i || N > 1, "create()");
	std::array<uint32_t, N> last{};
	bool waited = false, saw = false;
	PBT_LOG("pool of " << N);
	std::vector<std::function<void()>> fns;
	fns.push_back([&] {
		for (size_t i = 0; i < N; i++) {
			unsigned writes = static_cast<unsigned>(c.choice(2));
			for (unsigned k = 0; k < writes; k++)
				(*p)[i].set(++last[i]);
			PBT_LOG("destroy " << i);
			PBT_CHECK(p->destroy(i), "destroy() of an entry in use failed");
		}
	});
	unsigned watchers = 1 + static_cast<unsigned>(c.choice(1));
	for (unsigned t = 0; t < watchers; t++)
		fns.push_back([&] {
			for (size_t i = 0; i < N; i++) {
				bool used = true;
				for (unsigned tries = 0; tries < 6 && (used = p->is_used(i)); tries++)
					waited = true;
				if (used)
					continue;
				saw = true;
				PBT_LOG(i << " is free");
				PBT_EQ(std::as_const(*p)[i].read(), last[i], "the value of entry " << i << ", which is not used any more");
			}
		});
	cv::run(fns);
	for (size_t i = 0; i < N; i++)
		PBT_CHECK(!p->is_used(i), "is_used() after destroy()");
	if (waited && saw && cv::S.switches >= 2)
		c.nontrivial();
}
PBT("watched", 1, "an entry was in use at first, and was found free later") {
	switch (c.choice(1)) {
		case 0: watched<1>(c); break;
		case 1: watched<3>(c); break;
	}
}

PBT("owners", 3, "at least 3 switches between threads, and an entry went from one owner to another or the pool was full") {
	switch (c.choice(2)) {
		case 0: schedule<1>(c); break;
		case 1: schedule<2>(c); break;
		case 2: schedule<3>(c); break;
	}
}
PBT("contended destroy", 1, "a destroy() found the entry destroyed already, and at least 2 switches between threads") {
	switch (c.choice(1)) {
		case 0: contended<1>(c); break;
		case 1: contended<2>(c); break;
	}
}

// The owner of all entries clears the pool while others want to have entries
template<size_t N>
static void cleared(pbt::Ctx &c) {
	cv::begin(c, c.coin());
	auto p = pbt::fresh<cpputil::ThreadSafePool<El, N>>();
	for (size_t i = 0; i < N; i++)
		PBT_CHECK(p->create().has_value(), "create()");
	PBT_LOG("pool of " << N << ", all in use");
	bool done = false, early = false;
	std::array<unsigned, N> owner{};
	std::vector<std::function<void()>> fns;
	fns.push_back([&] {
		for (size_t i = 0; i < N; i++)
			(*p)[i].set(static_cast<uint32_t>(i + 1));
		PBT_LOG("clear");
		p->clear();
		done = true;
		PBT_LOG("clear is done");
	});
	unsigned nt = 1 + static_cast<unsigned>(c.choice(1));
	for (unsigned t = 1; t <= nt; t++)
		fns.push_back([&, t] {
			std::map<size_t, uint32_t> mine;
			unsigned ops = 2 + static_cast<unsigned>(c.choice(4));
			for (unsigned k = 0; k < ops; k++) {
				auto i = p->create();
				PBT_LOG(t << " create " << pbt::show(i));
				if (i) {
					PBT_CHECK(*i < N && !owner[*i], "entry " << *i << " was given to thread " << t << " while thread " << owner[*i] << " owns it");
					early |= !done;
					owner[*i] = t;
					PBT_EQ((*p)[*i].read(), 0u, "value of an entry which was cleared");
					mine[*i] = t * 100 + k;
					(*p)[*i].set(mine[*i]);
				}
				for (auto &[e, v] : mine) {
					PBT_EQ(std::as_const(*p)[e].read(), v, "value of an entry owned by thread " << t);
					PBT_CHECK(p->is_used(e), "is_used() of an entry owned by thread " << t << " is false");
				}
			}
		});
	cv::run(fns);
	for (size_t i = 0; i < N; i++)
		PBT_EQ(p->is_used(i), owner[i] != 0, "is_used(" << i << ") afterwards");
	if (early && cv::S.switches >= 2)
		c.nontrivial();
}
PBT("cleared by the owner", 1, "an entry was taken while clear() was still running, and at least 2 switches between threads") {
	switch (c.choice(1)) {
		case 0: cleared<2>(c); break;
		case 1: cleared<3>(c); break;
	}
}
