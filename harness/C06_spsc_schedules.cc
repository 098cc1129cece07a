// @cases 9000000
// @thorough 20
// @san none
#include "cvatomic.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

using cv::El;

// One producer and one consumer. The producer's k-th accepted element has value
// k + 1, so the consumer's position is known from what it gets.
struct Hist {
	size_t size;
	uint32_t accepted = 0;	 // puts that returned true
	uint32_t put_started = 0; // puts that were called
	// positions of the consumer: it may be anywhere in [lo, hi], after remove_first
	uint32_t lo = 0, hi = 0;
	uint32_t hi_started = 0; // counting a removal in progress
};

template<typename F>
static void producer(pbt::Ctx &c, F &q, Hist &h, unsigned ops, bool sc) {
	size_t sure = 0; // so many puts must succeed
	for (unsigned i = 0; i < ops; i++) {
		switch (c.weighted({6, 1, 1})) {
			case 0: {
				uint32_t lo = h.lo;
				h.put_started = h.accepted + 1;
				bool ok = q.put(El(h.accepted + 1));
				PBT_LOG("put " << h.accepted + 1 << " -> " << ok);
				if (ok) {
					h.accepted++;
					PBT_CHECK(h.accepted - h.size <= h.hi_started || h.accepted < h.size, "put() accepted an element when the queue was full");
					if (sure)
						sure--;
				} else {
					PBT_CHECK(!sure, "put() failed though num_free()/full() said there was space");
					h.put_started = h.accepted;
					if (sc)
						PBT_CHECK(h.accepted - lo >= h.size, "put() failed though the queue had space");
				}
				break;
			}
			case 1: {
				uint32_t lo = h.lo;
				auto n = q.num_free();
				PBT_LOG("num_free " << n);
				PBT_CHECK(n <= h.size, "num_free() is " << n);
				PBT_CHECK(h.size - n + h.hi_started >= h.accepted, "num_free() is " << n << ": more than is free");
				if (sc)
					PBT_CHECK(n + (h.accepted - lo) >= h.size, "num_free() is " << n << ": less than is free");
				PBT_CHECK(n >= sure, "num_free() went down without a put()");
				sure = n;
				break;
			}
			case 2: {
				bool full = q.full();
				PBT_LOG("full " << full);
				PBT_CHECK(!full || !sure, "full() though num_free() said there was space");
				if (!full && !sure)
					sure = 1;
				break;
			}
		}
	}
}

template<typename F>
static void consumer(pbt::Ctx &c, F &q, Hist &h, unsigned ops, bool sc) {
	constexpr uint32_t Any = 1u << 30; // it may be anywhere, for now
	size_t sure = 0;
	auto got = [&](uint32_t v, const char *what) {
		PBT_LOG(what << " " << v);
		PBT_CHECK(v >= h.lo + 1 && v <= h.hi + 1, what << " gave element " << v << ", expected " << h.lo + 1 << (h.hi > h.lo ? " or a few later" : ""));
		PBT_CHECK(v <= h.put_started, what << " gave element " << v << ", which was not put yet");
		h.lo = h.hi = h.hi_started = v;
		if (sure)
			sure--;
	};
	auto nothing = [&](uint32_t accepted, const char *what) {
		PBT_LOG(what << " nothing");
		PBT_CHECK(!sure, what << " gave nothing though num_filled()/empty() said there were elements");
		if (sc)
			PBT_CHECK(h.hi >= accepted, what << " gave nothing though the queue was not empty");
		// with nothing left, every accepted element before was removed
		if (sc)
			h.lo = std::max(h.lo, accepted);
	};
	for (unsigned i = 0; i < ops; i++) {
		uint32_t accepted = h.accepted;
		switch (c.weighted({4, 2, 1, 1, 2, 1, 1, 1, 1})) {
			case 0: {
				h.hi_started = h.hi + 1;
				auto r = q.get();
				if (r)
					got(r->v, "get()");
				else
					nothing(accepted, "get()");
				break;
			}
			case 1: {
				El e{999999};
				h.hi_started = h.hi + 1;
				if (q.get_move(e))
					got(e.v, "get_move()");
				else {
					nothing(accepted, "get_move()");
					PBT_EQ(e.v, 999999u, "get_move() from an empty queue changed its argument");
				}
				break;
			}
			case 2: {
				h.hi_started = h.hi + 1;
				El e = q.get_or_default();
				if (e.v)
					got(e.v, "get_or_default()");
				else
					nothing(accepted, "get_or_default()");
				break;
			}
			case 3:
				h.hi_started = h.hi + 1;
				q.remove_first();
				PBT_LOG("remove_first");
				if (sure) {
					h.lo++;
					sure--;
				}
				h.hi = std::min(h.hi + 1, h.put_started);
				h.lo = std::min(h.lo, h.hi);
				break;
			case 4: {
				auto n = q.num_filled();
				PBT_LOG("num_filled " << n);
				PBT_CHECK(n <= h.size, "num_filled() is " << n);
				PBT_CHECK(h.lo + n <= h.put_started, "num_filled() is " << n << ": more than is filled");
				if (sc)
					PBT_CHECK(h.hi + n >= accepted, "num_filled() is " << n << ": less than is filled");
				PBT_CHECK(n >= sure, "num_filled() went down without a get()");
				sure = n;
				break;
			}
			case 5: {
				bool e = q.empty();
				PBT_LOG("empty " << e);
				PBT_CHECK(!e || !sure, "empty() though num_filled() said there were elements");
				if (!e && !sure)
					sure = 1;
				break;
			}
			case 6:
				h.hi_started = Any;
				q.reset();
				PBT_LOG("reset");
				h.lo = std::min<uint32_t>(h.lo + static_cast<uint32_t>(sure), h.put_started);
				h.hi = h.put_started;
				if (sc)
					h.lo = std::max(h.lo, accepted);
				sure = 0;
				h.hi_started = h.hi;
				break;
			case 7: { // forward, to the latest k
				auto k = static_cast<uint32_t>(c.choice(sure));
				h.hi_started = Any;
				q.set_read_offset(k);
				PBT_LOG("set_read_offset " << k);
				h.lo = std::min<uint32_t>(h.lo + static_cast<uint32_t>(sure) - k, h.put_started - k);
				h.hi = std::max(h.hi, h.put_started - k);
				if (sc && accepted > k)
					h.lo = std::max(h.lo, accepted - k);
				sure = k;
				h.hi_started = h.hi;
				break;
			}
			case 8: // forward by k
				if (h.lo == h.hi) {
					auto k = static_cast<uint32_t>(c.choice(sure));
					h.hi_started = h.hi + k;
					q.set_read_pos(h.lo + k);
					PBT_LOG("set_read_pos " << h.lo + k);
					h.lo += k;
					h.hi = h.lo;
					sure -= k;
				}
				break;
		}
		h.hi = std::max(h.hi, h.lo);
		h.hi_started = std::max(h.hi_started, h.hi);
	}
}

template<typename F>
static void schedule(pbt::Ctx &c, auto make, size_t size, const char *name) {
	bool sc = c.coin();
	cv::begin(c, !sc);
	auto q = make();
	PBT_LOG(name << " of " << size << (sc ? "" : ", with stale loads"));
	Hist h{size};
	// before the threads start
	unsigned pre = static_cast<unsigned>(c.choice(2 * size));
	for (unsigned i = 0; i < pre; i++) {
		if (c.choice(2) && q->put(El(h.accepted + 1)))
			h.put_started = ++h.accepted;
		else if (q->get())
			h.lo = h.hi = h.hi_started = h.lo + 1;
	}
	unsigned np = static_cast<unsigned>(c.choice(7)) + 1, nc = static_cast<unsigned>(c.choice(7)) + 1;
	cv::run({[&] { producer(c, *q, h, np, sc); }, [&] { consumer(c, *q, h, nc, sc); }});
	// afterwards everything is visible
	auto left = q->num_filled();
	PBT_CHECK(left + h.hi >= h.accepted && left + h.lo <= h.accepted, "num_filled() is " << left << " afterwards, accepted " << h.accepted << ", consumed " << h.lo << ".." << h.hi);
	uint32_t pos = h.accepted - static_cast<uint32_t>(left);
	while (pos < h.accepted) {
		auto r = q->get();
		PBT_CHECK(r && r->v == pos + 1, "emptying the queue: got " << (r ? std::to_string(r->v) : "nothing") << ", expected " << pos + 1);
		pos++;
	}
	PBT_CHECK(!q->get(), "an element after the last one");
	if (cv::S.stale_reads)
		c.label("a load returned an older value");
	if (h.accepted > size)
		c.label("went around the buffer");
	if (cv::S.switches >= 3 && h.accepted && h.hi)
		c.nontrivial();
}

#define RULE "at least 3 switches between the threads, and elements put and consumed"
PBT("LockFreeFifoSpsc", 1, RULE) {
	switch (c.choice(2)) {
		case 0: schedule<LockFreeFifoSpsc<El, 1>>(c, [] { return pbt::fresh<LockFreeFifoSpsc<El, 1>>(); }, 1, "LockFreeFifoSpsc"); break;
		case 1: schedule<LockFreeFifoSpsc<El, 2>>(c, [] { return pbt::fresh<LockFreeFifoSpsc<El, 2>>(); }, 2, "LockFreeFifoSpsc"); break;
		case 2: schedule<LockFreeFifoSpsc<El, 4>>(c, [] { return pbt::fresh<LockFreeFifoSpsc<El, 4>>(); }, 4, "LockFreeFifoSpsc"); break;
	}
}
PBT("LockFreeFifoSpscDyn", 1, RULE) {
	size_t size = c.sz(1, 5);
	schedule<LockFreeFifoSpscDyn<El>>(c, [&] { return std::make_unique<LockFreeFifoSpscDyn<El>>(size); }, size, "LockFreeFifoSpscDyn");
}
