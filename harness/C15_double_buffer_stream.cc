// @cases 2000000
// @thorough 15
#include "pbt.hh"
#include "util/doublebuf_stream.hh"

// Reference: what was accepted must be transmitted, each element once and in
// order, one transmission at a time, each with everything accepted since the
// one before was started.
template<typename T, size_t Size>
static void history(pbt::Ctx &c) {
	struct World {
		std::vector<T> accepted;
		size_t started = 0; // elements handed to the hardware
		std::span<T> active{};
		std::vector<T> active_copy;
		bool busy = false;
		unsigned calls = 0;
		bool overlap = false;
		bool fails = false;	  // the next one does not start
		bool at_once = false; // the next transmission is done before the function that starts it returns
		std::function<void()> done;
	} w;
	auto s = std::make_unique<DoubleBufferStream<T, Size>>([&w](std::span<T> d) {
		w.calls++;
		if (w.busy)
			w.overlap = true;
		w.busy = true;
		w.active = d;
		w.active_copy.assign(d.begin(), d.end());
		if (std::exchange(w.at_once, false)) {
			w.busy = false;
			w.done();
		}
		return !std::exchange(w.fails, false);
	});
	// another stream, which is busy all the time
	DoubleBufferStream<T, Size> busy{[](std::span<T>) { return true; }};
	T unit{};
	busy.transmit({&unit, 1});
	w.done = [&s] { s->tx_done_callback(); };
	PBT_LOG("DoubleBufferStream of " << Size);
	uint32_t next = 1;
	size_t queued = 0;
	bool refused = false, chained = false;
	unsigned n = static_cast<unsigned>(c.choice(40));
	auto check_started = [&](size_t from, size_t count) {
		PBT_CHECK(!w.overlap, "a transmission was started while another one is in progress");
		PBT_EQ(w.active_copy.size(), count, "elements in the transmission started");
		for (size_t i = 0; i < count; i++)
			PBT_CHECK(w.active_copy[i] == w.accepted[from + i], "element " << i << " of the transmission is " << pbt::show(w.active_copy[i]) << ", expected " << pbt::show(w.accepted[from + i]));
	};
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		if (!w.busy)
			copies(op, s);
		if (c.choice(2)) {
			size_t k = c.choice(9) == 9 ? c.choice(Size + 2) : c.choice(std::max<size_t>(1, Size / 2));
			if (!k && !w.busy)
				k = 1;
			std::unique_ptr<T[]> block{new T[k]};
			for (size_t i = 0; i < k; i++)
				block[i] = pbt::number<T>(next++);
			bool was_busy = w.busy;
			auto calls = w.calls;
			if (!was_busy && c.chance(1, 4)) {
				PBT_LOG("done at once:");
				c.label("done at once");
				w.at_once = k <= Size;
			}
			bool fits = k <= Size - queued;
			if (!was_busy && !w.at_once && fits && c.chance(1, 16)) {
				// it is told to the caller, and reported as done
				w.fails = true;
				PBT_LOG("transmit " << k << ", which cannot be started");
				PBT_EQ(s->transmit({block.get(), k}), false, "transmit() of data that cannot be transmitted");
				w.busy = false;
				s->tx_done_callback();
				PBT_EQ(w.calls, calls + 1, "transmissions started when one failed");
				continue;
			}
			bool ok = s->transmit({block.get(), k});
			PBT_LOG("transmit " << k << " -> " << ok);
			PBT_EQ(ok, fits, "transmit() of " << k << " elements with " << queued << " of " << Size << " queued, and " << (was_busy ? "a" : "no") << " transmission in progress");
			if (ok) {
				w.accepted.insert(w.accepted.end(), block.get(), block.get() + k);
				if (was_busy) {
					PBT_EQ(w.calls, calls, "transmissions started while one is in progress");
					queued += k;
				} else {
					PBT_EQ(w.calls, calls + 1, "transmissions started when none is in progress");
					check_started(w.started, k);
					w.started += k;
				}
			} else {
				PBT_EQ(w.calls, calls, "transmissions started by a refused transmit()");
				refused = true;
			}
			std::fill(block.get(), block.get() + k, T(0)); // the data must have been copied
		} else {
			// the hardware reads the buffer until it is done
			if (w.busy)
				PBT_CHECK(std::equal(w.active.begin(), w.active.end(), w.active_copy.begin(), w.active_copy.end()), "the data changed while it was being transmitted");
			bool was_busy = std::exchange(w.busy, false);
			auto calls = w.calls;
			if (was_busy && queued && c.chance(1, 4)) {
				PBT_LOG("done at once:");
				w.at_once = true;
			}
			PBT_LOG("tx_done_callback");
			s->tx_done_callback();
			if (was_busy && queued) {
				PBT_EQ(w.calls, calls + 1, "transmissions started with " << queued << " elements queued");
				check_started(w.started, queued);
				w.started += queued;
				queued = 0;
				chained = true;
			} else
				PBT_EQ(w.calls, calls, "transmissions started with nothing queued");
		}
	}
	// everything goes out in the end
	while (w.busy) {
		w.busy = false;
		s->tx_done_callback();
		if (queued) {
			PBT_CHECK(w.busy, "queued data is not transmitted");
			check_started(w.started, queued);
			w.started += queued;
			queued = 0;
		}
	}
	PBT_EQ(w.started, w.accepted.size(), "elements transmitted");
	if (refused)
		c.label("refused");
	if (chained && w.calls >= 3)
		c.nontrivial();
}

#define RULE "at least 3 transmissions, of which one was of queued data"
PBT("DoubleBufferStream", 300, RULE) {
	switch (c.choice(3)) {
		case 0: history<uint8_t, 1>(c); break;
		case 1: history<uint32_t, 4>(c); break;
		case 2: history<uint8_t, 8>(c); break;
		case 3: history<uint16_t, 33>(c); break;
	}
}
PBT("Large DoubleBufferStream", 1, RULE) {
	switch (c.choice(3)) {
		case 0: history<uint8_t, 256>(c); break;
		case 1: history<uint32_t, 300>(c); break;
		case 2: history<uint16_t, 512>(c); break;
		case 3: history<uint8_t, 66000>(c); break;
	}
}
