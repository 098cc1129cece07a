// @cases 6000000
// @thorough 10
// @fuzz CircularBuffer, CircularBufferOpt
#include "pbt.hh"
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"

struct Wide {
	uint16_t a = 0x4321; // T() is not all zeros
	uint8_t b[3]{0, 5, 0};
	bool operator==(const Wide &) const = default;
};

template<typename T>
static T value(uint32_t v) {
	if constexpr (std::is_same_v<T, Wide>)
		return {static_cast<uint16_t>(v), {static_cast<uint8_t>(v >> 3), static_cast<uint8_t>(v), 7}};
	else if constexpr (std::is_same_v<T, std::string>)
		return "a string that is not short: " + std::to_string(v);
	else if constexpr (requires { T::of(v); })
		return T::of(v);
	else
		return pbt::number<T>(v);
}

// Reference: a queue of the newest N elements, and for set_head() and
// fill_buffer() what each of the N places holds
template<template<typename, size_t> class Buf, typename T, size_t N, bool Opt>
static void history(pbt::Ctx &c) {
	using B = Buf<T, N>;
	auto b = pbt::fresh<B>();
	PBT_LOG((Opt ? "CircularBufferOpt of " : "CircularBuffer of ") << N);
	auto storage = std::make_unique<std::array<T, N>>();
	auto &place = *storage;
	constexpr bool huge = N > 60000;
	uint64_t tail = 0, count = 0; // the oldest element's position, not wrapped
	uint32_t next = 1;
	bool overwrote = false, emptied = false, special = false;
	unsigned n = static_cast<unsigned>(c.choice(huge ? 20 : 50));
	bool fill = c.coin();
	auto observe = [&] {
		auto &k = std::as_const(*b);
		PBT_EQ(k.count(), size_t(count), "count()");
		PBT_EQ(k.num_filled(), size_t(count), "num_filled()");
		PBT_EQ(k.empty(), count == 0, "empty()");
		PBT_EQ(k.full(), count == N, "full()");
		PBT_EQ(k.max_size(), N, "max_size()");
		PBT_EQ(k.max_capacity(), N, "max_capacity()");
		PBT_EQ(k.get_tail_idx(), size_t(tail % N), "get_tail_idx()");
		PBT_EQ(k.get_head_idx(), size_t((tail + count) % N), "get_head_idx()");
		if constexpr (!Opt) {
			size_t step = huge && count > 20 ? count / 20 + c.choice(count / 20) : 1;
			for (size_t i = 0; i < count; i += step)
				PBT_CHECK(k.peek(i) == place[(tail + i) % N], "peek(" << i << ")");
			if (count)
				PBT_CHECK(k.first() == place[tail % N], "first()");
		}
	};
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = c.coin() ? N - 4 + c.choice(8) : c.choice((huge ? 2 : 3) * N);
		PBT_LOG("put " << k << " elements");
		while (k--) {
			b->put(value<T>(next));
			place[(tail + count) % N] = value<T>(next++);
			if (count == N) {
				tail++;
				overwrote = true;
			} else
				count++;
		}
	}
	observe();
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		copies(op, b);
		switch (c.weighted({fill ? 9u : 4u, 4, 2, 1, 1, 1, 1})) {
			case 0: {
				auto v = value<T>(next++);
				PBT_LOG("put " << next - 1);
				b->put(v);
				place[(tail + count) % N] = v;
				if (count == N) {
					tail++;
					overwrote = true;
				} else
					count++;
				break;
			}
			case 1: {
				PBT_LOG("get");
				if constexpr (Opt) {
					auto r = b->get();
					PBT_EQ(r.has_value(), count > 0, "get() has a value");
					if (r)
						PBT_CHECK(*r == place[tail % N], "get() is not the oldest element");
				} else {
					auto r = b->get();
					if (count)
						PBT_CHECK(r == place[tail % N], "get() is not the oldest element");
					else
						PBT_CHECK(r == T(), "get() from an empty buffer");
				}
				if (count) {
					tail++;
					count--;
				}
				emptied |= count == 0;
				break;
			}
			case 2:
				PBT_LOG("remove_first");
				b->remove_first();
				if (count) {
					tail++;
					count--;
				}
				break;
			case 3:
				PBT_LOG("reset");
				b->reset();
				{ // it may go on from where it was read, from where it was written, or from the start
					size_t at = b->get_tail_idx();
					PBT_CHECK(at == tail % N || at == (tail + count) % N || at == 0, "get_tail_idx() after reset(): got " << at << ", was " << tail % N << " with " << count << " elements");
					tail = tail - tail % N + at;
				}
				count = 0;
				break;
			case 4: { // a fixed delay
				if (count == N)
					break;
				size_t h = c.choice(N - 1);
				PBT_LOG("set_head " << h);
				b->set_head(h);
				count = (h + N - tail % N) % N;
				special = true;
				break;
			}
			case 5: {
				auto v = value<T>(next++);
				PBT_LOG("fill_buffer " << next - 1);
				b->fill_buffer(v);
				place.fill(v);
				special = true;
				break;
			}
			case 6:
				{
					auto src = std::make_unique<std::array<T, N>>();
					for (auto &x : *src)
						x = value<T>(next++);
					PBT_LOG("fill_buffer with an array");
					place = *src;
					b->fill_buffer(*src);
					PBT_CHECK(*src == place, "fill_buffer() changed its argument");
					special = true;
				}
				break;
		}
		observe();
	}
	if (special)
		c.label("set_head or fill_buffer");
	if (overwrote && (emptied || tail > N))
		c.nontrivial();
}

#define RULE "elements were overwritten, and the buffer was emptied or went around more than once"
PBT("CircularBuffer", 2000, RULE) {
	switch (c.choice(9)) {
		case 9: history<CircularBuffer, std::string, 8, false>(c); break;
		case 5: history<CircularBuffer, uint64_t, 4, false>(c); break;
		case 6: history<CircularBuffer, pbt::Big, 8, false>(c); break;
		case 7: history<CircularBuffer, pbt::Tri, 2, false>(c); break;
		case 8: history<CircularBuffer, double, 32, false>(c); break;
		case 0: history<CircularBuffer, uint32_t, 1, false>(c); break;
		case 1: history<CircularBuffer, uint32_t, 2, false>(c); break;
		case 2: history<CircularBuffer, Wide, 4, false>(c); break;
		case 3: history<CircularBuffer, uint16_t, 16, false>(c); break;
		case 4: history<CircularBuffer, int8_t, 8, false>(c); break;
	}
}
PBT("Large CircularBuffer", 10, RULE) {
	history<CircularBuffer, uint32_t, 512, false>(c);
}
PBT("Large CircularBufferOpt", 10, RULE) {
	history<CircularBufferOpt, uint32_t, 512, true>(c);
}
PBT("Huge CircularBuffer", 1, RULE) {
	history<CircularBuffer, uint32_t, 131072, false>(c);
}
PBT("Huge CircularBufferOpt", 1, RULE) {
	history<CircularBufferOpt, uint32_t, 131072, true>(c);
}
PBT("CircularBufferOpt", 2000, RULE) {
	switch (c.choice(8)) {
		case 5: history<CircularBufferOpt, uint64_t, 4, true>(c); break;
		case 6: history<CircularBufferOpt, pbt::Big, 8, true>(c); break;
		case 7: history<CircularBufferOpt, pbt::Tri, 2, true>(c); break;
		case 8: history<CircularBufferOpt, double, 32, true>(c); break;
		case 0: history<CircularBufferOpt, uint32_t, 1, true>(c); break;
		case 1: history<CircularBufferOpt, uint32_t, 2, true>(c); break;
		case 2: history<CircularBufferOpt, Wide, 4, true>(c); break;
		case 3: history<CircularBufferOpt, uint16_t, 16, true>(c); break;
		case 4: history<CircularBufferOpt, std::string, 8, true>(c); break;
	}
}
