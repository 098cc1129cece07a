// @cases 2000000
// @thorough 20
#include "pbt.hh"
#include "util/circular_buffer_ext.hh"
#include "util/circular_buffer_block.hh"

template<typename V>
static V value(uint32_t v) {
	if constexpr (std::is_floating_point_v<V>)
		return static_cast<V>(static_cast<int32_t>(v % 20001) - 10000) / V(8192);
	else
		return static_cast<V>(v * 2654435761u >> 7);
}

template<typename V>
static bool near(V got, double want) {
	if constexpr (std::is_floating_point_v<V>)
		return std::abs(got - want) <= 1e-5 * (1 + std::abs(want));
	else // conversion to float, then truncation
		return std::abs(static_cast<double>(got) - want) <= 1.01 + 1e-6 * std::abs(want);
}

// Reference: the memory, the two positions, one step at a time
template<typename Backing>
static void access(pbt::Ctx &c, Backing &mem, size_t N) {
	using V = typename CircularBufferAccess<Backing>::value_type;
	std::vector<V> ref;
	for (size_t i = 0; i < N; i++)
		ref.push_back(mem[i] = value<V>(static_cast<uint32_t>(i * 31)));
	size_t wr = 0, rd = 0;
	std::unique_ptr<CircularBufferAccess<Backing>> b;
	if (c.coin()) {
		wr = c.choice(N - 1);
		b = std::make_unique<CircularBufferAccess<Backing>>(mem, wr);
	} else
		b = std::make_unique<CircularBufferAccess<Backing>>(mem);
	PBT_LOG("buffer of " << N << ", write position " << wr);
	uint32_t next = 1;
	bool wrapped_any = false, reverse_wrapped = false, crossed_any = false;
	PBT_EQ(b->size(), N, "size()");
	unsigned ops = static_cast<unsigned>(c.choice(14));
	pbt::Copies copies{c};
	for (unsigned op = 0; op < ops; op++) {
		copies(op, b);
		unsigned kind = c.weighted({4, 3, 4, 3, 2, 2, 2, 1, 1});
		size_t n = kind < 4 && c.choice(7) == 7 ? c.choice(2 * N + 1) : c.choice(N);
		size_t marker = c.choice(N - 1);
		// the phase of a crossfade; 1 means without
		float phase = (kind == 2 || kind == 3) && c.coin() ? c.f(0, 1) : 1.f;
		bool explicit_phase = c.coin() || phase != 1.f;
		// heap blocks of exactly n elements
		std::unique_ptr<V[]> block{new V[n]};
		std::span<V> sp{block.get(), n};
		for (size_t i = 0; i < n; i++)
			block[i] = value<V>(next++);
		bool reverse = kind == 1 || kind == 3 || kind == 5;
		bool wrapped = false, want_wrapped = false, reached = false, got_cross = false, touched_marker = false;
		switch (kind) {
			case 0: // read
			case 1:
			case 4: // read, check crossed
			case 5: {
				size_t start = rd;
				std::vector<V> want;
				for (size_t i = 0; i < n; i++) {
					want.push_back(ref[rd]);
					touched_marker |= rd == marker;
					if (reverse) {
						if (rd == 0)
							want_wrapped = true;
						rd = (rd + N - 1) % N;
					} else {
						rd = (rd + 1) % N;
						if (rd == 0)
							want_wrapped = true;
					}
					reached |= rd == marker;
				}
				PBT_LOG("read" << (reverse ? "_reverse " : " ") << n << " at " << start << (kind >= 4 ? ", marker " + std::to_string(marker) : ""));
				if (kind == 0)
					wrapped = b->read(sp);
				else if (kind == 1)
					wrapped = b->read_reverse(sp);
				else if (kind == 4)
					got_cross = b->read_check_crossed(sp, marker);
				else
					got_cross = b->read_reverse_check_crossed(sp, marker);
				for (size_t i = 0; i < n; i++)
					PBT_CHECK(sp[i] == want[i], "element " << i << " read is " << pbt::show(sp[i]) << ", expected " << pbt::show(want[i]));
				if (kind == 4)
					PBT_EQ(got_cross, touched_marker, "read_check_crossed()");
				if (kind == 5)
					PBT_EQ(got_cross, reached, "read_reverse_check_crossed()");
				break;
			}
			case 2: // write
			case 3:
			case 6: { // write, check crossed
				size_t start = wr;
				std::vector<double> want(ref.begin(), ref.end());
				std::vector<bool> exact(N, true);
				for (size_t i = 0; i < n; i++) {
					// (each element is stored, so rounded to V, before it is mixed again)
					if (phase == 1.f) {
						want[wr] = static_cast<double>(block[i]);
						exact[wr] = true;
					} else {
						want[wr] = static_cast<double>(block[i]) * phase + want[wr] * (1. - phase);
						exact[wr] = false;
					}
					if (reverse) {
						if (wr == 0)
							want_wrapped = true;
						wr = (wr + N - 1) % N;
					} else {
						wr = (wr + 1) % N;
						if (wr == 0)
							want_wrapped = true;
					}
					reached |= wr == marker;
				}
				PBT_LOG("write" << (reverse ? "_reverse " : " ") << n << " at " << start << " phase " << phase << (kind == 6 ? ", marker " + std::to_string(marker) : ""));
				std::vector<V> copy(block.get(), block.get() + n);
				std::span<const V> in{block.get(), n};
				if (kind == 2)
					wrapped = explicit_phase ? b->write(in, phase) : b->write(in);
				else if (kind == 3)
					wrapped = explicit_phase ? b->write_reverse(in, phase) : b->write_reverse(in);
				else {
					got_cross = b->write_check_crossed(in, marker);
					PBT_EQ(got_cross, reached, "write_check_crossed()");
				}
				PBT_CHECK(std::equal(copy.begin(), copy.end(), block.get()), "writing changed its argument");
				for (size_t i = 0; i < N; i++) {
					if (exact[i])
						PBT_CHECK(mem[i] == static_cast<V>(want[i]), "element " << i << " of the buffer is " << pbt::show(mem[i]) << ", expected " << want[i]);
					else
						PBT_CHECK(near<V>(mem[i], want[i]) || n > N, "element " << i << " of the buffer is " << pbt::show(mem[i]) << ", expected about " << want[i]);
					ref[i] = mem[i];
				}
				break;
			}
			case 7: {
				size_t p = c.choice(N - 1);
				if (c.coin()) {
					PBT_LOG("wr_pos " << p);
					b->wr_pos(wr = p);
				} else {
					PBT_LOG("rd_pos " << p);
					b->rd_pos(rd = p);
				}
				break;
			}
			case 8:
				if (c.choice(3) == 3) {
					PBT_LOG("clear");
					b->clear();
					for (size_t i = 0; i < N; i++) {
						PBT_CHECK(mem[i] == V{0}, "element " << i << " after clear()");
						ref[i] = V{0};
					}
				}
				break;
		}
		if (kind < 4)
			PBT_EQ(wrapped, want_wrapped, "whether the end of the buffer was passed");
		PBT_EQ(std::as_const(*b).rd_pos(), rd, "rd_pos()");
		PBT_EQ(std::as_const(*b).wr_pos(), wr, "wr_pos()");
		for (size_t i = 0; i < N; i++)
			PBT_CHECK(mem[i] == ref[i], "element " << i << " of the buffer changed");
		wrapped_any |= want_wrapped;
		reverse_wrapped |= want_wrapped && reverse;
		crossed_any |= got_cross;
	}
	if (crossed_any)
		c.label("marker crossed");
	if (wrapped_any && (reverse_wrapped || crossed_any))
		c.nontrivial();
}

template<typename V>
static void with_vector(pbt::Ctx &c, size_t least = 1, size_t most = 12) {
	size_t n = c.sz(least, most);
	auto v = std::make_unique<std::vector<V>>(n);
	access(c, *v, n);
}
template<typename V, size_t N>
static void with_array(pbt::Ctx &c) {
	auto v = std::make_unique<std::array<V, N>>();
	access(c, *v, N);
}

#define RULE "a position went around the end, and one went around backwards or a marker was crossed"
PBT("Huge CircularBufferAccess", 1, RULE) {
	with_vector<int32_t>(c, 65500, 70000);
}
PBT("CircularBufferAccess of floats", 4000, RULE) {
	switch (c.choice(4)) {
		case 3: with_vector<double>(c); break;
		case 4: with_array<float, 16>(c); break;
		case 0: with_vector<float>(c); break;
		case 1: with_array<float, 5>(c); break;
		case 2: with_array<double, 8>(c); break;
	}
}
PBT("CircularBufferAccess of ints", 4000, RULE) {
	switch (c.choice(6)) {
		case 3: with_vector<int16_t>(c); break;
		case 4: with_vector<uint32_t>(c); break;
		case 5: with_array<int8_t, 1>(c); break;
		case 6: with_array<uint16_t, 12>(c); break;
		case 0: with_vector<int32_t>(c); break;
		case 1: with_array<int16_t, 7>(c); break;
		case 2: with_array<uint8_t, 4>(c); break;
	}
}

template<typename T, size_t N>
static void block(pbt::Ctx &c) {
	auto b = pbt::fresh<CircularBufferBlock<T, N>>();
	PBT_EQ(b->size(), N, "size()");
	auto storage = std::make_unique<std::array<T, N>>();
	auto &ref = *storage;
	unsigned ops = static_cast<unsigned>(c.choice(6)) + 1;
	uint32_t next = 1;
	bool wrap = false;
	PBT_LOG("CircularBufferBlock of " << N << " elements of " << sizeof(T));
	pbt::Copies copies{c};
	for (unsigned op = 0; op < ops; op++) {
		copies(op, b);
		size_t n = c.choice(N);
		unsigned pos = c.coin() ? static_cast<unsigned>(c.choice(2 * N)) : c.any_int<unsigned>();
		std::unique_ptr<T[]> in{new T[n]};
		for (size_t i = 0; i < n; i++)
			ref[(pos + i) % N] = in[i] = static_cast<T>(next++ * 0x01010101u);
		PBT_LOG("write " << n << " at " << pos);
		b->write(std::span<const T>{in.get(), n}, pos);
		for (size_t i = 0; i < N; i++)
			PBT_CHECK(b->data[i] == ref[i], "element " << i << " is " << pbt::show(b->data[i]) << ", expected " << pbt::show(ref[i]));
		wrap |= pos % N + n > N;
	}
	if (wrap)
		c.nontrivial();
}

PBT("Large CircularBufferAccess", 20, RULE) {
	with_vector<int32_t>(c, 250, 330);
}
PBT("Huge CircularBufferBlock", 1, "a block went past the end of the buffer") {
	block<uint32_t, 131072>(c);
}
PBT("Large CircularBufferBlock", 20, "a block went past the end of the buffer") {
	block<uint32_t, 512>(c);
}
PBT("CircularBufferBlock", 2000, "a block went past the end of the buffer") {
	switch (c.choice(4)) {
		case 0: block<uint8_t, 1>(c); break;
		case 1: block<uint32_t, 8>(c); break;
		case 2: block<uint16_t, 4>(c); break;
		case 3: block<uint64_t, 16>(c); break;
		case 4: block<float, 8>(c); break;
	}
}
