// @cases 1500000
// @thorough 20
#include "compact_common.hh"

// Output buffers of any size: nothing is written outside, what fits is right,
// and the size needed is reported.

template<typename K, typename S>
static void fixed_buffer(pbt::Ctx &c) {
	// now and then, more than a size field can tell: the size field of that item is unspecified then
	bool over = sizeof(S) == 1 && c.choice(9) == 9;
	auto nodes = gen_nodes<K, S>(c, 3, over ? 2000 : static_cast<size_t>(std::min<uint64_t>(std::numeric_limits<S>::max(), 2000)), 5);
	Bytes want = encode_all(nodes);
	std::vector<bool> unspecified(want.size());
	auto find = [&](auto &self, const std::vector<Node<K, S>> &v, size_t at) -> void {
		for (auto &n : v) {
			constexpr size_t key = sizeof(K);
			if (n.payload_size() > static_cast<uint64_t>(std::numeric_limits<S>::max())) {
				c.label("too large for its size field");
				for (size_t i = 0; i < sizeof(S); i++)
					unspecified[at + key + i] = true;
			}
			self(self, n.kids, at + key + sizeof(S));
			at += n.total_size();
		}
	};
	find(find, nodes, 0);
	size_t cap = c.chance(1, 4) ? c.choice(want.size() + 20) : want.size() - c.choice(std::min<size_t>(want.size(), 30));
	PBT_LOG("buffer of " << cap << " for " << want.size() << " bytes: " << show_nodes(nodes));
	if (cap < want.size()) {
		c.nontrivial();
		c.label("does not fit");
	}
	if (cap == want.size())
		c.label("fits exactly");

	auto check = [&](const Bytes &buf, size_t n, const char *who) {
		PBT_EQ(n, want.size(), who << ": size needed");
		for (size_t i = 0; i < std::min(cap, want.size()); i++)
			PBT_CHECK(unspecified[i] || buf[i] == want[i], who << ": byte " << i << " is " << int(buf[i]) << " not " << int(want[i]));
		for (size_t i = want.size(); i < cap; i++)
			PBT_CHECK(buf[i] == 0x5A, who << " wrote after the end, at " << i);
	};
	{
		Bytes buf(cap, 0x5A); // exactly sized: writes outside are detected
		auto n = CompactBinarySerializer<K, S>::serialize(std::span<uint8_t>{buf}, [&](auto &s) { emit_serial<K, S>(nodes, s); });
		check(buf, n, "serialize");
		PBT_EQ((CompactBinarySerializer<K, S>::measure([&](auto &s) { emit_serial<K, S>(nodes, s); })), want.size(), "measure");
		size_t sent = 0;
		n = CompactBinarySerializer<K, S>::stream([&](auto &s) { emit_serial<K, S>(nodes, s); }, [&](std::span<const uint8_t> b) { sent += b.size(); });
		PBT_EQ(n, want.size(), "stream");
		PBT_EQ(sent, want.size(), "bytes sent to the sink");
	}
	{
		Bytes buf(cap, 0x5A);
		CompactBinaryWriter<K, S> w{std::span<uint8_t>{buf}};
		emit_imperative<K, S>(nodes, w);
		check(buf, w.size(), "writer");
	}
	{
		// a part of a larger buffer
		Bytes buf(cap + 32, 0x5A);
		CompactBinaryWriter<K, S> w{std::span<uint8_t>{buf}.subspan(16, cap)};
		emit_imperative<K, S>(nodes, w);
		for (size_t i = 0; i < 16; i++)
			PBT_CHECK(buf[i] == 0x5A && buf[16 + cap + i] == 0x5A, "writer wrote outside of its buffer");
	}
}

PBT("fixed buffer", 2, "the data does not fit in the buffer") {
	with_types(c, [&]<typename K, typename S>() { fixed_buffer<K, S>(c); });
}

// Any sequence of calls on the writer: unmatched ends, too many begins, any buffer size
template<typename K, typename S, unsigned MaxDepth>
static void calls(pbt::Ctx &c) {
	unsigned n = static_cast<unsigned>(c.choice(24));
	size_t cap = c.choice(160);
	Bytes buf(cap, 0x5A);
	auto w = std::make_unique<CompactBinaryWriter<K, S, MaxDepth>>(std::span<uint8_t>{buf});
	Bytes want;
	std::vector<bool> unspecified; // bytes of sizes nobody can know
	struct Open {
		size_t size_pos;
		bool tracked;
	};
	std::vector<Open> open;
	auto mark = [&](size_t from, size_t len, bool v) {
		unspecified.resize(want.size());
		for (size_t i = 0; i < len; i++)
			unspecified[from + i] = v;
	};
	bool odd = false;
	PBT_LOG("depth " << MaxDepth << " buffer " << cap);
	for (unsigned i = 0; i < n; i++) {
		auto key = KeyOps<K>::gen(c);
		auto pk = KeyOps<K>::pass(key);
		switch (c.choice(3)) {
			case 0: {
				uint32_t v = c.any_int<uint32_t>();
				PBT_LOG("field");
				w->field(pk, v);
				KeyOps<K>::encode(want, key);
				put_size<S>(want, 4);
				put_size<uint32_t>(want, v);
				break;
			}
			case 1:
				PBT_LOG("begin");
				w->begin_object(pk);
				KeyOps<K>::encode(want, key);
				open.push_back({want.size(), open.size() < MaxDepth});
				put_size<S>(want, 0);
				mark(open.back().size_pos, sizeof(S), !open.back().tracked);
				if (!open.back().tracked) {
					c.label("too deep");
					odd = true;
				}
				break;
			case 2:
				PBT_LOG("end");
				w->end_object();
				if (open.empty()) {
					c.label("unmatched end");
					odd = true;
					break;
				}
				if (open.back().tracked) {
					Bytes sz;
					put_size<S>(sz, static_cast<S>(want.size() - open.back().size_pos - sizeof(S)));
					std::copy(sz.begin(), sz.end(), want.begin() + static_cast<long>(open.back().size_pos));
				}
				open.pop_back();
				break;
			case 3: {
				Bytes d(c.choice(12), static_cast<uint8_t>(c.choice(255)));
				PBT_LOG("raw " << d.size());
				w->raw(pk, std::span<const uint8_t>{d});
				KeyOps<K>::encode(want, key);
				put_size<S>(want, static_cast<S>(d.size()));
				want.insert(want.end(), d.begin(), d.end());
				break;
			}
		}
		PBT_EQ(w->size(), want.size(), "size() after call " << i);
	}
	unspecified.resize(want.size());
	for (size_t i = 0; i < std::min(cap, want.size()); i++)
		PBT_CHECK(unspecified[i] || buf[i] == want[i], "byte " << i << " is " << int(buf[i]) << " not " << int(want[i]));
	for (size_t i = want.size(); i < cap; i++)
		PBT_CHECK(buf[i] == 0x5A, "wrote after the end, at " << i);
	if (odd || want.size() > cap)
		c.nontrivial();
}

PBT("any calls", 1, "an unmatched end, too deep a begin, or data that does not fit") {
	switch (c.choice(3)) {
		case 0: calls<uint8_t, uint8_t, 1>(c); break;
		case 1: calls<Key16, uint16_t, 2>(c); break;
		case 2: calls<const char[4], uint32_t, 3>(c); break;
		case 3: calls<uint32_t, uint16_t, 8>(c); break;
	}
}
