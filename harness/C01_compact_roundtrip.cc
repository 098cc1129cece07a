// @cases 1000000
// @thorough 20
// @fuzz roundtrip, Large
#include "compact_common.hh"

template<typename K, typename S>
static size_t room_for() {
	return static_cast<size_t>(std::min<uint64_t>(std::numeric_limits<S>::max(), 4000));
}

// Parses `blob`, which holds `nodes`, and checks every node found in it
template<typename K, typename S>
static void check_parse(pbt::Ctx &c, const std::vector<Node<K, S>> &nodes, std::span<const uint8_t> blob, bool top) {
	// exactly-sized copy: reading past the end is detected
	Bytes copy(blob.begin(), blob.end());
	copy.shrink_to_fit();
	CompactBinaryParser<K, S> p{std::span<const uint8_t>{copy}};
	size_t offset = 0;
	for (size_t i = 0; i < nodes.size(); i++) {
		auto &n = nodes[i];
		size_t payload = n.payload_size();
		offset += n.total_size();
		bool first = true;
		for (size_t j = 0; j < i; j++)
			first &= !(nodes[j].key == n.key);
		if (!first) {
			c.label("duplicate key");
			continue; // the first one wins, and is what's checked
		}
		auto key = KeyOps<K>::pass(n.key);
		auto node = p.get_node(key);
		PBT_EQ(node.size(), payload, "size of node " << n.show());
		PBT_EQ(p.get_size(key), payload, "get_size of " << n.show());
		if (payload) {
			PBT_CHECK(node.data() == copy.data() + offset - payload, "node " << n.show() << " is not at its position");
		}
		auto expect = [&]<typename T>() {
			auto v = p.template get<T>(key);
			if (n.kind != OBJ && payload == sizeof(T)) {
				PBT_CHECK(v.has_value(), "no value for " << n.show());
				PBT_CHECK(!memcmp(&*v, n.data.data(), sizeof(T)), "value of " << n.show() << " differs");
			} else if (payload != sizeof(T)) {
				PBT_CHECK(!v.has_value(), "value of the wrong size for " << n.show());
			}
		};
		expect.template operator()<uint8_t>();
		expect.template operator()<uint16_t>();
		expect.template operator()<uint32_t>();
		expect.template operator()<uint64_t>();
		expect.template operator()<Tri>();
		if (n.kind == OBJ) {
			check_parse<K, S>(c, n.kids, node, false);
		}
	}
	// keys which are not there
	for (unsigned k = 0; k < 2; k++) {
		auto key = KeyOps<K>::gen(c);
		bool there = false;
		for (auto &n : nodes)
			there |= n.key == key;
		if (!there) {
			auto pk = KeyOps<K>::pass(key);
			PBT_CHECK(p.get_node(pk).empty(), "node found for absent key " << KeyOps<K>::show(key));
			PBT_CHECK(!p.template get<uint8_t>(pk), "value found for absent key " << KeyOps<K>::show(key));
			PBT_CHECK(!p.template get<uint32_t>(pk), "value found for absent key " << KeyOps<K>::show(key));
			PBT_EQ(p.get_size(pk), size_t(0), "size of absent key " << KeyOps<K>::show(key));
		}
	}
}

template<typename K, typename S>
static void count_objects(const std::vector<Node<K, S>> &v, unsigned depth, unsigned &objects, unsigned &deep) {
	for (auto &n : v)
		if (n.kind == OBJ) {
			objects++;
			deep = std::max(deep, depth);
			count_objects(n.kids, depth + 1, objects, deep);
		}
}

// padding after the terminator of a key can be anything
template<typename K, typename S>
static void smudge(pbt::Ctx &c, Bytes &bytes, const std::vector<Node<K, S>> &v, size_t at) {
	for (auto &n : v) {
		for (size_t i = n.key.s.size() + 1; i < sizeof(K); i++)
			bytes[at + i] = static_cast<uint8_t>(c.choice(255));
		if (n.kind == OBJ)
			smudge(c, bytes, n.kids, at + sizeof(K) + sizeof(S));
		at += n.total_size();
	}
}

template<typename K, typename S>
static void roundtrip(pbt::Ctx &c) {
	auto nodes = gen_nodes<K, S>(c, 4, room_for<K, S>(), 7);
	PBT_LOG(show_nodes(nodes));
	Bytes want = encode_all(nodes);

	unsigned objects = 0, deep = 0;
	count_objects(nodes, 1, objects, deep);
	if (objects && want.size() > 20)
		c.nontrivial();
	if (deep >= 2)
		c.label("nested objects");
	if (deep >= 3)
		c.label("objects 3 deep");
	if (std::is_array_v<K>)
		c.label("char array keys");

	using Ser = CompactBinarySerializer<K, S>;
	auto describe = [&](auto &s) { emit_serial<K, S>(nodes, s); };

	size_t extra = c.choice(3);
	auto compare = [&](const Bytes &buf, size_t n, const char *who) {
		PBT_EQ(n, want.size(), who << " returned size");
		for (size_t i = 0; i < want.size(); i++)
			PBT_CHECK(buf[i] == want[i], who << ": byte " << i << " is " << int(buf[i]) << " not " << int(want[i]));
		for (size_t i = want.size(); i < buf.size(); i++)
			PBT_CHECK(buf[i] == 0xA5, who << " wrote after the end, at " << i);
	};

	{
		Bytes buf(want.size() + extra, 0xA5);
		buf.shrink_to_fit();
		auto n = Ser::serialize(std::span<uint8_t>{buf}, describe);
		compare(buf, n, "serialize");
	}
	PBT_EQ(Ser::measure(describe), want.size(), "measure");
	{
		Bytes buf;
		auto n = Ser::stream(describe, [&](std::span<const uint8_t> b) { buf.insert(buf.end(), b.begin(), b.end()); });
		PBT_EQ(buf.size(), want.size(), "bytes sent to the sink");
		compare(buf, n, "stream");
	}
	{
		Bytes buf(want.size() + extra, 0xA5);
		buf.shrink_to_fit();
		CompactBinaryWriter<K, S> w{std::span<uint8_t>{buf}};
		emit_imperative<K, S>(nodes, w);
		compare(buf, w.size(), "writer");
	}
	if (deep <= 3) {
		// as many levels as the writer allows
		Bytes buf(want.size() + extra, 0xA5);
		CompactBinaryWriter<K, S, 3> w{std::span<uint8_t>{buf}};
		emit_imperative<K, S>(nodes, w);
		compare(buf, w.size(), "writer with depth 3");
	}

	if constexpr (std::is_array_v<K>) {
		if (c.coin()) {
			c.label("garbage padding");
			smudge<K, S>(c, want, nodes, 0);
		}
	}
	check_parse<K, S>(c, nodes, std::span<const uint8_t>{want}, true);
}

PBT("roundtrip", 200, "at least one object, and more than 20 encoded bytes") {
	with_types(c, [&]<typename K, typename S>() { roundtrip<K, S>(c); });
}

// Chains of objects as deep as the writer's default allows, values and keys of hundreds of bytes, and
// payloads up to the largest the size type can tell.
struct Big {
	std::array<uint8_t, 300> b;
};

template<typename K, typename S>
static void large(pbt::Ctx &c) {
	constexpr uint64_t most = std::numeric_limits<S>::max();
	unsigned depth = static_cast<unsigned>(c.choice(8));
	auto big = from_bytes<Big>([&] {
		Bytes d(300);
		uint8_t seed = static_cast<uint8_t>(c.choice(255));
		for (auto &x : d)
			x = seed = static_cast<uint8_t>(seed * 5 + 1);
		return d;
	}());
	const size_t header = Node<K, S>{}.total_size();
	size_t overhead = depth * header;
	bool with_big = most >= 300 + header * 2 + overhead && c.coin();
	if (with_big)
		overhead += 300 + header;
	size_t lim = static_cast<size_t>(std::min<uint64_t>(most, 70000));
	if (depth)
		lim -= std::min(lim, overhead + (c.coin() ? 0 : c.choice(3)));
	size_t len = c.coin() ? lim : c.choice(lim);
	Bytes payload(len);
	uint8_t seed = static_cast<uint8_t>(c.choice(255));
	for (auto &x : payload)
		x = seed = static_cast<uint8_t>(seed * 13 + 7);
	std::vector<typename KeyOps<K>::Store> keys;
	for (unsigned i = 0; i < depth + 2; i++)
		keys.push_back(KeyOps<K>::gen(c));
	if (keys[depth] == keys[depth + 1])
		return;
	PBT_LOG("depth " << depth << ", payload of " << len << (with_big ? ", and a value of 300 bytes" : ""));
	if (depth > 4 || len > 300)
		c.nontrivial();
	if (depth == 8)
		c.label("8 deep");
	if (len == most)
		c.label("the largest payload");

	Bytes want;
	if (with_big) {
		KeyOps<K>::encode(want, keys[depth + 1]);
		put_size<S>(want, static_cast<S>(300));
		want.insert(want.end(), big.b.begin(), big.b.end());
	}
	KeyOps<K>::encode(want, keys[depth]);
	put_size<S>(want, static_cast<S>(len));
	want.insert(want.end(), payload.begin(), payload.end());
	for (unsigned i = depth; i--;) {
		Bytes outer;
		KeyOps<K>::encode(outer, keys[i]);
		put_size<S>(outer, static_cast<S>(want.size()));
		outer.insert(outer.end(), want.begin(), want.end());
		want = std::move(outer);
	}

	using Ser = CompactBinarySerializer<K, S>;
	auto inner = [&](auto &w) {
		if (with_big)
			w.field(KeyOps<K>::pass(keys[depth + 1]), big);
		w.raw(KeyOps<K>::pass(keys[depth]), std::span<const uint8_t>{payload});
	};
	auto same = [&](const Bytes &got, size_t n, const char *who) {
		PBT_EQ(n, want.size(), who << " returned size");
		PBT_CHECK(got == want, who << " wrote different bytes");
	};
	Bytes buf(want.size());
	buf.shrink_to_fit();
	CompactBinaryWriter<K, S> w{std::span<uint8_t>{buf}};
	for (unsigned i = 0; i < depth; i++)
		w.begin_object(KeyOps<K>::pass(keys[i]));
	inner(w);
	for (unsigned i = 0; i < depth; i++)
		w.end_object();
	same(buf, w.size(), "writer");
	if (depth <= 2) {
		auto describe = [&](auto &s) {
			if (depth == 0)
				inner(s);
			else
				s.object(KeyOps<K>::pass(keys[0]), [&](auto &s1) {
					if (depth == 1)
						inner(s1);
					else
						s1.object(KeyOps<K>::pass(keys[1]), [&](auto &s2) { inner(s2); });
				});
		};
		std::fill(buf.begin(), buf.end(), 0);
		same(buf, Ser::serialize(std::span<uint8_t>{buf}, describe), "serialize");
		PBT_EQ(Ser::measure(describe), want.size(), "measure");
		Bytes sunk;
		size_t n = Ser::stream(describe, [&](std::span<const uint8_t> b) { sunk.insert(sunk.end(), b.begin(), b.end()); });
		same(sunk, n, "stream");
	}

	std::span<const uint8_t> at{want};
	for (unsigned i = 0; i < depth; i++) {
		CompactBinaryParser<K, S> p{at};
		auto sub = p.get_node(KeyOps<K>::pass(keys[i]));
		PBT_EQ(sub.size(), at.size() - header, "size of the object " << i << " deep");
		PBT_CHECK(sub.data() + sub.size() == want.data() + want.size(), "the object " << i << " deep is not at its position");
		at = sub;
	}
	CompactBinaryParser<K, S> p{at};
	auto node = p.get_node(KeyOps<K>::pass(keys[depth]));
	PBT_EQ(node.size(), len, "size of the payload");
	PBT_CHECK(std::equal(node.begin(), node.end(), payload.begin()), "the payload differs");
	auto got = p.template get<Big>(KeyOps<K>::pass(keys[depth + 1]));
	PBT_EQ(got.has_value(), with_big, "whether there is a value of 300 bytes");
	if (got)
		PBT_CHECK(got->b == big.b, "the value of 300 bytes differs");
}

PBT("Large", 1, "more than 4 deep, or more than 300 bytes of payload") {
	switch (c.choice(3)) {
		case 0: large<Key16, uint16_t>(c); break;
		case 1: large<uint8_t, uint8_t>(c); break;
		case 2: large<uint32_t, uint32_t>(c); break;
		case 3: large<const char[280], uint16_t>(c); break;
	}
}
