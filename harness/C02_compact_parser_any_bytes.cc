// @cases 3200000
// @thorough 15
// @fuzz bytes, mutated
#include "compact_common.hh"

// Reference decoder. Works on 128-bit positions, cannot overflow.
struct Found {
	bool found = false;
	size_t at = 0; // of the payload
	__int128 size = 0;
};

template<typename K, typename S>
static Found ref_find(const Bytes &b, const typename KeyOps<K>::Store &key) {
	__int128 pos = 0, n = static_cast<__int128>(b.size());
	constexpr __int128 H = sizeof(K) + sizeof(S);
	while (n - pos >= H) {
		S s;
		memcpy(&s, b.data() + pos + sizeof(K), sizeof(S));
		__int128 size = static_cast<__int128>(s);
		bool m = KeyOps<K>::matches(b.data() + pos, key);
		pos += H;
		if (m)
			return {true, static_cast<size_t>(pos), size};
		if (size < 0 || size > n - pos)
			break;
		pos += size;
	}
	return {};
}

template<typename K, typename S>
static void query(pbt::Ctx &c, const Bytes &blob, unsigned depth) {
	Bytes copy = blob;
	copy.shrink_to_fit();
	CompactBinaryParser<K, S> p{std::span<const uint8_t>{copy}};
	unsigned nq = 1 + static_cast<unsigned>(c.choice(3));
	for (unsigned q = 0; q < nq; q++) {
		typename KeyOps<K>::Store key = KeyOps<K>::gen(c);
		if (!std::is_array_v<K> && c.choice(2) == 0 && copy.size() >= sizeof(K)) {
			// a key which is in the data, somewhere
			if constexpr (!std::is_array_v<K>) {
				uint64_t v = 0;
				memcpy(&v, copy.data() + c.choice(copy.size() - sizeof(K)), sizeof(K));
				key = static_cast<K>(v);
			}
		}
		auto pk = KeyOps<K>::pass(key);
		auto f = ref_find<K, S>(copy, key);
		bool complete = f.found && f.size >= 0 && f.size <= static_cast<__int128>(copy.size() - f.at);
		if (f.found)
			c.label(complete ? "complete node found" : "node with a bad size found");
		if (f.found && f.size < 0)
			c.label("negative size");
		if (f.found && f.size > static_cast<__int128>(1) << 62)
			c.label("huge size");

		auto node = p.get_node(pk);
		if (complete && f.size > 0) {
			PBT_EQ(node.size(), static_cast<size_t>(f.size), "size of node with key " << KeyOps<K>::show(key));
			PBT_CHECK(node.data() == copy.data() + f.at, "position of node with key " << KeyOps<K>::show(key));
			c.nontrivial();
		} else {
			PBT_EQ(node.size(), size_t(0), "node with key " << KeyOps<K>::show(key) << " is incomplete or missing");
			if (f.found)
				c.nontrivial();
		}
		auto value = [&]<typename T>() {
			auto v = p.template get<T>(pk);
			bool want = complete && f.size == sizeof(T);
			PBT_EQ(v.has_value(), want, "presence of a " << sizeof(T) << " byte value with key " << KeyOps<K>::show(key));
			if (want)
				PBT_CHECK(!memcmp(&*v, copy.data() + f.at, sizeof(T)), "value of key " << KeyOps<K>::show(key));
		};
		value.template operator()<uint8_t>();
		value.template operator()<uint16_t>();
		value.template operator()<uint32_t>();
		value.template operator()<uint64_t>();
		value.template operator()<Tri>();
		value.template operator()<std::array<uint8_t, 255>>();
		if (complete)
			PBT_EQ(p.get_size(pk), static_cast<size_t>(f.size), "get_size of key " << KeyOps<K>::show(key));
		else if (!f.found)
			PBT_EQ(p.get_size(pk), size_t(0), "get_size of missing key " << KeyOps<K>::show(key));
		if (complete && depth < 3 && !node.empty()) {
			Bytes sub(node.begin(), node.end());
			query<K, S>(c, sub, depth + 1);
		}
	}
}

template<typename F>
static void with_any_types(pbt::Ctx &c, F f) {
	switch (c.choice(9)) {
		case 0: f.template operator()<Key16, uint16_t>(); break;
		case 1: f.template operator()<uint8_t, uint8_t>(); break;
		case 2: f.template operator()<uint32_t, uint32_t>(); break;
		case 3: f.template operator()<const char[4], uint8_t>(); break;
		case 4: f.template operator()<const char[6], uint16_t>(); break;
		case 5: f.template operator()<uint16_t, uint64_t>(); break;
		case 6: f.template operator()<uint8_t, int8_t>(); break;
		case 7: f.template operator()<uint16_t, int32_t>(); break;
		case 8: f.template operator()<uint8_t, int64_t>(); break;
		case 9: f.template operator()<const char[2], int16_t>(); break;
	}
}

PBT("bytes", 1, "a queried key is found in the data") {
	with_any_types(c, [&]<typename K, typename S>() {
		Bytes b;
		size_t n = c.choice(40);
		for (size_t i = 0; i < n; i++)
			b.push_back(static_cast<uint8_t>(c.choice(3) ? c.choice(4) : c.choice(1) ? 0xff - c.choice(3) : std::is_array_v<K> ? 'a' + c.choice(1) : c.choice(255)));
		PBT_LOG("key size " << sizeof(K) << " size size " << sizeof(S) << " bytes " << pbt::show(b));
		query<K, S>(c, b, 0);
	});
}

// Valid data, damaged in a few places: sizes, truncation, single bytes
PBT("mutated", 2, "a queried key is found in the data") {
	with_any_types(c, [&]<typename K, typename S>() {
		auto nodes = gen_nodes<K, S>(c, 2, sizeof(S) == 1 ? 120 : 600, 5);
		Bytes b = encode_all(nodes);
		unsigned n = static_cast<unsigned>(c.choice(3));
		for (unsigned i = 0; i < n && !b.empty(); i++) {
			switch (c.choice(3)) {
				case 0: b[c.choice(b.size() - 1)] = static_cast<uint8_t>(c.choice(255)); break;
				case 1: b.resize(c.choice(b.size())); break;
				case 2: { // replace a top-level size
					if (nodes.empty())
						break;
					size_t at = 0, k = c.choice(nodes.size() - 1);
					for (size_t j = 0; j < k; j++)
						at += nodes[j].total_size();
					uint64_t v = 0;
					switch (c.choice(3)) {
						case 0: v = nodes[k].payload_size() + c.choice(4) - 2; break;
						case 1: v = ~0ull - c.choice(40); break;
						case 2: v = b.size() - at + c.choice(6) - 3 - c.choice(1) * (sizeof(K) + sizeof(S)); break;
						case 3: v = c.any_int<uint64_t>(); break;
					}
					for (size_t j = 0; j < sizeof(S); j++)
						if (at + sizeof(K) + j < b.size())
							b[at + sizeof(K) + j] = static_cast<uint8_t>(v >> (8 * j));
					break;
				}
				case 3: b.push_back(static_cast<uint8_t>(c.choice(255))); break;
			}
		}
		PBT_LOG("key size " << sizeof(K) << " size size " << sizeof(S) << " bytes " << pbt::show(b));
		query<K, S>(c, b, 0);
	});
}
