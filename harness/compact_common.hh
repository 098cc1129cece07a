// Trees of compact-binary data, a reference encoder and a reference decoder.
#pragma once
#include "pbt.hh"
#include <concepts>
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

using Bytes = std::vector<uint8_t>;

struct Tri { // trivially copyable, odd size, no padding
	uint8_t a, b, c;
	bool operator==(const Tri &) const = default;
};

enum class Key16 : uint16_t {};

// Keys: how a key is generated, passed to the API and laid out
template<typename K>
struct KeyOps {
	using Store = K;
	static Store gen(pbt::Ctx &c) {
		uint64_t v = c.choice(3) ? c.choice(5) : static_cast<uint64_t>(c.any_int<uint64_t>());
		return static_cast<K>(v);
	}
	static K pass(const Store &s) {
		return s;
	}
	static void encode(Bytes &out, const Store &s) {
		uint64_t v = static_cast<uint64_t>(s);
		for (size_t k = 0; k < sizeof(K); k++)
			out.push_back(static_cast<uint8_t>(v >> (8 * k)));
	}
	static bool matches(const uint8_t *p, const Store &s) {
		Bytes b;
		encode(b, s);
		return std::equal(b.begin(), b.end(), p);
	}
	static std::string show(const Store &s) {
		return std::to_string(static_cast<uint64_t>(s));
	}
};

template<size_t N>
struct KeyOps<const char[N]> {
	// exactly N bytes on the heap, when passed: reads past the key are detected
	struct Store {
		std::string s; // at most N chars, without \0
		bool operator==(const Store &) const = default;
	};
	static Store gen(pbt::Ctx &c) {
		Store k;
		size_t n = c.choice(N);
		for (size_t i = 0; i < n; i++)
			k.s += static_cast<char>(c.chance(1, 12) ? c.one_of({0x80, 0xff, 0x7f, 0x20}) : 'a' + static_cast<int>(c.choice(1)));
		return k;
	}
	struct Ptr {
		std::unique_ptr<char[]> p;
		operator const char *() const {
			return p.get();
		}
	};
	static Ptr pass(const Store &k) {
		// short keys are string literals: allocated up to their terminator
		Ptr r;
		size_t n = std::min(N, k.s.size() + 1);
		r.p = std::make_unique<char[]>(n);
		for (size_t i = 0; i < n; i++)
			r.p[i] = i < k.s.size() ? k.s[i] : '\0';
		return r;
	}
	static void encode(Bytes &out, const Store &k) {
		for (size_t i = 0; i < N; i++)
			out.push_back(i < k.s.size() ? static_cast<uint8_t>(k.s[i]) : 0);
	}
	static bool matches(const uint8_t *p, const Store &k) {
		for (size_t i = 0; i < N; i++) {
			uint8_t want = i < k.s.size() ? static_cast<uint8_t>(k.s[i]) : 0;
			if (p[i] != want)
				return false;
			if (want == 0)
				return true; // the rest is padding
		}
		return true;
	}
	static std::string show(const Store &k) {
		return pbt::show(k.s);
	}
};

template<typename S>
void put_size(Bytes &out, S s) {
	uint64_t v = static_cast<uint64_t>(s);
	for (size_t k = 0; k < sizeof(S); k++)
		out.push_back(static_cast<uint8_t>(v >> (8 * k)));
}

enum Kind { U8, U16, U32, U64, I32, F32, TRI, RAW, OBJ };

template<typename K, typename S>
struct Node {
	typename KeyOps<K>::Store key{};
	Kind kind = U8;
	Bytes data; // payload, if not an object
	std::vector<Node> kids;

	size_t payload_size() const {
		if (kind != OBJ)
			return data.size();
		size_t n = 0;
		for (auto &k : kids)
			n += k.total_size();
		return n;
	}
	size_t total_size() const {
		return sizeof(typename std::remove_const_t<std::conditional_t<std::is_array_v<K>, std::array<char, sizeof(K)>, K>>) + sizeof(S) + payload_size();
	}
	void encode(Bytes &out) const {
		KeyOps<K>::encode(out, key);
		put_size<S>(out, static_cast<S>(payload_size()));
		if (kind == OBJ)
			for (auto &k : kids)
				k.encode(out);
		else
			out.insert(out.end(), data.begin(), data.end());
	}
	std::string show() const {
		static const char *names[] = {"u8", "u16", "u32", "u64", "i32", "f32", "tri", "raw", "obj"};
		std::string s = KeyOps<K>::show(key) + ":" + names[kind];
		if (kind == OBJ) {
			s += "{";
			for (auto &k : kids)
				s += k.show() + " ";
			s += "}";
		} else
			s += "=" + pbt::show(data);
		return s;
	}
};

inline size_t kind_size(Kind k) {
	switch (k) {
		case U8: return 1;
		case U16: return 2;
		case U32: return 4;
		case U64: return 8;
		case I32: return 4;
		case F32: return 4;
		case TRI: return 3;
		default: return 0;
	}
}

// `room` is the number of bytes that may still be used in the enclosing object
template<typename K, typename S>
std::vector<Node<K, S>> gen_nodes(pbt::Ctx &c, unsigned depth, size_t room, size_t max_kids) {
	std::vector<Node<K, S>> v;
	size_t n = c.choice(max_kids);
	for (size_t i = 0; i < n; i++) {
		Node<K, S> nd;
		size_t header = sizeof(K) + sizeof(S);
		if (room < header)
			break;
		nd.key = KeyOps<K>::gen(c);
		nd.kind = static_cast<Kind>(c.choice(depth > 0 ? 9 : 7));
		if (nd.kind > OBJ)
			nd.kind = OBJ;
		size_t left = room - header;
		if (nd.kind == OBJ) {
			nd.kids = gen_nodes<K, S>(c, depth - 1, left, std::min<size_t>(max_kids, 4));
		} else {
			size_t sz = nd.kind == RAW ? (c.chance(1, 8) ? c.choice(300) : c.choice(9)) : kind_size(nd.kind);
			if (sz > left)
				break;
			for (size_t k = 0; k < sz; k++)
				nd.data.push_back(static_cast<uint8_t>(c.choice(2) ? c.choice(255) : c.choice(1)));
		}
		room -= nd.total_size();
		v.push_back(std::move(nd));
	}
	return v;
}

template<typename T>
T from_bytes(const Bytes &b) {
	T t;
	memcpy(&t, b.data(), sizeof(T));
	return t;
}

template<typename K, typename S, typename W>
void emit_leaf(const Node<K, S> &n, W &w) {
	auto key = KeyOps<K>::pass(n.key);
	switch (n.kind) {
		case U8: w.field(key, from_bytes<uint8_t>(n.data)); break;
		case U16: w.field(key, from_bytes<uint16_t>(n.data)); break;
		case U32: w.field(key, from_bytes<uint32_t>(n.data)); break;
		case U64: w.field(key, from_bytes<uint64_t>(n.data)); break;
		case I32: w.field(key, from_bytes<int32_t>(n.data)); break;
		case F32: w.field(key, from_bytes<float>(n.data)); break;
		case TRI: w.field(key, from_bytes<Tri>(n.data)); break;
		case RAW: {
			// exactly sized, on the heap
			Bytes copy = n.data;
			copy.shrink_to_fit();
			w.raw(key, std::span<const uint8_t>{copy});
			break;
		}
		case OBJ: break;
	}
}

template<typename K, typename S, typename W>
void emit_serial(const std::vector<Node<K, S>> &v, W &w) {
	for (auto &n : v) {
		if (n.kind == OBJ) {
			auto key = KeyOps<K>::pass(n.key);
			w.object(key, [&](auto &sub) { emit_serial<K, S>(n.kids, sub); });
		} else
			emit_leaf<K, S>(n, w);
	}
}

template<typename K, typename S, typename W>
void emit_imperative(const std::vector<Node<K, S>> &v, W &w) {
	for (auto &n : v) {
		if (n.kind == OBJ) {
			auto key = KeyOps<K>::pass(n.key);
			w.begin_object(key);
			emit_imperative<K, S>(n.kids, w);
			w.end_object();
		} else
			emit_leaf<K, S>(n, w);
	}
}

template<typename K, typename S>
Bytes encode_all(const std::vector<Node<K, S>> &v) {
	Bytes b;
	for (auto &n : v)
		n.encode(b);
	return b;
}

template<typename K, typename S>
std::string show_nodes(const std::vector<Node<K, S>> &v) {
	std::string s;
	for (auto &n : v)
		s += n.show() + " ";
	return s;
}

// Runs `f.template operator()<K, S>()` for a chosen combination of types
template<typename F>
void with_types(pbt::Ctx &c, F f) {
	switch (c.choice(8)) {
		case 6: f.template operator()<int32_t, int16_t>(); break;
		case 7: f.template operator()<uint64_t, int8_t>(); break;
		case 8: f.template operator()<const char[3], int32_t>(); break;
		case 0: f.template operator()<Key16, uint16_t>(); break;
		case 1: f.template operator()<uint8_t, uint8_t>(); break;
		case 2: f.template operator()<uint32_t, uint32_t>(); break;
		case 3: f.template operator()<const char[4], uint8_t>(); break;
		case 4: f.template operator()<const char[6], uint16_t>(); break;
		case 5: f.template operator()<uint16_t, uint64_t>(); break;
	}
}
