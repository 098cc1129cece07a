// @cases 500000
// @thorough 20
// @fuzz SeqMap of ints
#include "pbt.hh"
#include "util/seq_map.hh"

template<typename T>
static T value(uint64_t v) {
	if constexpr (std::is_same_v<T, std::string>)
		return "a string that is not short: " + std::to_string(v);
	else if constexpr (requires { T::of(v); })
		return T::of(v);
	else
		return pbt::number<T>(v);
}

// Reference: a list of pairs, the oldest one first
template<typename K, typename V, size_t N>
static void history(pbt::Ctx &c) {
	using M = SeqMap<K, V, N>;
	auto m = pbt::fresh<M>();
	std::vector<std::pair<K, V>> ref;
	PBT_LOG("SeqMap of " << N);
	auto find = [&](const K &k) {
		return std::find_if(ref.begin(), ref.end(), [&](auto &p) { return p.first == k; });
	};
	uint32_t next = 1;
	bool replaced = false, removed_after = false, refused = false;
	// (the first key is the one that places which are not in use may have)
	pbt::Keys<K> keys{c, N + 8};
	auto key_of = [&](size_t q) { return keys(q - 1); };
	size_t nkeys = N + 3, stride = N > 100 ? 23 : 1, from = 0;
	auto observe = [&] {
		PBT_EQ(std::as_const(*m).size(), ref.size(), "size()");
		for (size_t q = from++ % stride; q < nkeys; q += stride) {
			auto key = key_of(q + 1);
			auto f = find(key);
			PBT_EQ(std::as_const(*m).key_exists(key), f != ref.end(), "key_exists(" << q + 1 << ")");
			V *p = m->get(key);
			PBT_EQ(p != nullptr, f != ref.end(), "get(" << q + 1 << ") found it");
			if (p)
				PBT_CHECK(*p == f->second, "value of " << q + 1);
		}
	};
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = N - c.choice(3);
		PBT_LOG("insert keys 1 to " << k);
		for (size_t q = 1; q <= k; q++) {
			PBT_CHECK(m->insert(key_of(q), value<V>(next)), "insert() result");
			ref.emplace_back(key_of(q), value<V>(next++));
		}
	}
	observe();
	unsigned n = static_cast<unsigned>(c.choice(30));
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		copies(op, m);
		size_t q = c.choice(nkeys - 1) + 1;
		auto key = key_of(q);
		auto f = find(key);
		switch (c.weighted({3, 8, 4, 2, 2})) {
			case 0: {
				if (f != ref.end()) // inserting a key which is there gives two of it
					break;
				PBT_LOG("insert " << q);
				bool ok = m->insert(key, value<V>(next));
				PBT_EQ(ok, ref.size() < N, "insert() result");
				if (ok)
					ref.emplace_back(key, value<V>(next));
				else
					refused = true;
				next++;
				break;
			}
			case 1: {
				PBT_LOG("overwrite " << q);
				V v = value<V>(next), *p;
				if (f == ref.end() && ref.size() < N && ref.size() && c.choice(3) == 3) { // a value of the map itself
					auto &from = c.pick(ref);
					PBT_LOG("with the value of another one");
					v = from.second;
					p = m->overwrite(key, *m->get(from.first));
				} else
					p = m->overwrite(key, v);
				PBT_CHECK(p != nullptr && *p == v, "value that overwrite() points to");
				PBT_CHECK(p == m->get(key), "overwrite() and get() point to different values");
				if (f != ref.end())
					f->second = v;
				else {
					if (ref.size() == N) {
						ref.erase(ref.begin());
						replaced = true;
					}
					ref.emplace_back(key, v);
				}
				next++;
				break;
			}
			case 2: {
				PBT_LOG("remove " << q);
				bool ok = m->remove(key);
				PBT_EQ(ok, f != ref.end(), "remove() result");
				if (ok) {
					ref.erase(f);
					removed_after |= replaced;
				}
				break;
			}
			case 3:
				PBT_LOG("remove_last");
				m->remove_last();
				if (ref.size()) {
					ref.pop_back();
					removed_after |= replaced;
				}
				break;
			case 4:
				if (f != ref.end()) {
					PBT_LOG("*get(" << q << ") = ");
					*m->get(key) = f->second = value<V>(next++);
				}
				break;
		}
		observe();
	}
	if (refused)
		c.label("full");
	if (removed_after)
		c.nontrivial();
}

#define RULE "the oldest pair was replaced in a full map, and pairs removed after that"
PBT("SeqMap of ints", 300, RULE) {
	switch (c.choice(7)) {
		case 5: history<int64_t, uint8_t, 3>(c); break;
		case 6: history<unsigned, uint16_t, 5>(c); break;
		case 7: history<int16_t, double, 8>(c); break;
		case 0: history<int, int, 1>(c); break;
		case 1: history<uint8_t, uint32_t, 2>(c); break;
		case 2: history<uint16_t, int64_t, 3>(c); break;
		case 3: history<int, float, 4>(c); break;
		case 4: history<int, float, 7>(c); break;
	}
}
PBT("Large SeqMap", 1, RULE) {
	history<int, uint32_t, 300>(c);
}
PBT("SeqMap of objects", 100, RULE) {
	switch (c.choice(3)) {
		case 2: history<uint8_t, pbt::Big, 6>(c); break;
		case 3: history<std::string, pbt::Tri, 4>(c); break;
		case 0: history<std::string, std::string, 3>(c); break;
		case 1: history<int, std::string, 5>(c); break;
	}
}
