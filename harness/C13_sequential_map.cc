// @cases 600000
// @thorough 20
// @fuzz SequentialMap of ints
#include "pbt.hh"
#include "util/sequential_map.hh"

template<typename T>
static T value(uint64_t v) {
	if constexpr (std::is_same_v<T, std::string>)
		return "a string that is not short: " + std::to_string(v);
	else if constexpr (requires { T::of(v); })
		return T::of(v);
	else
		return pbt::number<T>(v);
}

// Reference: a list of pairs with different keys, in the order of insertion
template<typename K, typename V, size_t N>
static void history(pbt::Ctx &c) {
	using M = SequentialMap<K, V, N>;
	auto m = pbt::fresh<M>();
	std::vector<std::pair<K, V>> ref;
	PBT_LOG("SequentialMap of " << N);
	auto find = [&](const K &k) {
		return std::find_if(ref.begin(), ref.end(), [&](auto &p) { return p.first == k; });
	};
	uint32_t next = 1;
	bool erased = false, again = false, overflow = false;
	// (the first key is the one that places which are not in use may have)
	pbt::Keys<K> keys{c, N + 8};
	auto key_of = [&](size_t q) { return keys(q); };
	size_t nkeys = N + 3, stride = N > 100 ? 23 : 1, from = 0;
	auto observe = [&] {
		auto &k = std::as_const(*m);
		PBT_EQ(k.size(), ref.size(), "size()");
		PBT_EQ(k.max_size(), N, "max_size()");
		PBT_EQ(k.empty(), ref.empty(), "empty()");
		PBT_EQ(k.is_full(), ref.size() == N, "is_full()");
		size_t i = 0;
		for (auto &p : k) {
			PBT_CHECK(i < ref.size() && p.first == ref[i].first && p.second == ref[i].second, "pair " << i << " of " << ref.size() << ", iterating");
			i++;
		}
		PBT_EQ(i, ref.size(), "pairs iterated over");
		for (size_t q = from++ % stride; q < nkeys; q += stride) {
			auto key = key_of(q);
			auto f = find(key);
			bool there = f != ref.end();
			PBT_EQ(k.contains(key), there, "contains(" << q << ")");
			auto it = k.find(key);
			PBT_EQ(it != k.end(), there, "find(" << q << ") found it");
			auto it2 = m->find(key);
			PBT_EQ(it2 != m->end(), there, "find(" << q << ") found it");
			if (there) {
				PBT_CHECK(it->first == key && it->second == f->second, "find(" << q << ")");
				PBT_CHECK(&*it2 == &*it, "find(" << q << ") of a const map and of a map");
				PBT_CHECK(k[key] == f->second, "[" << q << "]");
			} else
				PBT_CHECK(k[key] == V{}, "[" << q << "] of a const map, of a key which is not there");
		}
	};
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = N - c.choice(3);
		PBT_LOG("insert keys 0 to " << k);
		for (size_t q = 0; q < k; q++) {
			(*m)[key_of(q)] = value<V>(next);
			ref.emplace_back(key_of(q), value<V>(next++));
		}
	}
	observe();
	unsigned n = static_cast<unsigned>(c.choice(24));
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		copies(op, m);
		size_t q = c.choice(nkeys - 1);
		auto key = key_of(q);
		auto f = find(key);
		switch (c.weighted({6, 5, 4, 1, 2})) {
			case 0: {
				PBT_LOG("[" << q << "] = " << next);
				(*m)[key] = value<V>(next);
				if (f != ref.end()) {
					f->second = value<V>(next);
					again = true;
				} else if (ref.size() < N)
					ref.emplace_back(key, value<V>(next));
				else { // takes the place of the last one
					ref.back() = {key, value<V>(next)};
					overflow = true;
				}
				next++;
				break;
			}
			case 1: {
				PBT_LOG("insert " << q << ", " << next);
				if (f != ref.end() && c.choice(2) == 2) { // a pair of the map itself
					auto own = m->find(key);
					auto [it, ok] = m->insert(*own);
					PBT_CHECK(!ok && it == m->find(key), "insert() of a pair of the map itself");
					break;
				}
				auto [it, ok] = m->insert({key, value<V>(next)});
				PBT_EQ(ok, f == ref.end() && ref.size() < N, "insert() result");
				if (ok)
					ref.emplace_back(key, value<V>(next));
				if (ok || f != ref.end()) {
					PBT_CHECK(it != m->end() && it->first == key, "iterator returned by insert()");
					PBT_CHECK(it == m->find(key), "iterator returned by insert()");
				} else {
					PBT_CHECK(it == m->end(), "iterator returned by insert() into a full map");
					overflow = true;
				}
				next++;
				break;
			}
			case 2: {
				PBT_LOG("erase " << q);
				// maybe by the key in the map itself
				size_t r = f != ref.end() && c.coin() ? m->erase(m->find(key)->first) : m->erase(key);
				PBT_EQ(r, size_t(f != ref.end()), "erase() result");
				if (f != ref.end()) {
					ref.erase(f);
					erased = true;
				}
				break;
			}
			case 4: // through an iterator
				PBT_LOG("change " << q);
				if (f != ref.end() && c.coin()) {
					m->find(key)->second = value<V>(next);
					f->second = value<V>(next);
				} else {
					for (size_t i = 0; auto &p : *m) {
						p.second = value<V>(next + i);
						ref[i].second = value<V>(next + i);
						i++;
					}
				}
				next += static_cast<uint32_t>(N) + 1;
				break;
			case 3:
				if (c.choice(2) == 2) {
					PBT_LOG("clear");
					m->clear();
					ref.clear();
				}
				break;
		}
		observe();
	}
	if (overflow)
		c.label("full");
	if (erased && again)
		c.nontrivial();
}

#define RULE "a pair was erased, and an existing one assigned to"
PBT("SequentialMap of ints", 300, RULE) {
	switch (c.choice(6)) {
		case 4: history<int64_t, uint8_t, 3>(c); break;
		case 5: history<unsigned, uint16_t, 5>(c); break;
		case 6: history<int16_t, double, 7>(c); break;
		case 0: history<int, int, 1>(c); break;
		case 1: history<uint8_t, uint32_t, 2>(c); break;
		case 2: history<uint16_t, int64_t, 4>(c); break;
		case 3: history<int, float, 8>(c); break;
	}
}
PBT("Large SequentialMap", 1, RULE) {
	history<int, uint32_t, 300>(c);
}
PBT("SequentialMap of objects", 100, RULE) {
	switch (c.choice(3)) {
		case 2: history<uint8_t, pbt::Big, 6>(c); break;
		case 3: history<std::string, pbt::Tri, 4>(c); break;
		case 0: history<std::string, std::string, 3>(c); break;
		case 1: history<int, std::string, 5>(c); break;
	}
}
