// @cases 4000000
// @thorough 15
#include "pbt.hh"
#include "util/pool.hh"
#include <atomic>
#include "util/thread_safe_pool.hh"

struct Obj {
	uint32_t a = 77;
	std::array<uint8_t, 5> b{1, 2, 3, 4, 5};
	bool operator==(const Obj &) const = default;
};

template<typename T>
static T value(uint32_t v) {
	if constexpr (std::is_same_v<T, Obj>)
		return {v, {static_cast<uint8_t>(v), 9, 8, static_cast<uint8_t>(v >> 8), 7}};
	else if constexpr (std::is_same_v<T, std::string>)
		return "the value of an object: " + std::to_string(v);
	else if constexpr (requires { T::of(v); })
		return T::of(v);
	else
		return pbt::number<T>(v);
}

// Reference: the live objects, by address, with their values
template<typename T, size_t N>
static void pool(pbt::Ctx &c) {
	using P = cpputil::Pool<T, N>;
	auto p = pbt::fresh<P>();
	PBT_LOG("Pool of " << N);
	std::vector<std::pair<T *, T>> live;
	std::vector<T *> dead;
	uint32_t next = 1;
	bool full = false, reused = false, refused = false;
	unsigned n = static_cast<unsigned>(c.choice(40));
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = N - c.choice(3);
		PBT_LOG("create " << k);
		while (live.size() < k) {
			T *o = p->create();
			PBT_CHECK(o && *o == T{}, "create()");
			*o = value<T>(next);
			live.emplace_back(o, value<T>(next));
			next += 300;
		}
	}
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		auto before = reinterpret_cast<uintptr_t>(p.get());
		if (copies(op, p)) { // the objects in the same places of the copy
			auto moved = [&](T *q) { return reinterpret_cast<T *>(reinterpret_cast<uintptr_t>(q) - before + reinterpret_cast<uintptr_t>(p.get())); };
			for (auto &[q, v] : live) {
				q = moved(q);
				PBT_CHECK(*q == v, "a live object in a copy of the pool differs");
			}
			for (auto &q : dead)
				q = moved(q);
		}
		switch (c.weighted({5, 2, 4, 1, 1, 3})) {
			case 0:
			case 1: {
				bool ow = op & 1 ? c.coin() : false;
				T *o = ow ? p->create_for_overwrite() : p->create();
				PBT_LOG((ow ? "create_for_overwrite -> " : "create -> ") << (o ? "ok" : "none"));
				PBT_EQ(o != nullptr, live.size() < N, "creating with " << live.size() << " of " << N << " in use, succeeds");
				if (!o) {
					full = true;
					break;
				}
				auto lo = reinterpret_cast<uintptr_t>(p.get()), at = reinterpret_cast<uintptr_t>(o);
				PBT_CHECK(at >= lo && at + sizeof(T) <= lo + sizeof(P) && at % alignof(T) == 0, "object outside of the pool, or misaligned");
				for (auto &[q, v] : live) {
					auto b = reinterpret_cast<uintptr_t>(q);
					PBT_CHECK(at + sizeof(T) <= b || b + sizeof(T) <= at, "two live objects overlap");
				}
				if (!ow)
					PBT_CHECK(*o == T{}, "created object is not a default one");
				auto f = std::find(dead.begin(), dead.end(), o);
				if (f != dead.end()) {
					reused = true;
					dead.erase(f);
				}
				*o = value<T>(next);
				live.emplace_back(o, value<T>(next));
				next += 300;
				break;
			}
			case 2: {
				if (live.empty())
					break;
				size_t i = c.choice(live.size() - 1);
				PBT_LOG("destroy " << i);
				PBT_CHECK(p->destroy(live[i].first), "destroy() of a live object failed");
				dead.push_back(live[i].first);
				live.erase(live.begin() + static_cast<long>(i));
				break;
			}
			case 3:
				if (dead.empty())
					break;
				PBT_LOG("destroy again");
				PBT_CHECK(!p->destroy(c.pick(dead)), "destroy() of a destroyed object succeeded");
				refused = true;
				break;
			case 4: {
				T other{};
				PBT_LOG("destroy foreign");
				PBT_CHECK(!p->destroy(&other), "destroy() of an object outside of the pool succeeded");
				PBT_CHECK(!p->destroy(nullptr), "destroy(nullptr) succeeded");
				refused = true;
				break;
			}
			case 5:
				if (live.size()) {
					auto &[q, v] = c.pick(live);
					v = value<T>(next);
					*q = v;
					next += 300;
				}
				break;
		}
		for (auto &[q, v] : live)
			PBT_CHECK(*q == v, "a live object changed");
	}
	if (full)
		c.label("pool full");
	if (refused)
		c.label("destroy refused");
	if (reused)
		c.nontrivial();
}

template<typename T, size_t N>
static void ts_pool(pbt::Ctx &c) {
	using P = cpputil::ThreadSafePool<T, N>;
	auto p = pbt::fresh<P>();
	PBT_LOG("ThreadSafePool of " << N);
	PBT_EQ(p->size(), N, "size()");
	std::map<size_t, T> live;
	std::set<size_t> was;
	uint32_t next = 1;
	bool reused = false;
	unsigned n = static_cast<unsigned>(c.choice(N > 100 ? 20 : 40));
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = N - c.choice(3);
		PBT_LOG("create " << k);
		while (live.size() < k) {
			auto i = p->create();
			PBT_CHECK(i && *i == live.size(), "create()");
			was.insert(*i);
			(*p)[*i] = live[*i] = value<T>(next);
			next += 300;
		}
	}
	for (unsigned op = 0; op < n; op++) {
		switch (c.weighted({6, 4, 1, 1, 3})) {
			case 0: {
				auto i = p->create();
				PBT_LOG("create -> " << pbt::show(i));
				PBT_EQ(i.has_value(), live.size() < N, "create() with " << live.size() << " of " << N << " in use, succeeds");
				if (!i)
					break;
				size_t want = 0;
				while (live.count(want))
					want++;
				PBT_EQ(*i, want, "index created, which is the first one available");
				reused |= was.count(*i);
				was.insert(*i);
				(*p)[*i] = live[*i] = value<T>(next);
				next += 300;
				break;
			}
			case 1: {
				if (live.empty())
					break;
				size_t k = std::next(live.begin(), static_cast<long>(c.choice(live.size() - 1)))->first;
				PBT_LOG("destroy " << k);
				PBT_CHECK(p->destroy(k), "destroy() of a live entry failed");
				live.erase(k);
				break;
			}
			case 2: {
				size_t k = c.coin() ? c.choice(N + 2) : static_cast<size_t>(c.any_int<uint64_t>());
				if (live.count(k))
					break;
				PBT_LOG("destroy unused " << k);
				PBT_CHECK(!p->destroy(k), "destroy() of an entry not in use, or out of range, succeeded");
				break;
			}
			case 3:
				if (c.choice(2) == 2) {
					PBT_LOG("clear");
					p->clear();
					live.clear();
					for (size_t i = 0; i < N; i++)
						PBT_CHECK((*p)[i] == T{}, "data after clear()");
				}
				break;
			case 4:
				if (live.size()) {
					auto &[k, v] = *std::next(live.begin(), static_cast<long>(c.choice(live.size() - 1)));
					(*p)[k] = v = value<T>(next);
					next += 300;
				}
				break;
		}
		auto &k = std::as_const(*p);
		for (size_t i = 0; i < N + 2; i++)
			PBT_EQ(k.is_used(i), live.count(i) > 0, "is_used(" << i << ")");
		for (auto &[i, v] : live)
			PBT_CHECK(k[i] == v, "a live entry changed");
	}
	if (reused)
		c.nontrivial();
}

#define RULE "an entry was created, destroyed and created again"
PBT("Pool of ints", 100, RULE) {
	switch (c.choice(5)) {
		case 3: pool<uint16_t, 2>(c); break;
		case 4: pool<uint64_t, 5>(c); break;
		case 5: pool<float, 6>(c); break;
		case 0: pool<uint32_t, 1>(c); break;
		case 1: pool<uint32_t, 3>(c); break;
		case 2: pool<uint8_t, 8>(c); break;
	}
}
PBT("Pool of objects", 100, RULE) {
	switch (c.choice(4)) {
		case 3: pool<pbt::Big, 3>(c); break;
		case 4: pool<pbt::Tri, 16>(c); break;
		case 0: pool<Obj, 2>(c); break;
		case 1: pool<Obj, 7>(c); break;
		case 2: pool<std::string, 4>(c); break;
	}
}
PBT("Large Pool", 1, RULE) {
	pool<uint32_t, 300>(c);
}
PBT("Large ThreadSafePool, one thread", 1, RULE) {
	ts_pool<uint32_t, 300>(c);
}
PBT("ThreadSafePool, one thread", 100, RULE) {
	switch (c.choice(7)) {
		case 4: ts_pool<uint8_t, 2>(c); break;
		case 5: ts_pool<uint64_t, 5>(c); break;
		case 6: ts_pool<pbt::Big, 7>(c); break;
		case 7: ts_pool<pbt::Tri, 16>(c); break;
		case 0: ts_pool<uint32_t, 1>(c); break;
		case 1: ts_pool<uint32_t, 3>(c); break;
		case 2: ts_pool<Obj, 8>(c); break;
		case 3: ts_pool<std::string, 4>(c); break;
	}
}
