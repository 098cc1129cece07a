// @cases 1500000
// @thorough 20
// @fuzz FixedVector of ints
#include "pbt.hh"
#include "util/fixed_vector.hh"

template<typename T>
static T value(uint32_t v) {
	if constexpr (std::is_same_v<T, std::string>)
		return "a string that is not short: " + std::to_string(v);
	else if constexpr (requires { T::of(v); })
		return T::of(v);
	else
		return pbt::number<T>(v);
}

// Reference: std::vector, which refuses to grow beyond N
template<typename T, size_t N>
static void history(pbt::Ctx &c) {
	using V = FixedVector<T, N>;
	std::unique_ptr<V> v;
	std::vector<T> ref;
	if constexpr (N >= 3) {
		switch (c.choice(2)) {
			case 1:
				v = std::make_unique<V>(value<T>(101), value<T>(102), value<T>(103));
				ref = {value<T>(101), value<T>(102), value<T>(103)};
				break;
			case 2:
				v = std::make_unique<V>(value<T>(101));
				ref = {value<T>(101)};
				break;
		}
	}
	if (!v)
		v = pbt::fresh<V>();
	PBT_LOG("FixedVector of " << N << " starting with " << ref.size());
	uint32_t next = 1;
	bool refused = false, shifted = false;
	auto observe = [&] {
		auto &k = std::as_const(*v);
		PBT_EQ(k.size(), ref.size(), "size()");
		PBT_EQ(k.max_size(), N, "max_size()");
		PBT_EQ(v->available(), N - ref.size(), "available()");
		PBT_EQ(static_cast<size_t>(k.end() - k.begin()), ref.size(), "end() - begin()");
		PBT_EQ(static_cast<size_t>(v->end() - v->begin()), ref.size(), "end() - begin()");
		auto s = v->span();
		PBT_EQ(s.size(), ref.size(), "span().size()");
		if constexpr (requires { k.span(); }) {
			auto ks = k.span();
			PBT_CHECK(ks.size() == ref.size() && (ref.empty() || &ks[0] == &*k.begin()), "const span()");
		}
		for (size_t i = 0; i < ref.size(); i++) {
			PBT_CHECK(k[i] == ref[i], "element " << i);
			PBT_CHECK(&(*v)[i] == &*(v->begin() + static_cast<long>(i)) && &s[i] == &(*v)[i] && &k[i] == &(*v)[i], "operator[], begin() and span() disagree on element " << i);
		}
		PBT_CHECK(k.back() == (ref.empty() ? T{} : ref.back()), "back()");
	};
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = N - c.choice(40);
		PBT_LOG("push_back " << k << " elements");
		while (ref.size() < k) {
			PBT_CHECK(v->push_back(value<T>(next)), "push_back() result");
			ref.push_back(value<T>(next++));
		}
	}
	observe();
	unsigned n = static_cast<unsigned>(c.choice(N > 100 ? 8 : 24));
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		copies(op, v);
		switch (c.weighted({8, 3, 2, 1, 2, 5, 3, 3, 1, 1})) {
			case 0: {
				PBT_LOG("push_back " << next);
				bool ok = v->push_back(value<T>(next));
				PBT_EQ(ok, ref.size() < N, "push_back() result");
				if (ok)
					ref.push_back(value<T>(next));
				else
					refused = true;
				next++;
				break;
			}
			case 1: {
				PBT_LOG("pop_back");
				T r = v->pop_back();
				PBT_CHECK(r == (ref.empty() ? T{} : ref.back()), "pop_back() value");
				if (ref.size())
					ref.pop_back();
				break;
			}
			case 2: {
				size_t to = c.choice(9) == 9 ? static_cast<size_t>(c.any_int<uint64_t>()) : c.choice(N + 2);
				bool with = c.coin();
				PBT_LOG("resize " << to);
				bool ok = with ? v->resize(to, value<T>(next)) : v->resize(to);
				PBT_EQ(ok, to <= N, "resize() result");
				ref.resize(std::min(to, N), with ? value<T>(next) : T{});
				next++;
				refused |= !ok;
				break;
			}
			case 3: {
				size_t to = c.choice(N + 2), had = ref.size();
				PBT_LOG("resize_for_overwrite " << to);
				bool ok = v->resize_for_overwrite(to);
				PBT_EQ(ok, to <= N, "resize_for_overwrite() result");
				ref.resize(std::min(to, N));
				PBT_EQ(v->size(), ref.size(), "size() after resize_for_overwrite()");
				for (size_t i = had; i < ref.size(); i++)
					(*v)[i] = ref[i] = value<T>(next++);
				break;
			}
			case 4: {
				PBT_LOG("push_back_for_overwrite");
				size_t i = v->push_back_for_overwrite();
				PBT_EQ(i, ref.size() < N ? ref.size() : N, "push_back_for_overwrite()");
				if (i < N) {
					(*v)[i] = value<T>(next);
					ref.push_back(value<T>(next++));
				} else
					refused = true;
				break;
			}
			case 5: {
				unsigned i = static_cast<unsigned>(c.choice(9) == 9 ? c.any_int<uint32_t>() : c.choice(ref.size() + 1));
				T x = value<T>(next);
				if (ref.size() && c.choice(4) == 4) { // an element of the vector itself
					size_t from = c.choice(ref.size() - 1);
					PBT_LOG("insert element " << from << " at " << i);
					x = ref[from];
					v->insert(i, (*v)[from]);
				} else {
					PBT_LOG("insert at " << i);
					v->insert(i, x);
				}
				if (ref.size() < N && i <= ref.size()) {
					shifted |= i < ref.size();
					ref.insert(ref.begin() + i, x);
				} else
					refused = true;
				next++;
				break;
			}
			case 6: {
				unsigned i = static_cast<unsigned>(c.choice(9) == 9 ? c.any_int<uint32_t>() : c.choice(ref.size() + 1));
				PBT_LOG("erase " << i);
				v->erase(i);
				if (i < ref.size()) {
					shifted |= i + 1 < ref.size();
					ref.erase(ref.begin() + i);
				}
				break;
			}
			case 7: {
				size_t a = c.choice(ref.size()), b = a + c.choice(ref.size() - a);
				PBT_LOG("erase " << a << " to " << b);
				v->erase(v->begin() + a, v->begin() + b);
				shifted |= b > a && b < ref.size();
				ref.erase(ref.begin() + static_cast<long>(a), ref.begin() + static_cast<long>(b));
				break;
			}
			case 8:
				if (c.choice(2) == 2) {
					PBT_LOG("clear");
					v->clear();
					ref.clear();
				}
				break;
			case 9:
				if (ref.size()) {
					size_t i = c.choice(ref.size() - 1);
					PBT_LOG("set " << i);
					(*v)[i] = ref[i] = value<T>(next++);
				}
				break;
		}
		observe();
	}
	if (refused)
		c.label("did not fit, or out of range");
	if (shifted)
		c.nontrivial();
}

#define RULE "elements were moved by an insertion or erasure before the end"
PBT("FixedVector of ints", 300, RULE) {
	switch (c.choice(6)) {
		case 4: history<uint64_t, 4>(c); break;
		case 5: history<uint16_t, 7>(c); break;
		case 6: history<double, 8>(c); break;
		case 0: history<int, 1>(c); break;
		case 1: history<int, 3>(c); break;
		case 2: history<uint8_t, 5>(c); break;
		case 3: history<uint32_t, 12>(c); break;
	}
}
PBT("Large FixedVector", 1, RULE) {
	switch (c.choice(1)) {
		case 0: history<int, 290>(c); break;
		case 1: history<uint16_t, 66000>(c); break;
	}
}
PBT("FixedVector of objects", 100, RULE) {
	switch (c.choice(3)) {
		case 2: history<pbt::Big, 5>(c); break;
		case 3: history<pbt::Tri, 6>(c); break;
		case 0: history<std::string, 2>(c); break;
		case 1: history<std::string, 6>(c); break;
	}
}
