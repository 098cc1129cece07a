// @cases 3000000
// @thorough 15
// @fuzz CircularStack
#include "pbt.hh"
#include "util/circular_stack.hh"

template<typename T>
static T value(uint32_t v) {
	if constexpr (std::is_same_v<T, std::string>)
		return "a string that is not short: " + std::to_string(v);
	else if constexpr (requires { T::of(v); })
		return T::of(v);
	else
		return pbt::number<T>(v);
}

// Reference: a stack which forgets its bottom element when it would exceed N
template<typename T, int N>
static void history(pbt::Ctx &c) {
	using S = CircularStack<T, N>;
	std::unique_ptr<S> s;
	std::vector<T> ref;
	unsigned init = static_cast<unsigned>(c.choice(3));
	if (init == 1) {
		s = std::make_unique<S>(value<T>(101));
		ref = {value<T>(101)};
	} else if (init >= 2) {
		if constexpr (N >= 2) {
			if (init == 2) {
				s = std::make_unique<S>(value<T>(101), value<T>(102));
				ref = {value<T>(101), value<T>(102)};
			} else if constexpr (N >= 5) {
				s = std::make_unique<S>(value<T>(101), value<T>(102), value<T>(103), value<T>(104), value<T>(105));
				ref = {value<T>(101), value<T>(102), value<T>(103), value<T>(104), value<T>(105)};
			}
		}
	}
	if (!s)
		s = pbt::fresh<S>();
	PBT_LOG("CircularStack of " << N << " starting with " << ref.size());
	uint32_t next = 1;
	bool over = false, popped_over = false;
	unsigned n = static_cast<unsigned>(c.choice(N > 100 ? 8 : 50));
	if constexpr (N > 100) { // a large one is filled, or nearly, first
		size_t k = N - 4 + c.choice(8);
		PBT_LOG("push " << k << " elements");
		while (k--) {
			s->push_back(value<T>(next));
			ref.push_back(value<T>(next++));
		}
		if (ref.size() > N) {
			ref.erase(ref.begin(), ref.end() - N);
			over = true;
		}
	}
	bool fill = c.coin();
	auto observe = [&] {
		PBT_EQ(s->size(), ref.size(), "size()");
		PBT_EQ(s->empty(), ref.empty(), "empty()");
		PBT_EQ(s->max_size(), size_t(N), "max_size()");
		auto b = s->back();
		PBT_EQ(b.has_value(), !ref.empty(), "back() has a value");
		if (b)
			PBT_CHECK(*b == ref.back(), "back() is not the newest element");
	};
	observe();
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		copies(op, s);
		switch (c.weighted({fill ? 12u : 5u, 4, 2, c.choice(3) == 3 ? 1u : 0u})) {
			case 0:
				PBT_LOG("push " << next);
				s->push_back(value<T>(next));
				ref.push_back(value<T>(next++));
				if (ref.size() > N) {
					ref.erase(ref.begin());
					over = true;
				}
				break;
			case 1: {
				PBT_LOG("pop_back");
				auto r = s->pop_back();
				PBT_EQ(r.has_value(), !ref.empty(), "pop_back() has a value");
				if (r) {
					PBT_CHECK(*r == ref.back(), "pop_back() is not the newest element");
					ref.pop_back();
				}
				popped_over |= over;
				break;
			}
			case 2: {
				PBT_LOG("pop_back_or_zero");
				auto r = s->pop_back_or_zero();
				if (ref.empty())
					PBT_CHECK(r == T{}, "pop_back_or_zero() of an empty stack");
				else {
					PBT_CHECK(r == ref.back(), "pop_back_or_zero() is not the newest element");
					ref.pop_back();
				}
				break;
			}
			case 3:
				PBT_LOG("clear");
				s->clear();
				ref.clear();
				break;
		}
		observe();
	}
	while (ref.size()) {
		auto r = s->pop_back();
		PBT_CHECK(r && *r == ref.back(), "emptying the stack: wrong element");
		ref.pop_back();
	}
	PBT_CHECK(!s->pop_back(), "an element below the last one");
	if (popped_over)
		c.nontrivial();
}

#define RULE "the bottom was overwritten, and elements popped after that"
PBT("CircularStack", 300, RULE) {
	switch (c.choice(7)) {
		case 4: history<uint64_t, 3>(c); break;
		case 5: history<uint16_t, 4>(c); break;
		case 6: history<float, 7>(c); break;
		case 7: history<uint8_t, 8>(c); break;
		case 0: history<int, 1>(c); break;
		case 1: history<uint8_t, 2>(c); break;
		case 2: history<int, 5>(c); break;
		case 3: history<uint32_t, 16>(c); break;
	}
}
PBT("Large CircularStack", 1, RULE) {
	switch (c.choice(1)) {
		case 0: history<int, 300>(c); break;
		case 1: history<uint16_t, 66000>(c); break;
	}
}
PBT("CircularStack of objects", 100, RULE) {
	switch (c.choice(2)) {
		case 0: return history<std::string, 3>(c);
		case 1: return history<pbt::Big, 6>(c);
		default: return history<pbt::Tri, 2>(c);
	}
}
