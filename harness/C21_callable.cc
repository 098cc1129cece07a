// @cases 3000000
// @thorough 15
#include "pbt.hh"
#include "util/callable.hh"

// Callables with a state: a copy gets the state of what it was copied from, and
// they are independent from then on. Each registers while it is alive.
static std::map<const void *, int> live;
static int misuse;

static const bool reset = [] {
	pbt::reset_hook = [] {
		live.clear();
		misuse = 0;
	};
	return true;
}();

static void born(const void *p) {
	if (live[p]++)
		misuse = 1; // constructed twice in the same place
}
static void died(const void *p) {
	auto f = live.find(p);
	if (f == live.end()) {
		misuse = 2; // destroyed, but not alive
		return;
	}
	live.erase(f);
}
static void used(const void *p) {
	if (!live.count(p))
		misuse = 3; // called or copied, but not alive
}

static void check_misuse() {
	PBT_CHECK(misuse != 1, "a callable was constructed over one that was not destroyed");
	PBT_CHECK(misuse != 2, "a callable was destroyed which was not alive");
	PBT_CHECK(misuse != 3, "a callable was used which was not alive");
}

struct Tracked { // 16 bytes at most
	uint32_t sum;
	uint32_t mul;
	Tracked(uint32_t mul)
		: sum{0}
		, mul{mul} {
		born(this);
	}
	Tracked(const Tracked &o)
		: sum{o.sum}
		, mul{o.mul} {
		used(&o);
		born(this);
	}
	Tracked(Tracked &&o) // leaves something else behind
		: sum{std::exchange(o.sum, 0xbad0000u)}
		, mul{std::exchange(o.mul, 0xbadu)} {
		used(&o);
		born(this);
	}
	Tracked &operator=(const Tracked &o) {
		used(&o);
		used(this);
		sum = o.sum;
		mul = o.mul;
		return *this;
	}
	~Tracked() {
		died(this);
	}
	uint32_t add(uint32_t x) {
		used(this);
		return sum = sum * mul + x;
	}
};

// Big: fills a larger buffer
template<unsigned Size>
struct Big : Tracked {
	std::array<uint8_t, Size - sizeof(Tracked)> fill;
	Big(uint32_t mul)
		: Tracked{mul} {
		for (size_t i = 0; i < fill.size(); i++)
			fill[i] = static_cast<uint8_t>(i * 7 + mul);
	}
	uint32_t add(uint32_t x) {
		for (size_t i = 0; i < fill.size(); i++)
			if (fill[i] != static_cast<uint8_t>(i * 7 + mul))
				misuse = 3;
		return Tracked::add(x);
	}
};

struct Model {
	bool set = false;
	uint32_t sum = 0, mul = 0;
};

template<typename F, typename C>
static void history(pbt::Ctx &c, auto call) {
	constexpr size_t Slots = 3;
	std::array<std::unique_ptr<F>, Slots> f;
	std::array<Model, Slots> m;
	for (auto &x : f)
		x = pbt::fresh<F>();
	unsigned copies = 0, calls_after_copy = 0;
	unsigned n = static_cast<unsigned>(c.choice(24));
	for (unsigned op = 0; op < n; op++) {
		size_t i = c.choice(Slots - 1), j = c.choice(Slots - 1);
		switch (c.weighted({4, 3, 3, 2, 1, 6, 1})) {
			case 0: {
				uint32_t mul = static_cast<uint32_t>(c.choice(5));
				PBT_LOG("f" << i << " = callable " << mul);
				f[i] = std::make_unique<F>(C{mul});
				m[i] = {true, 0, mul};
				break;
			}
			case 1: {
				PBT_LOG("f" << i << " = copy of f" << j);
				auto copy = c.coin() ? std::make_unique<F>(std::as_const(*f[j])) : std::make_unique<F>(*f[j]);
				f[i] = std::move(copy);
				m[i] = m[j];
				copies++;
				break;
			}
			case 2:
				PBT_LOG("assign f" << j << " to f" << i);
				*f[i] = *f[j];
				m[i] = m[j];
				copies++;
				break;
			case 3: {
				uint32_t mul = static_cast<uint32_t>(c.choice(5));
				PBT_LOG("assign callable " << mul << " to f" << i);
				*f[i] = C{mul};
				m[i] = {true, 0, mul};
				break;
			}
			case 4:
				PBT_LOG("f" << i << " = none");
				if (c.coin())
					*f[i] = F{};
				else
					f[i] = pbt::fresh<F>();
				m[i] = {};
				break;
			case 5:
				if (m[i].set) {
					uint32_t x = static_cast<uint32_t>(c.choice(1000));
					m[i].sum = m[i].sum * m[i].mul + x;
					PBT_LOG("call f" << i << " with " << x);
					auto got = call(c, *f[i], x);
					check_misuse();
					PBT_EQ(got, m[i].sum, "result of a call");
					calls_after_copy += copies > 0;
				}
				break;
			case 6: {
				PBT_LOG("move f" << j << " to f" << i);
				if (i == j)
					break;
				*f[i] = std::move(*f[j]);
				m[i] = m[j];
				*f[j] = F{};
				m[j] = {};
				copies++;
				break;
			}
		}
		check_misuse();
		size_t alive = 0;
		for (size_t k = 0; k < Slots; k++) {
			PBT_EQ(static_cast<bool>(std::as_const(*f[k])), m[k].set, "whether f" << k << " is set");
			alive += m[k].set;
		}
		PBT_EQ(live.size(), alive, "callables alive");
	}
	for (auto &x : f)
		x.reset();
	check_misuse();
	PBT_EQ(live.size(), size_t(0), "callables alive at the end");
	if (copies >= 2 && calls_after_copy)
		c.nontrivial();
}

template<typename T>
struct ByValue : T {
	using T::T;
	uint32_t operator()(uint32_t x) {
		return this->add(x);
	}
};
static uint32_t result; // of those which return nothing
static uint32_t pending;
template<typename T>
struct NoArgs : T {
	using T::T;
	void operator()() {
		result = this->add(pending);
	}
};
struct Args : Tracked {
	using Tracked::Tracked;
	// forwards a reference, a move-only object and a const reference
	int operator()(uint32_t &out, std::unique_ptr<uint32_t> p, const std::string &s) {
		out = add(*p);
		return static_cast<int>(s.size());
	}
};
struct RefRet : Tracked {
	using Tracked::Tracked;
	uint32_t &operator()(uint32_t x, uint32_t &to) {
		to = add(x);
		return to;
	}
};

struct Aligned : Tracked { // as large as fits into a Function, and aligned like a pointer
	uint64_t check;
	Aligned(uint32_t mul)
		: Tracked{mul}
		, check{mul * 0x100000001ull} {
	}
	uint32_t add(uint32_t x) {
		if (check != mul * 0x100000001ull || reinterpret_cast<uintptr_t>(this) % alignof(uint64_t))
			misuse = 3;
		return Tracked::add(x);
	}
};
static_assert(sizeof(Aligned) == 2 * sizeof(void *));

#define RULE "at least 2 copies, and a call after one"
PBT("Function", 2, RULE) {
	using F = Function<uint32_t(uint32_t)>;
	auto call = [](pbt::Ctx &c, F &f, uint32_t x) { return c.coin() ? f(x) : f.call(x); };
	if (c.coin())
		history<F, ByValue<Tracked>>(c, call);
	else
		history<F, ByValue<Aligned>>(c, call);
}
PBT("FunctionSized", 1, RULE) {
	switch (c.choice(2)) {
		case 0: {
			using F = FunctionSized<sizeof(Tracked), uint32_t(uint32_t)>;
			history<F, ByValue<Tracked>>(c, [](pbt::Ctx &c, F &f, uint32_t x) { return c.coin() ? f(x) : f.call(x); });
			break;
		}
		case 1: {
			using F = FunctionSized<40, uint32_t(uint32_t)>;
			history<F, ByValue<Big<40>>>(c, [](pbt::Ctx &c, F &f, uint32_t x) { return c.coin() ? f(x) : f.call(x); });
			break;
		}
		case 2: {
			using F = FunctionSized<64, uint32_t(uint32_t)>;
			history<F, ByValue<Big<24>>>(c, [](pbt::Ctx &c, F &f, uint32_t x) { return c.coin() ? f(x) : f.call(x); });
			break;
		}
	}
}
PBT("Callback", 2, RULE) {
	auto call = [](pbt::Ctx &c, auto &f, uint32_t x) {
		pending = x;
		result = ~0u;
		if (c.coin())
			f();
		else
			f.call();
		return result;
	};
	switch (c.choice(2)) {
		case 0: history<Callback, NoArgs<Tracked>>(c, call); break;
		case 1: history<Callback, NoArgs<Aligned>>(c, call); break;
		case 2: history<CallbackSized<>, NoArgs<Aligned>>(c, call); break;
	}
}
PBT("CallbackSized", 1, RULE) {
	using F = CallbackSized<32>;
	history<F, NoArgs<Big<32>>>(c, [](pbt::Ctx &c, F &f, uint32_t x) {
		pending = x;
		result = ~0u;
		if (c.coin())
			f();
		else
			f.call();
		return result;
	});
}
PBT("arguments", 1, RULE) {
	if (c.coin()) {
		using F = Function<int(uint32_t &, std::unique_ptr<uint32_t>, const std::string &)>;
		history<F, Args>(c, [](pbt::Ctx &c, F &f, uint32_t x) {
			uint32_t out = 0;
			std::string s(c.choice(40), 'x');
			auto p = std::make_unique<uint32_t>(x);
			int r = c.coin() ? f(out, std::move(p), s) : f.call(out, std::move(p), s);
			PBT_EQ(r, static_cast<int>(s.size()), "returned value");
			PBT_CHECK(!p, "a moved argument was not moved");
			return out;
		});
	} else {
		using F = Function<uint32_t &(uint32_t, uint32_t &)>;
		history<F, RefRet>(c, [](pbt::Ctx &, F &f, uint32_t x) {
			uint32_t to = 0;
			auto &r = f(x, to);
			PBT_CHECK(&r == &to, "returned reference");
			return to;
		});
	}
}

// Functions, lambdas with and without captures, and a Function inside of a larger one
static uint32_t twice(uint32_t x) { return 2 * x; }
static uint32_t inverse(uint32_t x) { return ~x; }

PBT("functions and lambdas", 1, "at least 2 copies, and a call after one") {
	using F = Function<uint32_t(uint32_t)>;
	using L = FunctionSized<96, uint32_t(uint32_t)>;
	struct M {
		int kind = -1;
		uint32_t k = 0, state = 0;
	};
	constexpr size_t Slots = 3;
	uint32_t shared = 0, shared_want = 0;
	std::array<std::unique_ptr<F>, Slots> f;
	std::array<M, Slots> m;
	for (auto &x : f)
		x = pbt::fresh<F>();
	auto set = [&](F &to, M &mod) {
		uint32_t k = static_cast<uint32_t>(c.choice(100));
		mod = {static_cast<int>(c.choice(6)), k, k};
		switch (mod.kind) {
			case 0: to = twice; break;
			case 1: to = &inverse; break;
			case 2: to = [](uint32_t x) { return x + 1; }; break;
			case 3: to = [k](uint32_t x) { return x * k; }; break;
			case 4: to = [&shared](uint32_t x) { return shared += x; }; break;
			case 5: to = [k](uint32_t x) mutable { return k += x; }; break;
			case 6: to = [&shared, k](uint32_t x) { return shared = x - k; }; break;
		}
	};
	auto want = [&](M &mod, uint32_t x) -> uint32_t {
		switch (mod.kind) {
			case 0: return 2 * x;
			case 1: return ~x;
			case 2: return x + 1;
			case 3: return x * mod.k;
			case 4: return shared_want += x;
			case 5: return mod.state += x;
			default: return shared_want = x - mod.k;
		}
	};
	unsigned copies = 0, after = 0;
	unsigned n = static_cast<unsigned>(c.choice(20));
	for (unsigned op = 0; op < n; op++) {
		size_t i = c.choice(Slots - 1), j = c.choice(Slots - 1);
		switch (c.weighted({3, 2, 5, 2, 1})) {
			case 0:
				set(*f[i], m[i]);
				PBT_LOG("f" << i << " = kind " << m[i].kind << " with " << m[i].k);
				break;
			case 1:
				PBT_LOG("f" << i << " = f" << j);
				*f[i] = *f[j];
				m[i] = m[j];
				copies++;
				break;
			case 2:
				if (m[i].kind >= 0) {
					uint32_t x = static_cast<uint32_t>(c.choice(1000));
					PBT_LOG("call f" << i << " with " << x);
					PBT_EQ((*f[i])(x), want(m[i], x), "result of a call of kind " << m[i].kind);
					after += copies > 0;
				}
				break;
			case 3: // inside of another one: it has a copy of it
				if (m[i].kind >= 0) {
					PBT_LOG("call a larger one which has f" << i);
					L l{*f[i]};
					auto l2 = l;
					auto mod = m[i], mod2 = m[i];
					uint32_t x = static_cast<uint32_t>(c.choice(1000));
					PBT_EQ(l(x), want(mod, x), "result of a call of kind " << mod.kind << " in a larger one");
					PBT_EQ(l.call(x), want(mod, x), "result of the next call of kind " << mod.kind << " in a larger one");
					PBT_EQ(l2(x), want(mod2, x), "result of a call of kind " << mod.kind << " in a copy of a larger one");
				}
				break;
			case 4:
				PBT_LOG("f" << i << " = {}");
				*f[i] = {};
				m[i] = {};
				break;
		}
		for (size_t k = 0; k < Slots; k++)
			PBT_EQ(bool(*f[k]), m[k].kind >= 0, "whether f" << k << " is set");
		PBT_EQ(shared, shared_want, "what the lambdas refer to");
	}
	if (copies >= 2 && after)
		c.nontrivial();
}
