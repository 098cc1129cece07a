// Stand-ins for std::atomic and threads, with which a case chooses the schedule.
//
// Threads are fibers: they switch only at atomic operations and at accesses to
// instrumented elements, as the case's choices say. Atomic loads may return any
// value that C++'s coherence and happens-before rules allow (older stores too);
// acquire/release/fences build vector clocks, and two accesses to an element of
// which one is a write must be ordered by them, or the case fails: a data race.
//
// Include this after every standard header, before the header under test, with
//   #define atomic cvatomic
#pragma once
#include "pbt.hh"
#include <atomic>
#include <optional>
#include <span>
#include <ucontext.h>
#include <concepts>
#include <iterator>
#include <mutex>
#include <thread>

namespace cv
{

static constexpr unsigned MaxT = 4;

struct VC {
	std::array<uint32_t, MaxT> t{};
	void join(const VC &o) {
		for (unsigned i = 0; i < MaxT; i++)
			t[i] = std::max(t[i], o.t[i]);
	}
};

struct Fiber {
	ucontext_t uc;
	std::unique_ptr<char[]> stack;
	std::function<void()> fn;
	bool done = true;
};

struct Sched {
	pbt::Ctx *c = nullptr;
	bool weak = false; // loads may return older values
	unsigned cur = 0;
	unsigned nthreads = 0; // fibers 1 .. nthreads
	Fiber fib[MaxT];
	ucontext_t main;
	VC clock[MaxT], acq_pending[MaxT], rel_fence[MaxT];
	std::optional<std::string> failure;
	bool rejected = false;
	unsigned switches = 0;
	unsigned steps = 0;
	bool active = false;
	unsigned stale_reads = 0;
};

inline Sched S;

inline void begin(pbt::Ctx &c, bool weak) {
	S.c = &c;
	S.weak = weak;
	S.cur = 0;
	S.switches = S.steps = S.stale_reads = 0;
	for (unsigned i = 0; i < MaxT; i++) {
		S.clock[i] = S.acq_pending[i] = S.rel_fence[i] = VC{};
		S.clock[i].t[i] = 1;
	}
	S.failure.reset();
	S.active = false;
}

// What the running thread knows of other threads' progress
inline const VC &now() {
	return S.clock[S.cur];
}

inline void trampoline() {
	try {
		S.fib[S.cur].fn();
	} catch (pbt::Failure &f) {
		if (!S.failure)
			S.failure = f.msg;
	} catch (pbt::Reject &) {
		S.rejected = true;
	}
	S.fib[S.cur].done = true;
	swapcontext(&S.fib[S.cur].uc, &S.main);
}

// A point at which another thread may run
inline void yield() {
	if (!S.active || S.cur == 0)
		return;
	if (++S.steps > 20000)
		pbt::fail("the threads did not finish in 20000 steps (livelock)");
	unsigned runnable[MaxT], n = 0;
	for (unsigned k = 0; k < S.nthreads; k++) {
		unsigned t = 1 + (S.cur - 1 + k) % S.nthreads;
		if (!S.fib[t].done)
			runnable[n++] = t;
	}
	if (n <= 1)
		return;
	unsigned to = runnable[S.c->choice(n - 1)];
	if (to != S.cur) {
		unsigned from = S.cur;
		S.switches++;
		S.cur = to;
		swapcontext(&S.fib[from].uc, &S.fib[to].uc);
		// back again
		if (S.failure) { // another thread failed: stop here
			S.fib[from].done = true;
			S.cur = from;
			swapcontext(&S.fib[from].uc, &S.main);
		}
	}
}

// Runs the functions as concurrent threads, until all are done
inline void run(std::vector<std::function<void()>> fns) {
	S.nthreads = static_cast<unsigned>(fns.size());
	S.rejected = false;
	for (unsigned i = 1; i <= S.nthreads; i++) {
		auto &f = S.fib[i];
		f.fn = fns[i - 1];
		f.done = false;
		if (!f.stack)
			f.stack = std::make_unique<char[]>(1 << 17);
		getcontext(&f.uc);
		f.uc.uc_stack.ss_sp = f.stack.get();
		f.uc.uc_stack.ss_size = 1 << 17;
		f.uc.uc_link = nullptr;
		makecontext(&f.uc, trampoline, 0);
		S.clock[i].join(S.clock[0]);
	}
	S.clock[0].t[0]++;
	S.active = true;
	while (!S.failure && !S.rejected) {
		unsigned runnable[MaxT], n = 0;
		for (unsigned t = 1; t <= S.nthreads; t++)
			if (!S.fib[t].done)
				runnable[n++] = t;
		if (!n)
			break;
		S.cur = runnable[n > 1 ? S.c->choice(n - 1) : 0];
		swapcontext(&S.main, &S.fib[S.cur].uc);
	}
	S.active = false;
	S.cur = 0;
	for (unsigned i = 1; i <= S.nthreads; i++)
		S.clock[0].join(S.clock[i]);
	if (S.failure)
		pbt::fail(*S.failure);
	if (S.rejected)
		throw pbt::Reject{};
}

inline bool acquires(std::memory_order o) {
	return o == std::memory_order_acquire || o == std::memory_order_consume || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
}
inline bool releases(std::memory_order o) {
	return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
}

inline void fence(std::memory_order o) {
	yield();
	if (acquires(o))
		S.clock[S.cur].join(S.acq_pending[S.cur]);
	if (releases(o))
		S.rel_fence[S.cur] = S.clock[S.cur];
}

// An element whose accesses are checked for races
struct El {
	uint32_t v = 0;

	El() {
		wrote();
	}
	El(uint32_t v)
		: v{v} {
		wrote();
	}
	El(const El &o)
		: v{o.read()} {
		wrote();
	}
	El &operator=(const El &o) {
		set(o.read());
		return *this;
	}
	uint32_t read() const {
		yield();
		auto &me = now();
		if (w_clk > me.t[w_thread])
			pbt::fail("data race: an element is read while another thread may be writing it");
		r_clk[S.cur] = me.t[S.cur];
		return v;
	}
	void set(uint32_t x) {
		yield();
		auto &me = now();
		if (w_clk > me.t[w_thread])
			pbt::fail("data race: an element is written while another thread may be writing it");
		for (unsigned i = 0; i < MaxT; i++)
			if (r_clk[i] > me.t[i])
				pbt::fail("data race: an element is written while another thread may be reading it");
		v = x;
		wrote();
	}
	bool operator==(const El &o) const {
		return v == o.v;
	}

private:
	void wrote() {
		w_thread = S.cur;
		w_clk = now().t[S.cur];
	}
	mutable std::array<uint32_t, MaxT> r_clk{};
	unsigned w_thread = 0;
	uint32_t w_clk = 0;
};

} // namespace cv

namespace std
{

template<typename T>
class cvatomic {
	struct Store {
		T v;
		unsigned thread;
		uint32_t clk;
		cv::VC sync;
	};
	mutable std::vector<Store> st;
	mutable std::array<uint32_t, cv::MaxT> seen{};

	void push(T v, memory_order o, bool rmw) {
		using namespace cv;
		auto &me = S.clock[S.cur];
		me.t[S.cur]++;
		VC sync = releases(o) ? me : S.rel_fence[S.cur];
		if (rmw)
			sync.join(st.back().sync);
		st.push_back({v, S.cur, me.t[S.cur], sync});
		seen[S.cur] = static_cast<uint32_t>(st.size() - 1);
		me.t[S.cur]++;
	}
	T read_at(size_t i, memory_order o) const {
		using namespace cv;
		seen[S.cur] = std::max(seen[S.cur], static_cast<uint32_t>(i));
		if (acquires(o))
			S.clock[S.cur].join(st[i].sync);
		else
			S.acq_pending[S.cur].join(st[i].sync);
		return st[i].v;
	}
	template<typename F>
	T rmw(F f, memory_order o) {
		cv::yield();
		T old = read_at(st.size() - 1, o);
		push(f(old), o, true);
		return old;
	}

public:
	using value_type = T;
	static constexpr bool is_always_lock_free = true;

	cvatomic()
		: cvatomic(T{}) {
	}
	cvatomic(T v) {
		st.push_back({v, cv::S.cur, cv::now().t[cv::S.cur], cv::VC{}});
	}
	cvatomic(const cvatomic &) = delete;
	cvatomic &operator=(const cvatomic &) = delete;
	bool is_lock_free() const {
		return true;
	}

	T load(memory_order o = memory_order_seq_cst) const {
		using namespace cv;
		yield();
		size_t lo = seen[S.cur];
		for (size_t i = st.size(); i-- > lo + 1;)
			if (st[i].clk <= S.clock[S.cur].t[st[i].thread]) {
				lo = i;
				break;
			}
		size_t i = st.size() - 1;
		if (S.weak && S.active && o != memory_order_seq_cst && lo < i) {
			auto back = S.c->choice(i - lo);
			if (back)
				S.stale_reads++;
			i -= back;
		}
		return read_at(i, o);
	}
	void store(T v, memory_order o = memory_order_seq_cst) {
		cv::yield();
		push(v, o, false);
	}
	T exchange(T v, memory_order o = memory_order_seq_cst) {
		return rmw([&](T) { return v; }, o);
	}
	bool compare_exchange_strong(T &e, T v, memory_order ok, memory_order bad) {
		cv::yield();
		T old = st.back().v;
		if (old == e) {
			read_at(st.size() - 1, ok);
			push(v, ok, true);
			return true;
		}
		e = read_at(st.size() - 1, bad);
		return false;
	}
	bool compare_exchange_strong(T &e, T v, memory_order o = memory_order_seq_cst) {
		return compare_exchange_strong(e, v, o, o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o);
	}
	bool compare_exchange_weak(T &e, T v, memory_order ok, memory_order bad) {
		if (cv::S.active && cv::S.c->chance(1, 4)) { // spurious failure
			T old = load(bad);
			if (old == e)
				return false;
			e = old;
			return false;
		}
		return compare_exchange_strong(e, v, ok, bad);
	}
	bool compare_exchange_weak(T &e, T v, memory_order o = memory_order_seq_cst) {
		return compare_exchange_weak(e, v, o, o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o);
	}
	T fetch_add(T x, memory_order o = memory_order_seq_cst) {
		return rmw([&](T v) { return static_cast<T>(v + x); }, o);
	}
	T fetch_sub(T x, memory_order o = memory_order_seq_cst) {
		return rmw([&](T v) { return static_cast<T>(v - x); }, o);
	}
	T fetch_or(T x, memory_order o = memory_order_seq_cst) {
		return rmw([&](T v) { return static_cast<T>(v | x); }, o);
	}
	T fetch_and(T x, memory_order o = memory_order_seq_cst) {
		return rmw([&](T v) { return static_cast<T>(v & x); }, o);
	}
	T fetch_xor(T x, memory_order o = memory_order_seq_cst) {
		return rmw([&](T v) { return static_cast<T>(v ^ x); }, o);
	}
	// atomic_flag
	bool test_and_set(memory_order o = memory_order_seq_cst) {
		return exchange(T(1), o);
	}
	bool test(memory_order o = memory_order_seq_cst) const {
		return load(o);
	}
	void clear(memory_order o = memory_order_seq_cst) {
		store(T(0), o);
	}
	operator T() const {
		return load();
	}
	T operator=(T v) {
		store(v);
		return v;
	}
	T operator++() {
		return fetch_add(1) + 1;
	}
	T operator++(int) {
		return fetch_add(1);
	}
	T operator--() {
		return fetch_sub(1) - 1;
	}
	T operator--(int) {
		return fetch_sub(1);
	}
	T operator+=(T x) {
		return fetch_add(x) + x;
	}
	T operator-=(T x) {
		return fetch_sub(x) - x;
	}
	T operator|=(T x) {
		return fetch_or(x) | x;
	}
	T operator&=(T x) {
		return fetch_and(x) & x;
	}
};
using cvatomic_bool = cvatomic<bool>;
using cvatomic_size_t = cvatomic<size_t>;
using cvatomic_flag = cvatomic<bool>;
using cvatomic_uint = cvatomic<unsigned>;
using cvatomic_uint32_t = cvatomic<uint32_t>;
using cvatomic_uint_fast32_t = cvatomic<uint_fast32_t>;
inline void cvatomic_thread_fence(memory_order o) {
	cv::fence(o);
}
template<typename T>
T atomic_load(const cvatomic<T> *a) {
	return a->load();
}
template<typename T>
T atomic_load_explicit(const cvatomic<T> *a, memory_order o) {
	return a->load(o);
}
template<typename T>
void atomic_store(cvatomic<T> *a, std::type_identity_t<T> v) {
	a->store(v);
}
template<typename T>
void atomic_store_explicit(cvatomic<T> *a, std::type_identity_t<T> v, memory_order o) {
	a->store(v, o);
}
template<typename T>
T atomic_exchange(cvatomic<T> *a, std::type_identity_t<T> v) {
	return a->exchange(v);
}
template<typename T>
T atomic_fetch_add(cvatomic<T> *a, std::type_identity_t<T> v) {
	return a->fetch_add(v);
}

} // namespace std

#define atomic cvatomic
#define atomic_bool cvatomic_bool
#define atomic_size_t cvatomic_size_t
#define atomic_flag cvatomic_flag
#define atomic_uint cvatomic_uint
#define atomic_uint32_t cvatomic_uint32_t
#define atomic_thread_fence cvatomic_thread_fence
