// Driver of the property-based testing engine: generation in forked workers,
// crash/hang isolation, shrinking, replay, evidence counters.
#include "pbt.hh"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
// A harness which needs larger allocations defines this
[[gnu::weak]] bool pbt_large_allocations();
#define PBT_ASAN_OPTIONS(MB) \
	"detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=" MB ":detect_stack_use_after_" \
	"return=0:handle_abort=1:allow_user_segv_handler=0:symbolize=0:print_stats=0:quarantine_size_mb=8:" \
	"malloc_context_size=2"
const char *__asan_default_options() {
	return pbt_large_allocations ? PBT_ASAN_OPTIONS("8192") : PBT_ASAN_OPTIONS("1024");
}
const char *__ubsan_default_options() {
	return "print_stacktrace=0:exitcode=99:halt_on_error=1:symbolize=0";
}
const char *__tsan_default_options() {
	return "exitcode=99:halt_on_error=1:symbolize=0";
}
}

namespace pbt
{
void (*reset_hook)() = nullptr;

std::vector<Target> &targets() {
	static std::vector<Target> t;
	return t;
}

static uint64_t splitmix(uint64_t &x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

static uint64_t rotl(uint64_t x, int k) {
	return (x << k) | (x >> (64 - k));
}

static uint64_t next_random(uint64_t *s) { // xoroshiro128+
	uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
	s1 ^= s0;
	s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
	s[1] = rotl(s1, 37);
	return r;
}

bool Ctx::exhausted() const {
	if (mode == Mode::Replay)
		return pos >= in->size();
	if (mode == Mode::Bytes)
		return nbytes == 0;
	return false;
}

uint64_t Ctx::choice(uint64_t bound) {
	uint64_t v = 0;
	if (bound == 0) {
		// recorded too, so that sequences keep their alignment when a bound changes
	} else if (mode == Mode::Random) {
		uint64_t r = next_random(state);
		v = bound == ~0ull ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (bound + 1)) >> 64);
	} else if (mode == Mode::Replay) {
		v = pos < in->size() ? (*in)[pos] : 0;
		if (v > bound)
			v = bound;
	} else {
		unsigned nb = (static_cast<unsigned>(std::bit_width(bound)) + 7) / 8;
		for (unsigned k = 0; k < nb; k++) {
			v |= static_cast<uint64_t>(nbytes ? *bytes : 0) << (8 * k);
			if (nbytes) {
				bytes++;
				nbytes--;
			}
		}
		if (bound != ~0ull)
			v %= bound + 1;
	}
	pos++;
	if (trail->n >= MaxChoices)
		throw Reject{};
	trail->v[trail->n] = v;
	trail->n++;
	return v;
}

//////////////////////////////////////////////////////////////////////////////

struct Slot {
	std::atomic<uint64_t> idx;
	std::atomic<uint32_t> target;
	std::atomic<int> status; // 0 not started, 1 running, 2 finished all, 3 failed
	std::atomic<uint64_t> evals;
	char msg[8192];
	Trail trail;
};

constexpr size_t TableSize = 1 << 23;
constexpr unsigned MaxTargets = 48;
constexpr unsigned MaxJobs = 64;

struct Shared {
	std::atomic<bool> stop;
	std::atomic<uint64_t> evals[MaxTargets], rejects[MaxTargets], nontrivial[MaxTargets], distinct[MaxTargets];
	std::atomic<uint64_t> labels[MaxTargets][MaxLabels];
	std::atomic<uint64_t> choices;
	std::atomic_flag lock;
	char label_names[MaxTargets][MaxLabels][48];
	unsigned n_labels[MaxTargets];
	std::atomic<uint64_t> table_used;
	Slot slots[MaxJobs + 1];
	std::atomic<uint64_t> table[TableSize];
};

static Shared *sh;
static unsigned cur_target;
static Trail local_trail;

void Ctx::label(const char *name) {
	if (!sh)
		return;
	auto &names = sh->label_names[cur_target];
	for (unsigned k = 0; k < sh->n_labels[cur_target]; k++) {
		if (!strcmp(names[k], name)) {
			labels |= 1ull << k;
			return;
		}
	}
	while (sh->lock.test_and_set(std::memory_order_acquire))
		;
	unsigned n = sh->n_labels[cur_target], k = 0;
	for (; k < n; k++)
		if (!strcmp(names[k], name))
			break;
	if (k == n && n < MaxLabels) {
		snprintf(names[k], sizeof names[k], "%s", name);
		std::atomic_thread_fence(std::memory_order_release);
		sh->n_labels[cur_target] = n + 1;
	}
	sh->lock.clear(std::memory_order_release);
	if (k < MaxLabels)
		labels |= 1ull << k;
}

enum class Result { Ok, Fail, Rejected };

static unsigned char fresh_byte = 0xbe;

void *fill_fresh(void *p, size_t n) {
	memset(p, fresh_byte, n);
	asm volatile("" : "+r"(p) : : "memory");
	return p;
}

static Result run_case(unsigned t, Ctx &c, std::string &msg) {
	cur_target = t;
	c.trail->n = 0;
	static constexpr unsigned char bytes[] = {0xbe, 0xff, 0x01, 0x55, 0x00};
	fresh_byte = bytes[c.choice(4)];
	if (reset_hook)
		reset_hook();
	try {
		targets()[t].fn(c);
		return Result::Ok;
	} catch (Failure &f) {
		msg = f.msg;
		return Result::Fail;
	} catch (Reject &) {
		return Result::Rejected;
	} catch (std::exception &e) {
		msg = std::string("unexpected exception: ") + e.what();
		return Result::Fail;
	} catch (...) {
		msg = "unexpected exception";
		return Result::Fail;
	}
}

static uint64_t hash_str(const char *s) {
	uint64_t h = 1469598103934665603ull;
	for (; *s; s++)
		h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
	return h;
}

static void seed_case(Ctx &c, uint64_t seed, unsigned t, uint64_t idx) {
	uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ hash_str(targets()[t].name) ^ (idx * 0xd1342543de82ef95ull);
	c.state[0] = splitmix(x);
	c.state[1] = splitmix(x) | 1;
}

static void count_distinct(unsigned t, const Trail &tr) {
	uint64_t h = hash_str(targets()[t].name);
	for (uint64_t k = 0; k < tr.n; k++) {
		h = (h ^ tr.v[k]) * 0x9fb21c651e98df25ull;
		h ^= h >> 29;
	}
	if (!h)
		h = 1;
	if (sh->table_used.load(std::memory_order_relaxed) > TableSize / 4 * 3)
		return; // the count becomes a lower bound
	for (size_t k = h & (TableSize - 1);; k = (k + 1) & (TableSize - 1)) {
		uint64_t e = sh->table[k].load(std::memory_order_relaxed);
		if (e == h)
			return;
		if (e == 0) {
			if (sh->table[k].compare_exchange_strong(e, h)) {
				sh->table_used++;
				sh->distinct[t]++;
				return;
			}
			if (e == h)
				return;
		}
	}
}

static std::vector<unsigned> schedule; // idx % size -> target

static void make_schedule() {
	// interleave targets proportionally to their weights
	auto &ts = targets();
	unsigned total = 0;
	for (auto &t : ts)
		total += t.weight;
	std::vector<double> acc(ts.size(), 0);
	for (unsigned k = 0; k < total; k++) {
		unsigned best = 0;
		for (unsigned j = 0; j < ts.size(); j++) {
			acc[j] += ts[j].weight;
			if (acc[j] > acc[best])
				best = j;
		}
		acc[best] -= total;
		schedule.push_back(best);
	}
}

static void worker(unsigned w, unsigned jobs, uint64_t seed, uint64_t first, uint64_t ncases, bool count) {
	auto &slot = sh->slots[w];
	for (uint64_t idx = first; idx < ncases && !sh->stop.load(std::memory_order_relaxed); idx += jobs) {
		unsigned t = schedule[idx % schedule.size()];
		slot.idx = idx;
		slot.target = t;
		slot.status = 1;
		Ctx c;
		c.trail = &slot.trail;
		seed_case(c, seed, t, idx);
		std::string msg;
		auto r = run_case(t, c, msg);
		slot.evals++;
		if (r == Result::Fail) {
			snprintf(slot.msg, sizeof slot.msg, "%s", msg.c_str());
			slot.status = 3;
			_exit(3);
		}
		if (!count)
			continue;
		sh->evals[t].fetch_add(1, std::memory_order_relaxed);
		sh->choices.fetch_add(slot.trail.n, std::memory_order_relaxed);
		if (r == Result::Rejected) {
			sh->rejects[t].fetch_add(1, std::memory_order_relaxed);
			continue;
		}
		if (c.is_nontrivial) {
			sh->nontrivial[t].fetch_add(1, std::memory_order_relaxed);
			count_distinct(t, slot.trail);
		}
		for (uint64_t l = c.labels; l; l &= l - 1)
			sh->labels[t][std::countr_zero(l)].fetch_add(1, std::memory_order_relaxed);
	}
	slot.status = 2;
	_exit(0);
}

static double now() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static double cpu_of(pid_t pid) {
	clockid_t id;
	timespec ts;
	if (clock_getcpuclockid(pid, &id) || clock_gettime(id, &ts))
		return 0;
	return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

static size_t rss_mb(pid_t pid) {
	std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
	size_t total = 0, rss = 0, shared = 0;
	f >> total >> rss >> shared;
	return (rss - std::min(rss, shared)) * 4096 >> 20;
}

static std::string tmp_prefix;

static void redirect(const std::string &path) {
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) {
		dup2(fd, 2);
		dup2(fd, 1);
		close(fd);
	}
}

static std::string crash_text(const std::string &path, int status) {
	std::string what;
	if (WIFSIGNALED(status))
		what = std::string("killed by signal ") + strsignal(WTERMSIG(status));
	else
		what = "exited with status " + std::to_string(WEXITSTATUS(status));
	std::ifstream f(path);
	std::string l;
	while (std::getline(f, l)) {
		if (l.find("ERROR: AddressSanitizer") != l.npos || l.find("runtime error") != l.npos ||
			l.find("ssertion") != l.npos || l.find("terminate called") != l.npos || l.find("WARNING: ThreadSanitizer") != l.npos ||
			l.find("WRITE of size") != l.npos || l.find("READ of size") != l.npos)
		{
			what += " | " + l.substr(0, 200);
		}
	}
	return what;
}

struct Attempt {
	bool failed = false;
	bool hang = false;
	std::string msg;
	std::vector<uint64_t> used;
};

// Waits for a child; kills it when it uses too much CPU time or memory
static int wait_limited(pid_t pid, double cpu_limit, bool &hang, bool &memory) {
	hang = memory = false;
	int status = 0;
	useconds_t nap = 100;
	double start = now();
	while (true) {
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid)
			return status;
		if (cpu_of(pid) > cpu_limit || now() - start > 20 * cpu_limit) {
			hang = true;
		} else if (nap > 5000 && rss_mb(pid) > 3000) {
			memory = true;
		}
		if (hang || memory) {
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			return status;
		}
		usleep(nap);
		nap = std::min<useconds_t>(nap * 2, 10000);
	}
}

// Runs one case, from its choices, in a forked child
static Attempt attempt(unsigned t, const std::vector<uint64_t> &choices, double cpu_limit, std::string *log = nullptr) {
	auto &slot = sh->slots[MaxJobs];
	slot.status = 1;
	slot.msg[0] = 0;
	slot.trail.n = 0;
	auto err = tmp_prefix + ".err.replay";
	auto logpath = tmp_prefix + ".log";
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		redirect(err);
		Ctx c;
		c.trail = &slot.trail;
		c.mode = Ctx::Mode::Replay;
		c.in = &choices;
		c.verbose = log != nullptr;
		std::string msg;
		auto r = run_case(t, c, msg);
		if (log) {
			std::ofstream f(logpath);
			f << c.out;
		}
		if (r == Result::Fail) {
			snprintf(slot.msg, sizeof slot.msg, "%s", msg.c_str());
			slot.status = 3;
		} else
			slot.status = 2;
		_exit(r == Result::Fail ? 3 : 0);
	}
	Attempt a;
	bool memory;
	int st = wait_limited(pid, cpu_limit, a.hang, memory);
	a.used.assign(slot.trail.v, slot.trail.v + std::min<uint64_t>(slot.trail.n, MaxChoices));
	if (a.hang) {
		a.failed = true;
		a.msg = "does not terminate (CPU time limit)";
	} else if (memory) {
		a.failed = true;
		a.msg = "memory use exploded";
	} else if (slot.status == 3) {
		a.failed = true;
		a.msg = slot.msg;
	} else if (slot.status != 2) {
		a.failed = true;
		a.msg = crash_text(err, st);
	}
	if (log) {
		std::ifstream f(logpath);
		std::stringstream ss;
		ss << f.rdbuf();
		*log = ss.str();
		unlink(logpath.c_str());
	}
	unlink(err.c_str());
	return a;
}

static Attempt replay_range(uint64_t seed, unsigned jobs, uint64_t first, uint64_t last) {
	auto &slot = sh->slots[MaxJobs];
	slot.status = 1;
	slot.msg[0] = 0;
	auto err = tmp_prefix + ".err.replay";
	pid_t pid = fork();
	if (pid == 0) {
		redirect(err);
		worker(MaxJobs, jobs, seed, first, last + 1, false);
	}
	Attempt a;
	bool memory;
	int st = wait_limited(pid, 120, a.hang, memory);
	if (slot.status != 2) {
		a.failed = true;
		a.msg = slot.status == 3 ? slot.msg : memory ? "memory use exploded" : a.hang ? "does not terminate" : crash_text(err, st);
	}
	unlink(err.c_str());
	return a;
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
	if (a.size() != b.size())
		return a.size() < b.size();
	return a < b;
}

static std::vector<uint64_t> shrink(unsigned t, std::vector<uint64_t> best, std::string &msg, double cpu_limit, double budget, unsigned &n_attempts) {
	double end = now() + budget;
	n_attempts = 0;
	auto try_it = [&](std::vector<uint64_t> cand) {
		if (now() > end || n_attempts > 4000)
			return false;
		n_attempts++;
		auto a = attempt(t, cand, cpu_limit);
		if (!a.failed)
			return false;
		// only the choices used matter; trailing zeros are implied
		if (!a.used.empty() && a.used.size() < cand.size())
			cand.resize(a.used.size());
		while (!cand.empty() && cand.back() == 0)
			cand.pop_back();
		if (!simpler(cand, best))
			return false;
		best = cand;
		msg = a.msg;
		return true;
	};
	while (!best.empty() && best.back() == 0)
		best.pop_back();
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		// cut the tail
		for (size_t keep = best.size() / 2; keep < best.size() && now() < end;) {
			auto c = best;
			c.resize(keep);
			if (try_it(c)) {
				progress = true;
				keep = best.size() / 2;
			} else
				keep += std::max<size_t>(1, (best.size() - keep) / 2);
		}
		// delete chunks
		for (size_t len : {64, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1}) {
			for (size_t at = best.size(); at-- > 0 && now() < end;) {
				if (at + len > best.size())
					continue;
				auto c = best;
				c.erase(c.begin() + static_cast<long>(at), c.begin() + static_cast<long>(at + len));
				if (try_it(c))
					progress = true;
				// the same with the count before the chunk lowered by one
				else if (at > 0 && len <= 8 && best[at - 1] > 0) {
					c[at - 1]--;
					if (try_it(c))
						progress = true;
				}
			}
		}
		// zero chunks
		for (size_t len : {16, 8, 4, 2}) {
			for (size_t at = 0; at + len <= best.size() && now() < end; at += len) {
				auto c = best;
				bool any = false;
				for (size_t k = at; k < at + len; k++) {
					any |= c[k] != 0;
					c[k] = 0;
				}
				if (any && try_it(c))
					progress = true;
			}
		}
		// lower each choice
		for (size_t at = 0; at < best.size() && now() < end; at++) {
			if (best[at] == 0)
				continue;
			auto c = best;
			c[at] = 0;
			if (try_it(c)) {
				progress = true;
				continue;
			}
			uint64_t lo = 0;
			while (at < best.size() && best[at] - lo > 1 && now() < end) {
				uint64_t mid = lo + (best[at] - lo) / 2;
				c = best;
				c[at] = mid;
				if (try_it(c))
					progress = true;
				else
					lo = mid;
			}
			if (at < best.size() && best[at] > 0) {
				c = best;
				c[at]--;
				if (try_it(c))
					progress = true;
			}
		}
	}
	return best;
}

static std::string json_str(const std::string &s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			o += '\\';
			o += static_cast<char>(ch);
		} else if (ch < 32 || ch >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", ch);
			o += b;
		} else
			o += static_cast<char>(ch);
	}
	return o + "\"";
}

} // namespace pbt

using namespace pbt;

#ifdef PBT_LIBFUZZER

static Ctx *fuzz_ctx;

static void dump_trail(const char *msg) {
	const char *path = getenv("PBT_REPLAY_OUT");
	if (!path || !fuzz_ctx)
		return;
	FILE *f = fopen(path, "w");
	if (!f)
		return;
	fprintf(f, "target=%s\nmessage=%s\nchoices=", targets()[cur_target].name, msg);
	for (uint64_t k = 0; k < fuzz_ctx->trail->n; k++)
		fprintf(f, "%llu ", static_cast<unsigned long long>(fuzz_ctx->trail->v[k]));
	fprintf(f, "\n");
	fclose(f);
}

extern "C" void __sanitizer_set_death_callback(void (*)());

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	static bool once = [] {
		__sanitizer_set_death_callback([] { dump_trail("sanitizer report or crash under libFuzzer"); });
		return true;
	}();
	(void)once;
	if (size < 1)
		return 0;
	unsigned t = data[0] % static_cast<unsigned>(targets().size());
	if (const char *want = getenv("PBT_TARGET")) {
		for (unsigned k = 0; k < targets().size(); k++)
			if (!strcmp(targets()[k].name, want))
				t = k;
	}
	Ctx c;
	c.trail = &local_trail;
	c.mode = Ctx::Mode::Bytes;
	c.bytes = data + 1;
	c.nbytes = size - 1;
	fuzz_ctx = &c;
	std::string msg;
	if (run_case(t, c, msg) == Result::Fail) {
		dump_trail(msg.c_str());
		fprintf(stderr, "PBT failure: %s\n", msg.c_str());
		fuzz_ctx = nullptr;
		abort();
	}
	fuzz_ctx = nullptr;
	return 0;
}

#else

int main(int argc, char **argv) {
	std::map<std::string, std::string> opt;
	for (int k = 1; k + 1 < argc; k += 2)
		opt[argv[k] + 2] = argv[k + 1];
	auto num = [&](const char *name, double dflt) { return opt.count(name) ? atof(opt[name].c_str()) : dflt; };
	std::string property = opt["property"];
	uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
	uint64_t ncases = static_cast<uint64_t>(num("cases", 1000));
	unsigned jobs = std::min<unsigned>(MaxJobs, static_cast<unsigned>(num("jobs", 8)));
	double wall = num("wall", 120);
	double cpu_limit = num("hang", 10);
	tmp_prefix = opt.count("out") ? opt["out"] : "/tmp/pbt." + std::to_string(getpid());
	std::string replay_out = opt.count("replay-out") ? opt["replay-out"] : tmp_prefix + ".replay";
	double t0 = now();

	if (opt.count("only")) {
		auto &ts = targets();
		ts.erase(std::remove_if(ts.begin(), ts.end(), [&](auto &t) { return opt["only"] != t.name; }), ts.end());
	}
	if (targets().empty() || targets().size() > MaxTargets) {
		fprintf(stderr, "bad number of targets\n");
		return 2;
	}
	void *mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) {
		perror("mmap");
		return 2;
	}
	sh = new (mem) Shared;
	make_schedule();

	if (opt.count("replay")) {
		std::ifstream f(opt["replay"]);
		std::string l, target;
		std::vector<uint64_t> choices;
		std::vector<uint64_t> range;
		while (std::getline(f, l)) {
			auto nums = [&](std::vector<uint64_t> &v, size_t skip) {
				std::istringstream is(l.substr(skip));
				uint64_t x;
				while (is >> x)
					v.push_back(x);
			};
			if (l.starts_with("target="))
				target = l.substr(7);
			if (l.starts_with("choices="))
				nums(choices, 8);
			if (l.starts_with("range="))
				nums(range, 6);
		}
		Attempt a;
		std::string log;
		if (range.size() == 4)
			a = replay_range(range[0], static_cast<unsigned>(range[1]), range[2], range[3]);
		else {
			for (unsigned t = 0; t < targets().size(); t++)
				if (targets()[t].name == target)
					a = attempt(t, choices, cpu_limit, &log);
		}
		printf("target: %s\n%s\n", target.c_str(), log.c_str());
		if (a.failed) {
			printf("FAILS: %s\n", a.msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", property.c_str(), opt["replay"].c_str());
			return 1;
		}
		printf("passes\n");
		return 0;
	}

	// Generate
	std::vector<pid_t> pids(jobs);
	std::vector<uint64_t> last_evals(jobs, ~0ull);
	std::vector<double> cpu_at(jobs, 0);
	std::vector<bool> live(jobs, true);
	fflush(nullptr);
	for (unsigned w = 0; w < jobs; w++) {
		pids[w] = fork();
		if (pids[w] == 0) {
			redirect(tmp_prefix + ".err." + std::to_string(w));
			worker(w, jobs, seed, w, ncases, true);
		}
	}
	int failed = -1;
	std::string msg;
	bool hang = false, truncated = false;
	unsigned n_live = jobs;
	while (n_live) {
		usleep(5000);
		for (unsigned w = 0; w < jobs; w++) {
			if (!live[w])
				continue;
			int st;
			auto &slot = sh->slots[w];
			if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
				live[w] = false;
				n_live--;
				if (slot.status != 2 && failed < 0 && !(sh->stop && failed >= 0)) {
					failed = static_cast<int>(w);
					msg = slot.status == 3 ? slot.msg : crash_text(tmp_prefix + ".err." + std::to_string(w), st);
					sh->stop = true;
				}
				continue;
			}
			bool kill_it = false;
			if (slot.evals != last_evals[w]) {
				last_evals[w] = slot.evals;
				cpu_at[w] = cpu_of(pids[w]);
			} else if (cpu_of(pids[w]) - cpu_at[w] > cpu_limit) {
				kill_it = true;
				if (failed < 0) {
					failed = static_cast<int>(w);
					hang = true;
					msg = "does not terminate (CPU time limit)";
				}
			}
			if (!kill_it && rss_mb(pids[w]) > 3000) {
				kill_it = true;
				if (failed < 0) {
					failed = static_cast<int>(w);
					msg = "memory use exploded";
				}
			}
			if (kill_it) {
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &st, 0);
				live[w] = false;
				n_live--;
				sh->stop = true;
			}
		}
		if (now() - t0 > wall && !sh->stop) {
			truncated = true;
			sh->stop = true;
		}
		if (sh->stop && now() - t0 > wall + 60) {
			for (unsigned w = 0; w < jobs; w++)
				if (live[w])
					kill(pids[w], SIGKILL);
		}
	}
	for (unsigned w = 0; w < jobs; w++)
		unlink((tmp_prefix + ".err." + std::to_string(w)).c_str());

	int rc = 0;
	std::string vmsg, note;
	if (failed >= 0) {
		auto &slot = sh->slots[failed];
		unsigned t = slot.target;
		uint64_t idx = slot.idx;
		std::vector<uint64_t> first(slot.trail.v, slot.trail.v + std::min<uint64_t>(slot.trail.n, MaxChoices));
		double lim = hang ? std::min(cpu_limit, 4.0) : cpu_limit;
		auto confirm = [&](const std::vector<uint64_t> &ch) {
			for (int k = 0; k < 3; k++) {
				auto a = attempt(t, ch, lim);
				if (!a.failed)
					return false;
				vmsg = a.msg;
				hang |= a.hang;
			}
			return true;
		};
		bool have = confirm(first);
		std::vector<uint64_t> best = first;
		unsigned n = 0;
		if (have) {
			std::string m2 = vmsg;
			best = shrink(t, first, m2, lim, hang ? 60 : 25, n);
			if (!confirm(best)) {
				best = first;
				have = confirm(first);
			}
		}
		if (have) {
			std::string log;
			attempt(t, best, lim, &log);
			std::ofstream f(replay_out);
			f << "property=" << property << "\ntarget=" << targets()[t].name << "\nseed=" << seed << "\nmessage=" << vmsg << "\nchoices=";
			for (auto v : best)
				f << v << " ";
			f << "\ntrace=" << log << "\n";
			f.close();
			printf("target: %s\nshrunk from %zu to %zu choices in %u attempts\ncase: %s\nFAILS: %s\n", targets()[t].name, first.size(), best.size(), n, log.substr(0, 3000).c_str(), vmsg.c_str());
			rc = 1;
		} else {
			// it depends on what ran before it in the same process
			bool all = true;
			for (int k = 0; k < 3 && all; k++) {
				auto a = replay_range(seed, jobs, idx % jobs, idx);
				all = a.failed;
				if (all)
					vmsg = a.msg;
			}
			if (all) {
				std::ofstream f(replay_out);
				f << "property=" << property << "\ntarget=" << targets()[t].name << "\nmessage=" << vmsg << "\nrange=" << seed << " " << jobs << " " << idx % jobs << " " << idx << "\n";
				printf("target: %s\nfails after a sequence of cases in one process\nFAILS: %s\n", targets()[t].name, vmsg.c_str());
				rc = 1;
			} else if (slot.status == 3 || msg.find("AddressSanitizer") != msg.npos || msg.find("runtime error") != msg.npos) {
				// The check itself, or the sanitizer, saw the property fail: the behaviour is not
				// even determined by the calls made (it reads memory nobody wrote, say).
				unsigned seen = 0;
				for (int k = 0; k < 12; k++) {
					auto a = attempt(t, first, lim);
					if (a.failed) {
						seen++;
						vmsg = a.msg;
					}
				}
				if (!seen)
					vmsg = msg;
				vmsg += " (not on every run of this case: " + std::to_string(seen) + " of 12 repetitions; what the code does is not determined by the calls made)";
				std::string log;
				attempt(t, first, lim, &log);
				std::ofstream f(replay_out);
				f << "property=" << property << "\ntarget=" << targets()[t].name << "\nseed=" << seed << "\nmessage=" << vmsg << "\nchoices=";
				for (auto v : first)
					f << v << " ";
				f << "\ntrace=" << log << "\n";
				printf("target: %s\ncase: %s\nFAILS: %s\n", targets()[t].name, log.substr(0, 3000).c_str(), vmsg.c_str());
				rc = 1;
			} else {
				note = "a failure did not reproduce: " + std::string(targets()[t].name) + ": " + msg;
				printf("NOT REPRODUCED: %s\n", note.c_str());
				rc = 2;
			}
		}
	}

	// Samples: the first non-trivial cases of each target
	std::vector<std::pair<std::string, std::string>> samples;
	if (rc == 0) {
		auto path = tmp_prefix + ".samples";
		pid_t pid = fork();
		if (pid == 0) {
			std::ofstream f(path);
			unsigned per = std::max<unsigned>(1, 16 / static_cast<unsigned>(targets().size()));
			for (unsigned t = 0; t < targets().size(); t++) {
				unsigned found = 0, tried = 0;
				for (uint64_t idx = 0; idx < ncases && found < per && tried < 400; idx++) {
					if (schedule[idx % schedule.size()] != t)
						continue;
					tried++;
					Ctx c;
					c.trail = &local_trail;
					c.verbose = true;
					seed_case(c, seed, t, idx);
					std::string m;
					if (run_case(t, c, m) == Result::Ok && c.is_nontrivial && !c.out.empty()) {
						for (char &ch : c.out)
							if (ch == '\n')
								ch = ' ';
						f << targets()[t].name << "\t#" << idx << ": " << c.out.substr(0, 500) << "\n";
						found++;
					}
				}
			}
			f.close();
			_exit(0);
		}
		bool h, m;
		wait_limited(pid, 60, h, m);
		std::ifstream f(path);
		std::string l;
		while (std::getline(f, l)) {
			auto tab = l.find('\t');
			if (tab != l.npos)
				samples.emplace_back(l.substr(0, tab), l.substr(tab + 1));
		}
		unlink(path.c_str());
	}

	if (opt.count("out")) {
		std::ofstream f(opt["out"]);
		uint64_t evals = 0, distinct = 0;
		for (unsigned t = 0; t < targets().size(); t++) {
			evals += sh->evals[t];
			distinct += sh->distinct[t];
		}
		f << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct << ",\"distinct_is_lower_bound\":" << (sh->table_used > TableSize / 4 * 3 ? "true" : "false")
		  << ",\"choices_drawn\":" << sh->choices << ",\"truncated_by_wall_limit\":" << (truncated ? "true" : "false") << ",\"planned_cases\":" << ncases << ",\"note\":" << json_str(note) << ",\"targets\":[";
		for (unsigned t = 0; t < targets().size(); t++) {
			f << (t ? "," : "") << "{\"name\":" << json_str(targets()[t].name) << ",\"nontrivial_rule\":" << json_str(targets()[t].rule) << ",\"cases\":" << sh->evals[t] << ",\"nontrivial\":" << sh->nontrivial[t]
			  << ",\"distinct_nontrivial\":" << sh->distinct[t] << ",\"rejected\":" << sh->rejects[t] << ",\"classes\":{";
			for (unsigned k = 0; k < sh->n_labels[t]; k++)
				f << (k ? "," : "") << json_str(sh->label_names[t][k]) << ":" << sh->labels[t][k];
			f << "}}";
		}
		f << "],\"samples\":[";
		for (size_t k = 0; k < samples.size(); k++)
			f << (k ? "," : "") << json_str(samples[k].first + " " + samples[k].second);
		f << "],\"violations\":" << (rc == 1 ? 1 : 0) << ",\"violation_message\":" << json_str(vmsg) << "}\n";
	}
	if (rc == 1)
		printf("VIOLATION property=%s replay=%s\n", property.c_str(), replay_out.c_str());
	return rc;
}
#endif
