// @cases 20000
// @thorough 20
// @san none
// @flags -O0
#include "pbt.hh"
#include "util/mem_test.hh"
#include <csignal>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

// Faulty memory is simulated on real memory. Stuck and coupled cells: the code under test is
// single-stepped (x86 trap flag, in this process) and after every instruction the fault model
// changes the memory as the broken cells would. Shorted address lines: the pages of a
// shared memory object are mapped several times.

enum class Fault { None, StuckAt0, StuckAt1, Inverts, Couples, Line0, Line1, ShortAnd, ShortOr };

struct Model {
	Fault fault{};
	uint32_t *mem{};
	size_t words{}, word{}, other{};
	uint32_t mask{};
	uint32_t last{}, last_other{};
	unsigned effects{};
};
static Model model;
static volatile bool stepping;
static volatile uint64_t steps;

static void after_instruction() {
	auto &m = model;
	switch (m.fault) {
		case Fault::None: break;
		case Fault::StuckAt0: m.mem[m.word] &= ~m.mask; break;
		case Fault::StuckAt1: m.mem[m.word] |= m.mask; break;
		case Fault::Inverts: // the cell does not keep what is stored
			if (m.mem[m.word] != m.last) {
				m.last = m.mem[m.word] ^= m.mask;
				m.effects++;
			}
			break;
		case Fault::Couples: // a write to the other cell changes the cell
			if (m.mem[m.other] != m.last_other) {
				m.last_other = m.mem[m.other];
				m.mem[m.word] ^= m.mask;
				m.effects++;
			}
			break;
		default: // a data line, or two which are connected: the same bits of every cell
			for (size_t i = 0; i < m.words; i++) {
				auto &w = m.mem[i];
				auto all = (w & m.mask) == m.mask, any = (w & m.mask) != 0;
				bool bit = m.fault == Fault::Line1 || (m.fault == Fault::ShortAnd && all) || (m.fault == Fault::ShortOr && any);
				if (bit ? !all : any) {
					w = bit ? w | m.mask : w & ~m.mask;
					m.effects++;
				}
			}
			break;
	}
}

static void on_trap(int, siginfo_t *, void *uc) {
	auto &efl = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs[REG_EFL];
	if (stepping) {
		after_instruction();
		steps = steps + 1;
		efl |= 0x100;
	} else
		efl &= ~0x100ll;
}

__attribute__((noinline)) static bool run_stepped(uint32_t *start, uint32_t *stop) {
	static bool installed;
	if (!installed) {
		struct sigaction sa {};
		sa.sa_sigaction = on_trap;
		sa.sa_flags = SA_SIGINFO;
		sigaction(SIGTRAP, &sa, nullptr);
		installed = true;
	}
	model.last = model.mem[model.word];
	model.last_other = model.mem[model.other];
	model.effects = 0;
	steps = 0;
	stepping = true;
	raise(SIGTRAP);
	bool r = MemTest::check(start, stop);
	stepping = false;
	return r;
}

static const char *names[] = {"no fault", "stuck at 0", "stuck at 1", "inverts what is stored", "changes when another cell is written"};

PBT("faulty cells", 240, "a fault shows only in some of the patterns that can be stored, or the other cell is written later") {
	size_t n = 1 + c.choice(c.coin() ? 6 : 24);
	std::vector<uint32_t> mem(n + 2);
	auto fill = [&](uint32_t seed) {
		for (size_t i = 0; i < mem.size(); i++)
			mem[i] = static_cast<uint32_t>((seed + i) * 2654435761u) ^ seed >> 3;
	};
	uint32_t seed = static_cast<uint32_t>(c.choice(~0u));
	size_t word = c.choice(n - 1);
	uint32_t mask = 1u << c.choice(31);
	auto run = [&](Fault f, size_t other = 0) {
		fill(seed);
		auto before = mem;
		model = {f, mem.data() + 1, n, word, other, mask, 0, 0, 0};
		bool r = run_stepped(mem.data() + 1, mem.data() + 1 + n);
		PBT_CHECK(steps > n, "(the simulation did not run)");
		PBT_CHECK(mem[0] == before[0] && mem[n + 1] == before[n + 1], "memory outside was written, with fault: " << names[int(f)]);
		return r;
	};
	PBT_LOG(n << " words, cell " << word << " bits " << mask);
	switch (c.choice(4)) {
		case 0:
			PBT_CHECK(run(Fault::None), "good memory is reported as bad");
			break;
		case 1: {
			bool a = run(Fault::StuckAt0), b = run(Fault::StuckAt1);
			PBT_CHECK(!a || !b, "a bit which is stuck, at 0 and at 1, is not found");
			c.nontrivial();
			break;
		}
		case 2: {
			bool r = run(Fault::Inverts);
			PBT_CHECK(model.effects > 0, "the last word is never written: " << word);
			PBT_CHECK(!r, "a cell which never holds what is written is not found");
			break;
		}
		default: {
			if (n < 2)
				throw pbt::Reject{};
			// the other cell comes later, so that the change is not written over
			size_t other = c.choice(n - 2) + 1;
			word = c.choice(other - 1);
			if (c.choice(3) == 3)
				mask = static_cast<uint32_t>(c.choice(~0u - 1)) + 1;
			PBT_LOG("cell " << word << " changes when " << other << " is written, bits " << mask);
			bool r = run(Fault::Couples, other);
			PBT_CHECK(model.effects > 0, "word " << other << " is never written");
			// an even number of changes cancels out
			if (model.effects & 1) {
				PBT_CHECK(!r, "a cell which changes when a later one is written is not found");
				c.nontrivial();
			}
			break;
		}
	}
}

PBT("faulty data lines", 12, "two lines are connected") {
	// In a few cells the lines could happen to have the right values
	size_t n = 64 + c.choice(40);
	std::vector<uint32_t> mem(n);
	uint32_t seed = static_cast<uint32_t>(c.choice(~0u));
	for (size_t i = 0; i < n; i++)
		mem[i] = static_cast<uint32_t>((seed + i) * 2654435761u) ^ seed >> 3;
	unsigned a = static_cast<unsigned>(c.choice(31)), b = static_cast<unsigned>(c.choice(31));
	auto fault = static_cast<Fault>(static_cast<int>(Fault::Line0) + static_cast<int>(c.choice(3)));
	bool two = fault == Fault::ShortAnd || fault == Fault::ShortOr;
	if (two && a == b)
		throw pbt::Reject{};
	PBT_LOG(n << " words, data line " << a << (two ? " and " + std::to_string(b) + " are connected" : fault == Fault::Line0 ? " is stuck at 0" : " is stuck at 1"));
	model = {fault, mem.data(), n, 0, 0, two ? 1u << a | 1u << b : 1u << a, 0, 0, 0};
	bool r = run_stepped(mem.data(), mem.data() + n);
	PBT_CHECK(steps > n, "(the simulation did not run)");
	PBT_CHECK(!r, "a data line which is stuck, or connected to another one, is not found");
	if (two)
		c.nontrivial();
}

PBT("shorted address lines", 80, "two different addresses are the same memory") {
	const size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
	// pages which are the same memory: by address lines which are stuck, or just some two
	unsigned kind = static_cast<unsigned>(c.choice(3));
	unsigned bits = 1 + static_cast<unsigned>(kind == 3 ? c.choice(8) : c.choice(2));
	size_t pages = size_t{1} << bits;
	std::vector<size_t> real(pages);
	if (kind <= 1) {
		size_t stuck = c.choice(pages - 1);
		bool at1 = c.coin();
		PBT_LOG(pages << " pages, address lines stuck at " << at1 << ": " << stuck);
		for (size_t i = 0; i < pages; i++)
			real[i] = at1 ? i | stuck : i & ~stuck;
	} else {
		size_t x = c.choice(pages - 1), y = c.choice(pages - 1);
		PBT_LOG(pages << " pages, " << x << " and " << y << " are the same");
		for (size_t i = 0; i < pages; i++)
			real[i] = i == x ? y : i;
	}
	int fd = memfd_create("m", 0);
	PBT_CHECK(fd >= 0 && ftruncate(fd, static_cast<off_t>(pages * page)) == 0, "(no shared memory)");
	auto *m = static_cast<uint8_t *>(mmap(nullptr, pages * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	bool ok = m != MAP_FAILED;
	for (size_t i = 0; ok && i < pages; i++) {
		ok = mmap(m + i * page, page, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, static_cast<off_t>(real[i] * page)) != MAP_FAILED;
	}
	close(fd);
	// a part of it: any start and end
	size_t words = pages * page / 4;
	size_t from = c.choice(page / 4 - 1), to = words - c.choice(page / 4 - 1);
	bool r = ok && MemTest::check(reinterpret_cast<uint32_t *>(m) + from, reinterpret_cast<uint32_t *>(m) + to);
	// is there a pair of words in the range which are the same cell?
	bool alias = false;
	const size_t wpp = page / 4;
	for (size_t p = 0; p < pages; p++) {
		for (size_t q = 0; q < p; q++) {
			if (real[p] != real[q])
				continue;
			// the offsets of q and of p which are in the range
			size_t lo = std::max(q == 0 ? from : 0, size_t{0}), hi = p == pages - 1 ? to - p * wpp : wpp;
			alias |= lo < hi;
		}
	}
	munmap(m, pages * page);
	PBT_CHECK(ok, "(cannot map)");
	PBT_EQ(r, !alias, "the result, with words " << from << " to " << to);
	if (alias)
		c.nontrivial();
}

// Whole chips: one address line does nothing, so that the upper half is the lower half again
PBT("large memory with a stuck address line", 3, "at least 1 MiB") {
	unsigned line = 12 + static_cast<unsigned>(c.choice(c.choice(3) ? 9 : 13));
	const size_t half = size_t{1} << line;
	bool good = c.choice(3) == 3;
	PBT_LOG("2 x " << half << " bytes" << (good ? ", good" : ""));
	int fd = memfd_create("m", 0);
	PBT_CHECK(fd >= 0 && ftruncate(fd, static_cast<off_t>(2 * half)) == 0, "(no shared memory)");
	auto *m = static_cast<uint8_t *>(mmap(nullptr, 2 * half, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	bool ok = m != MAP_FAILED;
	for (size_t i = 0; ok && i < 2; i++)
		ok = mmap(m + i * half, half, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, static_cast<off_t>(good ? i * half : 0)) != MAP_FAILED;
	close(fd);
	size_t from = c.choice(3) ? 0 : c.choice(half / 4 - 1), to = 2 * half / 4 - (c.choice(3) ? 0 : c.choice(half / 4 - 1 - from / 2));
	bool r = ok && MemTest::check(reinterpret_cast<uint32_t *>(m) + from, reinterpret_cast<uint32_t *>(m) + to);
	if (m != MAP_FAILED)
		munmap(m, 2 * half);
	PBT_CHECK(ok, "(cannot map)");
	PBT_EQ(r, good || from + half / 4 >= to, "the result, with words " << from << " to " << to);
	if (half >= 1 << 20)
		c.nontrivial();
}

PBT("good memory", 120, "the range is not empty and has guard words on both sides") {
	if (c.choice(3) == 3) {
		// given as numbers
		static uint32_t *low = [] {
			void *p = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
			return p == MAP_FAILED ? nullptr : static_cast<uint32_t *>(p);
		}();
		PBT_CHECK(low, "(no memory below 4 GB)");
		size_t a = 1 + c.choice(100), n = c.choice(200);
		for (size_t i = 0; i < 400; i++)
			low[i] = 0x51CAFE00u + static_cast<uint32_t>(i);
		auto addr = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(low + a));
		PBT_LOG("from " << a << ", " << n << " words, as addresses");
		if (n) {
			PBT_EQ(MemTest::check(addr + static_cast<uint32_t>(n) * 4, addr), false, "the result with exchanged addresses");
			for (size_t i = 0; i < 400; i++)
				PBT_EQ(low[i], 0x51CAFE00u + i, "word " << i << " after exchanged addresses");
		}
		PBT_EQ(MemTest::check(addr, addr + static_cast<uint32_t>(n) * 4), true, "the result");
		size_t changed = 0;
		for (size_t i = 0; i < 400; i++) {
			if (i < a || i >= a + n)
				PBT_EQ(low[i], 0x51CAFE00u + i, "word " << i << " outside");
			else
				changed += low[i] != 0x51CAFE00u + i;
		}
		PBT_EQ(changed, n, "words which were written");
		if (n)
			c.nontrivial();
		return;
	}
	size_t a = 1 + c.choice(20), n = c.choice(c.coin() ? 8 : 4000), total = a + n + 1 + c.choice(20);
	std::vector<uint32_t> mem(total);
	for (size_t i = 0; i < total; i++)
		mem[i] = 0x3C0FFEE0u + static_cast<uint32_t>(i) * 7919u;
	auto before = mem;
	PBT_LOG("from " << a << ", " << n << " of " << total << " words");
	if (c.choice(7) == 7 && n) {
		PBT_EQ(MemTest::check(mem.data() + a + n, mem.data() + a), true, "the result of a range which ends before it starts");
		PBT_CHECK(mem == before, "memory was changed by an empty range");
		return;
	}
	PBT_EQ(MemTest::check(mem.data() + a, mem.data() + a + n), true, "the result");
	size_t changed = 0;
	for (size_t i = 0; i < total; i++) {
		if (i < a || i >= a + n)
			PBT_EQ(mem[i], before[i], "word " << i << " outside");
		else
			changed += mem[i] != before[i];
	}
	PBT_EQ(changed, n, "words which were written");
	if (n)
		c.nontrivial();
}
