// @cases 3000000
// @thorough 20
#include "pbt.hh"
#include "util/wear_level.hh"

// A simulated flash block: cells are erased to all ones, writing can only clear
// bits. Faults are injected one operation at a time.
struct Data {
	uint32_t value;
	uint32_t check;
	bool validate() const {
		return check == (value ^ 0x5bd1e995u);
	}
	static Data of(uint32_t v) {
		return {v, v ^ 0x5bd1e995u};
	}
	bool operator==(const Data &) const = default;
};
static constexpr uint32_t Ones = 0xffffffffu;

struct Flash {
	std::vector<Data> cells;
	std::vector<bool> bad; // never holds what is written
	std::vector<bool> stuck; // cannot be erased
	std::vector<bool> unreadable; // always fails to be read
	bool gives_data = false;	  // reading an unreadable cell gives data nevertheless
	// faults for the next operations
	int fail_reads = 0; // one read of this cell fails, if > 0 (cell + 1)
	enum class Write { Ok, Fails, Torn, Lies } next_write = Write::Ok;
	enum class Erase { Ok, FailsUntouched, FailsDone, FailsHalfway } next_erase = Erase::Ok;
	uint32_t left_by_erase = 0; // which cells are left when it fails halfway

	// history
	std::vector<size_t> writes;
	unsigned erases = 0, failed_erases = 0;
	bool touched_outside = false;

	bool blank(size_t i) const {
		return cells[i].value == Ones && cells[i].check == Ones;
	}
	bool read(Data &d, size_t i) {
		if (i >= cells.size()) {
			touched_outside = true;
			return false;
		}
		if (fail_reads == static_cast<int>(i) + 1)
			return false;
		if (unreadable[i]) {
			if (gives_data)
				d = validated(i) ? cells[i] : Data::of(0xbad00000u + static_cast<uint32_t>(i));
			return false;
		}
		d = cells[i];
		return true;
	}
	bool validated(size_t i) const {
		return cells[i].validate();
	}
	bool valid(size_t i) const {
		return validated(i) && !unreadable[i];
	}
	bool write(const Data &d, size_t i) {
		if (i >= cells.size()) {
			touched_outside = true;
			return false;
		}
		writes.push_back(i);
		auto how = std::exchange(next_write, Write::Ok);
		if (how == Write::Fails)
			return false;
		if (bad[i] || how == Write::Torn) {
			cells[i].value &= d.value;
			cells[i].check &= ~0xffu; // some bits are lost, the check does not match
			cells[i].check &= ~d.check;
			return how != Write::Torn;
		}
		cells[i].value &= d.value;
		cells[i].check &= d.check;
		return true;
	}
	bool erase() {
		auto how = std::exchange(next_erase, Erase::Ok);
		if (how == Erase::FailsUntouched) {
			failed_erases++;
			return false;
		}
		for (size_t i = 0; i < cells.size(); i++)
			if (how != Erase::FailsHalfway || !(left_by_erase >> i % 32 & 1))
				cells[i] = {stuck[i] ? Ones & ~1u : Ones, Ones};
		if (how != Erase::Ok) {
			failed_erases++;
			return false;
		}
		erases++;
		return true;
	}
	bool is_writeable(size_t i) const {
		return i < cells.size() && blank(i);
	}
};

static Flash *flash; // for the static-storage variant

template<size_t N>
struct StorageA { // WearLeveler
	using data_t = Data;
	static constexpr size_t NumCells = N;
	Flash &f;
	StorageA(Flash &f)
		: f{f} {
	}
	bool read(Data *d, size_t i) {
		return f.read(*d, i);
	}
	bool write(const Data *d, size_t i) {
		return f.write(*d, i);
	}
	bool erase() {
		return f.erase();
	}
	bool is_writeable(size_t i) {
		return f.is_writeable(i);
	}
};

template<size_t N>
struct StorageB { // WearLevel
	using data_t = Data;
	static constexpr size_t cell_nr_ = N;
	bool read(Data &d, size_t i) {
		return flash->read(d, i);
	}
	bool write(const Data &d, size_t i) {
		return flash->write(d, i);
	}
	bool erase() {
		return flash->erase();
	}
	bool is_writeable(size_t i) {
		return flash->is_writeable(i);
	}
};

template<size_t N, bool A>
struct Device {
	std::conditional_t<A, WearLeveler<StorageA<N>>, WearLevel<StorageB<N>>> wl;
	Device(Flash &f) requires A
		: wl{f} {
	}
	Device(Flash &) requires(!A)
	{
	}
};

// The value a reader must get: the valid cell with the highest index
static std::optional<Data> stored(const Flash &f) {
	for (size_t i = f.cells.size(); i-- > 0;)
		if (f.valid(i))
			return f.cells[i];
	return std::nullopt;
}

template<size_t N, bool A>
static void history(pbt::Ctx &c, bool faults) {
	auto f = std::make_unique<Flash>();
	f->cells.assign(N, {Ones, Ones});
	f->bad.assign(N, false);
	f->stuck.assign(N, false);
	f->unreadable.assign(N, false);
	flash = f.get();
	if (faults && c.chance(1, 3)) {
		for (size_t i = 0; i < N; i++)
			f->bad[i] = c.chance(1, 4);
	}
	if (faults && c.chance(1, 4)) {
		f->gives_data = c.coin();
		for (size_t i = 0; i < N; i++)
			if (c.chance(1, 4)) {
				f->unreadable[i] = true;
				PBT_LOG("cell " << i << " is unreadable" << (f->gives_data ? " (but gives data)" : ""));
			}
		c.label("unreadable cells");
	}
	if (faults && c.chance(1, 6)) {
		bool all = c.chance(1, 6);
		for (size_t i = 0; i < N; i++)
			if (all || c.chance(1, 3)) {
				f->stuck[i] = true;
				f->cells[i].value = Ones & ~1u;
			}
		c.label("cells which cannot be erased");
	}
	if (c.chance(1, 8)) {
		// never erased: random contents
		for (auto &x : f->cells)
			if (c.coin())
				x = {c.any_int<uint32_t>() & ~1u, 0x1234567};
		c.label("unknown initial contents");
	}
	auto dev = std::make_unique<Device<N, A>>(*f);
	std::optional<Data> latest = stored(*f); // what the history says must be read
	uint32_t next = 1;
	unsigned n = static_cast<unsigned>(c.choice(40));
	if (N > 255)
		n = n * 8 + 240;
	unsigned wraps = 0, restarts = 0, nfaults = 0;
	PBT_LOG((A ? "WearLeveler " : "WearLevel ") << N << " cells");
	// the cell after the latest valid data, or after the last one tried
	auto after_latest = [&] {
		for (size_t i = N; i-- > 0;)
			if (f->valid(i))
				return i + 1;
		return size_t(0);
	};
	size_t next_cell = after_latest();
	pbt::Copies copies{c};
	for (unsigned op = 0; op < n; op++) {
		copies(op, dev);
		switch (c.weighted({6, 3, 2, faults ? 3u : 0u})) {
			case 0: { // write
				auto d = Data::of(next);
				next += 1 + static_cast<uint32_t>(c.choice(3)) * 0x01000193u;
				auto erases = f->erases, failed = f->failed_erases;
				auto nwrites = f->writes.size();
				auto before = f->cells;
				auto how = f->next_write;
				bool ok = dev->wl.write(d);
				PBT_LOG("write " << d.value << " -> " << ok);
				PBT_CHECK(!f->touched_outside, "a cell outside of the block was read or written");
				// the next blank cell after those already tried; when there is none, erase once and start over
				size_t want = next_cell;
				while (want < N && !(before[want] == Data{Ones, Ones}))
					want++;
				bool want_erase = want >= N;
				PBT_EQ(f->erases + f->failed_erases - erases - failed, want_erase ? 1u : 0u, "number of times the block was erased for a write (next cell " << next_cell << ")");
				bool erased = f->erases != erases;
				if (want_erase && !erased) {
					PBT_EQ(f->writes.size() - nwrites, size_t(0), "number of cells written after the block could not be erased");
					next_cell = N;
				} else if (want_erase && (want = static_cast<size_t>(std::find(f->stuck.begin(), f->stuck.end(), false) - f->stuck.begin())) >= N) {
					PBT_EQ(f->writes.size() - nwrites, size_t(0), "number of cells written when none can be erased");
					next_cell = N;
				} else {
					PBT_EQ(f->writes.size() - nwrites, size_t(1), "number of cells written by one write");
					PBT_EQ(f->writes.back(), want, "cell written");
					next_cell = want + 1;
					if (erased)
						wraps++;
				}
				if (f->writes.size() == nwrites)
					PBT_CHECK(!ok, "success was reported but nothing was written");
				if (f->failed_erases != failed) {
					PBT_CHECK(!ok, "success was reported after a failed erase");
				}
				if (how == Flash::Write::Fails || how == Flash::Write::Torn) {
					if (f->writes.size() != nwrites)
						PBT_CHECK(!ok, "success was reported for a failed write");
				}
				latest = stored(*f);
				if (ok && f->writes.size() != nwrites && !f->bad[f->writes.back()] && !f->unreadable[f->writes.back()])
					PBT_CHECK(latest && *latest == d, "written data is not the latest in the storage");
				break;
			}
			case 1: { // read
				Data d = Data::of(0xdead0000u + op);
				auto poison = d;
				bool ok = dev->wl.read(d);
				PBT_LOG("read -> " << ok << " " << d.value);
				PBT_CHECK(!f->touched_outside, "a cell outside of the block was read or written");
				auto want = latest;
				if (f->fail_reads) { // one cell cannot be read: the latest of the others
					want.reset();
					for (size_t i = N; i-- > 0;)
						if (f->valid(i) && f->fail_reads != static_cast<int>(i) + 1) {
							want = f->cells[i];
							break;
						}
				}
				PBT_EQ(ok, want.has_value(), "read() result (latest valid value " << (want ? std::to_string(want->value) : "none") << ")");
				if (ok)
					PBT_EQ(d.value, want->value, "value read");
				f->fail_reads = 0;
				break;
			}
			case 2: // power cycle
				PBT_LOG("restart");
				dev = std::make_unique<Device<N, A>>(*f);
				restarts++;
				next_cell = after_latest();
				PBT_CHECK(!f->touched_outside, "a cell outside of the block was read or written");
				break;
			case 3: // schedule a fault
				nfaults++;
				switch (c.choice(6)) {
					case 6:
						f->left_by_erase = c.any_int<uint32_t>();
						PBT_LOG("next erase fails halfway (leaves " << f->left_by_erase << ")");
						f->next_erase = Flash::Erase::FailsHalfway;
						break;
					case 0:
						PBT_LOG("next write fails");
						f->next_write = Flash::Write::Fails;
						break;
					case 1:
						PBT_LOG("next write is torn");
						f->next_write = Flash::Write::Torn;
						break;
					case 2:
						PBT_LOG("next erase fails");
						f->next_erase = Flash::Erase::FailsUntouched;
						break;
					case 3:
						PBT_LOG("next erase reports a failure");
						f->next_erase = Flash::Erase::FailsDone;
						break;
					case 4: {
						// power lost during a write: torn data in the next cell, then a restart
						PBT_LOG("power loss during write");
						f->next_write = Flash::Write::Torn;
						dev->wl.write(Data::of(next++));
						f->next_write = Flash::Write::Ok;
						f->next_erase = Flash::Erase::Ok;
						latest = stored(*f);
						dev = std::make_unique<Device<N, A>>(*f);
						next_cell = after_latest();
						restarts++;
						break;
					}
					case 5: // a cell cannot be read by the next read()
						f->fail_reads = 1 + static_cast<int>(c.choice(N - 1));
						PBT_LOG("cell " << f->fail_reads - 1 << " cannot be read");
						{
							Data d = Data::of(0xbeef0000u + op);
							bool ok = dev->wl.read(d);
							std::optional<Data> want;
							for (size_t i = N; i-- > 0;)
								if (f->valid(i) && f->fail_reads != static_cast<int>(i) + 1) {
									want = f->cells[i];
									break;
								}
							PBT_EQ(ok, want.has_value(), "read() result with an unreadable cell");
							if (ok)
								PBT_EQ(d.value, want->value, "value read with an unreadable cell");
							f->fail_reads = 0;
						}
						break;
				}
				break;
		}
	}
	if (wraps)
		c.label("block erased and reused");
	if (restarts)
		c.label("restart");
	if (nfaults)
		c.label("faults");
	if (restarts && (wraps || nfaults))
		c.nontrivial();
}

template<bool A>
static void sized(pbt::Ctx &c, bool faults) {
	switch (c.choice(4)) {
		case 0: history<1, A>(c, faults); break;
		case 1: history<2, A>(c, faults); break;
		case 2: history<4, A>(c, faults); break;
		case 3: history<7, A>(c, faults); break;
		case 4: history<16, A>(c, faults); break;
	}
}
PBT("many cells", 1, "a restart, and a wrap or an injected fault") {
	if (c.coin())
		history<300, true>(c, c.coin());
	else
		history<258, false>(c, c.coin());
}

PBT("WearLeveler", 100, "a restart after the block was erased and reused") {
	sized<true>(c, false);
}
PBT("WearLeveler with faults", 200, "a restart, and a wrap or an injected fault") {
	sized<true>(c, true);
}
PBT("WearLevel", 100, "a restart after the block was erased and reused") {
	sized<false>(c, false);
}
PBT("WearLevel with faults", 200, "a restart, and a wrap or an injected fault") {
	sized<false>(c, true);
}
