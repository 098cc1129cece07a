// @cases 2000000
// @thorough 20
#include "pbt.hh"
#include "util/partition.hh"

template<unsigned N, unsigned Max, typename T>
static void partition(pbt::Ctx &c) {
	using P = std::conditional_t<std::is_same_v<T, unsigned>, Partition<N, Max>, Partition<N, Max, T>>;
	std::unique_ptr<P> p;
	PBT_LOG(N << " parts, up to " << Max << " elements");
	unsigned rounds = static_cast<unsigned>(c.choice(2)) + 1; // it can be used again
	bool with_init = false, many = false;
	for (unsigned r = 0; r < rounds; r++) {
		std::vector<T> vals(c.choice(9) ? c.choice(Max) : Max + c.choice(3)), init;
		if (Max > 255 && vals.size() < 255 && c.coin())
			vals.resize(vals.size() + Max - 255);
		unsigned kind = static_cast<unsigned>(c.choice(5));
		// in total no more than T can hold
		const double most = std::is_integral_v<T> ? std::min(double(std::numeric_limits<T>::max()), 0x1p51) : 1 << 21;
		for (auto &v : vals)
			switch (kind) {
				case 0: v = static_cast<T>(c.choice(3)); break;
				case 1: v = static_cast<T>(c.choice(1000)); break;
				case 2: v = static_cast<T>(1u << c.choice(10)); break;
				case 3: // fractions, if T has any; negative, if it is signed
					v = static_cast<T>(static_cast<double>(c.choice(4000)) / 256. - (std::is_signed_v<T> && vals.size() < 100 ? 4. : 0.));
					break;
				case 4: { // some large values
					double left = most;
					for (auto &o : vals)
						if (&o < &v)
							left -= double(o);
					left -= 6000. * double(N) + 4. * double(vals.size());
					v = static_cast<T>(c.choice(2) || left < 1e6 ? c.choice(3) : static_cast<uint64_t>(left) / (1u << c.choice(3)) - c.choice(200));
					break;
				}
				default: v = static_cast<T>(c.choice(10)); break;
			}
		if (r || c.coin()) {
			init.resize(c.choice(N));
			for (auto &v : init)
				v = static_cast<T>(c.choice(1000));
		}
		std::string s;
		for (auto v : vals)
			s += std::to_string(v) + " ";
		s += "onto ";
		for (auto v : init)
			s += std::to_string(v) + " ";
		PBT_LOG(s);
		// exact heap copies
		std::unique_ptr<T[]> data{new T[vals.size()]};
		std::copy(vals.begin(), vals.end(), data.get());
		std::span<T> span{data.get(), vals.size()};
		if (!p && init.empty() && c.coin()) {
			p = std::make_unique<P>(span);
		} else {
			if (!p)
				p = pbt::fresh<P>();
			p->calc_partitions(span, init);
		}
		PBT_CHECK(std::equal(vals.begin(), vals.end(), data.get()), "the values were changed");
		size_t used = std::min<size_t>(vals.size(), Max);

		// each element is in one part
		std::vector<unsigned> seen(used, 0);
		std::vector<double> sums;
		for (unsigned k = 0; k < N; k++) {
			double sum = k < init.size() ? double(init[k]) : 0.;
			for (auto id : p->parts[k]) {
				PBT_CHECK(id < used, "part " << k << " has element " << id << " of " << used);
				seen[id]++;
				sum += double(vals[id]);
			}
			sums.push_back(sum);
		}
		for (size_t i = 0; i < used; i++)
			PBT_EQ(seen[i], 1u, "how often element " << i << " is in a part");

		// The largest elements first, each goes to the smallest part
		std::vector<double> want(N, 0.), order(vals.begin(), vals.begin() + static_cast<ptrdiff_t>(used));
		std::copy(init.begin(), init.end(), want.begin());
		std::sort(order.rbegin(), order.rend());
		for (auto v : order)
			*std::min_element(want.begin(), want.end()) += v;
		// which of the equally small ones does not matter to the sums
		std::sort(want.begin(), want.end());
		std::sort(sums.begin(), sums.end());
		for (unsigned k = 0; k < N; k++)
			PBT_EQ(sums[k], want[k], "the sum of the part which is number " << k << " in size");
		with_init |= !init.empty();
		many |= used > N;
	}
	if (many && rounds > 1)
		c.nontrivial();
	if (with_init)
		c.label("initial values");
}
PBT("Partition", 100, "more elements than parts, and the object was used more than once") {
	switch (c.choice(7)) {
		case 5: return partition<3, 9, uint64_t>(c);
		case 6: return partition<2, 11, int64_t>(c);
		case 7: return partition<8, 20, double>(c);
		case 0: return partition<2, 8, unsigned>(c);
		case 1: return partition<3, 12, unsigned>(c);
		case 2: return partition<1, 4, int>(c);
		case 3: return partition<4, 10, float>(c);
		default: return partition<5, 16, unsigned>(c);
	}
}

// More elements, parts and larger values than one byte counts
PBT("many elements", 1, "more elements than parts, and the object was used more than once") {
	switch (c.choice(2)) {
		case 0: return partition<2, 300, unsigned>(c);
		case 1: return partition<260, 520, unsigned>(c);
		default: return partition<3, 258, double>(c);
	}
}
