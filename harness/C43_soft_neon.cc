// @cases 6000000
// @thorough 8
#include "pbt.hh"
#include "util/soft_neon.hh"

static float num(pbt::Ctx &c) {
	switch (c.choice(5)) {
		case 0: return static_cast<float>(c.i(-8, 8));
		case 1: return c.f(-1.f, 1.f);
		case 2: return c.f(-1e6f, 1e6f);
		case 3: return std::ldexp(c.f(-1.f, 1.f), c.i(-60, 60));
		case 4: return c.one_of<float>({0.f, 3.4e38f, -3.4e38f, 1.2e-38f, INFINITY, -INFINITY});
		default: return static_cast<float>(c.i(-1000, 1000)) * 0.125f;
	}
}

static bool same(float a, float b) {
	return (std::isnan(a) && std::isnan(b)) || a == b;
}

PBT("four lanes", 5, "all four lanes are different") {
	float a[4], b[4], d[4];
	for (unsigned i = 0; i < 4; i++) {
		a[i] = num(c);
		b[i] = num(c);
		d[i] = num(c);
		PBT_LOG(a[i] << " " << b[i] << " " << d[i]);
	}
	// exact blocks: 4 floats, aligned for float only
	std::unique_ptr<float[]> mem{new float[5]};
	std::unique_ptr<float[]> ma{new float[4]};
	std::copy(a, a + 4, ma.get());
	auto va = vld1q_f32(ma.get()), vb = vld1q_f32(b), vd = vld1q_f32(d);
	for (unsigned i = 0; i < 4; i++) {
		PBT_EQ(va[i], a[i], "lane " << i << " loaded");
		PBT_EQ(std::as_const(va)[i], a[i], "lane " << i << " loaded");
	}
	auto dup = vdupq_n_f32(a[0]);
	auto mul = vmulq_f32(va, vb);
	auto sub = vsubq_f32(va, vb);
	auto mx = vmaxq_f32(va, vb);
	for (unsigned i = 0; i < 4; i++) {
		PBT_EQ(dup[i], a[0], "lane " << i << " of the duplicated number");
		PBT_CHECK(same(mul[i], a[i] * b[i]), "lane " << i << " of the product: " << mul[i]);
		PBT_CHECK(same(sub[i], a[i] - b[i]), "lane " << i << " of the difference: " << sub[i]);
		PBT_EQ(mx[i], a[i] > b[i] ? a[i] : b[i], "lane " << i << " of the maximum");
		PBT_EQ(va[i], a[i], "argument after the calculation");
		PBT_EQ(vb[i], b[i], "argument after the calculation");
	}
	auto mla = vmlaq_f32(vd, va, vb);
	auto mla1 = vmlaq_f32(vdupq_n_f32(d[1]), vb, va);
	for (unsigned i = 0; i < 4; i++) {
		// rounded once or twice
		float r1 = d[i] + a[i] * b[i], r2 = std::fma(a[i], b[i], d[i]);
		float s1 = d[1] + a[i] * b[i], s2 = std::fma(a[i], b[i], d[1]);
		PBT_CHECK(same(mla1[i], s1) || same(mla1[i], s2), "lane " << i << " of the multiply-add to equal lanes: " << mla1[i] << " instead of " << s1);
		PBT_EQ(vd[i], d[i], "first argument of the multiply-add afterwards");
		PBT_CHECK(same(mla[i], r1) || same(mla[i], r2), "lane " << i << " of the multiply-add: " << mla[i] << " instead of " << r1);
	}
	auto lo = vget_low_f32(va), hi = vget_high_f32(va);
	auto lo2 = vget_low_f32(vb), hi2 = vget_high_f32(vb);
	for (unsigned i = 0; i < 2; i++) {
		PBT_EQ(lo[i], a[i], "low lane " << i);
		PBT_EQ(hi[i], a[2 + i], "high lane " << i);
		PBT_EQ(vget_lane_f32(lo, i), a[i], "low lane " << i);
		PBT_EQ(vget_lane_f32(hi, i), a[2 + i], "high lane " << i);
		PBT_EQ(std::as_const(hi2)[i], b[2 + i], "high lane " << i);
	}
	auto add = vpadd_f32(lo, hi);
	auto add2 = vpadd_f32(hi2, lo2);
	PBT_CHECK(same(add[0], a[0] + a[1]) && same(add[1], a[2] + a[3]), "pairwise sum: " << add[0] << " " << add[1]);
	PBT_CHECK(same(add2[0], b[2] + b[3]) && same(add2[1], b[0] + b[1]), "pairwise sum: " << add2[0] << " " << add2[1]);
	// lanes can be written
	unsigned k = static_cast<unsigned>(c.choice(3));
	va[k] = d[0];
	for (unsigned i = 0; i < 4; i++)
		PBT_EQ(va[i], i == k ? d[0] : a[i], "lane " << i << " after lane " << k << " was written");
	std::set<float> s(a, a + 4);
	if (s.size() == 4)
		c.nontrivial();
}

// As used: the sum of products of arrays
PBT("dot product", 2, "the result is not zero") {
	size_t n = c.choice(6) * 4;
	std::unique_ptr<float[]> a{new float[n]}, b{new float[n]};
	double ref = 0;
	for (size_t i = 0; i < n; i++) {
		a[i] = static_cast<float>(c.i(-50, 50));
		b[i] = static_cast<float>(c.i(-50, 50));
		ref += double(a[i]) * b[i];
	}
	auto acc = vdupq_n_f32(0.f);
	for (size_t i = 0; i < n; i += 4)
		acc = vmlaq_f32(acc, vld1q_f32(&a[i]), vld1q_f32(&b[i]));
	auto p = vpadd_f32(vget_low_f32(acc), vget_high_f32(acc));
	p = vpadd_f32(p, p);
	PBT_LOG(n << " elements");
	PBT_EQ(double(vget_lane_f32(p, 0)), ref, "dot product");
	PBT_EQ(double(vget_lane_f32(p, 1)), ref, "dot product");
	if (ref != 0)
		c.nontrivial();
}
