#include "common.h"
#include <error.h>
static int32_t norm(int32_t v) { return v ? (int32_t)((uint32_t)v|0xC0000000u) : 0; }
static void check(int set, int msg, int32_t v, int32_t w)
{
	RP_TICK();
	rp_setcase("set 0x%X msg 0x%X value 0x%X and 0x%X", set, msg, v, w);
	ErrNum e(set, msg); int32_t x = e;
	uint32_t exp = 0xC0000000u|((set&0xFFFFu)<<14)|(msg&0x3FFF);
	if ((uint32_t)x != exp) rp_fail("ErrNum(0x%X,0x%X) is 0x%X, expected 0x%X", set, msg, (unsigned)x, exp);
	if (e.set() != (set&0xFFFF) || e.msg() != (msg&0x3FFF)) rp_fail("ErrNum(0x%X,0x%X) gives set 0x%X msg 0x%X", set, msg, e.set(), e.msg());
	ErrNum a(v), b(w); if ((int32_t)a != norm(v)) rp_fail("ErrNum(0x%X) is 0x%X", v, (int32_t)a);
	if (a.set() != (norm(v)>>14&0xFFFF) || a.msg() != (norm(v)&0x3FFF)) rp_fail("ErrNum(0x%X) gives set 0x%X msg 0x%X", v, a.set(), a.msg());
	if ((a == b) != (norm(v) == norm(w)) || (a != b) != (norm(v) != norm(w))) rp_fail("comparison of ErrNum(0x%X) and ErrNum(0x%X)", v, w);
	if ((a == w) != (norm(v) == w) || (a < w) != (norm(v) < w) || (a > w) != (norm(v) > w)) rp_fail("comparison of ErrNum(0x%X) with 0x%X", v, w);
	ErrNum c(a), d; d = c; if ((int32_t)d != norm(v) || (int32_t)ErrNum() != 0) rp_fail("copy of ErrNum(0x%X)", v);
	static int prm; Error er(v, "text", &prm); Error f(er), g; g = f; er = Error(); f = Error(1, "other");
	ErrNum gn = g, en = er; if ((int32_t)gn != norm(v) || (int32_t)g != norm(v)) rp_fail("Error(0x%X) has number 0x%X", v, (int32_t)g);
	if (!g.default_text() || strcmp(g.default_text(), "text") || g.parameters() != &prm) rp_fail("Error(0x%X) lost its text or parameters", v);
	if ((int32_t)en != 0 || er.default_text() || er.parameters()) rp_fail("empty Error is not empty");
}
static void rp_hint(char* l) { long a, b, c, d; if (sscanf(l, "v %ld %ld %ld %ld", &a, &b, &c, &d) == 4) { check(a, b, c, d); check(a&0xFFFF, b&0x3FFF, c, d); } }
static void rp_search(Rng& r, double until)
{
	if ((uint32_t)ErrNum::ERR_FLAG != 0x80000000u || (uint32_t)ErrNum::ERR_CUST != 0x40000000u) rp_fail("flag constants");
	for (int s = 0; s <= 0x10000; s++) check(s, s*7, s, s+1);
	for (int m = 0; m <= 0x4000; m++) check(1, m, m, -m);
	for (int s = 0; s < 32; s++) for (int t = 0; t < 32; t++) check(1<<s, 1<<t, (1u<<s)|(1u<<t), 1u<<t);
	while (rp_now() < until) for (int i = 0; i < 1000; i++) { uint32_t v = r.u()>>r.below(32), w = r.chance(50) ? v : r.chance(50) ? v|0xC0000000 : r.u(); check(r.u()>>r.below(32), r.u()>>r.below(32), v, w); }
}
