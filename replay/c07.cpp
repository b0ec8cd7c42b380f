#include "common.h"
#include <char_ptr.h>
#include <utf8_ptr.h>
// oracle: positions reached by decoding one character at a time
static int o_lead(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; }
static int o_used(const unsigned char* b) { int n = o_lead(b[0]); if (!n) return 1; for (int k = 1; k < n; k++) if ((b[k]&0xC0) != 0x80) return 1; return n; }
static std::vector<int> bnd;	// character boundaries, decoding from the start of the text
static unsigned o_val(const unsigned char* b) { int n = o_lead(b[0]); if (n && o_used(b) == n) { if (n == 1) return b[0]; unsigned v = b[0] & (n == 6 ? 1 : 0x7F>>n); if (n == 6) v = b[0] & 3; for (int k = 1; k < n; k++) v = v<<6|(b[k]&0x3F); return v; } return 0x80000000u|b[0]; }
struct NC : NulGuardedCharPtr { NC(const char*, const char* d) : NulGuardedCharPtr(d) {} };
struct GC : GuardedCharPtr { GC(const char* o, const char* d) : GuardedCharPtr(o) { data = d; } };
struct NU : NulGuardedUTF8Ptr { NU(const char*, const char* d) : NulGuardedUTF8Ptr(d) {} };
struct GU : GuardedUTF8Ptr { GU(const char* o, const char* d) : GuardedUTF8Ptr(o) { data = d; } };
static const char* T0;
#define EQ(x, off, what) do { const char* _p = (x); if (_p != T0+(off)) rp_fail("%s: %s gives offset %ld, expected %d", nm, what, (long)(_p-T0), (int)(off)); } while (0)
// mv(i): expected offset after moving by i
template<class T, class C, class F> static void ops(const char* nm, int o, int d, int i, F mv)
{
	const char* O = T0+o; const char* D = T0+d;
	{ T p(O, D); p += i; EQ(p, mv(i), "+="); }
	{ T p(O, D); EQ((p += i), mv(i), "result of +="); }
	{ T p(O, D); C q(p + i); EQ(q, mv(i), "+"); EQ(p, d, "original after +"); }
	{ T p(O, D); p -= -i; EQ(p, mv(i), "-="); }
	{ T p(O, D); C q(p - -i); EQ(q, mv(i), "-"); EQ(p, d, "original after -"); }
	if (i == 1) { { T p(O, D); ++p; EQ(p, mv(1), "++p"); } { T p(O, D); EQ(p++, d, "result of p++"); EQ(p, mv(1), "p++"); } { T p(O, D); EQ(++p, mv(1), "result of ++p"); } }
	if (i == -1) { { T p(O, D); --p; EQ(p, mv(-1), "--p"); } { T p(O, D); EQ(p--, d, "result of p--"); EQ(p, mv(-1), "p--"); } { T p(O, D); EQ(--p, mv(-1), "result of --p"); } }
	{ T p(O, D); const C& c = p; C q(c); q += i; EQ(q, mv(i), "+= on a copy of a const pointer"); }
	{ T p(O, D); C q(p); C r; r = q; EQ(r, d, "copy"); r += i; EQ(r, mv(i), "+= on a copy"); if ((p - T0) != d) rp_fail("%s: difference", nm); C o2(q + i); if (o2 - T0 != mv(i)) rp_fail("%s: difference after +", nm); }
}
static void check(const unsigned char* b, int n, int o, int d, int i)	// b[n] == 0, no NUL before n from d on
{
	RP_TICK();
	rp_setcase("text %s origin %d position %d (NUL at %d) amount %d", rp_hex(b, n).c_str(), o, d, n, i);
	T0 = (const char*)b;
	// stepping forwards/backwards in characters
	struct Mv {
		const unsigned char* b; int n, o, d; bool u, g;
		int operator()(int i) const {
			int p = d;
			for (; i > 0 && p < n; i--) p += u ? o_used(b+p) : 1;
			for (; i < 0 && (!g || p > o); i++) { if (!u) { p--; continue; } int q = p; for (size_t k = 0; k < bnd.size() && bnd[k] < p; k++) q = bnd[k]; p = q; }
			return p;
		}
	};
	Mv nc = {b, n, o, d, false, false}, gc = {b, n, o, d, false, true}, nu = {b, n, o, d, true, false}, gu = {b, n, o, d, true, true};
	const char* nm = "NulGuardedCharPtr";
	if (d+i >= 0 && i > -1000) ops<NC, NulGuardedCharPtr>(nm, o, d, i, nc);
	ops<GC, GuardedCharPtr>("GuardedCharPtr", o, d, i, gc);
	if (i > -4 && d+6*i >= 6) ops<NU, NulGuardedUTF8Ptr>("NulGuardedUTF8Ptr", o, d, i, nu);
	ops<GU, GuardedUTF8Ptr>("GuardedUTF8Ptr", o, d, i, gu);
	const char* O = T0+o; const char* D = T0+d;
	{ NC p(O, D); if (p.at_eof() != (d == n) || *p != *D) rp_fail("NulGuardedCharPtr at_eof or *"); }
	{ GC p(O, D); if (p.at_eof() != (d == n) || p.at_bot() != (d == o) || *p != *D) rp_fail("GuardedCharPtr at_eof, at_bot or *"); }
	{ NU p(O, D); if (p.at_eof() != (d == n) || *p != o_val(b+d)) rp_fail("NulGuardedUTF8Ptr at_eof or * (%X)", *p); }
	{ GU p(O, D); if (p.at_eof() != (d == n) || p.at_bot() != (d == o) || *p != o_val(b+d)) rp_fail("GuardedUTF8Ptr at_eof, at_bot or *"); }
}
static void run(const unsigned char* b, int len, int o, int d, int i)
{
	unsigned char* h = (unsigned char*)malloc(len+1); memcpy(h, b, len); h[len] = 0;
	int n = d; while (h[n]) n++;
	unsigned char* g = (unsigned char*)malloc(n+1); memcpy(g, h, n+1);
	bnd.clear(); for (int p = 0; p < n; p += o_used(g+p)) bnd.push_back(p); bnd.push_back(n);
	// the origin and the position are character boundaries
	int o1 = 0, d1 = 0; for (size_t k = 0; k < bnd.size(); k++) { if (bnd[k] <= o) o1 = bnd[k]; if (bnd[k] <= d) d1 = bnd[k]; }
	o = o1; d = d1;
	check(g, n, o, d, i);
	free(g); free(h);
}
static void rp_hint(char* l)
{
	if (*l != 'p') return;
	char* p = l+1; int back = strtol(p, &p, 10), left = strtol(p, &p, 10); long i = strtol(p, &p, 10);
	unsigned char b[20]; for (int k = 0; k < 20; k++) b[k] = strtoul(p, &p, 10);
	if (left < 11) b[8+left] = 0;
	static const long is[] = {0,1,-1,2,-2,3,-3,5,-5,30,-30};
	if (i > 1000 || i < -1000) i = i > 0 ? 1000 : -900;
	run(b, 20, 8-(back > 8 ? 8 : back), 8, i);
	for (unsigned k = 0; k < 11; k++) for (int bk = 0; bk <= 8; bk++) run(b, 20, 8-bk, 8, is[k]);
}
static void rp_search(Rng& r, double until)
{
	static const unsigned char cls[] = {0x41,0x80,0xBF,0xC3,0xC0,0xE4,0xF0,0xF9,0xFD};
	unsigned char b[40];
	while (rp_now() < until) for (int k = 0; k < 200; k++)
	{
		int n = 1+r.below(24); bool nul = false;
		for (int k = 0; k < n; k++) b[k] = r.chance(50) ? 0x80|r.below(64) : r.chance(50) ? cls[r.below(9)] : 1+r.below(127);
		for (int k = 0; k+1 < n; ) { if (r.chance(60)) { UTF8* q = (UTF8*)b+k; UCS4 c = r.chance(10) ? 0 : r.chance(50) ? 0x80+r.below(0x700) : r.below(0x10FFFF); if (!c) { b[k] = 0xC0; b[k+1] = 0x80; k += 2; } else if (k+UTF8Len(c) <= n) { UTF8Put(q, c); k = q-(UTF8*)b; } else k++; } else k++; }
		(void)nul;
		int o = r.below(n), d = o+r.below(n-o+1);
		int i = (int)r.below(13)-6; if (r.chance(10)) i = (int)r.below(60)-30; if (r.chance(2)) i = r.chance(50) ? 0x7FFFFFFF : -0x7FFFFFFF;
		run(b, n, o, d, i);
	}
}
