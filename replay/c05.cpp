#include "common.h"
#include <char_encoding.h>
#include <thread>
#include <atomic>
#include "c05_tables.h"
#define N(a) (sizeof(a)/sizeof(a[0]))
static std::vector<uint32_t> g_up, g_lo, g_ti; static std::vector<signed char> g_dig; static std::vector<bool> g_al;
static const uint32_t M = 0x12000;
static void init()
{
	g_up.resize(M); g_lo.resize(M); g_ti.resize(M); g_dig.assign(M, -1); g_al.assign(M, false);
	for (uint32_t c = 0; c < M; c++) g_up[c] = g_lo[c] = c;
	for (auto& r : G_UPPER) for (int c = r[0]; c <= r[1]; c++) { g_up[c] = c+r[2]; g_al[c] = true; }
	for (auto& r : G_LOWER) for (int c = r[0]; c <= r[1]; c++) { g_lo[c] = c+r[2]; g_al[c] = true; }
	g_ti = g_up; for (auto& r : G_TITLE) g_ti[r[0]] = r[0]+r[1];
	for (int c : G_NOCASE) g_al[c] = true;
	static const int z[] = {0x30,0x660,0x6F0,0x966,0x9E6,0xA66,0xAE6,0xB66,0xBE6,0xC66,0xCE6,0xD66,0xE50,0xED0,0xF20,0x1040,0x1368,0x17E0,0x1810,0xFF10};
	for (int b : z) for (int k = (b == 0xAE6 || b == 0x1368) ? 1 : 0; k < 10; k++) g_dig[b+k] = k;
	g_dig[0x3007] = 0; for (int k = 1; k < 10; k++) g_dig[0x3020+k] = k;
}
static bool o_white(uint32_t c) { return c == ' ' || c == 9 || c == 10 || c == 13 || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000; }
static std::atomic<long> mism;
static void check(uint32_t c, bool all = true)
{
	uint32_t up = c < M ? g_up[c] : c, lo = c < M ? g_lo[c] : c, ti = c < M ? g_ti[c] : c; int d = c < M ? g_dig[c] : -1; bool al = c < M && g_al[c];
	UCS4 u = c;
	uint32_t x;
	if ((x = UCS4ToUpper(u)) != up) rp_fail("UCS4ToUpper(0x%X) = 0x%X, expected 0x%X", c, x, up);
	if ((x = UCS4ToLower(u)) != lo) rp_fail("UCS4ToLower(0x%X) = 0x%X, expected 0x%X", c, x, lo);
	int y;
	if ((y = UCS4Digit(u)) != d) rp_fail("UCS4Digit(0x%X) = %d, expected %d", c, y, d);
	if (!all) return;
	if ((x = UCS4ToTitle(u)) != ti) rp_fail("UCS4ToTitle(0x%X) = 0x%X, expected 0x%X", c, x, ti);
	if (UCS4IsAlphabetic(u) != al) rp_fail("UCS4IsAlphabetic(0x%X) = %d", c, !al);
	int h = c >= 'A' && c <= 'F' ? (int)c-'A'+10 : c >= 'a' && c <= 'f' ? (int)c-'a'+10 : d;
	if ((y = UCS4HexDigit(u)) != h) rp_fail("UCS4HexDigit(0x%X) = %d, expected %d", c, y, h);
	if ((y = ASCIIDigit(u)) != (c >= '0' && c <= '9' ? (int)c-'0' : -1)) rp_fail("ASCIIDigit(0x%X) = %d", c, y);
	if (UCS4IsDecimal(u) != (d >= 0)) rp_fail("UCS4IsDecimal(0x%X)", c);
	if (UCS4IsWhite(u) != o_white(c)) rp_fail("UCS4IsWhite(0x%X)", c);
	if (UCS4IsASCII(u) != (c < 0x80) || UCS4IsASCIIPrintable(u) != (c >= ' ' && c < 0x7F) || UCS4IsLatin1(u) != (c < 0x100) || UCS4IsUnicode(u) != (c < 0x110000) || UCS4IsUTF16(u) != (c < 0x10000)) rp_fail("range predicate wrong for 0x%X", c);
	if (isalpha(u) != al || isdigit(u) != (d >= 0) || isalnum(u) != (al || d >= 0) || toupper(u) != up || tolower(u) != lo || isspace(u) != o_white(c)) rp_fail("ctype overload wrong for 0x%X", c);
}
static void rp_hint(char* l) { if (g_up.empty()) init(); if (!strncmp(l, "ch ", 3)) { uint32_t c = strtoul(l+3, 0, 10); check(c); for (uint32_t m = 0; m < M; m++) if (g_up[m] != m || g_lo[m] != m || g_dig[m] >= 0) { rp_setcase("0x%X after asking about 0x%X", c, m); check(m, false); check(c, false); } } }
static void rp_search(Rng& r, double until)
{
	if (g_up.empty()) init();
	for (uint32_t c = 0; c < M; c++) { RP_TICK(); rp_setcase("0x%X, ascending", c); check(c); }
	for (uint32_t c = M; c-- > 0;) { RP_TICK(); rp_setcase("0x%X, descending", c); check(c, false); }
	for (int s = 14; s < 32; s++) for (int d = -40; d < 40; d++) { rp_setcase("0x%X", (1u<<s)+d); check((1u<<s)+d); }
	std::vector<uint32_t> in; for (uint32_t c = 0; c < M; c++) if (g_up[c] != c || g_lo[c] != c || g_dig[c] >= 0 || g_al[c]) in.push_back(c);
	double half = until-(until-rp_now())/2;
	do for (int i = 0; i < 2000; i++)
	{
		RP_TICK();
		uint32_t a = in[r.below(in.size())], b = r.chance(60) ? in[r.below(in.size())]+r.below(3)-1 : r.chance(50) ? (a+(r.u()<<16)) : r.u();
		rp_setcase("0x%X then 0x%X", a, b); check(a, false); check(b);
	} while (rp_now() < half);
	rp_setcase("two threads asking about different characters at the same time");
	std::vector<std::thread> ts;
	for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { Rng q(r.s+t); while (rp_now() < until) for (int i = 0; i < 3000; i++) check(in[q.below(in.size())], false); });
	alarm(60); for (auto& t : ts) t.join();
}
