#include "common.h"
#include <char_encoding.h>
// independent oracle
static bool o_illegal(uint32_t c) { return (c>>8) == 0x800000 || c == 0xFFFFFFFFu; }
static int o_len(uint32_t c) { if (o_illegal(c)) return 1; return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6; }
static int o_enc(uint32_t c, unsigned char* o)
{
	int n = o_len(c);
	static const unsigned char lead[] = {0,0,0xC0,0xE0,0xF0,0xF8,0xFC};
	if (n == 1) { o[0] = (unsigned char)c; return 1; }
	for (int k = n-1; k > 0; k--) { o[k] = 0x80|(c&0x3F); c >>= 6; }
	o[0] = lead[n]|c;
	return n;
}
static int o_lead(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; }
static int o_dec(const unsigned char* b, uint32_t& v)
{
	int n = o_lead(b[0]); static const unsigned char m[] = {0,0x7F,0x1F,0x0F,0x07,0x03,0x03};
	if (n) { uint32_t x = b[0]&m[n]; int k = 1; for (; k < n; k++) { if ((b[k]&0xC0) != 0x80) break; x = (x<<6)|(b[k]&0x3F); } if (k == n) { v = x; return n; } }
	v = 0x80000000u|b[0]; return 1;
}
static void check_ch(uint32_t c)
{
	RP_TICK();
	unsigned char exp[8]; int n = o_enc(c, exp);
	rp_setcase("character 0x%X", c);
	if (UTF8Len((UCS4)c) != n) rp_fail("UTF8Len(0x%X)=%d, minimal length is %d", c, UTF8Len((UCS4)c), n);
	char buf[16]; memset(buf, 0x5A, sizeof buf); UTF8* p = buf+4; UTF8Put(p, (UCS4)c);
	if (p-(buf+4) != n) rp_fail("UTF8Put(0x%X) wrote %d bytes, expected %d", c, (int)(p-(buf+4)), n);
	if (memcmp(buf+4, exp, n)) rp_fail("UTF8Put(0x%X) wrote %s, expected %s", c, rp_hex(buf+4, n).c_str(), rp_hex(exp, n).c_str());
	for (int i = 0; i < 16; i++) if ((i < 4 || i >= 4+n) && buf[i] != 0x5A) rp_fail("UTF8Put(0x%X) wrote outside the character", c);
	if (o_illegal(c)) return;
	const UTF8* q = buf+4; UCS4 g = UTF8Get(q);
	if ((uint32_t)g != c || q != p) rp_fail("UTF8Get(UTF8Put(0x%X)) = 0x%X consuming %d of %d bytes", c, (uint32_t)g, (int)(q-(buf+4)), n);
}
static void check_bytes(const unsigned char* b, int len)	// len bytes then a NUL, in an exact heap block
{
	RP_TICK();
	rp_setcase("bytes %s", rp_hex(b, len).c_str());
	unsigned char pad[16] = {0}; memcpy(pad, b, len);
	char* h = (char*)malloc(len+1); memcpy(h, b, len); h[len] = 0;
	const UTF8* q = h; uint32_t ev; int en = o_dec(pad, ev);
	UCS4 g = UTF8Get(q);
	if ((uint32_t)g != ev || q-h != en) rp_fail("UTF8Get gives 0x%X consuming %d, expected 0x%X consuming %d", (uint32_t)g, (int)(q-h), ev, en);
	int l = UTF8Len((const UTF8*)h); if (l != en) rp_fail("UTF8Len(ptr)=%d but UTF8Get consumes %d", l, en);
	q = h; g = UTF8Peek(q); if (q != h || (uint32_t)g != ev) rp_fail("UTF8Peek gives 0x%X, moved %d", (uint32_t)g, (int)(q-h));
	if (UTF8Is1st(h[0]) != ((pad[0]&0xC0) != 0x80) || UTF8Is2nd(h[0]) == UTF8Is1st(h[0])) rp_fail("UTF8Is1st/UTF8Is2nd wrong");
	if (UTF8CorrectLen(h[0]) != o_lead(pad[0])) rp_fail("UTF8CorrectLen(0x%02X)=%d", pad[0], UTF8CorrectLen(h[0]));
	if (UTF8EncodeIllegal(h[0]) != (0x80000000u|pad[0])) rp_fail("UTF8EncodeIllegal(0x%02X)=0x%X", pad[0], (unsigned)UTF8EncodeIllegal(h[0]));
	if (en == 1 && pad[0] >= 0x80)
	{
		char o[8]; UTF8* p = o; UTF8Put(p, g); if (p-o != 1 || o[0] != h[0]) rp_fail("marker 0x%X does not re-encode to its byte", (uint32_t)g);
		if (!UCS4IsIllegal(g)) rp_fail("UCS4IsIllegal(0x%X) is false", (uint32_t)g);
	}
	free(h);
}
static void check_padded(int n)
{
	rp_setcase("UTF8PutPaddedZero length %d", n);
	char b[16]; memset(b, 0x5A, 16); UTF8* p = b; UTF8PutPaddedZero(p, n);
	int e = n < 1 ? 1 : n; const UTF8* q = b;
	if (p-b != e) rp_fail("wrote %d bytes", (int)(p-b));
	UCS4 g = UTF8Get(q); if (g != 0 || q-b != e) rp_fail("does not decode to zero in %d bytes: %s", e, rp_hex(b, e).c_str());
}
static void rp_hint(char* l)
{
	if (!strncmp(l, "ch ", 3)) check_ch(strtoul(l+3, 0, 10));
	else if (!strncmp(l, "bytes ", 6)) { unsigned char b[8]; int n = 0; char* p = l+6; while (n < 6 && *p) { b[n++] = strtoul(p, &p, 10); } int z = 0; for (int k = 0; k <= n; k++) check_bytes(b, k); }
}
static void rp_search(Rng& r, double until)
{
	for (int n = 0; n <= 6; n++) check_padded(n);
	for (int s = 0; s < 32; s++) for (int d = -300; d <= 300; d++) check_ch((1u<<s)+d);
	for (uint32_t c = 0x7FFFFE00; c < 0x80000400; c++) check_ch(c);
	unsigned char b[6];
	static const unsigned char cls[] = {0x00,0x01,0x41,0x7F,0x80,0x81,0x9F,0xA0,0xBE,0xBF,0xC0,0xC1,0xC3,0xDF,0xE0,0xE2,0xEF,0xF0,0xF4,0xF7,0xF8,0xFB,0xFC,0xFD,0xFE,0xFF};
	for (int a = 0; a < 256; a++) for (int c = 0; c < 256; c++) { b[0] = a; b[1] = c; for (int k = 0; k <= 2; k++) check_bytes(b, k); }
	for (int a = 0xC0; a < 256; a++) for (int m = 0; m < 32; m++) for (int e = 0; e < (int)sizeof cls; e++) { b[0] = a; for (int k = 1; k < 6; k++) b[k] = (m>>(k-1))&1 ? 0x80|(a*37+k*11+e)%64 : cls[e]; for (int k = 1; k <= 6; k++) check_bytes(b, k); }
	for (uint32_t c = 0; c < 0x210000 && rp_now() < until; c++) check_ch(c);
	while (rp_now() < until) for (int i = 0; i < 1000; i++)
	{
		uint32_t c = r.u(); c >>= r.below(32); check_ch(c); check_ch(r.u());
		int n = 1+r.below(6); for (int k = 0; k < n; k++) b[k] = r.chance(50) ? 0x80|r.below(64) : r.chance(50) ? cls[r.below(sizeof cls)] : r.u(); if (r.chance(70)) b[0] = 0xC0|r.below(64); check_bytes(b, n);
	}
}
