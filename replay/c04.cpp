#include "common.h"
#include <char_encoding.h>
static void check_ch(uint32_t c)
{
	RP_TICK();
	if (c >= 0x110000 || (c >= 0xD800 && c <= 0xDFFF)) return;
	rp_setcase("character 0x%X", c);
	int n = c < 0x10000 ? 1 : 2; uint16_t e[2] = { (uint16_t)c, 0 };
	if (n == 2) { uint32_t x = c-0x10000; e[0] = 0xD800|(x>>10); e[1] = 0xDC00|(x&0x3FF); }
	if (UTF16Len((UCS4)c) != n) rp_fail("UTF16Len(0x%X)=%d", c, UTF16Len((UCS4)c));
	for (int sw = 0; sw < 2; sw++)
	{
		UTF16 b[6] = {0x5A5A,0x5A5A,0x5A5A,0x5A5A,0x5A5A,0x5A5A}; UTF16* p = b+2; UTF16Put(p, (UCS4)c, sw);
		if (p-(b+2) != n) rp_fail("UTF16Put(0x%X, swap=%d) wrote %d units", c, sw, (int)(p-(b+2)));
		for (int k = 0; k < n; k++) { uint16_t x = sw ? (e[k]>>8)|(e[k]<<8) : e[k]; if (b[2+k] != x) rp_fail("UTF16Put(0x%X, swap=%d) unit %d is 0x%04X, expected 0x%04X", c, sw, k, b[2+k], x); }
		for (int k = 0; k < 6; k++) if ((k < 2 || k >= 2+n) && b[k] != 0x5A5A) rp_fail("UTF16Put wrote outside");
		for (int k = 0; k < n; k++) b[2+k] = sw ? (e[k]>>8)|(e[k]<<8) : e[k];
		const UTF16* q = b+2; if (UTF16Len(q, sw) != n) rp_fail("UTF16Len(ptr, swap=%d)=%d for 0x%X", sw, UTF16Len(q, sw), c);
		UCS4 g = UTF16Get(q, sw); if ((uint32_t)g != c || q != p) rp_fail("UTF16Get(0x%X, swap=%d)=0x%X consuming %d", c, sw, (uint32_t)g, (int)(q-(b+2)));
	}
}
static void rp_hint(char* l) { if (!strncmp(l, "ch ", 3)) check_ch(strtoul(l+3, 0, 10)); }
static void rp_search(Rng& r, double until) { for (uint32_t c = 0; c < 0x110000; c++) check_ch(c); }
