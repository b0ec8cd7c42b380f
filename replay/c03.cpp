#include "common.h"
#include <char_encoding.h>
static int o_lead(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; }
static int o_used(const unsigned char* b) { int n = o_lead(b[0]); if (!n) return 1; for (int k = 1; k < n; k++) if ((b[k]&0xC0) != 0x80) return 1; return n; }
// text: len bytes + NUL.  Every boundary reached stepping forward from start must be undone by UTF8Backup.
static void check_text(const unsigned char* b, int len)
{
	RP_TICK();
	rp_setcase("text %s", rp_hex(b, len).c_str());
	char* h = (char*)malloc(len+1); memcpy(h, b, len); h[len] = 0;
	const unsigned char* u = (const unsigned char*)h;
	for (int start = 0; start < len; start++)
	{
		int p = start;
		while (p < len)
		{
			int q = p+o_used(u+p);
			const UTF8* r = UTF8Backup(h+q, h+start);
			if (r != h+p) rp_fail("UTF8Backup from offset %d with limit %d gives %d, forward stepping came from %d", q, start, r ? (int)(r-h) : -1, p);
			const UTF8* g = h+p; UTF8Get(g); if (g != h+q) rp_fail("UTF8Get from %d goes to %d, expected %d", p, (int)(g-h), q);
			if (start == 0 && q >= 6) { r = UTF8Backup(h+q); if (r != h+p) rp_fail("UTF8Backup from offset %d without limit gives %d, expected %d", q, r ? (int)(r-h) : -1, p); }
			p = q;
		}
		if (UTF8Backup(h+start, h+start)) rp_fail("UTF8Backup at its limit must return 0");
	}
	free(h);
}
static void rp_hint(char* l)
{
	unsigned char b[64]; int n = 0; char* p = l+4; long lim = strtol(p, &p, 10); (void)lim;
	while (n < 60 && *p) b[n++] = strtoul(p, &p, 10);
	for (int s = 0; s < n; s++) for (int e = s+1; e <= n; e++) check_text(b+s, e-s);
	for (int i = 0; i < n; i++) if (!b[i]) b[i] = 'z';
	for (int s = 0; s < n; s++) for (int e = s+1; e <= n; e++) check_text(b+s, e-s);
}
static void rp_search(Rng& r, double until)
{
	static const unsigned char cls[] = {0x41,0x80,0xBF,0xC3,0xE4,0xF0,0xF9,0xFD};
	unsigned char b[16];
	for (int n = 1; n <= 6; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 8; for (long c = 0; c < tot && rp_now() < until; c++) { long x = c; for (int i = 0; i < n; i++) { b[i] = cls[x%8]; x /= 8; } check_text(b, n); } }
	while (rp_now() < until) for (int i = 0; i < 200; i++) { int n = 1+r.below(14); for (int k = 0; k < n; k++) b[k] = r.chance(60) ? 0x80|r.below(64) : r.chance(60) ? 0xC0|r.below(64) : 1+r.below(127); check_text(b, n); }
}
