#include "common.h"
#include <pegexp.h>
// oracle: decode as the documentation says
static int o_lead(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; }
static int o_dec(const unsigned char* b, uint32_t& v)
{
	int n = o_lead(b[0]); static const unsigned char m[] = {0,0x7F,0x1F,0x0F,0x07,0x03,0x03};
	if (n) { uint32_t x = b[0]&m[n]; int k = 1; for (; k < n; k++) { if ((b[k]&0xC0) != 0x80) break; x = (x<<6)|(b[k]&0x3F); } if (k == n) { v = x; return n; } }
	v = 0x80000000u|b[0]; return 1;
}
struct Pos { long off, line, col; };
template<class S> static void state(S& s, const S& origin, Pos p, const char* what)
{
	if (s.current_byte() != p.off) rp_fail("%s: byte count %ld, expected %ld", what, (long)s.current_byte(), p.off);
	if (s.current_line() != p.line) rp_fail("%s: line %ld, expected %ld", what, (long)s.current_line(), p.line);
	if (s.current_column() != p.col) rp_fail("%s: column %ld, expected %ld", what, (long)s.current_column(), p.col);
	if (s.at_bol() != (p.col == 1)) rp_fail("%s: at_bol", what);
	if ((long)s.bytes_from(origin) != p.off) rp_fail("%s: bytes_from", what);
	S o(origin);
	if (s-o != p.off) rp_fail("%s: difference", what);
	if (s.same(o) != (p.off == 0) || (o < s) != (p.off > 0) || s < o) rp_fail("%s: comparison", what);
	if (s.is_null()) rp_fail("%s: is_null", what);
}
template<class S> static void walk(const unsigned char* b, int len, uint64_t ops, bool bytes)
{
	RP_TICK();
	rp_setcase("text %s ops %llx", rp_hex(b, len).c_str(), (unsigned long long)ops);
	char* h = (char*)malloc(len+1); memcpy(h, b, len); h[len] = 0;
	S origin(h), s(h); Pos p = {0, 1, 1};
	state(s, origin, p, "at the start");
	for (int k = 0; k < 2*len+4; k++, ops = (ops>>1)|(ops<<63))
	{
		bool eof = h[p.off] == 0, byte = bytes || (ops&1);
		if (s.at_eof() != eof) rp_fail("at_eof %d at offset %ld", s.at_eof(), p.off);
		uint32_t v; int n = 0;
		S was(s), cp; cp = s; Pos before = p;
		if (!eof) { unsigned char t[8] = {0}; memcpy(t, h+p.off, len-p.off < 7 ? len-p.off+1 : 7); n = o_dec(t, v); if (byte) n = 1, v = t[0]; }
		uint32_t g = (ops&1) ? (uint32_t)(unsigned char)s.get_byte() : bytes ? (uint32_t)(unsigned char)s.get_char() : (uint32_t)s.get_char();
		if (eof) { uint32_t none = byte ? 0 : 0xFFFFFFFFu; if (g != none) rp_fail("at the end: returned 0x%X", g); }
		else
		{
			if (g != v) rp_fail("offset %ld: returned 0x%X, expected 0x%X", p.off, g, v);
			p.off += n;
			if (v == '\n') p.line++, p.col = 1; else p.col++;
		}
		state(s, origin, p, byte ? "after get_byte" : "after get_char");
		state(was, origin, before, "the copy");
		state(cp, origin, before, "the assigned copy");
		if (ops&2) { (void)was.get_byte(); state(s, origin, p, "after moving a copy"); }
	}
	S nul; if (!nul.is_null() || !nul.at_eof()) rp_fail("null source");
	if (nul.get_byte() != 0 || !nul.is_null() || nul.current_byte() || nul.current_line() != 1 || nul.current_column() != 1) rp_fail("reading a null source");
	nul.get_char(); if (!nul.is_null()) rp_fail("null source after get_char");
	free(h);
}
static void both(const unsigned char* b, int len, uint64_t ops)
{
	walk<PegexpPointerSource<> >(b, len, ops, false);
	walk<PegexpPointerSource<const UTF8*, char> >(b, len, ops, true);
}
static void rp_hint(char* line)
{
	unsigned char b[16]; int n = 0; char* t = strtok(line, " ");
	while ((t = strtok(0, " ")) && n < 12) { b[n] = atoi(t); if (!b[n]) break; n++; }
	for (int o = 0; o < 16; o++) both(b, n, 0x1111111111111111ull*o);
}
static void rp_search(Rng& r, double until)
{
	static const unsigned char pool[] = {'\n','\n','a','b',' ',0x7F,0x80,0xBF,0xC3,0xA9,0xC0,0x8A,0xE2,0x82,0xAC,0xF0,0x9F,0x98,0x80,0xF8,0xFC,0xFD,0xFE,0xFF,'\r'};
	while (rp_now() < until)
	{
		unsigned char b[24]; int n = r.below(20);
		for (int k = 0; k < n; k++) { b[k] = r.chance(80) ? pool[r.below(sizeof pool)] : 1+r.below(255); }
		both(b, n, r.chance(30) ? 0 : r.next());
	}
}
