// Oracle for C12 to C15: strings against vectors of characters, with sharing, slices of slices, borrowed data, bookmarks, self-insertion; storage balance.
#include <strval.h>
#include "common.h"
#include <new>
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n); }
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
typedef StrVal A;
typedef std::vector<UCS4> V;
static std::string enc(const V& v)
{
	std::string s;
	for (UCS4 c : v)
		if (c < 0x80) s += (char)c;
		else if (c < 0x800) { s += (char)(0xC0|c>>6); s += (char)(0x80|(c&63)); }
		else if (c < 0x10000) { s += (char)(0xE0|c>>12); s += (char)(0x80|((c>>6)&63)); s += (char)(0x80|(c&63)); }
		else { s += (char)(0xF0|c>>18); s += (char)(0x80|((c>>12)&63)); s += (char)(0x80|((c>>6)&63)); s += (char)(0x80|(c&63)); }
	return s;
}
static std::string show(const V& v) { std::string s = "["; char b[16]; for (size_t i = 0; i < v.size() && i < 40; i++) { snprintf(b, 16, i ? " %x" : "%x", v[i]); s += b; } return s+(v.size() > 40 ? " ...]" : "]"); }
static std::string bytesof(const A& a) { StrValIndex n = 0; const char* p = a.asUTF8(n); return std::string(p, n); }
static void same(const A& a, const V& v, const char* what)
{
	std::string w = enc(v);
	if (a.length() != v.size()) rp_fail("%s: %u characters, expected %s", what, a.length(), show(v).c_str());
	if (a.numBytes() != w.size()) rp_fail("%s: %u bytes, expected %s", what, a.numBytes(), show(v).c_str());
	std::string g = bytesof(a);
	if (g != w) rp_fail("%s: bytes %s, expected %s", what, rp_hex(g.data(), g.size()).c_str(), rp_hex(w.data(), w.size()).c_str());
	for (size_t i = 0; i < v.size(); i++) if (a[i] != v[i]) rp_fail("%s: character %zu is %x, expected %s", what, i, a[i], show(v).c_str());
	if (a[v.size()] != 0) rp_fail("%s: character after the last is %x", what, a[v.size()]);
	for (size_t i = v.size(); i-- > 0;) if (a[i] != v[i]) rp_fail("%s: character %zu backwards is %x, expected %s", what, i, a[i], show(v).c_str());
}
static void eqi(long got, long want, const char* what) { if (got != want) rp_fail("%s: got %ld, expected %ld", what, got, want); }
static V sub(const V& v, size_t at, size_t n) { if (at > v.size()) at = v.size(); if (n > v.size()-at) n = v.size()-at; return V(v.begin()+at, v.begin()+at+n); }
static V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static bool has(const V& v, UCS4 c) { for (UCS4 u : v) if (u == c) return true; return false; }
#define NOPS 34
static const int NP = 6;
static std::string trace;
static const UCS4 alph[] = { 'a', 'b', 'a', 'B', '1', 0xE9, 0x3B1, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF };
static UCS4 pick(uint32_t e, int ascii) { return alph[e%(ascii ? 5 : sizeof alph/sizeof *alph)]; }
struct World
{
	A a[NP]; V v[NP];
	std::vector<char*> stat; std::vector<std::string> statw; std::vector<StrBody*> statb;
	~World() { for (int i = 0; i < NP; i++) a[i] = A(); for (size_t i = 0; i < stat.size(); i++) { delete statb[i]; free(stat[i]); } }
	A mkstatic(const V& d, bool tail) { std::string s = enc(d); char* p = (char*)malloc(s.size()+1); memcpy(p, s.data(), s.size()); p[s.size()] = tail ? '\xC3' : 0; stat.push_back(p); statw.push_back(std::string(p, s.size()+1)); StrBody* b = new StrBody(p, StrStatic, s.size()); statb.push_back(b); return A(b); }
	void flip() { for (size_t i = 0; i < stat.size(); i++) for (size_t j = 0; j+1 < statw[i].size(); j++) stat[i][j] ^= 1; }
	void chkall(const char* what)
	{
		for (int i = 0; i < NP; i++) { char b[80]; snprintf(b, 80, "%s (string %d)", what, i); same(a[i], v[i], b); }
		for (size_t i = 0; i < stat.size(); i++) if (statw[i] != std::string(stat[i], statw[i].size())) rp_fail("%s: the lent text changed", what);
	}
	void op(int o, int x, int y, unsigned p, unsigned q, unsigned e)
	{
		char b[120]; snprintf(b, 120, " op%d(%d,%d,%u,%u,%u)", o, x, y, p, q, e); trace += b;
		if (trace.size() > 7000) trace = "..."+trace.substr(trace.size()-6000);
		rp_setcase("%s", trace.c_str());
		A& s = a[x]; V& m = v[x]; unsigned n = m.size(), n2 = v[y].size();
		UCS4 c = pick(e, 0);
		unsigned pi = n ? p%n : 0, pp = p%(n+1), ql = q%(n-pp+1);
		switch (o)
		{
		case 0: s = a[y]; m = v[y]; break;
		case 1: { V t = sub(v[y], p, q); s = a[y].substr(p, q); m = t; } break;
		case 2: { V t = sub(v[y], p%(n2+1), n2); s = a[y].substr(p%(n2+1)); m = t; } break;
		case 3: { unsigned k = p%(n2+1); V t = sub(v[y], 0, k); s = a[y].head(k); m = t; } break;
		case 4: { unsigned k = p%(n2+1); V t = sub(v[y], n2-k, k); s = a[y].tail(k); m = t; } break;
		case 5: { unsigned k = p%(n2+1); V t = sub(v[y], 0, n2-k); s = a[y].shorter(k); m = t; } break;
		case 6: { V t = cat(m, v[y]); s += a[y]; m = t; } break;
		case 7: { V t = cat(m, v[y]); s.append(a[y]); m = t; } break;
		case 8: { V t = cat(v[y], m); s.prepend(a[y]); m = t; } break;
		case 9: { V t = m; t.insert(t.begin()+pp, v[y].begin(), v[y].end()); s.insert(pp, a[y]); m = t; } break;
		case 10: s += c; m.push_back(c); break;
		case 11: { V t = v[y]; t.push_back(c); A r = a[y]+c; s = r; m = t; } break;
		case 12: { V t = cat(v[y], m); A r = a[y]+s; s = r; m = t; } break;
		case 13: { V t; for (unsigned i = 0; i < q%4; i++) t = cat(t, v[y]); A r = a[y]*(int)(q%4); s = r; m = t; } break;
		case 14: { V t; for (unsigned i = 0; i < q%14; i++) t.push_back(pick(e+i*i, e&1)); std::string u = enc(t); char* z = strdup(u.c_str()); s = A(z); free(z); m = t; } break;
		case 15: { V t; for (unsigned i = 0; i < q%14; i++) t.push_back(pick(e+i*7, e&1)); std::string u = enc(t); char* z = (char*)malloc(u.size()); memcpy(z, u.data(), u.size()); s = A(z, (StrValIndex)u.size(), p%40); free(z); m = t; } break;
		case 16: { V t; for (unsigned i = 0; i < 1+q%12; i++) t.push_back(pick(e+i*5, e&1)); s = mkstatic(t, p&1); m = t; } break;
		case 17: s = A(c); m = V(1, c); break;
		case 18: { std::string g = enc(m), w = enc(v[y]); int k = g < w ? -1 : g > w; eqi(sgn(s.compare(a[y])), k, "compare"); eqi(s == a[y], k == 0, "=="); eqi(s != a[y], k != 0, "!="); eqi(s < a[y], k < 0, "<"); eqi(s <= a[y], k <= 0, "<="); eqi(s > a[y], k > 0, ">"); eqi(s >= a[y], k >= 0, ">="); eqi(A::equiv(s, a[y]), k == 0, "equiv"); eqi(A::compare(s, a[y]), k > 0, "static compare"); } break;
		case 19: { int after = (int)(p%(n+2))-1, w = -1; UCS4 ch = q&1 && n ? m[e%n] : c; for (int i = after+1; i < (int)n; i++) if (m[i] == ch) { w = i; break; } eqi(s.find(ch, after), w, "find"); } break;
		case 20: { int bef = (int)(p%(n+2))-1, w = -1; UCS4 ch = q&1 && n ? m[e%n] : c; for (int i = (bef < 0 ? (int)n : bef)-1; i >= 0; i--) if (m[i] == ch) { w = i; break; } eqi(s.rfind(ch, bef), w, "rfind"); } break;
		case 21: { int after = (int)(p%(n+2))-1, w = -1; for (int i = after+1; i+n2 <= n; i++) if (sub(m, i, n2) == v[y]) { w = i; break; } eqi(s.find(a[y], after), w, "find text"); } break;
		case 22: { int bef = (int)(p%(n+2))-1, w = -1; for (int i = n < n2 ? -1 : bef < 0 || bef-1 > (int)(n-n2) ? (int)(n-n2) : bef-1; i >= 0; i--) if (sub(m, i, n2) == v[y]) { w = i; break; } eqi(s.rfind(a[y], bef), w, "rfind text"); } break;
		case 23: { int after = (int)(p%(n+2))-1, w = -1, u = -1; for (int i = after+1; i < (int)n; i++) if (has(v[y], m[i])) { if (w < 0) w = i; } else if (u < 0) u = i; eqi(s.findAny(a[y], after), w, "findAny"); eqi(s.findNot(a[y], after), u, "findNot"); } break;
		case 24: { int bef = (int)(p%(n+2))-1, w = -1, u = -1; for (int i = (bef < 0 ? (int)n : bef)-1; i >= 0; i--) if (has(v[y], m[i])) { if (w < 0) w = i; } else if (u < 0) u = i; eqi(s.rfindAny(a[y], bef), w, "rfindAny"); eqi(s.rfindNot(a[y], bef), u, "rfindNot"); } break;
		case 25: { const char* z = s.asUTF8(); std::string w = enc(m); if (memcmp(z, w.c_str(), w.size()+1)) rp_fail("asUTF8: %s, expected %s", rp_hex(z, w.size()+1).c_str(), show(m).c_str()); } break;
		case 26: eqi(s.length(), n, "length"); eqi(s.isEmpty(), n == 0, "isEmpty"); if (n) eqi(s[pi], m[pi], "operator[]"); break;
		case 27: s = s.substr(pp, ql); m = sub(m, pp, ql); break;		// often the sole user of part of a body
		case 28: { V t = m; t.insert(t.begin()+pp, m.begin(), m.end()); s.insert(pp, s); m = t; } break;
		case 29: { V t = sub(m, pp, ql); V u = m; u.insert(u.begin()+pi, t.begin(), t.end()); s.insert(pi, s.substr(pp, ql)); m = u; } break;
		case 30: { A d = s.substr(0, pp); A f = s.substr(pp); d += f; same(d, m, "rejoined substrings"); A g = s.substr(pp); g.insert(0, s.substr(0, pp)); same(g, m, "rejoined substrings"); A h = s.substr(0, pp)+s.substr(pp); same(h, m, "rejoined substrings"); } break;
		case 31: { StrRef r = a[y]; StrRef t(r); s = A(t); m = v[y]; StrRef k; k = r; eqi(k.length(), n2, "StrRef length"); } break;
		case 32: { const char* z = "\xE2\x82\xACuro"; V t; t.push_back(0x20AC); t.push_back('u'); t.push_back('r'); t.push_back('o'); A r = e&1 ? z+s : s+z; m = e&1 ? cat(t, m) : cat(m, t); s = r; } break;
		case 33: { A k(s); V t = m; flip(); same(k, m, "a copy, when the lent text changes"); flip(); k += c; t.push_back(c); same(k, t, "changed copy"); } break;
		}
		if (m.size() > 120) { s = A(); m.clear(); }
		chkall("after the operation");
		rp_evals++;
	}
};
static void rp_hint(char* l)
{
	// len_a off_a body_a shared b_kind len_b p q e: every operation around the verifier's state
	int la, off, bl, sh, kind, lb; unsigned p, q; int e;
	if (sscanf(l, "%d %d %d %d %d %d %u %u %d", &la, &off, &bl, &sh, &kind, &lb, &p, &q, &e) != 9) return;
	if (bl > 60) bl = 60; if (lb > 60) lb = 60;
	for (int o = 0; o < NOPS; o++) for (int var = 0; var < 4; var++)
	{
		long l0 = live; trace = "hint";
		{
			World w; V d; for (int i = 0; i < bl; i++) d.push_back(pick(i*3+var, var&1));
			std::string u = enc(d);
			if (bl) w.a[0] = kind == 1 ? w.mkstatic(d, var&1) : A(u.c_str(), (StrValIndex)u.size(), u.size()+(var&1 ? 8 : 0)); w.v[0] = d;
			V d2; for (int i = 0; i < lb; i++) d2.push_back(pick(i+var, var&1)); if (lb) w.a[1] = A(enc(d2).c_str()); w.v[1] = d2;
			w.op(27, 0, 0, off, la, e);
			if (sh) w.op(0, 2, 0, 0, 0, 0);
			w.op(o, 0, var&2 ? 0 : 1, p, q, e);
			w.op(10, 0, 1, 0, 0, 3);
		}
		std::string().swap(trace);
		if (live != l0) { rp_fail("storage not balanced: %ld blocks leaked after %s", live-l0, rp_case); }
	}
}
static void rp_search(Rng& r, double until)
{
	while (rp_now() < until)
	{
		alarm(20);
		trace.clear(); trace.shrink_to_fit(); trace.reserve(9000);
		long l0 = live;
		{
			World w;
			int steps = 1+r.below(30);
			for (int k = 0; k < steps; k++)
			{
				int big = r.chance(10) ? 40 : 9;
				int o = r.chance(20) ? 14+r.below(3) : r.below(NOPS);
				w.op(o, r.below(NP), r.below(NP), r.below(big), r.below(big), r.u()>>8);
			}
		}
		if (live != l0 && trace.capacity() < 9100) rp_fail("storage not balanced: %ld blocks too many at the end of the sequence", live-l0);
	}
}
