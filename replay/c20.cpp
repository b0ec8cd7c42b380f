// Pegexp on the real code against an independent reference written from the documented meaning of patterns
#include "common.h"
#include <pegexp.h>
#include <ctype.h>
typedef std::vector<int> V;
struct Cap { int name, len, fp, fs, tp, ts; bool rep; bool operator==(const Cap& o) const { return name == o.name && len == o.len && fp == o.fp && fs == o.fs && tp == o.tp && ts == o.ts && rep == o.rep; } };
typedef std::vector<Cap> Caps;
static std::string show(const Caps& c) { std::string s; char b[200]; for (size_t i = 0; i < c.size(); i++) { snprintf(b, 200, "{name %d+%d pattern %d-%d text %d-%d%s}", c[i].name, c[i].len, c[i].fp, c[i].tp, c[i].fs, c[i].ts, c[i].rep ? " repeated" : ""); s += b; } return s.empty() ? "none" : s; }
static const char* P0; static const char* T0; static bool ext;
// ---- reference
static std::string pt; static V tx;	// pattern, characters of the text
static unsigned char pc(int i) { return i < (int)pt.size() ? pt[i] : 0; }
static bool isx(unsigned char c) { return (c && strchr("~@#%_;<`", c)) || (c > 0 && c < 32); }
static int hx(unsigned char c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'A' && c <= 'F' ? c-'A'+10 : c >= 'a' && c <= 'f' ? c-'a'+10 : -1; }
static unsigned lit(int p, int& e)
{
	if (!pc(p)) { e = p; return 0; }
	if (pc(p) != '\\') { e = p+1; return (unsigned)(int)(signed char)pc(p); }
	unsigned char c = pc(p+1);
	if (!c) { e = p+1; return 0; }
	e = p+2; unsigned v = 0;
	if (c >= '0' && c <= '7') { for (e = p+1; e < p+4 && pc(e) >= '0' && pc(e) <= '7'; e++) v = v*8+pc(e)-'0'; return v; }
	if (c == 'x' || c == 'u')
	{
		bool br = pc(e) == '{'; if (br) e++;
		int n = c == 'x' ? 2 : br ? 8 : 4, k = 0;
		while (k < n && hx(pc(e)) >= 0) { v = v*16+hx(pc(e)); e++; k++; }
		if (br && pc(e) == '}' && (k || c == 'u')) e++;
		return v;
	}
	const char* z = "n\nt\tr\rb\be\033f\f";
	for (; *z; z += 2) if (*z == (char)c) return z[1];
	return (unsigned)(int)(signed char)c;
}
static bool isp(int p) { return pc(p) == '\\' && pc(p+1) && strchr("adhLUsw", pc(p+1)); }
static bool prop(unsigned char c, unsigned ch)
{
	int k = ch <= 255 ? (int)ch : 0;
	switch (c) { case 'a': return isalpha(k); case 'd': return isdigit(k); case 'h': return hx(ch < 128 ? ch : 0) >= 0; case 'L': return islower(k); case 'U': return isupper(k); case 's': return isspace(k); case 'w': return isalnum(k); }
	return false;
}
static int classend(int p, unsigned ch, bool& in)
{
	in = false; int e;
	while (pc(p) && pc(p) != ']')
	{
		if (isp(p)) { in |= prop(pc(p+1), ch); p += 2; continue; }
		unsigned a = lit(p, e), b = a;
		if (pc(e) == '-') b = lit(e+1, e);
		in |= a <= ch && ch <= b; p = e;
	}
	return pc(p) == ']' ? p+1 : p;
}
static bool name(unsigned char c) { return isalnum((int)(signed char)c) || c == '_'; }
static int skip(int p); static int seqend(int p) { while (pc(p) && pc(p) != ')') p = skip(p); return p; }
static int altend(int p) { while (pc(p) && pc(p) != ')' && pc(p) != '|') p = skip(p); return p; }
static int operand(int p) { return pc(p) == '|' ? seqend(p) : skip(p); }
static int xend(int p) { return ext && pc(p) == '@' && pc(p+1) ? p+2 : p+1; }
static int body(int p)	// end of an atom less its label
{
	unsigned char c = pc(p); int e; bool in;
	if (c == '\\') { lit(p, e); return e; }
	if (c == '[') return classend(p+1+(pc(p+1) == '^'), 0, in);
	if (c == '(') { e = seqend(p+1); return pc(e) ? e+1 : e; }
	if (c && strchr("?*+&!", c)) return operand(p+1);
	return isx(c) ? xend(p) : p+1;
}
static int label(int p, int& n) { if (pc(p) != ':') return p; for (n = p+1; name(pc(n)); ) n++; return pc(n) == ':' ? n+1 : n; }
static int skip(int p) { int n; return !pc(p) ? p : pc(p) == '|' ? altend(p+1) : label(body(p), n); }
static bool atom(int p, int& s, Caps& c, int d, int r);
static bool seq(int p, int& s, Caps& c, int d, int r, bool alt)
{
	int s0 = s; Caps c0 = c;
	while (pc(p) && pc(p) != ')' && !(alt && pc(p) == '|')) { if (!atom(p, s, c, d, r)) { s = s0; c = c0; return false; } p = operand(p); }
	return true;
}
static long steps;
static bool atom(int p, int& s, Caps& c, int d, int r)
{
	if (++steps > 20000) return false;
	int s0 = s; Caps c0 = c; bool more = s < (int)tx.size(), ok = false, in; unsigned ch = more ? tx[s] : 0; int e;
	unsigned char k = pc(p);
	if (!k) return true;
	switch (k)
	{
	case ')': ok = true; break;
	case '^': ok = s == 0 || tx[s-1] == '\n'; break;
	case '$': ok = !more || ch == '\n'; break;
	case '.': ok = more; s++; break;
	case '\\': ok = more && (isp(p) ? prop(pc(p+1), ch) : lit(p, e) == ch); s++; break;
	case '[': if (more) { bool neg = pc(p+1) == '^'; classend(p+1+neg, ch, in); ok = in != neg; s++; } break;
	case '?': atom(p+1, s, c, d, r); ok = true; break;
	case '+': if (!atom(p+1, s, c, d, r+1)) break;
	case '*': for (ok = true; steps < 20000; ) { int q = s; if (!atom(p+1, s, c, d, r+1) || s == q) break; } break;
	case '(': ok = seq(p+1, s, c, d, r, false); break;
	case '|': for (int q = p; pc(q) == '|' && !ok; q = skip(q)) ok = seq(q+1, s, c, d, r, true); break;
	case '&': ok = atom(p+1, s, c, d+1, r); s = s0; break;
	case '!': ok = !atom(p+1, s, c, d+1, r); s = s0; break;
	default:
		if (ext && k == '@') { unsigned want = pc(p+1); ok = s+1 < (int)tx.size() && (unsigned)tx[s] == want && (unsigned)tx[s+1] == want && want; if (ok) s += 2; break; }
		ok = more && (unsigned)(int)(signed char)k == ch; s++; break;
	}
	if (!ok) { s = s0; c = c0; return false; }
	if (k != '|' && pc(e = body(p)) == ':' && !d) { int n, x = label(e, n); Cap q = { e+1, n-e-1, p, s0, x, s, r > 0 }; c.push_back(q); }
	return true;
}
// ---- the real code
template<class Ch> struct Cx
{
	typedef PegexpPointerSource<const UTF8*, Ch> Source; typedef PegexpState<Source> State; typedef PegexpDefaultMatch<State> Match;
	int capture_disabled, repetition_nesting; Caps caps;
	Cx() : capture_disabled(0), repetition_nesting(0) {}
	int capture_count() const { return caps.size(); }
	static int off(Source s) { return s.current_byte(); }
	int capture(PatternP n, int l, Match m, bool r) { Cap c = { (int)(n-P0), l, (int)(m.from.pattern-P0), off(m.from.source), (int)(m.to.pattern-P0), off(m.to.source), r }; caps.push_back(c); return caps.size(); }
	void rollback_capture(int n) { if (n < 0 || n > (int)caps.size()) rp_fail("rolls back to capture %d of %d", n, (int)caps.size()); caps.resize(n); }
	void record_failure(PatternP, PatternP, Source) {}
	Match match_failure(State a) { return Match(a, a); }
	Match match_result(State a, State b) { return Match(a, b); }
};
template<class Ch> struct Px : Pegexp<Cx<Ch>>
{
	typedef Pegexp<Cx<Ch>> B; typedef typename B::State State; typedef typename B::Context Context;
	Px(PatternP p) : B(p) {}
	bool match_extended(State& s, Context* c)
	{
		if (!ext || *s.pattern != '@') return B::match_extended(s, c);
		char want = s.pattern[1];
		for (int i = 0; i < 2; i++) if (s.source.at_eof() || !want || s.source.get_char() != (Ch)want) return false;
		s.pattern += 2; return true;
	}
	void skip_extended(PatternP& p) { if (!ext || *p != '@') return B::skip_extended(p); p += p[1] ? 2 : 1; }
	using B::match_atom; using B::skip_atom; using B::literal_char; using B::match_sequence;
};
static V bytes;	// byte offset of each character
template<class Ch> static void one(bool utf)
{
	typedef Px<Ch> X; typedef typename X::Source S; typedef typename X::State St;
	X x(P0);
	int n = pt.size(), L = tx.size();
	Caps base(1); memset(&base[0], 0, sizeof(Cap)); base[0].name = -7;
	for (int p = 0; p <= n; p++)
	{
		PatternP q = P0+p; int e;
		if (pc(p)) {
			unsigned w = lit(p, e); Ch g = x.literal_char(q);
			if (q-P0 != e) rp_fail("literal at %d ends at %d, expected %d", p, (int)(q-P0), e);
			if ((Ch)w != g) rp_fail("literal at %d is %x, expected %x", p, (unsigned)g, w);
		}
		q = P0+p; x.skip_atom(q);
		if (q-P0 != skip(p)) rp_fail("skipping the atom at %d ends at %d, expected %d", p, (int)(q-P0), skip(p));
	}
	for (int p = 0; p <= n; p++) for (int s = 0; s <= L; s++) for (int mode = 0; mode < 2; mode++)
	{
		if (p && s && mode && (p+s)%3) continue;
		S src(T0); for (int i = 0; i < s; i++) src.get_char();
		Cx<Ch> cx; cx.caps = base; cx.capture_disabled = mode; cx.repetition_nesting = mode == 0 && (p&1);
		int rn = cx.repetition_nesting;
		St st(P0+p, src); Caps want = base; int ws = s; steps = 0;
		bool wok = atom(p, ws, want, mode, rn), ok;
		if (steps >= 20000) return;
		ok = x.match_atom(st, &cx);
		for (size_t i = 1; i < want.size(); i++) { want[i].fs = bytes[want[i].fs]; want[i].ts = bytes[want[i].ts]; }
		if (ok != wok) rp_fail("the atom at %d, text position %d: %s, expected %s", p, s, ok ? "matches" : "fails", wok ? "match" : "failure");
		int wp = ok ? operand(p) : p;
		if (st.pattern-P0 != wp) rp_fail("the atom at %d: then at %d of the pattern, expected %d", p, (int)(st.pattern-P0), wp);
		if (st.source.current_byte() != bytes[ws]) rp_fail("the atom at %d, text position %d: then at %d of the text, expected %d", p, s, (int)st.source.current_byte(), bytes[ws]);
		if (!(cx.caps == want)) rp_fail("the atom at %d, text position %d: captures %s, expected %s", p, s, show(cx.caps).c_str(), show(want).c_str());
		if (cx.capture_disabled != mode || cx.repetition_nesting != rn) rp_fail("the atom at %d: nesting counts %d %d, expected %d %d", p, cx.capture_disabled, cx.repetition_nesting, mode, rn);
	}
	// the whole pattern, searched for
	for (int here = 0; here < 2; here++)
	{
		S src(T0); Cx<Ch> cx; cx.caps = base;
		int at = -1, to = 0, e = seqend(0); Caps want = base;
		for (int s = 0; s <= (here ? 0 : L) && at < 0; s++) { Caps c = base; int t = s; steps = 0; if (seq(0, t, c, 0, 0, false) && !pc(e)) at = s, to = t, want = c; if (steps >= 20000) return; }
		typename X::Match m = here ? x.match_here(src, &cx) : x.match(src, &cx);
		for (size_t i = 1; i < want.size(); i++) { want[i].fs = bytes[want[i].fs]; want[i].ts = bytes[want[i].ts]; }
		if (m.is_failure() != (at < 0)) rp_fail("%s: %s, expected %s", here ? "match_here" : "match", m.is_failure() ? "failure" : "match", at < 0 ? "failure" : "match");
		if (at >= 0)
		{
			if (m.from.source.current_byte() != bytes[at] || m.to.source.current_byte() != bytes[to]) rp_fail("match is at %d-%d, expected %d-%d", (int)m.from.source.current_byte(), (int)m.to.source.current_byte(), bytes[at], bytes[to]);
			if (m.from.pattern != P0 || m.to.pattern-P0 != e) rp_fail("match of pattern %d-%d, expected 0-%d", (int)(m.from.pattern-P0), (int)(m.to.pattern-P0), e);
			if (src.current_byte() != bytes[here ? to : at]) rp_fail("the source is left at %d, expected %d", (int)src.current_byte(), bytes[here ? to : at]);
		}
		else if (src.current_byte() != (here ? 0 : bytes[L])) rp_fail("after a failure the source is at %d", (int)src.current_byte());
		if ((at >= 0 || !pc(e)) && !(cx.caps == want)) rp_fail("captures %s, expected %s", show(cx.caps).c_str(), show(want).c_str());
	}
}
static void check(const std::string& p, const V& t)
{
	RP_TICK();
	pt = p; tx = t;
	char* pb = (char*)malloc(p.size()+1); memcpy(pb, p.c_str(), p.size()+1);
	char* tb = (char*)malloc(t.size()*6+1); char* o = tb; bytes.clear(); bool b7 = true;
	for (size_t i = 0; i < t.size(); i++) { bytes.push_back(o-tb); UTF8Put(o, t[i]); b7 &= t[i] < 128; }
	bytes.push_back(o-tb); *o++ = 0; tb = (char*)realloc(tb, o-tb);
	P0 = pb; T0 = tb;
	rp_setcase("pattern %s(\"%s\") text \"%s\"%s", p.size() < 60 ? rp_hex(p.data(), p.size()).c_str() : "", p.c_str(), tb, ext ? " extended" : "");
	int e; for (int i = 0; i < (int)p.size(); i++) b7 &= lit(i, e) < 128;
	one<UCS4>(true);
	if (b7) one<char>(false);
	free(pb); free(tb);
}
static const char* TX[] = { "", "a", "b", "ab", "aab", "aabb", "ba", "1", "a1", "\n", "a\nb", "x", "cd", "abcd", "\xC3\xA9", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF", ":", "\001", "@", "bb", ")", "|", "!", "]", "z-", "xyz", "cdx", "aaa" };
static void all(const std::string& p) { for (ext = false; ; ext = true) { for (size_t i = 0; i < sizeof TX/sizeof *TX; i++) { V t; const UTF8* c = TX[i]; while (*c) t.push_back(UTF8Get(c)); check(p, t); } if (ext) break; } ext = false; }
static void rp_hint(char* l)
{
	std::string p; char* s = l; while (*s) { long v = strtol(s, &s, 10); if (v <= 0 || v >= 128) break; p += (char)v; while (*s == ' ') s++; }
	for (size_t k = p.size(); ; k--) { all(p.substr(0, k)); all(p.substr(0, k)+"a"); if (!k) break; }
}
static const char* PC[] = { "a", "b", "ab", "c", "d", "x", "1", ".", "^", "$", "\\d", "\\a", "\\h", "\\L", "\\U", "\\s", "\\w", "\\n", "\\x61", "\\x6", "\\x{61}", "\\x{", "\\xg", "\\u0061", "\\u{1F600}", "\\u{", "\\141", "\\1", "\\\\", "\\", "[ab]", "[^a]", "[a-c]", "[\\d-]", "[^\\w]", "[\\n-b]", "[", "[a", "[a-", "[^", "[]", "[\\", "]", "-", "?", "*", "+", "?", "*", "+", "(", ")", "(", ")", "|", "|", "|", "&", "!", "&", "!", ":", ":x", ":xy:", ":_1:", "::", "@", "@a", "@b", "~", "\001", "<", ";", "`", "_", "{", "}" };
static void rp_search(Rng& r, double until)
{
	static const char* seed[] = { "", "&", "!", "*", "?", "+", "|", "&|x", "!?ab", "!*ab", "!+ab", "?*ab", "*((|a|)b)c", "?|ab|cd", "!|ab|cd", "&|ab|cd", "*(|ab|cd)", "*?ab", "??ab", "*|ab|cd", "(|ab|?|cd|ef|gh)x", "+|a|bc", "?[\\d-]yx", "&a:b::c:d", "&(a", "a:x*(b:y|c:z)", "*a:x", "+(a:x b:y)", "+(a:xb:y)", "!(a:x)b:y", "*(a:x?(b:yc))", "(a:xb:y)|c", "|a:xb:y|a:z", "|a:xb|a:yc|a:z", "?(a:xc)a:y", "+(a:xb:y):z", "\\a", "[\\a]", "a)b", "a:x)", "*()", "*(?a)", "+?a", "*|a|b" };
	for (size_t i = 0; i < sizeof seed/sizeof *seed; i++) { if (rp_now() > until) return; all(seed[i]); }
	while (rp_now() < until)
	{
		std::string p; int n = 1+r.below(8);
		for (int i = 0; i < n; i++) { p += PC[r.below(sizeof PC/sizeof *PC)]; if (r.chance(20)) { static const char* lb[] = { ":x", ":y:", ":z:", ":" }; p += lb[r.below(4)]; } }
		ext = r.chance(30);
		for (int k = 0; k < 6; k++)
		{
			static const int ch[] = { 'a', 'b', 'a', 'b', 'c', 'd', 'x', '1', '\n', 'A', ' ', ':', ')', '@', 1, 0xE9, 0x20AC, 0x1F600, 0x10FFFF };
			V t; int m = r.below(6); for (int i = 0; i < m; i++) t.push_back(ch[r.below(r.chance(70) ? 8 : 19)]);
			check(p, t);
		}
	}
}
