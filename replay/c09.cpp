// Oracle for C09/C10: arrays against std::vector, with sharing, slices of slices, borrowed data, self-insertion; storage balance.
#include <array.h>
#include "common.h"
#include <new>
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n); }
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
typedef Array<int> A;
typedef ArrayBody<int, ArrayIndex> B;
typedef std::vector<int> V;
static bool pred(int e) { return e%3 == 1; }
static int mapf(int e) { return e*7+3; }
static V val(const A& a) { V v; for (unsigned i = 0; i < a.length(); i++) v.push_back(a[i]); return v; }
static std::string show(const V& v) { std::string s = "["; char b[16]; for (size_t i = 0; i < v.size() && i < 40; i++) { snprintf(b, 16, i ? " %d" : "%d", v[i]); s += b; } return s+(v.size() > 40 ? " ...]" : "]"); }
static void same(const A& a, const V& v, const char* what) { if (a.length() != v.size() || val(a) != v) rp_fail("%s: got %s, expected %s", what, show(val(a)).c_str(), show(v).c_str()); }
static void eqi(long got, long want, const char* what) { if (got != want) rp_fail("%s: got %ld, expected %ld", what, got, want); }
static V sub(const V& v, size_t at, size_t n) { if (at > v.size()) at = v.size(); if (n > v.size()-at) n = v.size()-at; return V(v.begin()+at, v.begin()+at+n); }
static V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
#define NOPS 44
static const int NP = 6;
static std::string trace;
struct World
{
	A a[NP]; V v[NP];
	std::vector<int*> stat; std::vector<B*> statb;
	~World() { for (int i = 0; i < NP; i++) a[i] = A(); for (size_t i = 0; i < stat.size(); i++) { delete statb[i]; free(stat[i]); } }
	A mkstatic(const V& d) { int* p = (int*)malloc(sizeof(int)*d.size()); memcpy(p, d.data(), sizeof(int)*d.size()); stat.push_back(p); B* b = new B(p, false, d.size()); statb.push_back(b); return A(b); }
	void chkall(const char* what) { for (int i = 0; i < NP; i++) { char b[80]; snprintf(b, 80, "%s (array %d)", what, i); same(a[i], v[i], b); } }
	// one operation; x, y: operands; p, q: positions; e: an element
	void op(int o, int x, int y, unsigned p, unsigned q, int e)
	{
		char b[120]; snprintf(b, 120, " op%d(%d,%d,%u,%u,%d)", o, x, y, p, q, e); trace += b;
		if (trace.size() > 7000) trace = "..."+trace.substr(trace.size()-6000);
		rp_setcase("%s", trace.c_str());
		A& s = a[x]; V& m = v[x]; unsigned n = m.size(), n2 = v[y].size(); int z = y;
		unsigned pi = n ? p%n : 0, pp = p%(n+1), ql = q%(n-pp+1);
		switch (o)
		{
		case 0: s = a[y]; m = v[y]; break;
		case 1: { V t = sub(v[y], p, q); s = a[y].slice(p, q); m = t; } break;
		case 2: { V t = sub(v[y], p%(n2+1), n2); s = a[y].slice(p%(n2+1)); m = t; } break;
		case 3: { V t = sub(v[y], 0, p); s = a[y].head(p); m = t; } break;
		case 4: { unsigned k = p%(n2+1); V t = sub(v[y], n2-k, k); s = a[y].tail(k); m = t; } break;
		case 5: { unsigned k = p%(n2+1); V t = sub(v[y], 0, n2-k); s = a[y].shorter(k); m = t; } break;
		case 6: { unsigned k = p%(n2+1); V t = sub(v[y], k, n2-k); s = a[y].drop(k); m = t; } break;
		case 7: { V t = cat(m, v[y]); s += a[y]; m = t; } break;
		case 8: { V t = cat(m, v[y]); s.append(a[y]); m = t; } break;
		case 9: { V t = m; t.insert(t.begin()+pp, v[y].begin(), v[y].end()); s.insert(pp, a[y]); m = t; } break;
		case 10: s += e; m.push_back(e); break;
		case 11: s << e; m.push_back(e); break;
		case 12: s.push(e); m.push_back(e); break;
		case 13: s.append(e); m.push_back(e); break;
		case 14: s.unshift(e); m.insert(m.begin(), e); break;
		case 15: if (n) { int g = s.shift(); eqi(g, m[0], "shift"); m.erase(m.begin()); } break;
		case 16: if (n) { int g = s.pull(); eqi(g, m[n-1], "pull"); m.pop_back(); } break;
		case 17: if (n) { int g = s.delete_at(pi); eqi(g, m[pi], "delete_at"); m.erase(m.begin()+pi); } break;
		case 18: s.remove(pp, ql); m.erase(m.begin()+pp, m.begin()+pp+ql); break;
		case 19: s.remove(pp); m.erase(m.begin()+pp, m.end()); break;
		case 20: s.clear(); m.clear(); break;
		case 21: s.reverse(); m = V(m.rbegin(), m.rend()); break;
		case 22: { V t; for (int u : m) if (!pred(u)) t.push_back(u); s.delete_if(pred); m = t; } break;
		case 23: { V t; for (int u : v[y]) if (pred(u)) t.push_back(u); s = a[y].select(pred); m = t; } break;
		case 24: { V t; for (int u : v[y]) t.push_back(mapf(u)); s = a[y].map<A, int>(mapf); m = t; } break;
		case 25: if (n) { s.elem_mut(pi) = e; m[pi] = e; } break;
		case 26: if (n) { eqi(s.set(pi, e), e, "set"); m[pi] = e; } break;
		case 27: if (n) { s.last_mut() = e; m[n-1] = e; } break;
		case 28: { V t = cat(v[y], m); A r = a[y]+s; s = r; m = t; } break;
		case 29: { V t = v[y]; t.push_back(e); s = a[y]+e; m = t; } break;
		case 30: { A c; c += s.slice(0, pp); c += s.slice(pp); same(c, m, "rejoined slices"); A d = s.slice(pp); d.insert(0, s.slice(0, pp)); same(d, m, "rejoined slices"); } break;
		case 31: { V t; for (unsigned i = 0; i < q%20; i++) t.push_back((e+i)%5); s = A(t.data(), t.size(), p%30); m = t; } break;
		case 32: { V t; for (unsigned i = 0; i < 1+q%12; i++) t.push_back((e+i)%5); s = mkstatic(t); m = t; } break;
		case 33: s = A(e); m = V(1, e); break;
		case 34: { int c = s.compare(a[y]), w = m < v[z] ? -1 : v[z] < m ? 1 : 0; eqi(c, w, "compare"); eqi(s == a[y], m == v[z], "=="); eqi(s != a[y], m != v[z], "!="); } break;
		case 35: { int after = (int)(p%(n+2))-1, w = -1; for (int i = after < 0 ? 0 : after+1; i < (int)n; i++) if (m[i] == e) { w = i; break; } eqi(s.find(e, after), w, "find");
			std::function<bool(const int&)> f = [&](const int& u) { return u == e; }; eqi(s.find(f, after), w, "find by function"); } break;
		case 36: { int bef = (int)(p%(n+2))-1, w = -1; for (int i = (bef < 0 ? (int)n : bef)-1; i >= 0; i--) if (m[i] == e) { w = i; break; } eqi(s.rfind(e, bef), w, "rfind");
			std::function<bool(const int&)> f = [&](const int& u) { return u == e; }; eqi(s.rfind(f, bef), w, "rfind by function"); } break;
		case 37: { int c = 0, first = -1; for (unsigned i = 0; i < n; i++) if (pred(m[i])) { if (!c) first = i; c++; } eqi(s.all(pred), c == (int)n, "all"); eqi(s.any(pred), c > 0, "any"); eqi(s.one(pred), c == 1, "one"); eqi(s.detect(pred), first, "detect"); } break;
		case 38: { V t; s.each([&](const int& u) { t.push_back(u); }); if (t != m) rp_fail("each visited %s, expected %s", show(t).c_str(), show(m).c_str());
			long w = e; for (int u : m) w = w*31+u; eqi(s.inject<long>(e, [](long& g, const int& u) { return g*31+u; }), w, "inject"); } break;
		case 39: { V t = m; for (unsigned i = 1; i < n; i++) for (unsigned j = i; j && t[j-1] > t[j]; j--) std::swap(t[j], t[j-1]); s = A(t.data(), n); m = t;
			int g = s.bsearch([&](const int& u) { return u-e; }); bool has = false; for (int u : m) has |= u == e;
			if (has != (g >= 0)) rp_fail("bsearch for %d in %s: %d", e, show(m).c_str(), g); if (has && ((unsigned)g >= n || m[g] != e)) rp_fail("bsearch for %d in %s: index %d", e, show(m).c_str(), g); } break;
		case 40: eqi(s.length(), n, "length"); eqi(s.isEmpty(), n == 0, "isEmpty"); if (n) { eqi(s.elem(pi), m[pi], "elem"); eqi(s.elem_ref(pi), m[pi], "elem_ref"); eqi(s.asElements()[pi], m[pi], "asElements"); eqi(s.last(), m[n-1], "last"); eqi(s.last_ref(), m[n-1], "last_ref"); } break;
		case 41: s = s.slice(pp, ql); m = sub(m, pp, ql); break;		// often the sole user of part of a body
		case 42: { V t = m; t.insert(t.begin()+pp, m.begin(), m.end()); s.insert(pp, s); m = t; } break;
		case 43: { V t = sub(m, pp, ql); V u = m; u.insert(u.begin()+pi, t.begin(), t.end()); s.insert(pi, s.slice(pp, ql)); m = u; } break;
		}
		if (m.size() > 120) { s = A(); m.clear(); }
		chkall("after the operation");
		rp_evals++;
	}
};
static void rp_hint(char* l)
{
	// o len_a off_a body_a shared b_kind len_b p q e: every operation around the verifier's state
	int la, off, bl, sh, kind, lb; unsigned p, q; int e;
	if (sscanf(l, "%d %d %d %d %d %d %u %u %d", &la, &off, &bl, &sh, &kind, &lb, &p, &q, &e) != 9) return;
	for (int o = 0; o < NOPS; o++) for (int var = 0; var < 4; var++)
	{
		long l0 = live; trace = "hint";
		{
			World w; V d; for (int i = 0; i < bl; i++) d.push_back((i*3+var)%5);
			if (bl) w.a[0] = kind == 1 ? w.mkstatic(d) : A(d.data(), bl, bl+(var&1 ? 8 : 0)); w.v[0] = d;
			V d2; for (int i = 0; i < lb; i++) d2.push_back((i+var)%4); if (lb) w.a[1] = A(d2.data(), lb); w.v[1] = d2;
			w.op(41, 0, 0, off, la, e);
			if (sh) w.op(0, 2, 0, 0, 0, 0);
			w.op(o, 0, var&2 ? 0 : 1, p, q, e);
			w.op(10, 0, 1, 0, 0, 3);
		}
		std::string().swap(trace);
		if (live != l0) { rp_fail("storage not balanced: %ld blocks leaked after %s", live-l0, rp_case); }
	}
}
static void rp_search(Rng& r, double until)
{
	while (rp_now() < until)
	{
		alarm(20);
		trace.clear(); trace.shrink_to_fit(); trace.reserve(9000);
		long l0 = live;
		{
			World w;
			int steps = 1+r.below(30);
			for (int k = 0; k < steps; k++)
			{
				int big = r.chance(10) ? 40 : 9;
				int o = r.chance(15) ? (r.chance(50) ? 31 : 32) : r.below(NOPS);
				w.op(o, r.below(NP), r.below(NP), r.below(big), r.below(big), r.below(5));
			}
		}
		if (live != l0 && trace.capacity() < 9100) rp_fail("storage not balanced: %ld blocks too many at the end of the sequence", live-l0);
	}
}
