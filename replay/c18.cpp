// Oracle for C18: CowMaps against std::map, with sharing; storage balance.
#include <atomic>
#include <map>
#include <new>
#include <assert.h>
#include <cowmap.h>
#include "common.h"
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n); }
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
typedef CowMap<int, int> M;
typedef std::map<int, int> S;
static bool pred(int k, int v) { return (k*5+v)%3 == 1; }
static const int NV = 5;
static std::string trace;
static std::string show(const S& s) { std::string r = "{"; for (auto& e : s) r += " "+std::to_string(e.first)+":"+std::to_string(e.second); return r+" }"; }
static S val(const M& m) { S s; size_t n = 0; int last = 0; for (M::Iter i = m.begin(); i != m.end(); i++) { if (n && i->first <= last) rp_fail("iteration is not in key order"); last = i->first; s[i->first] = i->second; n++; } if (n != m.size()) rp_fail("size %zu, %zu entries", m.size(), n); return s; }
static void same(const M& m, const S& s, const char* what) { if (val(m) != s) rp_fail("%s: got %s, expected %s", what, show(val(m)).c_str(), show(s).c_str()); }
struct World
{
	M a[NV]; S v[NV];
	void op(int o, int x, int y, int k, int w)
	{
		char b[120]; snprintf(b, 120, " op%d(%d,%d,%d,%d)", o, x, y, k, w); trace += b; rp_setcase("%s", trace.c_str());
		M& m = a[x]; S& s = v[x];
		switch (o)
		{
		case 0: m = a[y]; s = v[y]; break;
		case 1: { M t(a[y]); m = t; s = v[y]; } break;
		case 2: m.insert(k, w); s.insert(S::value_type(k, w)); break;
		case 3: m.remove(k); s.erase(k); break;
		case 4: if (m.put(k, w) != k) rp_fail("put returns another key"); s[k] = w; break;
		case 5: m.clear(); s.clear(); break;
		case 6: { int g = m[k], e = s.count(k) ? s[k] : 0; if (g != e) rp_fail("[%d] gives %d, expected %d", k, g, e); } break;
		case 7: if (m.contains(k) != (s.count(k) > 0)) rp_fail("contains(%d)", k); break;
		case 8: { M::Iter i = m.find(k); if ((i == m.end()) != (s.count(k) == 0)) rp_fail("find(%d)", k); if (i != m.end() && (i->first != k || i->second != s[k])) rp_fail("find(%d): entry", k); } break;
		case 9: { int ks[8], vs[8], n = w%8; S t; for (int i = 0; i < n; i++) { ks[i] = (k+i*y)%7; vs[i] = i+w; t.insert(S::value_type(ks[i], vs[i])); } m = M(ks, vs, n); s = t; } break;
		case 10: { Array<int> ks = m.keys(), vs = m.values(); if (ks.length() != s.size() || vs.length() != s.size()) rp_fail("keys/values: length"); unsigned i = 0; for (auto& e : s) { if (ks[i] != e.first || vs[i] != e.second) rp_fail("keys/values: entry %u", i); i++; } } break;
		case 11: { S t; m.each([&](const int& k, const int& v) { if (t.count(k)) rp_fail("each: twice"); t[k] = v; }); if (t != s) rp_fail("each"); } break;
		case 12: { bool al = true, an = false; int c = 0; for (auto& e : s) if (pred(e.first, e.second)) { an = true; c++; } else al = false;
			if (m.all(pred) != al) rp_fail("all"); if (m.any(pred) != an) rp_fail("any"); if (m.one(pred) != (c == 1)) rp_fail("one"); } break;
		case 13: { S t; for (auto& e : v[y]) if (pred(e.first, e.second)) t[e.first] = e.second; m = a[y].select(pred); s = t; } break;
		case 14: { S t; for (auto& e : v[y]) t[e.second%4] = e.first+1; m = a[y].map<int, int>([](const int& k, const int& v) { return std::pair<int, int>(v%4, k+1); }); s = t; } break;
		case 15: { long e = w; for (auto& x : s) e = (e*31+x.first*7+x.second)%100003; long g = m.inject<long>(w, [](long& a, const int& k, const int& v) { return (a*31+k*7+v)%100003; }); if (g != e) rp_fail("inject"); } break;
		}
		for (int i = 0; i < NV; i++) { char c[60]; snprintf(c, 60, "map %d", i); same(a[i], v[i], c); }
	}
};
static void run(Rng& r)
{
	trace = "";
	trace.reserve(8000);
	long l0 = live;
	{
		World w;
		if (r.chance(10)) { int c = 1+r.below(300); rp_setcase("%d entries put into map 0", c); trace = " put "+std::to_string(c)+" entries;"; for (int i = 0; i < c; i++) { w.a[0].put(i, i*3); w.v[0][i] = i*3; } }
		int n = 1+r.below(30);
		for (int i = 0; i < n; i++)
		{
			int o = r.below(16);
			if (o == 5 && r.chance(60)) o = 4;
			w.op(o, r.below(NV), r.below(NV), r.below(7), r.below(20));
		}
	}
	if (live != l0) rp_fail("%ld blocks of storage not released (or released too often)", live-l0);
}
static void rp_hint(char*) {}
static void rp_search(Rng& r, double until) { while (rp_now() < until) { for (int i = 0; i < 50; i++) { RP_TICK(); run(r); } } }
