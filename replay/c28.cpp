// Oracle for C28: reference counts against the number of Refs, deaths counted; then the same from several threads.
#include <cstdlib>
#include <cstring>
#include <thread>
#include <atomic>
#include <vector>
#include <refcount.h>
#include "common.h"
static std::atomic<long> born(0), died(0);
struct Base : public RefCounted { long b; long id; Base(long x) : b(x), id(born++) {} Base(const Base& n) : b(n.b), id(born++) {} virtual ~Base() { if (b == -12345) rp_fail("object deleted twice"); b = -12345; died++; } };
struct Node : public Base { long data; Node(long d) : Base(d*3), data(d) {} Node(const Node& n) : Base(n), data(n.data) {}
	bool operator==(const Node& o) const { return data == o.data; } bool operator!=(const Node& o) const { return data != o.data; } bool operator<(const Node& o) const { return data < o.data; } bool operator>(const Node& o) const { return data > o.data; } };
typedef Ref<Node> R; typedef Ref<Base> RB;
static void threads(Rng& r, unsigned n)
{
	long b0 = born-died;
	{
		R src(new Node(7));
		std::vector<std::thread> ts;
		std::atomic<int> bad(0);
		unsigned seed = r.u();
		for (unsigned t = 0; t < n; t++)
		{
			R* mine = new R(src);
			ts.emplace_back([mine, seed, t, &bad]() {
				unsigned x = seed+t*977;
				for (int i = 0; i < 4000; i++)
				{
					x = x*1664525+1013904223;
					R a(*mine), c;
					switch (x>>29)
					{
					case 0: c = a; c = c; break;
					case 1: { R d(a); d.Unshare(); if (d->data != 7 || d->GetRefCount() != 1) bad++; if ((Node*)d == (Node*)a) bad++; d->data = i; } break;
					case 2: c = (Node*)a; a = (Node*)0; break;
					case 3: { RB u(a.Cast<Base>()); if (u->b != 21) bad++; } break;
					default: { R d(a), e(d); d = c; c = e; } break;
					}
					if ((*mine)->data != 7) bad++;
				}
				delete mine;
			});
		}
		if (seed&1) src = (Node*)0;
		for (auto& t : ts) t.join();
		if (bad) rp_fail("several threads sharing an object: wrong values seen %d times", (int)bad);
		if (!(seed&1)) { if (src.GetRefCount() != 1) rp_fail("several threads sharing an object: count %d at the end, one Ref left", src.GetRefCount()); }
		else if (born-died != b0) rp_fail("several threads sharing an object: %ld objects never deleted", (long)(born-died-b0));
	}
	if (born-died != b0) rp_fail("several threads sharing an object: %ld objects never deleted", (long)(born-died-b0));
}
static std::atomic<long> rdeaths(0);
struct RObj : public RefCounted { ~RObj() { rdeaths++; } static void operator delete(void*) {} };
// two threads drop the last two references of each of many objects at the same moment
static void race()
{
	rp_setcase("two threads drop the last two references at the same moment");
	const int N = 60000;
	RObj* all = (RObj*)malloc(sizeof(RObj)*N);
	for (int i = 0; i < N; i++) new (&all[i]) RObj;
	Ref<RObj>* a = new Ref<RObj>[N]; Ref<RObj>* b = new Ref<RObj>[N];
	for (int i = 0; i < N; i++) { a[i] = &all[i]; b[i] = a[i]; }
	std::atomic<long> turn(0); rdeaths = 0;
	auto drop = [&](Ref<RObj>* r) { for (int i = 0; i < N; i++) { turn++; while (turn < 2*(i+1)) ; r[i] = (RObj*)0; if (rdeaths > i+1) rp_fail("%ld deaths of %d objects", (long)rdeaths, i+1); } };
	std::thread t([&]() { drop(a); });
	drop(b);
	t.join();
	if (rdeaths != N) rp_fail("%ld deaths of %d objects", (long)rdeaths, N);
	delete[] a; delete[] b; free(all);
}
static void run(Rng& r)
{
	long b0 = born-died;
	std::string tr;
	{
		const int N = 5;
		R a[N]; RB u[2]; Node* v[N] = {}; Node* w[2] = {};
		int steps = 1+r.below(40);
		for (int k = 0; k < steps; k++)
		{
			int x = r.below(N), y = r.below(N), o = r.below(14);
			char b[40]; snprintf(b, 40, " op%d(%d,%d)", o, x, y); tr += b; rp_setcase("%s", tr.c_str());
			long val = v[x] ? v[x]->data : 0;
			switch (o)
			{
			case 0: v[x] = new Node(r.below(4)); a[x] = v[x]; break;
			case 1: a[x] = a[y]; v[x] = v[y]; break;
			case 2: a[x] = (Node*)a[y]; v[x] = v[y]; break;
			case 3: a[x] = (Node*)0; v[x] = 0; break;
			case 4: { R t(a[x]); a[x] = a[y]; a[y] = t; std::swap(v[x], v[y]); } break;
			case 5: { int c0 = a[x].GetRefCount(); Node* old = v[x]; a[x].Unshare(); Node* now = a[x]; if (!old != !now) rp_fail("Unshare: null"); if (now) { if ((now != old) != (c0 > 1)) rp_fail("Unshare: copied %d with %d references", now != old, c0); if (now->data != val) rp_fail("Unshare: value"); } v[x] = now; } break;
			case 6: u[x&1] = a[y].Cast<Base>(); w[x&1] = v[y]; break;
			case 7: if (w[x&1]) { a[y] = u[x&1].Cast<Node>(); v[y] = w[x&1]; } break;
			case 8: { R t; t = a[x]; R t2(t); t = a[y]; t2 = t; } break;
			case 9: a[x] = R(new Node(2)); v[x] = a[x]; break;
			case 10: if (v[x] && v[y]) { if ((a[x] == a[y]) != (*v[x] == *v[y]) || (a[x] != a[y]) != (*v[x] != *v[y]) || (a[x] < a[y]) != (*v[x] < *v[y]) || (a[x] > a[y]) != (*v[x] > *v[y])) rp_fail("comparison of Refs"); } break;
			case 11: { R* h = new R(a[x]); delete h; } break;
			case 12: { R t((Node*)a[x]); R e; if (e || e.GetRefCount() != 0) rp_fail("empty Ref"); } break;
			case 13: a[x] = a[x]; break;
			}
			long alive = 0;
			Node* seen[N+2]; int ns = 0;
			for (int i = 0; i < N+2; i++)
			{
				Node* p = i < N ? v[i] : w[i-N];
				if (i < N ? (Node*)a[i] != p || (bool)a[i] != (p != 0) : (Base*)u[i-N] != p) rp_fail("Ref %d refers to the wrong object", i);
				if (!p) continue;
				bool dup = false; for (int j = 0; j < ns; j++) dup |= seen[j] == p;
				if (dup) continue;
				seen[ns++] = p; alive++;
				int c = 0; for (int j = 0; j < N; j++) c += v[j] == p; for (int j = 0; j < 2; j++) c += w[j] == p;
				if (p->GetRefCount() != c) rp_fail("an object with %d Refs has count %d", c, p->GetRefCount());
				if (p->b != p->data*3 && o != 7) rp_fail("object damaged");
			}
			if (born-died-b0 != alive) rp_fail("%ld objects alive, %ld are referred to", (long)(born-died-b0), alive);
			rp_evals++;
		}
	}
	if (born-died != b0) rp_fail("%ld objects never deleted", (long)(born-died-b0));
}
static void rp_hint(char*) { Rng r(11); for (int i = 0; i < 2000; i++) run(r); for (int i = 0; i < 4; i++) { alarm(60); race(); } for (int i = 0; i < 10; i++) { rp_setcase("threads"); threads(r, 4); } }
static void rp_search(Rng& r, double until)
{
	int n = 0;
	while (rp_now() < until)
	{
		alarm(30);
		run(r);
		if (n++%1500 == 1499) { rp_setcase("threads"); threads(r, 2+r.below(4)); }
	}
}
