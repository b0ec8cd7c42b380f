// C29: latches, conditions and the thread registry, on the real code: every started thread is handed to
// exactly one joiner, nothing hangs (watchdog), latches exclude, timed waits wait.
#include "common.h"
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include <new>
#include <set>
#include <thread.h>
#include <condition.h>

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec*1e-9; }
static void spin(unsigned n) { for (volatile unsigned i = 0; i < n; i++); }

struct Job : Thread
{
	unsigned	work;
	int		how;		// 0 return, 1 exit()
	std::atomic<int> ran, after;
	Job(unsigned w, int h = 0, bool go = true) : work(w), how(h), ran(0), after(0) { if (go) resume(); }
	int	run() { if (id() != currentId()) rp_fail("a thread runs before its id is known"); spin(work); if (work%5 == 0) sched_yield(); ran++; if (how == 1) { exit(3); after++; } return 0; }
	int	st() { return state == New ? 0 : state == Ended ? 2 : 1; }
};

static void fresh()
{
	static char buf[sizeof(Job)] __attribute__((aligned(64)));
	for (int f = 0; f < 3; f++)
	{
		memset(buf, f == 0 ? 2 : f == 1 ? 0xA5 : 0, sizeof buf);
		rp_setcase("a Thread constructed in memory holding %02X, not resumed", (unsigned char)buf[0]);
		Job*	j = new(buf) Job(1, 0, false);
		if (j->st() != 0 || j->id() != 0) rp_fail("a thread that was never started is in state %d", j->st());
	}
}

struct Excl { Latch l; Condition c; long n, turns; bool inside; int go; };
static Excl* X;
static void* hammer(void*)
{
	for (int i = 0; i < 400; i++)
	{
		if (i%3 == 0) { if (!X->l.probe()) { sched_yield(); X->l.enter(); } }
		else X->l.enter();
		if (X->inside) rp_fail("two threads inside one latch");
		X->inside = true; X->n++;
		if (!X->l.holding()) rp_fail("the holder of a latch does not hold it");
		if (i%40 == 0) sched_yield();
		X->inside = false;
		X->l.leave();
	}
	return 0;
}
static void* other(void*) { bool* r = new bool[1]; *r = X->l.probe(); if (*r) X->l.leave(); return r; }
static bool by_other() { pthread_t t; pthread_create(&t, 0, other, 0); void* r; pthread_join(t, &r); bool b = *(bool*)r; delete[] (bool*)r; return b; }
static void latches()
{
	Excl	x; X = &x; x.n = 0; x.inside = false; x.go = 0; x.turns = 0;
	rp_setcase("one latch, two threads");
	if (x.l.holding()) rp_fail("a new latch is held");
	if (!by_other()) rp_fail("probe() of a free latch fails");
	x.l.enter();
	if (!x.l.holding()) rp_fail("holding() is false after enter()");
	if (by_other()) rp_fail("probe() gained a latch another thread holds");
	x.l.leave();
	if (x.l.holding()) rp_fail("holding() is true after leave()");
	if (!by_other()) rp_fail("probe() of a released latch fails");
	if (!x.l.probe()) rp_fail("probe() of a released latch fails");
	if (!x.l.holding() || by_other()) rp_fail("probe() succeeded without gaining the latch");
	x.l.leave();
	rp_setcase("one latch, 4 threads entering 400 times each");
	pthread_t t[4];
	for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, hammer, 0);
	for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
	if (x.n != 1600) rp_fail("the latch lost %ld of 1600 increments", 1600-x.n);
}

static void* ping(void*)
{
	for (int i = 0; i < 200; i++)
	{
		X->l.enter();
		while (X->go != 1) X->c.wait(&X->l);
		if (!X->l.holding()) rp_fail("wait() returned without the latch");
		X->go = 0; X->turns++;
		if (i&1) X->c.broadcast(); else X->c.signal();
		X->l.leave();
	}
	return 0;
}
static void* late(void*) { struct timespec t = { 0, 20000000 }; nanosleep(&t, 0); X->l.enter(); X->go = 1; X->c.signal(); X->l.leave(); return 0; }
static void conditions(long ms)
{
	Excl	x; X = &x; x.n = 0; x.inside = false; x.go = 0; x.turns = 0;
	rp_setcase("two threads pass a turn 200 times through a condition");
	pthread_t t; pthread_create(&t, 0, ping, 0);
	for (int i = 0; i < 200; i++)
	{
		x.l.enter();
		while (x.go != 0) x.c.wait(&x.l);
		x.go = 1; x.c.signal();
		x.l.leave();
	}
	pthread_join(t, 0);
	if (x.turns != 200) rp_fail("%ld turns of 200", x.turns);

	rp_setcase("wait for %ld ms on a condition nobody signals", ms);
	x.l.enter();
	double	a = mono(); int n = 0; long left;
	do { left = ms; x.c.wait(left, &x.l); n++; } while (left != 0 && n < 4);
	double	e = (mono()-a)*1000;
	if (!x.l.holding()) rp_fail("a timed wait returned without the latch");
	if (left != 0) rp_fail("a timed wait that was never signalled did not time out (returned after %.1f ms)", e);
	if (e < ms-3) rp_fail("the wait took %.1f ms", e);
	if (e > ms+8000) rp_fail("the wait took %.1f ms", e);
	x.l.leave();

	rp_setcase("wait up to 60 s for a signal sent after 20 ms");
	x.go = 0;
	x.l.enter();
	pthread_create(&t, 0, late, 0);
	a = mono(); n = 0;
	while (!x.go && n++ < 100) { left = 60000; x.c.wait(left, &x.l); }
	if (!x.go) rp_fail("a timed wait keeps returning early (%.1f ms)", (mono()-a)*1000);
	if (left == 0) rp_fail("a signalled wait reports a time out");
	x.l.leave();
	pthread_join(t, 0);
}

static void churn(Rng& r, int rounds)
{
	for (int k = 0; k < rounds; k++)
	{
		int	n = 1+r.below(6);
		rp_setcase("%d threads; some joined, some deleted once ended, the rest through joinAny (round %d)", n, k);
		std::set<Thread*> left;
		std::vector<Job*> js;
		for (int i = 0; i < n; i++) { Job* j = new Job(r.below(4) ? r.below(3000) : 60000, r.chance(20)); js.push_back(j); left.insert(j); }
		for (int i = 0; i < n; i++)
		{
			Job*	j = js[i];
			if (r.chance(30))
			{
				j->join();
				if (!left.count(j)) rp_fail("?");
				if (!j->ran || j->st() != 2) rp_fail("join() returned before the thread ended");
				left.erase(j);
				if (r.chance(50)) { Job* x = new Job(r.below(500)); left.insert(x); }	// may reuse the id
				delete j;
			}
		}
		while (!left.empty())
		{
			Thread*	t = Thread::joinAny();
			if (!t) rp_fail("joinAny() found nothing to wait for, %d threads have not been joined", (int)left.size());
			if (!left.count(t)) rp_fail("joinAny() returned a thread that was joined before, or never started");
			left.erase(t);
			Job*	j = (Job*)t;
			if (j->st() != 2 || !j->ran) rp_fail("joinAny() returned a thread that has not ended");
			if (j->after) rp_fail("Thread::exit() returned");
			delete j;
		}
		if (Thread::joinAny()) rp_fail("joinAny() returned one thread too many");
		rp_evals++;
	}
}

static void reuse()
{
	rp_setcase("join a; start b (the system may give it a's id); delete a; b must still be joined");
	for (int i = 0; i < 30; i++)
	{
		Job*	a = new Job(1); a->join();
		Job*	b = new Job(20000+i*10);
		delete a;
		Thread*	t = Thread::joinAny();
		if (t != b) rp_fail(t ? "joinAny() returned another thread" : "deleting a joined thread unregistered a running one");
		delete b;
		rp_evals++;
	}
	rp_setcase("an ended thread deleted without being joined, then another one joined");
	for (int i = 0; i < 20; i++)
	{
		Job*	a = new Job(1);
		Job*	b = new Job(60000);
		while (a->st() != 2) sched_yield();
		delete a;
		Thread*	t = Thread::joinAny();
		if (t != b) rp_fail("joinAny() after deleting an ended thread");
		delete b;
		if (Thread::joinAny()) rp_fail("joinAny() after all threads were joined");
	}
}
static void exits()
{
	rp_setcase("a thread that ends through exit(), then one that runs for a while");
	Job*	a = new Job(1, 1);
	Thread*	t = Thread::joinAny();
	if (t != a || a->after) rp_fail("exit()");
	Job*	b = new Job(200000);
	t = Thread::joinAny();
	if (t != b) rp_fail("joinAny() after a thread ended through exit()");
	if (b->st() != 2) rp_fail("joinAny() returned a running thread");
	delete a; delete b;
}
static void* anyone(void*) { return Thread::joinAny(); }
static void two_joiners(int n)
{
	for (int i = 0; i < n; i++)
	{
		rp_setcase("one thread joined by join() and joinAny() at the same time (round %d)", i);
		Job*	a = new Job(i%2 ? 50000 : 10);
		pthread_t t; pthread_create(&t, 0, anyone, 0);
		if (i%3 == 0) sched_yield();
		a->join();
		void*	got; pthread_join(t, &got);
		if (got && got != (void*)(Thread*)a) rp_fail("joinAny() returned another thread");
		if (a->st() != 2) rp_fail("join() returned before the thread ended");
		if (Thread::joinAny()) rp_fail("a thread was handed out twice");
		delete a;
	}
	for (int i = 0; i < n; i++)
	{
		rp_setcase("two threads handed to two concurrent joinAny()s (round %d)", i);
		Job*	a = new Job(100), *b = new Job(30000);
		pthread_t t[2]; void* g[2];
		for (int k = 0; k < 2; k++) pthread_create(&t[k], 0, anyone, 0);
		for (int k = 0; k < 2; k++) pthread_join(t[k], &g[k]);
		if (!(g[0] == (Thread*)a && g[1] == (Thread*)b) && !(g[0] == (Thread*)b && g[1] == (Thread*)a)) rp_fail("two threads, two joiners: not one each");
		delete a; delete b;
	}
}
static long vm() { long v = 0; FILE* f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); } return v*(sysconf(_SC_PAGESIZE)/1024); }
static void leaks(int how)
{
	rp_setcase("150 threads, one after the other, %s", how == 0 ? "joined" : how == 1 ? "collected by joinAny" : "deleted once ended");
	for (int i = 0; i < 10; i++) { Job* a = new Job(1); a->join(); delete a; }
	long	v0 = vm();
	for (int i = 0; i < 150; i++)
	{
		Job*	a = new Job(1);
		if (how == 0) a->join();
		else if (how == 1) { if (Thread::joinAny() != a) rp_fail("joinAny"); }
		else while (a->st() != 2) sched_yield();
		delete a;
	}
	for (int i = 0; i < 100 && vm()-v0 > 500000; i++) usleep(10000);
	if (vm()-v0 > 500000) rp_fail("the stacks of the ended threads are never released (%ld MB more in use)", (vm()-v0)/1024);
}
static void all(Rng& r)
{
	alarm(40); fresh(); latches();
	alarm(40); conditions(5+r.below(60));
	alarm(40); two_joiners(20); reuse(); exits();
	alarm(60); churn(r, 30);
}
static void rp_hint(char*)
{
	static bool	once; if (once) return; once = true;
	Rng	r(29);
	alarm(60);
	if (Thread::current() != Thread::main()) rp_fail("the main thread is not the current thread");
	all(r);
	long	w[] = { 1, 999, 1000, 1001, 1999 };
	for (long ms : w) { alarm(40); conditions(ms); }
	for (int h = 0; h < 3; h++) { alarm(60); leaks(h); }
}
static void rp_search(Rng& r, double until) { rp_hint(0); while (rp_now() < until) all(r); }
