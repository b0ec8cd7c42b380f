"""C29: latches give mutual exclusion, and every thread that ends is handed to exactly one joiner, in every schedule.

Thread-modular contracts.  What a latch protects (the registry of threads and the states of the registered threads) is a ghost value R that any
other thread may replace whenever this thread does not hold the latch, by any value that satisfies the latch's invariant; a thread that gives up the
latch must re-establish the invariant.  Every access to what is protected needs the latch.  Lost wake-ups: a thread goes to sleep only while there is
something to wait for, and a thread that makes a waiting condition come true broadcasts.  pthread functions by their POSIX contracts."""
import re
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, Forall, NULL, isint, isnull, boolv, simp, Unsupported, conc

REPLAY = 'c29.cpp'
REPLAY_SRCS = ['src/thread.cpp', 'src/condition.cpp', 'src/lockfree.cpp']
ASSUMPTIONS = ['the pthread configuration (HAVE_PTHREADS), as the Makefile builds it',
               'pthread functions meet POSIX; pthread_create succeeds, and its id is not one of a thread that was not yet joined or detached',
               'threads are resumed once, exit() is called by threads that were resumed, a thread object is destroyed after its thread has ended',
               'only the library touches the registry, the count and the state of threads; fewer than 2^30 threads',
               'a latch given to a wait is held by the caller; wait without a latch is excluded',
               'safety only: that a thread which is woken eventually runs is up to the scheduler']
TRUSTED = ['pthread_*', 'clock_gettime', 'nanosleep', 'std::map', '__assert_fail does not return']

R64, B = z3.BitVecSort(64), z3.BoolSort()
I32 = z3.BitVecSort(32)
PRES = z3.Function('registered', R64, R64, B)          # (registry, id)
VAL = z3.Function('thread_of', R64, R64, R64)
SIZE = z3.Function('registry_size', R64, R64)
RK = z3.Function('rank', R64, R64, R64)
KA = z3.Function('id_at', R64, R64, R64)
STATE = z3.Function('state', R64, R64, I32)            # (registry, thread)
TID = z3.Function('thread_id', R64, R64, R64)
CNT = z3.Function('ended_and_registered', R64, R64)
WIT = z3.Function('an_ended_id', R64, R64)
OK = z3.Function('consistent', R64, B)
MAPT = 'std::map<unsigned long, Thread*, std::less<unsigned long>, std::allocator<std::pair<unsigned long const, Thread*> > >::'
SH = 8
G_R, G_R0, G_ACQ = 0, 8, 16


class W:
    def __init__(self, E, own=None):
        self.E, self.st = E, State()
        E.unroll_first = False
        E.int_ptr = True
        for k in ('size', 'state', 'id', 'latch', 'cond', 'main', 'mutex', 'New', 'Started', 'Ended', 'EDEADLK', 'EBUSY', 'ETIMEDOUT', 'ERRORCHECK'):
            r = [x for _, x in E.run(State(), 'L_' + k, [])]
            assert len(r) == 1 and isint(r[0])
            setattr(self, k, r[0])
        st = self.st
        E.inputs = {}
        self.mode = own            # None, 'new', 'running', 'owner': what this thread may do with the thread object H
        self.H, self.HM, self.MID, self.SELF = (z3.BitVec(x, 64) for x in ('this_thread', 'main', 'main_id', 'caller_id'))
        for x in (self.H, self.HM):
            st.assume(And(UGT(x, 0), ULT(x, V(1 << 40, 64))))
        st.assume(And(self.H != self.HM, self.MID != 0, self.SELF != 0))
        E.inputs.update(caller_id=self.SELF)
        self.TH = E.new_arr(st, 1, 1 << 62, 'threads')
        E.shared[self.TH] = self.thread_access
        self.G = E.new_cells(st, 32, 'registry')
        gp = lambda n: E.global_ptr(st, n)
        self.latch_p, self.map_p, self.cond_p = gp('@_ZN6Thread12thread_latchE'), gp('@_ZN6Thread7threadsE'), gp('@_ZN6Thread23ended_threads_conditionE')
        self.count_p, self.main_p = gp('@_ZN6Thread11ended_countE'), gp('@_ZN6Thread11main_threadE')
        E.store(st, self.main_p, self.th(self.HM), ('ptr',))
        self.set_r(st, z3.BitVec('R_before', 64))
        self.poke(st, G_R0, z3.BitVec('R_before', 64))
        self.poke(st, G_ACQ, V(0, 64))
        E.shared[self.count_p.obj] = self.count_access
        E.shared[self.latch_p.obj] = lambda E, st, p, k, ty, x: None
        st.ghost.update(held=(), wake=False, slept=0, joined=(), detached=(), created=(), ran=0, signals=(), waits=(), inits=(), attr=None, keys=(), hs=())
        self.key(st, self.MID)
        self.key(st, self.SELF)
        self.thr(st, self.H)
        self.thr(st, self.HM)
        self.install()

    # ---------------------------------------------------------------- ghost registry
    def th(self, h):
        return Ptr(self.TH, simp(bv(h, 64) << SH))

    def poke(self, st, off, v):
        self.E._cell_store(st.w(self.G), off, 8, v)

    def r(self, st):
        return bv(self.E.load(st, Ptr(self.G, G_R), ('i', 64)), 64)

    def r0(self, st):
        return bv(self.E.load(st, Ptr(self.G, G_R0), ('i', 64)), 64)

    def set_r(self, st, r):
        self.E.store(st, Ptr(self.G, G_R), r, ('i', 64))

    def key(self, st, q):
        q = simp(bv(q, 64))
        if any(q.eq(x) for x in st.ghost['keys']):
            return
        st.ghost['keys'] += (q,)
        for r in st.ghost.get('rs', ()):
            self.axiom(st, r, q)

    def thr(self, st, h):
        """mention a thread: its id is one of the ids"""
        h = simp(bv(h, 64))
        if any(h.eq(x) for x in st.ghost['hs']):
            return
        st.ghost['hs'] += (h,)
        for r in st.ghost.get('rs', ()):
            self.key(st, TID(r, h))

    def axiom(self, st, r, q):
        """a registry is a finite map; the ended ones are counted; each thread is registered under its own id"""
        v = VAL(r, q)
        st.assume(Implies(PRES(r, q), And(ULT(RK(r, q), SIZE(r)), KA(r, RK(r, q)) == q, TID(r, v) == q, q != 0, UGT(v, 0), ULT(v, V(1 << 40, 64)),
                                          ULE(STATE(r, v), V(self.Ended, 32)))))
        st.assume(Implies(And(PRES(r, q), STATE(r, v) == self.Ended), CNT(r) != 0))

    def mention(self, st, r):
        rs = st.ghost.get('rs', ())
        r = simp(bv(r, 64))
        if any(r.eq(x) for x in rs):
            return r
        st.ghost['rs'] = rs + (r,)
        w = WIT(r)
        st.assume(And(ULE(CNT(r), SIZE(r)), ULT(SIZE(r), V(1 << 30, 64)), Implies(CNT(r) != 0, And(PRES(r, w), STATE(r, VAL(r, w)) == self.Ended))))
        # what the latch's invariant says of a registry
        st.assume(Implies(OK(r), self.inv(r)))
        for q in st.ghost['keys']:
            self.axiom(st, r, q)
        self.key(st, w)
        for h in st.ghost['hs']:
            self.key(st, TID(r, h))
        return r

    def inv(self, r):
        m = self.MID
        return And(PRES(r, m), VAL(r, m) == self.HM, TID(r, self.HM) == m, STATE(r, self.HM) == self.Started)

    def reg(self, r, h):
        return And(PRES(r, TID(r, h)), VAL(r, TID(r, h)) == h)

    def new_r(self, st, tag, pres=None, val=None, state=None, tid=None):
        """a registry that differs from the current one at one id and one thread"""
        E = self.E
        r = self.r(st)
        self.mention(st, r)
        n = E.fresh('R_' + tag, 64)
        size, cnt = SIZE(r), CNT(r)
        one, zero = V(1, 64), V(0, 64)
        P, L, S, T = PRES, VAL, STATE, TID
        if pres is not None:
            q, on, v = pres
            self.key(st, q)
            if on:
                size = size + If(P(r, q), zero, one)
                cnt = cnt + If(And(Not(P(r, q)), S(r, v) == self.Ended), one, zero)
            else:
                size = size - If(P(r, q), one, zero)
                cnt = cnt - If(And(P(r, q), S(r, L(r, q)) == self.Ended), one, zero)
        if state is not None:
            h, x = state
            self.thr(st, h)
            cnt = cnt + If(self.reg(r, h), If(x == self.Ended, one, zero) - If(S(r, h) == self.Ended, one, zero), zero)
        if tid is not None:
            E.prove(st, Not(self.reg(r, tid[0])), 'the id of a registered thread is not changed')
        ks, hs = st.ghost['keys'], st.ghost['hs']

        def frame_k(q):
            if pres is None:
                return And(P(n, q) == P(r, q), L(n, q) == L(r, q))
            k, on, v = pres
            if on:
                return And(P(n, q) == Or(q == k, P(r, q)), L(n, q) == If(And(q == k, Not(P(r, q))), v, L(r, q)))
            return And(P(n, q) == And(q != k, P(r, q)), L(n, q) == L(r, q))

        def frame_h(h):
            return And(S(n, h) == (If(h == state[0], state[1], S(r, h)) if state else S(r, h)), T(n, h) == (If(h == tid[0], tid[1], T(r, h)) if tid else T(r, h)))
        st.ghost['frames'] = st.ghost.get('frames', ()) + ((frame_k, frame_h, r),)
        st.assume(And(SIZE(n) == size, CNT(n) == cnt))
        self.set_r(st, n)
        self.mention(st, n)
        self.frames(st)
        return n

    def frames(self, st):
        """the frames at everything mentioned"""
        done = st.ghost.get('framed', frozenset())
        again = True
        while again:
            again = False
            for i, (fk, fh, r) in enumerate(st.ghost.get('frames', ())):
                for q in st.ghost['keys']:
                    if (i, 'k', q.get_id()) not in done:
                        done |= {(i, 'k', q.get_id())}
                        st.assume(fk(q))
                        self.thr(st, VAL(r, q)) if len(st.ghost['hs']) < 12 else None
                        again = True
                for h in st.ghost['hs']:
                    if (i, 'h', h.get_id()) not in done:
                        done |= {(i, 'h', h.get_id())}
                        st.assume(fh(h))
                        again = True
        st.ghost['framed'] = done

    # ---------------------------------------------------------------- access rules
    def has(self, st, p=None):
        p = p or self.latch_p
        return any(x == (p.obj, self.off(p)) for x in st.ghost['held'])

    def off(self, p):
        return p.idx if isint(p.idx) else p.idx.get_id()

    def need(self, st, what):
        if not self.has(st):
            self.E.fail(st, what + ' only while the latch is held')
            return False
        return True

    def count_access(self, E, st, p, kind, ty, x):
        if not self.has(st):
            if kind == 'load':
                return E.fresh('ended_count_seen', 32)
            E.fail(st, 'the count of ended threads is changed only while the latch is held')
        return None

    def thread_access(self, E, st, p, kind, ty, x):
        off = simp(z3.Extract(SH - 1, 0, bv(p.idx, 64)))
        if not isint(off) and not z3.is_bv_value(off):
            raise Unsupported('unaligned access to a thread')
        off = off if isint(off) else off.as_long()
        h = simp(z3.LShR(bv(p.idx, 64) - off, SH))
        if z3.is_app(h) and not z3.is_bv_value(h):
            pass
        mine = self.mode is not None and h.eq(simp(z3.LShR(self.H << SH, SH))) or not E.feasible(st, h != self.H)
        r = self.mention(st, self.r(st))
        h = self.H if mine else h
        self.thr(st, h)
        if mine and st.ghost.get('gone'):
            E.fail(st, 'the thread object is not touched after another thread may have deleted it')
            return None
        if off == 0:
            if kind == 'load':
                return self.vptr
            return 0
        if off == self.id:
            if kind == 'load':
                if not mine and not self.need(st, 'the id of another thread is read'):
                    return None
                return TID(r, h)
            E.prove(st, z3.BoolVal(mine and self.mode == 'new' or self.has(st) or self.destroyed(st, mine)), 'the id of a thread is set by its creator')
            self.new_r(st, 'id', tid=(h, bv(x, 64)))
            return 0
        if off == self.state:
            if kind == 'load':
                if not (mine and self.mode in ('new', 'dead')) and not self.need(st, 'the state of a thread is read'):
                    return None
                return STATE(r, h)
            if not (mine and self.mode == 'new') and not self.need(st, 'the state of a thread is changed'):
                return None
            self.new_r(st, 'state', state=(h, bv(x, 32)))
            if not st.ghost.get('bc'):
                st.ghost['wake'] = simp(Or(boolv(st.ghost['wake']), And(self.reg(r, h), bv(x, 32) == self.Ended, STATE(r, h) != self.Ended)))
            return 0
        raise Unsupported('thread field at %d' % off)

    def destroyed(self, st, mine):
        return mine and self.mode == 'dead'

    # ---------------------------------------------------------------- the latch of the registry
    def acquire(self, st, again=False):
        """other threads have had the latch: any registry that satisfies the invariant"""
        E = self.E
        old = self.mention(st, self.r(st))
        n = E.fresh('R', 64)
        st.ghost['bc'] = False
        st.assume(OK(n))
        self.set_r(st, n)
        self.E.store(st, Ptr(self.G, G_R0), n, ('i', 64))
        self.mention(st, n)
        self.rely(st, old, n)
        E._cell_store(st.w(self.count_p.obj), 0, 4, z3.Extract(31, 0, CNT(n)))
        return n

    def rely(self, st, old, n):
        """what other threads do not do to the thread this one is about"""
        H = self.H
        if self.mode is not None:
            st.assume(TID(n, H) == TID(old, H))
        if self.mode == 'running':
            st.assume(And(STATE(n, H) == STATE(old, H), self.reg(n, H)))
        elif self.mode == 'new':
            st.assume(And(STATE(n, H) == STATE(old, H), Not(self.reg(n, H))))
        elif self.mode in ('owner', 'dead'):
            st.assume(And(Implies(STATE(old, H) == self.Ended, STATE(n, H) == self.Ended), Implies(And(Not(self.reg(old, H))), Not(self.reg(n, H))),
                          Implies(And(self.reg(old, H), Not(self.reg(n, H))), STATE(n, H) == self.Ended)))

    def release(self, st, what):
        E = self.E
        r = self.mention(st, self.r(st))
        self.frames(st)
        c = bv(E.load(st, self.count_p, ('i', 32)), 32)
        E.prove(st, z3.ZeroExt(32, c) == CNT(r), 'invariant of the latch (%s): ended_count is the number of registered threads that have ended' % what)
        E.prove(st, self.inv(r), 'invariant of the latch (%s): the main thread stays registered' % what)
        for q in list(st.ghost['keys']):
            E.prove(st, Implies(PRES(r, q), And(TID(r, VAL(r, q)) == q, VAL(r, q) != 0)), 'invariant of the latch (%s): each thread is registered under its own id' % what)
        r0 = self.r0(st)
        quiet = And(UGT(SIZE(r0), 1), CNT(r0) == 0, Or(CNT(r) != 0, ULE(SIZE(r), 1)))
        if not st.ghost.get('bc'):
            st.ghost['wake'] = simp(Or(boolv(st.ghost['wake']), quiet))
        if self.mode == 'running' and not E.feasible(st, STATE(r, self.H) != self.Ended):
            st.ghost['gone'] = True
        elif self.mode == 'running':
            E.prove(st, Or(STATE(r, self.H) != self.Ended), 'a thread that has ended is recognised as such')
        if self.mode == 'new' and not E.feasible(st, Not(self.reg(r, self.H))):
            self.mode_published = True
            st.ghost['published'] = True

    # ---------------------------------------------------------------- contracts
    def install(self):
        E = self.E
        C = E.contracts

        def mkey(p):
            return (p.obj, self.off(p))

        def lock(E, st, a, d, try_=False):
            p = a[0]
            out = []
            if self.has(st, p):
                return [(st, V(self.EBUSY if try_ else self.EDEADLK, 32))]
            if try_:
                s = st.fork()
                out.append((s, V(self.EBUSY, 32)))
            st.ghost['held'] += (mkey(p),)
            if mkey(p) == mkey(self.latch_p):
                self.acquire(st)
            out.append((st, V(0, 32)))
            return out

        def unlock(E, st, a, d):
            p = a[0]
            if not self.has(st, p):
                E.fail(st, 'pthread_mutex_unlock precondition: this thread holds the mutex')
                return []
            if mkey(p) == mkey(self.latch_p):
                self.release(st, 'leave')
            st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != mkey(p))
            return [(st, V(0, 32))]

        def destroy(E, st, a, d):
            E.prove(st, z3.BoolVal(not self.has(st, a[0])), 'pthread_mutex_destroy precondition: the mutex is not held')
            st.ghost['inits'] += (('destroy', mkey(a[0])),)
            return [(st, V(0, 32))]

        def attr_init(E, st, a, d):
            st.ghost[('attr',) + mkey(a[0])] = 0
            return [(st, V(0, 32))]

        def attr_type(E, st, a, d):
            E.prove(st, z3.BoolVal(('attr',) + mkey(a[0]) in st.ghost), 'pthread_mutexattr_settype precondition: initialised')
            st.ghost[('attr',) + mkey(a[0])] = conc(a[1])
            return [(st, V(0, 32))]

        def attr_del(E, st, a, d):
            st.ghost.pop(('attr',) + mkey(a[0]), None)
            return [(st, V(0, 32))]

        def minit(E, st, a, d):
            k = st.ghost.get(('attr',) + mkey(a[1])) if not isnull(a[1]) else 0
            E.prove(st, z3.BoolVal(k is not None), 'pthread_mutex_init precondition: the attributes are initialised by this thread')
            st.ghost['inits'] += (('init', mkey(a[0]), k),)
            return [(st, V(0, 32))]

        def cinit(kind):
            def h(E, st, a, d):
                st.ghost['inits'] += ((kind, mkey(a[0])),)
                return [(st, V(0, 32))]
            return h

        def wait(E, st, a, d, timed=False):
            if isnull(a[1]) or not isinstance(a[1], Ptr):
                E.fail(st, 'pthread_cond_wait precondition: a mutex')
                return []
            E.prove(st, z3.BoolVal(self.has(st, a[1])), 'pthread_cond_wait precondition: this thread holds the mutex')
            when = None
            if timed:
                ts = a[2]
                when = (bv(E.load(st, ts, ('i', 64)), 64), bv(E.load(st, E.ptr_add(st, ts, 8, 1), ('i', 64)), 64))
            st.ghost['waits'] += ((mkey(a[0]), mkey(a[1]), when),)
            if mkey(a[1]) == mkey(self.latch_p):
                r = self.mention(st, self.r(st))
                self.frames(st)
                if self.mode == 'owner':
                    E.prove(st, And(self.reg(r, self.H), STATE(r, self.H) != self.Ended), 'join sleeps only while the thread is registered and has not ended')
                else:
                    E.prove(st, And(UGT(SIZE(r), 1), CNT(r) == 0), 'joinAny sleeps only while there is a thread to wait for and none has ended')
                E.prove(st, z3.BoolVal(mkey(a[0]) == mkey(self.cond_p)), 'waits on the condition that is broadcast when a thread ends')
                E.prove(st, Not(boolv(st.ghost['wake'])), 'no wake-up is lost: a thread does not sleep before it has broadcast what it changed')
                self.release(st, 'wait')
                self.acquire(st)
            if timed:
                s = st.fork()
                s.ghost['timedout'] = True
                return [(st, V(0, 32)), (s, V(self.ETIMEDOUT, 32))]
            return [(st, V(0, 32))]

        def cast(kind):
            def h(E, st, a, d):
                st.ghost['signals'] += ((kind, mkey(a[0])),)
                if kind == 'broadcast' and mkey(a[0]) == mkey(self.cond_p):
                    st.ghost['wake'] = False
                    st.ghost['bc'] = self.has(st)
                return [(st, V(0, 32))]
            return h

        def clock(E, st, a, d):
            E.prove(st, z3.BoolVal(conc(a[0]) == 0), 'the clock of pthread_cond_timedwait is the real-time clock')
            s, n = E.fresh('now_s', 64), E.fresh('now_ns', 64)
            st.assume(And(s >= 0, ULT(s, V(1 << 40, 64)), n >= 0, n < 1000000000))
            E.store(st, a[1], s, ('i', 64))
            E.store(st, E.ptr_add(st, a[1], 8, 1), n, ('i', 64))
            st.ghost['now'] = (s, n)
            return [(st, V(0, 32))]

        def create(E, st, a, d):
            t = E.fresh('new_id', 64)
            r = self.mention(st, self.r(st))
            self.key(st, t)
            E.prove(st, z3.BoolVal(self.has(st)), 'a thread is created while the latch is held, so that it cannot run before it is registered')
            st.assume(And(t != 0, Not(PRES(r, t))))
            self.frames(st)
            E.prove(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].obj == self.TH) if True else None, 'the id is stored in the thread object')
            E.store(st, a[0], t, ('i', 64))
            st.ghost['created'] += ((getattr(a[2], 'name', None), a[3], t),)
            return [(st, V(0, 32))]

        def join(E, st, a, d):
            t = bv(a[0], 64)
            self.key(st, t)
            r = self.mention(st, self.r(st))
            self.frames(st)
            E.prove(st, z3.BoolVal(not self.has(st)), 'pthread_join precondition: the latch is not held, the thread may need it to end')
            E.prove(st, Or([t == x for x in st.ghost.get('dropped', ())] or [z3.BoolVal(False)]), 'a thread is joined once, by whoever unregistered it')
            st.ghost['joined'] += (t,)
            if not isnull(a[1]):
                E.store(st, a[1], E.fresh('retval', 64), ('i', 64))
            return [(st, V(0, 32))]

        def detach(E, st, a, d):
            t = bv(a[0], 64)
            E.prove(st, Or([t == x for x in st.ghost.get('dropped', ())] or [z3.BoolVal(False)]), 'a thread is detached once, by whoever unregistered it')
            st.ghost['joined'] += (t,)
            return [(st, V(0, 32))]

        def user_run(E, st, a, d):
            r = self.mention(st, self.r(st))
            E.prove(st, z3.BoolVal(not self.has(st)), 'run() is called without the latch')
            E.prove(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].obj == self.TH), 'run() is that of the thread')
            E.prove(st, simp(bv(a[0].idx, 64)) == simp(self.H << SH), 'run() is that of the thread')
            E.prove(st, STATE(r, self.H) == self.Started, 'the thread is started when run() is called')
            st.ghost['ran'] += 1
            x = E.fresh('run_result', 32)
            st.ghost['result'] = x
            return [(st, x)]

        def pexit(E, st, a, d):
            st.ghost['exited'] = a[0]
            E.prove(st, z3.BoolVal(not st.ghost['held']), 'a thread exits without holding a latch')
            self.finish(st, 'exit', True)
            return []

        def nanosleep(E, st, a, d):
            st.ghost['slept'] += 1
            req = (bv(E.load(st, a[0], ('i', 64)), 64), bv(E.load(st, E.ptr_add(st, a[0], 8, 1), ('i', 64)), 64))
            st.ghost['sleep'] = st.ghost.get('sleep', ()) + (req,)
            return [(st, V(0, 32))]

        C.update({'@pthread_mutex_lock': lock, '@pthread_mutex_trylock': lambda E, st, a, d: lock(E, st, a, d, True), '@pthread_mutex_unlock': unlock,
                  '@pthread_mutex_destroy': destroy, '@pthread_mutex_init': minit, '@pthread_mutexattr_init': attr_init,
                  '@pthread_mutexattr_settype': attr_type, '@pthread_mutexattr_destroy': attr_del, '@pthread_cond_init': cinit('cond'),
                  '@pthread_cond_destroy': cinit('cond_destroy'), '@pthread_cond_wait': wait,
                  '@pthread_cond_timedwait': lambda E, st, a, d: wait(E, st, a, d, True), '@pthread_cond_signal': cast('signal'),
                  '@pthread_cond_broadcast': cast('broadcast'), '@clock_gettime': clock, '@pthread_create': create, '@pthread_join': join,
                  '@pthread_detach': detach, '@pthread_self': lambda E, st, a, d: [(st, self.SELF)], '@pthread_exit': pexit,
                  '@_Z8user_runP7AThread': user_run, '@nanosleep': nanosleep})

        # ---- std::map over the registry
        def kv(st, p):
            return bv(E.load(st, p, ('i', 64)), 64), E.load(st, E.ptr_add(st, p, 8, 1), ('ptr',))

        def isreg(a):
            return isinstance(a[0], Ptr) and (a[0].obj, a[0].idx) == (self.map_p.obj, self.map_p.idx)

        def guarded(f):
            def h(E, st, a, d):
                if not isreg(a):
                    raise Unsupported('another map')
                if not self.need(st, 'the registry is used'):
                    return []
                return f(st, a, self.mention(st, self.r(st)))
            return h

        def ents(st, r):
            for x, o in st.ghost.get('ents', ()):
                if x.eq(r):
                    return o
            o = E.new_arr(st, 16, SIZE(r), 'entries')

            def acc(E, st, p, kind, ty, x):
                if kind != 'load':
                    raise Unsupported('write to an entry')
                if not self.r(st).eq(r) and E.feasible(st, self.r(st) != r):
                    E.fail(st, 'iterator used after the registry changed')
                    return None
                i = simp(bv(p.idx, 64))
                k = KA(r, i)
                st.assume(Implies(ULT(i, SIZE(r)), And(PRES(r, k), RK(r, k) == i)))
                self.key(st, k)
                if not isint(p.sub) or p.sub not in (0, 8):
                    raise Unsupported('entry access')
                if p.sub == 0:
                    return k
                return self.th(VAL(r, k))
            E.shared[o] = acc
            st.ghost['ents'] = st.ghost.get('ents', ()) + ((r, o),)
            return o

        def find(st, a, r):
            q = bv(E.load(st, a[1], ('i', 64)), 64)
            self.key(st, q)
            self.frames(st)
            return [(st, Ptr(ents(st, r), simp(If(PRES(r, q), RK(r, q), SIZE(r)))))]

        def count(st, a, r):
            q = bv(E.load(st, a[1], ('i', 64)), 64)
            self.key(st, q)
            self.frames(st)
            return [(st, If(PRES(r, q), V(1, 64), V(0, 64)))]

        def erase(st, a, r, q=None):
            if q is None:
                q = bv(E.load(st, a[1], ('i', 64)), 64)
            self.key(st, q)
            self.frames(st)
            was = PRES(r, q)
            E.prove(st, Implies(was, STATE(r, VAL(r, q)) == self.Ended), 'only a thread that has ended is unregistered')
            self.new_r(st, 'erase', pres=(q, False, None))
            s2 = st.fork()
            out = []
            st.assume(was)
            if E.feasible(st):
                st.ghost['dropped'] = st.ghost.get('dropped', ()) + (q,)
                out.append((st, V(1, 64)))
            s2.assume(Not(was))
            if E.feasible(s2):
                out.append((s2, V(0, 64)))
            return out

        def erase_at(st, a, r):
            p = a[1]
            o = ents(st, r)
            if not isinstance(p, Ptr) or p.obj != o:
                raise Unsupported('iterator of another map')
            E.prove(st, ULT(bv(p.idx, 64), SIZE(r)), 'std::map::erase precondition: the iterator is at an entry')
            i = simp(bv(p.idx, 64))
            k = KA(r, i)
            st.assume(Implies(ULT(i, SIZE(r)), And(PRES(r, k), RK(r, k) == i)))
            self.key(st, k)
            return [(s, Ptr(ents(s, self.mention(s, self.r(s))), p.idx)) for s, _ in erase(st, a, r, k)]

        def insert(st, a, r):
            q, v = kv(st, a[1])
            if not isinstance(v, Ptr) or v.obj != self.TH:
                raise Unsupported('something else is registered')
            v = simp(z3.LShR(bv(v.idx, 64), SH))
            hv = self.H if not E.feasible(st, v != self.H) else self.HM if not E.feasible(st, v != self.HM) else v
            self.key(st, q)
            self.thr(st, hv)
            self.frames(st)
            E.prove(st, Not(self.reg(r, hv)), 'a thread is registered once')
            n = self.new_r(st, 'insert', pres=(q, True, hv))
            if E.plain_loop:
                return [(st, (NULL, 0))]
            return [(st, (Ptr(ents(st, n), RK(n, q)), If(PRES(r, q), V(0, 8), V(1, 8))))]
        E.plain_loop = True
        pats = [(r'find\(unsigned long const&\)( const)?', find), (r'count\(unsigned long const&\) const', count),
                (r'c?begin\(\)( const)?', lambda st, a, r: [(st, Ptr(ents(st, r), 0))]), (r'c?end\(\)( const)?', lambda st, a, r: [(st, Ptr(ents(st, r), SIZE(r)))]),
                (r'size\(\) const', lambda st, a, r: [(st, SIZE(r))]), (r'empty\(\) const', lambda st, a, r: [(st, SIZE(r) == 0)]),
                (r'erase\(unsigned long const&\)', erase), (r'erase(\[abi:cxx11\])?\(std::_Rb_tree_(const_)?iterator<.*>\)', erase_at),
                (r'insert\(std::pair<unsigned long const, Thread\*>( const&|&&)\)', insert)]
        pats = [(re.compile(re.escape(MAPT) + p + r'$'), guarded(h)) for p, h in pats]
        for m, dn in E.mod.dem.items():
            for rx, h in pats:
                if rx.match(dn):
                    C[m] = h

        def step(c):
            def h(E, st, a, d):
                p = a[0]
                if not isinstance(p, Ptr) or p.obj not in st.objs or st.objs[p.obj].name != 'entries':
                    raise Unsupported('iterator into an unknown map')
                E.prove(st, ULT(bv(p.idx, 64), st.objs[p.obj].len) if c > 0 else UGT(bv(p.idx, 64), 0), 'iterator precondition: not moved beyond the ends')
                return [(st, Ptr(p.obj, simp(bv(p.idx, 64) + c)))]
            return h
        for m in E.mod.funcs:
            if m.startswith('@_ZSt18_Rb_tree_increment'):
                C[m] = step(1)
            elif m.startswith('@_ZSt18_Rb_tree_decrement'):
                C[m] = step(-1)
            elif '_M_valptr' in m and '_Rb_tree_node' in m:
                def val(E, st, a, d):
                    p = a[0]
                    if not isinstance(p, Ptr) or p.obj not in st.objs or st.objs[p.obj].name != 'entries':
                        return NotImplemented
                    E.prove(st, ULT(bv(p.idx, 64), st.objs[p.obj].len), 'iterator precondition: at an entry, not at the end')
                    return [(st, p)]
                C[m] = val
        E.loop_inv = self.hook

    def hook(self, E, st, view):
        out = []
        rs = [v for v in view.vars if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell' and v.key[1] == self.G]
        rr = [v for v in rs if v.key[2] == G_R]
        r0 = [v for v in rs if v.key[2] == G_R0]
        cs = [v for v in view.vars if v.kind == 'int' and v.w == 32 and v.key[0] == 'cell' and v.key[1] == self.count_p.obj]
        for v in rr:
            g = lambda vv: bv(vv[v.key], 64)
            out.append(('consistent', lambda kk, vv: And(OK(g(vv)), self.inv(g(vv)), ULT(SIZE(g(vv)), V(1 << 30, 64)), ULE(CNT(g(vv)), SIZE(g(vv))))))
            if self.mode is not None:
                t0 = TID(self.r(self.st), self.H)
                out.append(('same id', lambda kk, vv: TID(g(vv), self.H) == t0))
                out.append(('in the registry until it has ended', lambda kk, vv: Or(self.reg(g(vv), self.H), STATE(g(vv), self.H) == self.Ended)))
            for w in r0:
                out.append(('unchanged since the latch was taken', lambda kk, vv, w=w: g(vv) == bv(vv[w.key], 64)))
            for c in cs:
                out.append(('counted', lambda kk, vv, c=c: z3.ZeroExt(32, bv(vv[c.key], 32)) == CNT(g(vv))))
        return out

    # ---------------------------------------------------------------- runs
    def finish(self, s, what, ret=False):
        E = self.E
        E.prove(s, z3.BoolVal(not s.ghost['held']), what + ': the latch is given up')
        E.prove(s, Not(boolv(s.ghost['wake'])), what + ': no wake-up is lost: what makes a waiting condition true is broadcast')
        d, j = s.ghost.get('dropped', ()), s.ghost['joined']
        E.prove(s, z3.BoolVal(len(d) == len(j)), what + ': a thread that is unregistered is joined or detached')

    def run(self, fn, args):
        E = self.E
        E.prove(self.st, z3.BoolVal(E.feasible(self.st)), 'vacuity: precondition satisfiable')
        n = 0
        for s, r in E.run(self.st, fn, args):
            if s.dead:
                continue
            n += 1
            yield s, r
        E.prove(State(), z3.BoolVal(n >= 1 or fn == 't_exit'), 'vacuity: %s returns' % fn)

    def get_vptr(self):
        E = self.E
        st = State()
        p = Ptr(E.new_cells(st, self.size, 'proto'), 0)
        r = list(E.run(st, 't_new', [p]))
        E.global_ptr(self.st, '@_ZTV7AThread')
        return r[0][0].objs[p.obj].cells[0][1]


def anykey(w, s):
    q = z3.BitVec('any_id', 64)
    w.key(s, q)
    w.thr(s, z3.BitVec('any_thread', 64))
    w.frames(s)
    return q, z3.BitVec('any_thread', 64)


def same_but(w, s, what, gone=None, state=None, added=None):
    """the registry given up is the one taken, except for one id"""
    E = w.E
    q, h = anykey(w, s)
    r0, r = w.r0(s), w.r(s)
    w.mention(s, r0)
    w.frames(s)
    if gone is not None:
        E.prove(s, PRES(r, q) == And(q != gone, PRES(r0, q)), what + ': exactly that thread is unregistered')
    elif added is not None:
        E.prove(s, PRES(r, q) == Or(q == added[0], PRES(r0, q)), what + ': exactly that thread is registered')
        E.prove(s, VAL(r, added[0]) == added[1], what + ': the thread is registered under its id')
    else:
        E.prove(s, PRES(r, q) == PRES(r0, q), what + ': the registry is unchanged')
    if added is None:
        E.prove(s, Implies(PRES(r, q), VAL(r, q) == VAL(r0, q)), what + ': the other entries are unchanged')
    else:
        E.prove(s, Implies(PRES(r0, q), VAL(r, q) == VAL(r0, q)), what + ': the other entries are unchanged')
    if state is None:
        E.prove(s, STATE(r, h) == STATE(r0, h), what + ': the states of threads are unchanged')
    else:
        E.prove(s, STATE(r, h) == If(h == state[0], state[1], STATE(r0, h)), what + ': only the state of that thread changes')


# ------------------------------------------------------------------ latches and conditions
def latch(w):
    p = Ptr(w.E.new_cells(w.st, w.latch, 'latch'), 0)
    return p, w.E.ptr_add(w.st, p, w.mutex, 1)


def t_latch(E, fn, held):
    w = W(E)
    l, m = latch(w)
    mk = (m.obj, m.idx)
    if held:
        w.st.ghost['held'] += (mk,)
    for s, r in w.run(fn, [l]):
        now = w.has(s, m)
        if fn == 'l_new':
            E.prove(s, z3.BoolVal(('init', mk, w.ERRORCHECK) in s.ghost['inits'] and len(s.ghost['inits']) == 1), 'Latch(): the mutex is initialised, and recognises its holder')
            E.prove(s, z3.BoolVal(not now), 'Latch(): not held')
        elif fn == 'l_del':
            E.prove(s, z3.BoolVal(s.ghost['inits'] == (('destroy', mk),)), '~Latch: the mutex is destroyed')
        elif fn == 'l_probe':
            E.prove(s, (bv(r, 1) if not z3.is_bool(r) else If(r, V(1, 1), V(0, 1))) == (1 if now and not held else 0), 'probe: true exactly if it gained the latch')
            E.prove(s, z3.BoolVal(now or not held), 'probe: a latch that is held stays held')
        elif fn == 'l_enter':
            E.prove(s, z3.BoolVal(now and not held), 'enter: the latch is held afterwards')
        elif fn == 'l_holding':
            E.prove(s, (bv(r, 1) if not z3.is_bool(r) else If(r, V(1, 1), V(0, 1))) == (1 if held else 0), 'holding: true exactly if this thread holds the latch')
            E.prove(s, z3.BoolVal(now == held), 'holding: changes nothing')
        elif fn == 'l_leave':
            E.prove(s, z3.BoolVal(held and not now), 'leave: the latch is given up')


def t_cond(E, fn):
    w = W(E)
    c = Ptr(E.new_cells(w.st, w.cond, 'condition'), 0)
    ck = (c.obj, 0)
    l, m = latch(w)
    mk = (m.obj, m.idx)
    args = [c]
    ms = None
    if fn in ('c_wait', 'c_timed'):
        w.st.ghost['held'] += (mk,)
        args.append(l)
    if fn == 'c_timed':
        ms = z3.BitVec('delay_ms', 64)
        w.st.assume(And(ms >= 0, ms < (1 << 40)))
        E.inputs['delay_ms'] = ms
        d = Ptr(E.new_cells(w.st, 8, 'delay'), 0)
        E.store(w.st, d, ms, ('i', 64))
        args = [c, d, l]
    for s, r in w.run(fn, args):
        g = s.ghost
        if fn == 'c_new':
            E.prove(s, z3.BoolVal(g['inits'] == (('cond', ck),)), 'Condition(): initialised')
        elif fn == 'c_del':
            E.prove(s, z3.BoolVal(g['inits'] == (('cond_destroy', ck),)), '~Condition: destroyed')
        elif fn == 'c_ok':
            E.prove(s, (bv(r, 1) if not z3.is_bool(r) else If(r, V(1, 1), V(0, 1))) == 1, 'ok')
        elif fn == 'c_wait':
            E.prove(s, z3.BoolVal([x[:2] for x in g['waits']] == [(ck, mk)] and g['waits'][0][2] is None), 'wait: waits for a signal, once, giving up that latch')
            E.prove(s, z3.BoolVal(w.has(s, m)), 'wait: the latch is held again')
        elif fn == 'c_timed':
            E.prove(s, z3.BoolVal([x[:2] for x in g['waits']] == [(ck, mk)] and g['waits'][0][2] is not None and 'now' in g), 'timed wait: waits once, with a time limit, giving up that latch')
            E.prove(s, z3.BoolVal(w.has(s, m)), 'timed wait: the latch is held again')
            if g['waits'] and g['waits'][0][2] is not None and 'now' in g:
                (ts, tn), (s0, n0) = g['waits'][0][2], g['now']
                E.prove(s, And(tn >= 0, tn < 1000000000), 'timed wait: the time limit is well formed')
                q, f = z3.UDiv(ms, V(1000, 64)), z3.URem(ms, V(1000, 64)) * 1000000
                tot = n0 + f
                c1 = tot >= 1000000000
                E.prove(s, And(ts == s0 + q + If(c1, V(1, 64), V(0, 64)), tn == If(c1, tot - 1000000000, tot)), 'timed wait: the time limit is the delay from now')
            left = bv(E.load(s, d, ('i', 64)), 64)
            if g.get('timedout'):
                E.prove(s, left == 0, 'timed wait: no time is left after the time limit')
            else:
                E.prove(s, And(left >= 0, left <= ms), 'timed wait: the time left is at most the delay')
        else:
            E.prove(s, z3.BoolVal(g['signals'] == ((fn[2:], ck),)), fn[2:] + ': wakes the threads waiting for this condition')


# ------------------------------------------------------------------ threads
def t_joinany(E):
    w = W(E)
    w.vptr = None
    for s, r in w.run('t_joinAny', []):
        w.finish(s, 'joinAny')
        r0 = w.mention(s, w.r0(s))
        r1 = w.mention(s, w.r(s))
        if isnull(r):
            E.prove(s, ULE(SIZE(r0), 1), 'joinAny returns nothing only when no thread but main is left')
            same_but(w, s, 'joinAny')
            continue
        ok = isinstance(r, Ptr) and r.obj == w.TH
        E.prove(s, z3.BoolVal(ok), 'joinAny returns a thread')
        if not ok:
            continue
        h = simp(z3.LShR(bv(r.idx, 64), SH))
        w.thr(s, h)
        w.frames(s)
        E.prove(s, And(w.reg(r0, h), STATE(r0, h) == w.Ended), 'joinAny returns a registered thread that has ended')
        E.prove(s, h != w.HM, 'joinAny does not return the main thread')
        E.prove(s, Not(w.reg(r1, h)), 'joinAny returns a thread to one caller only')
        for t in s.ghost['joined']:
            E.prove(s, t == TID(r0, h), 'joinAny joins the thread it returns')
        same_but(w, s, 'joinAny', gone=TID(r0, h))


def t_join(E, joined):
    w = W(E, 'owner')
    st = w.st
    r = w.mention(st, w.r(st))
    st.assume(And(TID(r, w.H) != 0, TID(r, w.H) != w.SELF))
    w.frames(st)
    if joined:          # by joinAny
        st.assume(And(Not(w.reg(r, w.H)), STATE(r, w.H) == w.Ended))
    else:
        st.assume(Or(w.reg(r, w.H), STATE(r, w.H) == w.Ended))
    for s, x in w.run('t_join', [w.th(w.H)]):
        w.finish(s, 'join')
        r0, r1 = w.mention(s, w.r0(s)), w.mention(s, w.r(s))
        w.frames(s)
        E.prove(s, Not(w.reg(r1, w.H)), 'join: joinAny will not return the thread again')
        E.prove(s, STATE(r1, w.H) == w.Ended, 'join returns after the thread has ended')
        d = s.ghost.get('dropped', ())
        E.prove(s, w.reg(r0, w.H) if d else Not(w.reg(r0, w.H)), 'join unregisters the thread if it is registered')
        for t in d + s.ghost['joined']:
            E.prove(s, t == TID(r0, w.H), 'join joins this thread')
        if d:
            same_but(w, s, 'join', gone=TID(r0, w.H))
        else:
            same_but(w, s, 'join')


def t_resume(E):
    w = W(E, 'new')
    st = w.st
    r = w.mention(st, w.r(st))
    st.assume(And(STATE(r, w.H) == w.New, Not(w.reg(r, w.H))))
    w.frames(st)
    for s, x in w.run('t_resume', [w.th(w.H)]):
        w.finish(s, 'resume')
        c = s.ghost['created']
        ok = len(c) == 1 and isinstance(c[0][1], Ptr) and c[0][1].obj == w.TH
        E.prove(s, z3.BoolVal(ok), 'resume starts one thread')
        if not ok:
            continue
        E.prove(s, z3.BoolVal(E.mod.dem.get(c[0][0], '').startswith('Thread::ThreadProc')), 'resume starts the thread procedure')
        E.prove(s, simp(bv(c[0][1].idx, 64)) == simp(w.H << SH), 'resume starts the thread with its own object')
        r1 = w.mention(s, w.r(s))
        w.frames(s)
        E.prove(s, And(w.reg(r1, w.H), TID(r1, w.H) == c[0][2]), 'resume registers the thread under the id of the thread it started')
        E.prove(s, STATE(r1, w.H) == w.New, 'resume: the thread has not started to run')
        same_but(w, s, 'resume', added=(c[0][2], w.H))


def t_new(E):
    w = W(E, 'new')
    st = w.st
    r = w.mention(st, w.r(st))
    st.assume(Not(w.reg(r, w.H)))
    w.frames(st)
    for s, x in w.run('t_new', [w.th(w.H)]):
        w.finish(s, 'Thread()')
        r1 = w.mention(s, w.r(s))
        w.frames(s)
        E.prove(s, STATE(r1, w.H) == w.New, 'a new thread is not taken for one that has ended, or has an id')
        E.prove(s, TID(r1, w.H) == 0, 'a new thread has no id')
        E.prove(s, z3.BoolVal(not s.ghost['created']), 'a new thread does not run before it is resumed')


def t_proc(E):
    w = W(E, 'running')
    w.vptr = w.get_vptr()
    st = w.st
    r = w.mention(st, w.r(st))
    st.assume(And(STATE(r, w.H) == w.New, w.reg(r, w.H)))
    w.frames(st)
    for s, x in w.run('t_proc', [w.th(w.H)]):
        w.finish(s, 'a thread')
        E.prove(s, z3.BoolVal(s.ghost['ran'] == 1), 'run() is called once')
        r1, r0 = w.mention(s, w.r(s)), w.r0(s)
        w.frames(s)
        E.prove(s, And(STATE(r1, w.H) == w.Ended, w.reg(r1, w.H)), 'a thread that has run is registered as ended, for a joiner')
        same_but(w, s, 'a thread', state=(w.H, V(w.Ended, 32)))


def t_exit(E):
    w = W(E, 'running')
    st = w.st
    r = w.mention(st, w.r(st))
    st.assume(And(STATE(r, w.H) == w.Started, w.reg(r, w.H), TID(r, w.H) == w.SELF))
    w.frames(st)
    orig = w.finish
    seen = []

    def fin(s, what, ret=False):
        orig(s, 'exit')
        seen.append(1)
        r1 = w.mention(s, w.r(s))
        w.frames(s)
        E.prove(s, And(STATE(r1, w.H) == w.Ended, w.reg(r1, w.H)), 'a thread that exits is registered as ended, for a joiner')
        same_but(w, s, 'exit', state=(w.H, V(w.Ended, 32)))
    w.finish = fin
    for s, x in w.run('t_exit', [w.th(w.H), z3.BitVec('code', 32)]):
        E.fail(s, 'exit does not return: the thread would be counted as ended twice')
    E.prove(State(), z3.BoolVal(len(seen) >= 1), 'vacuity: exit reaches pthread_exit')


def t_del(E):
    w = W(E, 'dead')
    st = w.st
    r = w.mention(st, w.r(st))
    st.assume(STATE(r, w.H) == w.Ended)
    w.frames(st)
    for s, x in w.run('t_del', [w.th(w.H)]):
        w.finish(s, '~Thread')
        r1 = w.mention(s, w.r(s))
        d = s.ghost.get('dropped', ())
        w.frames(s)
        q, h = anykey(w, s)
        r0 = w.mention(s, w.r0(s))
        w.frames(s)
        E.prove(s, Implies(PRES(r1, q), VAL(r1, q) != w.H), '~Thread: no longer registered')
        E.prove(s, PRES(r1, q) == And(PRES(r0, q), VAL(r0, q) != w.H), '~Thread: no other thread is unregistered')
        E.prove(s, Implies(PRES(r1, q), VAL(r1, q) == VAL(r0, q)), '~Thread: the other entries are unchanged')
        E.prove(s, Implies(h != w.H, STATE(r1, h) == STATE(r0, h)), '~Thread: the states of other threads are unchanged')


def t_current(E, which):
    w = W(E, 'running' if which == 'thread' else None)
    st = w.st
    r = w.mention(st, w.r(st))
    if which == 'thread':
        st.assume(And(STATE(r, w.H) == w.Started, w.reg(r, w.H), TID(r, w.H) == w.SELF))
    elif which == 'main':
        st.assume(w.SELF == w.MID)
    w.frames(st)
    for s, x in w.run('t_current', []):
        w.finish(s, 'current')
        r0 = w.mention(s, w.r0(s))
        w.frames(s)
        if isnull(x):
            E.prove(s, Not(PRES(r0, w.SELF)), 'current: nothing only for a thread that is not registered')
        else:
            E.prove(s, z3.BoolVal(isinstance(x, Ptr) and x.obj == w.TH), 'current: a thread')
            h = simp(z3.LShR(bv(x.idx, 64), SH))
            E.prove(s, And(PRES(r0, w.SELF), h == VAL(r0, w.SELF)), 'current: the thread registered with the id of the caller')
            if which == 'thread':
                E.prove(s, h == w.H, 'current: this thread')
            elif which == 'main':
                E.prove(s, h == w.HM, 'current: the main thread')
        same_but(w, s, 'current')


def t_main(E):
    """the main thread registers itself; nobody else has the registry yet"""
    w = W(E, 'new')
    st = w.st
    r = w.mention(st, w.r(st))
    w.H = w.HM
    st.assume(And(Not(w.reg(r, w.HM)), w.SELF == w.MID, SIZE(r) == 0, CNT(r) == 0, Not(PRES(r, w.MID))))
    E._cell_store(st.w(w.count_p.obj), 0, 4, V(0, 32))
    E.store(st, w.main_p, NULL, ('ptr',))
    w.frames(st)
    w.acquire = lambda st, again=False: None        # static initialisation: no other thread runs
    for s, x in w.run('m_new', [w.th(w.HM)]):
        w.finish(s, 'MainThread()')
        r1 = w.mention(s, w.r(s))
        w.frames(s)
        E.prove(s, w.inv(r1), 'MainThread(): the main thread is registered as running')
        E.prove(s, And(SIZE(r1) == 1, CNT(r1) == 0), 'MainThread(): no other thread is registered')
        p = E.load(s, w.main_p, ('ptr',))
        E.prove(s, z3.BoolVal(isinstance(p, Ptr) and p.obj == w.TH) if not isnull(p) else z3.BoolVal(False), 'main() is the main thread')
        if isinstance(p, Ptr) and p.obj == w.TH:
            E.prove(s, simp(bv(p.idx, 64)) == simp(w.HM << SH), 'main() is the main thread')


def t_id(E):
    w = W(E, 'owner')
    st = w.st
    r = w.mention(st, w.r(st))
    for s, x in w.run('t_id', [w.th(w.H)]):
        E.prove(s, bv(x, 64) == TID(r, w.H), 'id: the id of the thread')
    w = W(E)
    for s, x in w.run('t_currentId', []):
        E.prove(s, bv(x, 64) == w.SELF, 'currentId: the id of the caller')


def tasks(tier):
    out = []

    def t(name, fn, **k):
        out.append(Task(name, 'threads', fn, **k))
    for fn, hs in (('l_new', (0,)), ('l_del', (0,)), ('l_probe', (0, 1)), ('l_enter', (0,)), ('l_holding', (0, 1)), ('l_leave', (1,))):
        for h in hs:
            t('Latch %s%s' % (fn[2:], ' held' if h else ''), lambda E, fn=fn, h=h: t_latch(E, fn, bool(h)))
    for fn in ('c_new', 'c_del', 'c_ok', 'c_wait', 'c_timed', 'c_signal', 'c_broadcast'):
        t('Condition ' + fn[2:], lambda E, fn=fn: t_cond(E, fn))
    t('joinAny', t_joinany)
    t('join', lambda E: t_join(E, False))
    t('join after joinAny', lambda E: t_join(E, True))
    t('resume', t_resume)
    t('Thread()', t_new)
    t('ThreadProc', t_proc)
    t('exit', t_exit)
    t('~Thread', t_del)
    for k in ('thread', 'main', 'any'):
        t('current ' + k, lambda E, k=k: t_current(E, k))
    t('MainThread()', t_main)
    t('id', t_id)
    return out


def hint(task, name, inputs):
    return 'search'
