"""C28: reference counting frees each object exactly when the last reference goes, whatever other threads do with their own references.

Thread-modular (rely/guarantee) contracts: the counted object is shared with arbitrary other threads, which add and drop references of
their own between any two accesses; this thread may rely only on the count being at least the number of references it holds, and on the
count not moving while it holds all of them.  Guarantee: the count changes only by atomic read-modify-writes by exactly one, by as many as
the references this thread gains or loses; the object is deleted exactly by whoever's read-modify-write brought the count to zero; nothing
in the object is touched by a thread that holds no reference."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If
from runner import Task
from sym import Ptr, bv, State, NULL, isint, isnull, simp

REPLAY = 'c28.cpp'
ASSUMPTIONS = ['operator new does not fail', 'fewer than 2^30 references to an object',
               'other threads only copy, assign and drop references of their own (they obey the same contract)',
               'a Ref variable itself is used by one thread at a time; a raw pointer handed over is kept alive by somebody',
               'atomic operations are sequentially consistent (std::atomic<int> default order)']
TRUSTED = ['__assert_fail does not return']
MAXRC = 1 << 30


class W:
    def __init__(self, E):
        self.E, st = E, State()
        for k in ('sizeN', 'sizeR', 'rc', 'data', 'b', 'ptr'):
            r = [x for _, x in E.run(State(), 'L_' + k, [])]
            assert len(r) == 1 and isint(r[0])
            setattr(self, k, r[0])
        d, b = z3.BitVec('d0', 64), z3.BitVec('b0', 64)
        r = list(E.run(st, 'mk_node', [d, b]))
        assert len(r) == 1
        self.st, proto = r[0]
        self.proto = proto.obj
        self.objs, self.refs = {}, {}
        E.inputs = {}

    def obj(self, tag):
        """an object other threads may also refer to"""
        E, st = self.E, self.st
        oid = E.new_cells(st, self.sizeN, 'object_' + tag, heap='new')
        c = st.w(oid).cells
        for off, x in st.objs[self.proto].cells.items():
            c[off] = x
        rc = z3.BitVec('rc_' + tag, 32)
        st.assume(And(rc >= 1, rc < MAXRC))
        E._cell_store(st.w(oid), self.rc, 4, rc)
        for k in ('data', 'b'):
            E._cell_store(st.w(oid), getattr(self, k), 8, z3.BitVec(k + '_' + tag, 64))
        st.ghost[('own', oid)] = 0
        st.ghost[('nv', oid)] = None
        E.shared[oid] = self.handler
        E.inputs['rc_' + tag] = rc
        self.objs[tag] = oid
        return oid

    def own(self, oid):
        self.st.ghost[('own', oid)] += 1
        k = self.st.ghost[('own', oid)]
        self.st.assume(self.st.objs[oid].cells[self.rc][1] >= k)

    def ref(self, tag, oid):
        """a Ref variable of this thread; the reference is one it holds"""
        E, st = self.E, self.st
        r = E.new_cells(st, self.sizeR, 'ref_' + tag)
        E._cell_store(st.w(r), self.ptr, 8, Ptr(oid, 0) if oid else NULL)
        if oid:
            self.own(oid)
        self.refs[tag] = r
        return Ptr(r, 0)

    def raw(self):
        return Ptr(self.E.new_cells(self.st, self.sizeR, 'new_ref'), 0)

    def vacuity(self):
        self.E.prove(self.st, z3.BoolVal(self.E.feasible(self.st)), 'vacuity: precondition satisfiable')

    def handler(self, E, st, p, kind, ty, x):
        oid = p.obj
        own = st.ghost[('own', oid)]
        nv = st.ghost[('nv', oid)]
        mine = own > 0 or (nv is not None and not E.feasible(st, nv != 0))
        if not mine:
            E.fail(st, 'the object is not touched after the last reference this thread held is gone')
            return None
        if own == 0:
            return None          # this thread's decrement reached zero: nobody else has it
        if not (isint(p.idx) and p.idx == self.rc):
            if kind == 'store':
                E.prove(st, st.objs[oid].cells[self.rc][1] == own, 'a shared object is not modified')
            return None
        if kind == 'store':
            E.fail(st, 'the count changes only by an atomic read-modify-write')
            return None
        # the others come and go
        c = st.objs[oid].cells[self.rc][1]
        c2 = E.fresh('rc_seen', 32)
        st.assume(And(c2 >= own, c2 < MAXRC, Implies(c == own, c2 == c)))
        if kind == 'load':
            E._cell_store(st.w(oid), self.rc, 4, c2)
            return c2
        d = z3.simplify(bv(x, 32) if kind == 'add' else -bv(x, 32))
        up = z3.is_bv_value(d) and d.as_long() == 1
        down = z3.is_bv_value(d) and d.as_long() == 0xFFFFFFFF
        E.prove(st, z3.BoolVal(up or down), 'the count moves by exactly one')
        n = simp(c2 + d)
        E._cell_store(st.w(oid), self.rc, 4, n)
        st.ghost[('own', oid)] = own + (1 if up else -1)
        st.ghost[('nv', oid)] = n if own == 1 and down else None
        return c2

    def check(self, s, want, what, refs={}):
        """want: tag -> references held afterwards; refs: Ref pointer -> object id expected (0: null)"""
        E = self.E
        for p, o in refs.items():
            q = E.load(s, Ptr(p, self.ptr), ('ptr',))
            E.prove(s, z3.BoolVal(isinstance(q, Ptr) and q.obj == o and isint(q.idx) and q.idx == 0), what + ': refers to the right object')
        for tag, oid in self.objs.items():
            o, own, nv = s.objs[oid], s.ghost[('own', oid)], s.ghost[('nv', oid)]
            E.prove(s, z3.BoolVal(own == want[tag]), what + ': holds exactly one counted reference per Ref (%s)' % tag)
            if not o.alive:
                E.prove(s, nv == 0 if nv is not None else z3.BoolVal(False), what + ': deleted only when the count reached zero (%s)' % tag)
            elif own == 0 and nv is not None:
                E.prove(s, nv != 0, what + ': deleted when the count reached zero (%s)' % tag)
            if o.alive and own:
                for k in ('data', 'b'):
                    E.prove(s, o.cells[getattr(self, k)][1] == z3.BitVec(k + '_' + tag, 64), what + ': content untouched (%s)' % tag)

    def fresh_objs(self, s, base):
        return [i for i, o in s.objs.items() if i not in base and o.heap]


def scenario(E, alias):
    """refs a and b: null, to different objects, to the same object"""
    w = W(E)
    A = w.obj('A')
    B = A if alias == 'same' else w.obj('B')
    a = w.ref('a', 0 if alias in ('null-a', 'both-null') else A)
    b = w.ref('b', 0 if alias in ('null-b', 'both-null') else B)
    oa, ob = w.st.ghost[('own', A)], w.st.ghost[('own', B)]
    return w, A, B, a, b


def runs(E, w, fn, args):
    w.vacuity()
    base = set(w.st.objs)
    n = 0
    for s, r in E.run(w.st, fn, args):
        n += 1
        yield s, r, base
    E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns' % fn)


def noleak(E, w, s, base, what):
    for i in w.fresh_objs(s, base):
        E.prove(s, z3.BoolVal(not s.objs[i].alive), what + ': nothing leaked')


def tgt(w, s, p):
    return s.objs[p.obj].cells[w.ptr][1].obj


def t_raw(E, fn):
    w = W(E)
    A = w.obj('A')
    w.own(A)
    what = 'AddRef' if fn == 'rc_add' else 'Release'
    for s, r, base in runs(E, w, fn, [Ptr(A, 0)]):
        w.check(s, {'A': 2 if fn == 'rc_add' else 0}, what)
        noleak(E, w, s, base, what)


def t_count(E, fn, via):
    w = W(E)
    A = w.obj('A')
    p = w.ref('a', A if via != 'null' else 0)
    if via == 'raw':
        p = Ptr(A, 0)
    k = w.st.ghost[('own', A)]
    for s, r, base in runs(E, w, fn, [p]):
        w.check(s, {'A': k}, 'GetRefCount')
        if via == 'null':
            E.prove(s, bv(r, 32) == 0, 'GetRefCount of a null Ref is 0')
        else:
            E.prove(s, bv(r, 32) >= k, 'GetRefCount counts at least the references held here')
            E.prove(s, bv(r, 32) == s.objs[A].cells[w.rc][1], 'GetRefCount is the count at that moment')


def t_new(E, fn, kind):
    """constructions: default, from a raw pointer, copy, casts"""
    w = W(E)
    A = w.obj('A')
    null = kind == 'null'
    r = w.raw()
    if fn == 'r_default':
        args, e, have = [r], 0, 0
    elif fn == 'r_new':
        w.own(A)          # the caller keeps the object alive
        args, e, have = [r, NULL if null else Ptr(A, 0)], 0 if null else A, 1
    else:
        a = w.ref('a', 0 if null else A)
        args, e, have = [r, a], 0 if null else A, w.st.ghost[('own', A)]
    for s, x, base in runs(E, w, fn, args):
        w.check(s, {'A': have + (1 if e else 0)}, fn[2:], {r.obj: e})
        if fn not in ('r_default', 'r_new'):
            w.check(s, {'A': have + (1 if e else 0)}, fn[2:], {a.obj: e})
        noleak(E, w, s, base, fn[2:])


def t_fresh(E, fn):
    """a Ref made from, or assigned, a newly made object counts it once"""
    w = W(E)
    st = w.st
    r = list(E.run(st, 'mk_node', [z3.BitVec('d1', 64), z3.BitVec('b1', 64)]))
    w.st, N = r[0]
    N = N.obj
    E.prove(w.st, bv(E.load(w.st, Ptr(N, w.rc), ('i', 32)), 32) == 0, 'a new object starts unreferenced')
    p = w.raw()
    have = {}
    if fn == 'r_assign_raw':
        A = w.obj('A')
        p = w.ref('a', A)
        have = {'A': 0}
    for s, x, base in runs(E, w, fn, [p, Ptr(N, 0)]):
        w.check(s, have, fn[2:], {p.obj: N})
        E.prove(s, z3.BoolVal(s.objs[N].alive), fn[2:] + ': new object lives')
        E.prove(s, bv(E.load(s, Ptr(N, w.rc), ('i', 32)), 32) == 1, fn[2:] + ': new object has one reference')
        noleak(E, w, s, base, fn[2:])


def t_dtor(E, null):
    w = W(E)
    A = w.obj('A')
    a = w.ref('a', 0 if null else A)
    for s, x, base in runs(E, w, 'r_dtor', [a]):
        w.check(s, {'A': 0}, 'destructor')
        noleak(E, w, s, base, 'destructor')


def t_assign(E, alias):
    w, A, B, a, b = scenario(E, alias)
    want = {}
    bt = tgt(w, w.st, b)
    for tag, o in w.objs.items():
        want[tag] = sum(1 for p in (b, b) if tgt(w, w.st, p) == o)
    for s, x, base in runs(E, w, 'r_assign', [a, b]):
        w.check(s, want, 'assignment', {a.obj: bt, b.obj: bt})
        noleak(E, w, s, base, 'assignment')


def t_self(E, null):
    w = W(E)
    A = w.obj('A')
    a = w.ref('a', 0 if null else A)
    for s, x, base in runs(E, w, 'r_assign', [a, a]):
        w.check(s, {'A': 0 if null else 1}, 'self-assignment', {a.obj: 0 if null else A})
        noleak(E, w, s, base, 'self-assignment')


def t_assign_raw(E, kind):
    w = W(E)
    A, B = w.obj('A'), w.obj('B')
    a = w.ref('a', 0 if kind == 'null-a' else A)
    if kind == 'null':
        q, want, e = NULL, {'A': 0, 'B': 0}, 0
    elif kind == 'same':
        q, want, e = Ptr(A, 0), {'A': 1, 'B': 0}, A
    else:
        w.own(B)
        q, want, e = Ptr(B, 0), {'A': 0, 'B': 2}, B
    for s, x, base in runs(E, w, 'r_assign_raw', [a, q]):
        w.check(s, want, 'assignment of a pointer', {a.obj: e})
        noleak(E, w, s, base, 'assignment of a pointer')


def t_get(E, fn, null):
    w = W(E)
    A = w.obj('A')
    a = w.ref('a', 0 if null else A)
    for s, x, base in runs(E, w, fn, [a]):
        w.check(s, {'A': 0 if null else 1}, fn[2:], {a.obj: 0 if null else A})
        if fn == 'r_bool':
            f = z3.BoolVal(bool(x)) if isint(x) else (x if z3.is_bool(x) else x != 0)
            E.prove(s, f == z3.BoolVal(not null), 'a Ref tests true exactly if it refers to an object')
        else:
            E.prove(s, z3.BoolVal(isinstance(x, Ptr) and x.obj == (0 if null else A) and isint(x.idx) and x.idx == 0), fn[2:] + ' gives the object')


def t_unshare(E, kind):
    """afterwards this thread is the only one with the object; the value is the same; the other users keep theirs"""
    w = W(E)
    A = w.obj('A')
    a = w.ref('a', 0 if kind == 'null' else A)
    if kind == 'also-b':
        b = w.ref('b', A)
    k = w.st.ghost[('own', A)]
    for s, x, base in runs(E, w, 'r_unshare', [a]):
        q = E.load(s, Ptr(a.obj, w.ptr), ('ptr',))
        if kind == 'null':
            w.check(s, {'A': 0}, 'Unshare', {a.obj: 0})
            noleak(E, w, s, base, 'Unshare')
            continue
        if q.obj == A:
            w.check(s, {'A': k}, 'Unshare')
            E.prove(s, s.objs[A].cells[w.rc][1] == 1, 'Unshare: an object kept is nobody else\'s')
            noleak(E, w, s, base, 'Unshare')
            continue
        E.prove(s, z3.BoolVal(q.obj in w.fresh_objs(s, base) and s.objs[q.obj].alive), 'Unshare: otherwise a new object')
        w.check(s, {'A': k - 1}, 'Unshare')
        E.prove(s, bv(E.load(s, Ptr(q.obj, w.rc), ('i', 32)), 32) == 1, 'Unshare: the copy has one reference')
        for f in ('data', 'b'):
            E.prove(s, bv(E.load(s, Ptr(q.obj, getattr(w, f)), ('i', 64)), 64) == z3.BitVec(f + '_A', 64), 'Unshare: the copy has the same value')
        for i in w.fresh_objs(s, base):
            if i != q.obj:
                E.prove(s, z3.BoolVal(not s.objs[i].alive), 'Unshare: nothing leaked')


def t_seq(E, alias):
    """a sequence through copies and temporaries"""
    w, A, B, a, b = scenario(E, alias)
    ta, tb = tgt(w, w.st, a), tgt(w, w.st, b)
    want = {t: sum(1 for x in (ta, tb) if x == o) for t, o in w.objs.items()}
    for s, x, base in runs(E, w, 'r_swap', [a, b]):
        w.check(s, want, 'swap', {a.obj: tb, b.obj: ta})
        noleak(E, w, s, base, 'swap')


def t_temp(E, null):
    w = W(E)
    A = w.obj('A')
    a = w.ref('a', 0 if null else A)
    for s, x, base in runs(E, w, 'r_temp', [a]):
        w.check(s, {'A': 0 if null else 1}, 'temporaries', {a.obj: 0 if null else A})
        noleak(E, w, s, base, 'temporaries')


def t_cmp(E, fn, alias):
    w, A, B, a, b = scenario(E, alias)
    x, y = z3.BitVec('data_A', 64), z3.BitVec('data_A' if A == B else 'data_B', 64)
    want = {t: sum(1 for q in (A, B) if q == o) for t, o in w.objs.items()}
    f = {'r_eq': x == y, 'r_ne': x != y, 'r_lt': x < y, 'r_gt': x > y}[fn]
    for s, r, base in runs(E, w, fn, [a, b]):
        w.check(s, want, fn[2:], {a.obj: A, b.obj: B})
        rb = z3.BoolVal(bool(r)) if isint(r) else (r if z3.is_bool(r) else bv(r, 32) != 0)
        E.prove(s, rb == f, 'comparing Refs compares the objects (%s)' % fn[2:])
        noleak(E, w, s, base, fn[2:])


def tasks(tier):
    ts = []
    T = lambda name, f: ts.append(Task(name, 'ref', f))
    T('AddRef', lambda E: t_raw(E, 'rc_add'))
    T('Release', lambda E: t_raw(E, 'rc_release'))
    for via in ('raw', 'ref', 'null'):
        T('GetRefCount (%s)' % via, (lambda v: lambda E: t_count(E, 'rc_get' if v == 'raw' else 'r_count', v))(via))
    for fn in ('r_default', 'r_new', 'r_copy', 'r_up', 'r_down'):
        for k in ('object', 'null'):
            T('%s (%s)' % (fn[2:], k), (lambda fn, k: lambda E: t_new(E, fn, k))(fn, k))
    T('new object (construct)', lambda E: t_fresh(E, 'r_new'))
    T('new object (assign)', lambda E: t_fresh(E, 'r_assign_raw'))
    for n in (False, True):
        T('destructor (%s)' % ('null' if n else 'object'), (lambda n: lambda E: t_dtor(E, n))(n))
        T('self-assignment (%s)' % ('null' if n else 'object'), (lambda n: lambda E: t_self(E, n))(n))
        T('temporaries (%s)' % ('null' if n else 'object'), (lambda n: lambda E: t_temp(E, n))(n))
        for fn in ('r_get', 'r_arrow', 'r_bool'):
            T('%s (%s)' % (fn[2:], 'null' if n else 'object'), (lambda fn, n: lambda E: t_get(E, fn, n))(fn, n))
    T('star', lambda E: t_get(E, 'r_star', False))
    for al in ('different', 'same', 'null-a', 'null-b', 'both-null'):
        T('assignment (%s)' % al, (lambda al: lambda E: t_assign(E, al))(al))
        T('swap (%s)' % al, (lambda al: lambda E: t_seq(E, al))(al))
    for fn in ('r_eq', 'r_ne', 'r_lt', 'r_gt'):
        for al in ('different', 'same'):
            T('%s (%s)' % (fn[2:], al), (lambda fn, al: lambda E: t_cmp(E, fn, al))(fn, al))
    for k in ('different', 'same', 'null', 'null-a'):
        T('assignment of a pointer (%s)' % k, (lambda k: lambda E: t_assign_raw(E, k))(k))
    for k in ('null', 'one', 'also-b'):
        T('Unshare (%s)' % k, (lambda k: lambda E: t_unshare(E, k))(k))
    return ts


def hint(t, n, inp):
    return 'search'
