"""C03: stepping back with UTF8Backup undoes stepping forward with UTF8Get and respects its limit."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, NULL
import u8spec as U

REPLAY = 'c03.cpp'
ASSUMPTIONS = ['without a limit, the six bytes before the cursor are readable (library documentation: "in any case limit to 6 bytes")',
               'the text is readable up to the first byte that is not a continuation byte after the cursor (its NUL)']
N = 24
C0 = 12     # cursor index in the window; everything is relative to it


def spec_back(rd, lim_off):
    """byte offset (positive) to step back from the cursor; 0: nothing to back up over.  lim_off: cp-limit (0..6+) as BV64"""
    n = If(UGT(lim_off, V(6, 64)), V(6, 64), lim_off)
    r = V(1, 64)
    # nearest first byte within the limit
    for d in range(6, 0, -1):
        bs = [rd(-d + k) for k in range(6)]
        good = And(UGE(z3.ZeroExt(32, U.declen(bs)), V(d, 64)))
        here = And(ULE(V(d, 64), n), U.is1st(rd(-d)))
        r = If(here, If(good, V(d, 64), V(1, 64)), r)
    return r


def t_backup(E):
    st = State()
    buf = E.new_arr(st, 1, N, 'text')
    o = st.objs[buf]
    rd = lambda k: E.arr_read(o, C0 + k)
    E.inputs = {'w%d' % k: rd(k - 6) for k in range(12)}
    for lim in [None] + list(range(0, 10)):
        s0 = st.fork()
        E.inputs['lim'] = -1 if lim is None else lim
        arg = NULL if lim is None else Ptr(buf, C0 - lim)
        exp = spec_back(rd, V(6 if lim is None else lim, 64))
        for s, r in E.run(s0, 'UTF8Backup(char const*, char const*)', [Ptr(buf, C0), arg]):
            if lim == 0:
                E.prove(s, z3.BoolVal(r.obj == 0), 'UTF8Backup at the limit returns no position')
                continue
            if r.obj == 0:
                E.prove(s, z3.BoolVal(False), 'UTF8Backup returns a position when there is room')
                continue
            E.prove(s, V(C0, 64) - bv(r.idx, 64) == exp, 'UTF8Backup finds the start of the previous character (limit %s)' % lim)
            if lim is not None:
                E.prove(s, ULE(V(C0, 64) - bv(r.idx, 64), V(lim, 64)), 'UTF8Backup does not go before the limit')
    # a limit beyond the cursor
    s0 = st.fork()
    for s, r in E.run(s0, 'UTF8Backup(char const*, char const*)', [Ptr(buf, C0), Ptr(buf, C0 + 3)]):
        E.prove(s, z3.BoolVal(r.obj == 0), 'UTF8Backup with a limit after the cursor returns no position')


def t_lemma(E):
    """p: a character boundary (no sequence starting before p, within the text, covers p); q = p + consumed(p).
    Then the spec of UTF8Backup at q returns p; and q is again a boundary."""
    a = z3.Array('M', z3.BitVecSort(64), z3.BitVecSort(8))
    rd = lambda i: z3.Select(a, z3.simplify(i) if not isinstance(i, int) else V(i, 64))
    st = State()
    p = V(100, 64)
    bs = lambda i: [rd(i + k) for k in range(6)]
    E.inputs = {'w%d' % k: rd(V(100 - 6 + k, 64)) for k in range(14)}
    back = z3.BitVec('start_back', 64)           # p - start of text
    E.inputs['lim'] = back
    bnd = lambda x, sb: And([Implies(And(ULE(V(d, 64), sb), U.is1st(rd(x - d))), ULE(z3.ZeroExt(32, U.declen(bs(x - d))), V(d, 64)))
                             for d in range(1, 6)])
    st.assume(bnd(p, back))
    st.assume(ULE(back, V(50, 64)))
    E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
    L = U.declen(bs(p))
    for n in range(1, 7):
        s = st.fork()
        s.assume(L == n)
        q = z3.simplify(p + n)
        E.prove(s, bnd(q, back + n), 'lemma: stepping forward keeps the cursor on a boundary (%d bytes)' % n)
        lim = back + n
        E.prove(s, spec_back(lambda k: rd(q + k), lim) == n, 'lemma: UTF8Backup undoes UTF8Get (%d bytes)' % n)
    s = State()
    E.prove(s, bnd(p, V(0, 64)), 'lemma: the start of the text is a boundary')


def tasks(tier):
    return [Task('UTF8Backup', 'char', t_backup), Task('lemma: backup undoes forward stepping', 'char', t_lemma)]


def hint(t, n, inp):
    if 'w0' in inp:
        k = 0
        ws = []
        while 'w%d' % k in inp:
            ws.append(str(inp['w%d' % k]))
            k += 1
        return 'win %d ' % (inp.get('lim', -1) if inp.get('lim', -1) < 100 else 50) + ' '.join(ws)
