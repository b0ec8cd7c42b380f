"""C07: guarded pointers stay between the origin and the NUL, and move by exactly the characters asked for unless a guard stops them."""
import re
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, Forall, NULL, sub64, isint
import u8spec as U
import c03

REPLAY = 'c07.cpp'
ASSUMPTIONS = ['the text is readable from six bytes before the origin up to its NUL (only the unguarded-below UTF-8 pointer reads before the origin)',
               'the amount subtracted is not INT_MIN', 'UTF8Get and UTF8Backup meet their contracts (discharged by C02 and C03)']
UTF8Backup = 'UTF8Backup(char const*, char const*)'
UTF8Get = 'UTF8Get(char const*&)'
PAD = 8


class Text:
    """bytes PAD.. : origin o <= position d <= n, text[n] == 0, no NUL in [d, n)"""

    def __init__(self, E):
        st = State()
        self.E, self.st = E, st
        n, o, d = z3.BitVec('n', 64), z3.BitVec('o', 64), z3.BitVec('d', 64)
        self.n, self.o, self.d = n, o, d
        st.assume(ULE(V(PAD, 64), o)), st.assume(ULE(o, d)), st.assume(ULE(d, n)), st.assume(ULE(n, V(1 << 40, 64)))
        self.base = z3.Array('text', z3.BitVecSort(64), z3.BitVecSort(8))
        self.buf = E.new_arr(st, 1, n + 1, 'text', base=self.base)
        st.assume(self.at(n) == 0)
        st.foralls.append(Forall(lambda t: Implies(And(ULE(d, bv(t, 64)), ULT(bv(t, 64), n)), self.at(t) != 0), [0]))
        st.terms += [d, n]
        self.args = [Ptr(self.buf, o), Ptr(self.buf, d)]
        E.inputs = {'back': d - o, 'left': n - d, **{'w%d' % k: self.at(d + (k - 8)) for k in range(20)}}
        E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')

    def at(self, i):
        return z3.Select(self.base, bv(i, 64))


def bytes6(T, i):
    return [T.at(i + k) for k in range(6)]


def pos(T, r):
    return bv(r.idx, 64) if isinstance(r, Ptr) and r.obj == T.buf else None


# ---- specs for the char pointers
def c_fwd(T, i):
    """i > 0"""
    s = z3.SignExt(32, i)
    return If(ULT(T.n - T.d, s), T.n, T.d + s)


def c_back(T, i, guarded):
    s = -z3.SignExt(32, i)
    t = T.d - s
    return If(ULT(T.d - T.o, s), T.o, t) if guarded else t


def c_move(T, i, g):
    return If(i > 0, c_fwd(T, i), If(i < 0, c_back(T, i, g), T.d))


def run1(E, T, st, fn, args, chk):
    n = 0
    for s, r in E.run(st, fn, args):
        n += 1
        chk(s, r)
    E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns' % fn)


def at_pos(E, T, what, spec):
    def chk(s, r):
        p = pos(T, r)
        if p is None:
            E.prove(s, z3.BoolVal(False), what + ': result points into the text')
            return
        E.prove(s, p == spec, what, terms=[p])
    return chk


OPS = (('addeq', 0, 0), ('addeq_r', 0, 0), ('add', 0, 0), ('add_src', 0, 1), ('subeq', 1, 0), ('sub', 1, 0), ('sub_src', 1, 1), ('ccopy_move', 0, 0))


def mk_char_op(pre, guarded, fn, neg, src):
    def t(E):
        E.unroll_first = False
        if 1:
            T = Text(E)
            i = z3.BitVec('i', 32)
            E.inputs['i'] = -i if neg else i
            st = T.st
            if neg:
                st.assume(i != V(1 << 31, 32))
            j = -i if neg else i
            if not guarded:
                st.assume(Implies(j < 0, ULE(-z3.SignExt(32, j), T.d)))
            else:
                pass
            spec = T.d if src else c_move(T, j, guarded)
            st.terms += [T.d + z3.SignExt(32, j)]
            run1(E, T, st, pre + '_' + fn, T.args + [i], at_pos(E, T, '%s_%s moves by the amount, stopped only by the guards' % (pre, fn), spec))
    return t


def mk_char(pre, guarded):
    def t(E):
        E.unroll_first = False
        steps(E, pre, guarded, lambda T: If(T.d == T.n, T.d, T.d + 1), lambda T: If(T.d == T.o, T.d, T.d - 1) if guarded else T.d - 1,
              lambda E, T, st: None)
        T = Text(E)
        run1(E, T, T.st, pre + '_deref', T.args, lambda s, r: E.prove(s, bv(r, 8) == T.at(T.d), pre + ' dereferences to the byte under the pointer'))
        if guarded:
            T = Text(E)
            i = z3.BitVec('i', 32)
            E.inputs['i'] = i
            run1(E, T, T.st, pre + '_copy_back', T.args + [i], at_pos(E, T, pre + ' copies keep the guards', c_move(T, i, guarded)))
    return t


def steps(E, pre, guarded, fwd, back, prep):
    for fn, spec in (('preinc', fwd), ('preinc_r', fwd), ('postinc', fwd), ('postinc_r', lambda T: T.d), ('predec', back), ('predec_r', back),
                     ('postdec', back), ('postdec_r', lambda T: T.d), ('copy', lambda T: T.d)):
        T = Text(E)
        E.inputs['i'] = {'pre': 1, 'pos': 1}.get(fn[:3], 0) * (1 if 'inc' in fn else -1)
        prep(E, T, T.st)
        run1(E, T, T.st, pre + '_' + fn, T.args, at_pos(E, T, '%s_%s steps one character, stopped only by the guards' % (pre, fn), spec(T)))
    T = Text(E)
    run1(E, T, T.st, pre + '_eof', T.args, lambda s, r: E.prove(s, (z3.BoolVal(bool(r)) if isint(r) else r) == (T.d == T.n), pre + ' at_eof exactly at the NUL'))
    if guarded:
        T = Text(E)
        run1(E, T, T.st, pre + '_bot', T.args, lambda s, r: E.prove(s, (z3.BoolVal(bool(r)) if isint(r) else r) == (T.d == T.o), pre + ' at_bot exactly at the origin'))
    T2 = Text(E)
    run1(E, T2, T2.st, pre + '_dist', T2.args, lambda s, r: E.prove(s, bv(r, 64) == T2.d - T2.o, pre + ' difference in bytes'))


# ---- UTF-8 pointers: chains of decode steps / backup steps as uninterpreted functions with their defining axioms
def declen_at(T, x):
    return z3.ZeroExt(32, U.declen(bytes6(T, x)))


def fwd1(T, x):
    return If(T.at(x) == 0, x, x + declen_at(T, x))


def back1(T, x, guarded):
    """position after backing up one character from x"""
    lim = (x - T.o) if guarded else V(6, 64)
    return If(x == T.o, x, x - c03.spec_back(lambda k: T.at(x + k), lim)) if guarded else x - c03.spec_back(lambda k: T.at(x + k), lim)


DL = z3.Function('declen', z3.BitVecSort(64), z3.BitVecSort(64))
DV = z3.Function('decval', z3.BitVecSort(64), z3.BitVecSort(32))
BK = z3.Function('backlen', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def u_setup(E, T, guarded, opaque):
    """contracts of UTF8Get / UTF8Backup at their call sites; opaque: as uninterpreted functions of the position, with the facts
    their contracts (C02, C03) give: a step is 1..6 bytes and does not pass the NUL; a step back is 1..6 bytes and stays at the limit"""
    dl = (lambda x: DL(x)) if opaque else (lambda x: declen_at(T, x))
    dv = (lambda x: DV(x)) if opaque else (lambda x: U.decval(bytes6(T, x)))
    bk = (lambda x, l: BK(x, l)) if opaque else (lambda x, l: c03.spec_back(lambda k: T.at(x + k), l))

    def get(E, st, args, dem):
        pp = args[0]
        c = E.load(st, pp, ('ptr',))
        if not isinstance(c, Ptr) or c.obj != T.buf:
            return NotImplemented
        x = bv(c.idx, 64)
        E.prove(st, ULE(x, T.n), 'UTF8Get precondition: the position is not beyond the NUL', terms=[x])
        if opaque:
            st.assume(And(UGE(dl(x), 1), ULE(dl(x), 6)))
            st.assume(Implies(ULT(x, T.n), ULE(x + dl(x), T.n)))
        E.store(st, pp, Ptr(T.buf, x + dl(x)), ('ptr',))
        return [(st, dv(x))]

    def back(E, st, args, dem):
        c, l = args
        if not isinstance(c, Ptr) or c.obj != T.buf:
            return NotImplemented
        x = bv(c.idx, 64)
        out = []
        if l.obj == 0:
            E.prove(st, UGE(x, V(6, 64)), 'UTF8Backup precondition: six readable bytes before the cursor, or a limit', terms=[x])
            if opaque:
                st.assume(And(UGE(bk(x, V(6, 64)), 1), ULE(bk(x, V(6, 64)), 6)))
            return [(st, Ptr(T.buf, x - bk(x, V(6, 64))))]
        lim = bv(l.idx, 64)
        if E.feasible(st, ULE(x, lim)):
            s = st.fork()
            s.assume(ULE(x, lim))
            out.append((s, NULL))
        if E.feasible(st, UGT(x, lim)):
            st.assume(UGT(x, lim))
            b = bk(x, x - lim)
            if opaque:
                st.assume(And(UGE(b, 1), ULE(b, 6), ULE(b, x - lim)))
            out.append((st, Ptr(T.buf, x - b)))
        return out
    E.contracts[E.find(UTF8Get)] = get
    E.contracts[E.find(UTF8Backup)] = back


def lemma_declen(T, x):
    """C02 lemma: a sequence does not extend over the NUL"""
    return Implies(And(ULE(T.d, x), ULT(x, T.n)), ULE(x + declen_at(T, x), T.n))


def t_lemma(E):
    """the facts used for the opaque steps follow from the full contracts"""
    T = Text(E)
    st = T.st
    x, o = z3.BitVec('x', 64), z3.BitVec('lim', 64)
    st.assume(And(ULE(T.d, x), ULE(x, T.n)))
    for k in range(1, 7):
        st.terms.append(x + k)
    st.terms.append(x)
    for k in range(7):
        st.terms.append(x + k)
    s = st.fork()
    E.prove(s, And(UGE(declen_at(T, x), 1), ULE(declen_at(T, x), 6)), 'lemma: a step forward is 1 to 6 bytes')
    for k in range(1, 6):
        s2 = s.fork()
        s2.assume(T.n == x + k)
        E.prove(s2, ULE(declen_at(T, x), k), 'lemma: a step forward does not pass a NUL %d bytes on' % k)
    b = c03.spec_back(lambda k: T.at(x + k), o)
    s3 = st.fork()
    s3.assume(UGE(o, 1))
    E.prove(s3, And(UGE(b, 1), ULE(b, 6), ULE(b, o)), 'lemma: a step back is 1 to 6 bytes and not beyond the limit')


def mk_utf8(pre, guarded):
    def prep(E, T, st):
        u_setup(E, T, guarded, False)

    def one(fn, neg, src):
        def t(E):
            E.unroll_first = False
            T = Text(E)
            u_setup(E, T, guarded, True)
            i = z3.BitVec('i', 32)
            E.inputs['i'] = -i if neg else i
            st = T.st
            if neg:
                st.assume(i != V(1 << 31, 32))
            j = -i if neg else i
            F = z3.Function('F', z3.BitVecSort(64), z3.BitVecSort(64))
            B = z3.Function('B', z3.BitVecSort(64), z3.BitVecSort(64))
            st.assume(F(V(0, 64)) == T.d)
            st.assume(B(V(0, 64)) == T.d)
            # defining axioms of the chains, and the consequences the decoder's contract gives for the chain
            lim = (lambda x: x - T.o) if guarded else (lambda x: V(6, 64))
            st.foralls.append(Forall(lambda t: F(bv(t, 64) + 1) == If(T.at(F(bv(t, 64))) == 0, F(bv(t, 64)), F(bv(t, 64)) + DL(F(bv(t, 64)))), [0], dom='k'))
            st.foralls.append(Forall(lambda t: B(bv(t, 64) + 1) == (If(B(bv(t, 64)) == T.o, T.o, B(bv(t, 64)) - BK(B(bv(t, 64)), lim(B(bv(t, 64)))))
                                                                    if guarded else B(bv(t, 64)) - BK(B(bv(t, 64)), V(6, 64))), [0], dom='k'))
            if not guarded:
                # enough text before the position for the characters to back up over (no guard below)
                st.foralls.append(Forall(lambda t: Implies(ULE(bv(t, 64), V(1 << 31, 64)), And(UGE(B(bv(t, 64)), V(6, 64)), ULE(B(bv(t, 64)), T.d))), [0], dom='k'))

            def hook(E, s, view):
                c = []
                for v in view.vars:
                    if v.kind == 'ptr' and v.obj == T.buf:
                        i0 = bv(view.init[v.key], 64)
                        # the code may use one loop for both directions or one for each: each fact is conditional on the direction
                        c.append(('forwards: position after k steps', lambda kk, vv, v=v: Implies(j > 0, bv(vv[v.key], 64) == F(bv(kk, 64)))))
                        c.append(('backwards: position after k steps', lambda kk, vv, v=v: Implies(j < 0, bv(vv[v.key], 64) == B(bv(kk, 64)))))
                        c.append(('forwards: already there', lambda kk, vv, v=v, i0=i0: Implies(j > 0, bv(vv[v.key], 64) == i0)))
                        c.append(('backwards: already there', lambda kk, vv, v=v, i0=i0: Implies(j < 0, bv(vv[v.key], 64) == i0)))
                        c.append(('zero: no movement', lambda kk, vv, v=v: Implies(j == 0, bv(vv[v.key], 64) == T.d)))
                        c.append(('not before the origin', lambda kk, vv, v=v: Implies(j < 0, UGE(bv(vv[v.key], 64), T.o))))
                        c.append(('not after the start', lambda kk, vv, v=v: Implies(j < 0, ULE(bv(vv[v.key], 64), T.d))))
                        c.append(('not before the start', lambda kk, vv, v=v: Implies(j > 0, UGE(bv(vv[v.key], 64), T.d))))
                        c.append(('not after the NUL', lambda kk, vv, v=v: ULE(bv(vv[v.key], 64), T.n)))
                return c
            E.loop_inv = hook

            def chk(s, r):
                what = '%s_%s' % (pre, fn)
                p = pos(T, r)
                if p is None:
                    E.prove(s, z3.BoolVal(False), what + ': result points into the text')
                    return
                if src:
                    E.prove(s, p == T.d, what + ' does not move the original')
                    return
                m = z3.SignExt(32, j)
                E.prove(s, Implies(j > 0, Or([p == F(m)] + [And(p == F(bv(kk, 64)), ULE(bv(kk, 64), m), T.at(p) == 0) for kk in [0] + s.kterms])), what + ' forwards: exactly i characters on, or at the NUL', terms=[p])
                E.prove(s, Implies(j > 0, And(UGE(p, T.d), ULE(p, T.n))), what + ' forwards: within the text', terms=[p])
                E.prove(s, Implies(j < 0, Or([p == B(-m)] + ([And(p == B(bv(kk, 64)), ULE(bv(kk, 64), -m), p == T.o) for kk in [0] + s.kterms] if guarded else []))), what + ' backwards: exactly i characters back, or at the origin', terms=[p])
                if guarded:
                    E.prove(s, Implies(j < 0, And(UGE(p, T.o), ULE(p, T.d))), what + ' backwards: not before the origin', terms=[p])
                E.prove(s, Implies(j == 0, p == T.d), what + ' zero: no movement')
            run1(E, T, st, pre + '_' + fn, T.args + [i], chk)
        return t

    def st_(E):
        steps(E, pre, guarded, lambda T: fwd1(T, T.d), lambda T: back1(T, T.d, guarded), prep)
        T = Text(E)
        prep(E, T, T.st)
        run1(E, T, T.st, pre + '_deref', T.args, lambda s, r: E.prove(s, bv(r, 32) == U.decval(bytes6(T, T.d)), pre + ' dereferences to the character under the pointer'))
    out = [('%s %s' % (pre, fn), one(fn, neg, src)) for fn, neg, src in
           OPS + ((('copy_back', 0, 0),) if guarded else ())]
    return out + [(pre + ' steps', st_)]


def tasks(tier):
    ts = [Task('lemmas over the decoding contracts', 'ptr', t_lemma), Task('NulGuardedCharPtr steps', 'ptr', mk_char('nc', False)), Task('GuardedCharPtr steps', 'ptr', mk_char('gc', True))]
    for pre, g in (('nc', False), ('gc', True)):
        ts += [Task('%s %s' % (pre, o[0]), 'ptr', mk_char_op(pre, g, *o)) for o in OPS]
    for pre, g in (('nu', False), ('gu', True)):
        ts += [Task(n, 'ptr', f) for n, f in mk_utf8(pre, g)]
    return ts


def hint(t, n, inp):
    if not inp or 'w0' not in inp or 'i' not in inp:
        return None
    i = inp['i']
    i = i - (1 << 32) if isinstance(i, int) and i >> 31 else i
    return 'p %d %d %d %s' % (min(inp['back'], 8), min(inp['left'], 11), i, ' '.join(str(inp['w%d' % k]) for k in range(20)))
