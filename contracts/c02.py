"""C02: decoding is total on arbitrary bytes, always progresses, marks bad bytes, and never looks past a NUL."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT
from runner import Task
from sym import Ptr, bv, State
import u8spec as U
import c01

REPLAY = 'c01.cpp'
ASSUMPTIONS = ['text is readable up to and including its terminating NUL (or any byte that is not a continuation byte)']


def text(E, st, extra=0):
    """a text of symbolic length n whose last readable byte is a NUL at index n"""
    n = z3.BitVec('n', 64)
    st.assume(ULE(n, V(1 << 40, 64)))
    buf = E.new_arr(st, 1, n + 1, 'text')
    st.assume(E.arr_read(st.objs[buf], n) == 0)
    p = z3.BitVec('p', 64)
    st.assume(ULE(p, n))
    return buf, n, p


def run_reader(E, fname, check, by_ref):
    st = State()
    buf, n, p = text(E, st)
    bs = [E.arr_read(st.objs[buf], p + k) for k in range(6)]
    E.inputs = {'b%d' % k: b for k, b in enumerate(bs)}
    E.inputs['left'] = n - p
    E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
    if by_ref:
        c = E.new_cells(st, 8, 'cp')
        st.w(c).cells[0] = (8, Ptr(buf, p))
        arg = Ptr(c, 0)
    else:
        arg = Ptr(buf, p)
    for s, r in E.run(st, fname, [arg]):
        check(s, r, bs, n, p, (lambda: s.objs[c].cells[0][1]) if by_ref else None)


def t_get(E):
    def check(s, r, bs, n, p, cp):
        q = bv(cp().idx, 64)
        used = q - p
        E.prove(s, And(UGT(used, 0), ULE(used, 6)), 'UTF8Get advances by 1 to 6 bytes')
        E.prove(s, Implies(p != n, ULE(q, n)), 'UTF8Get never steps over the NUL')
        E.prove(s, used == z3.ZeroExt(32, U.declen(bs)), 'UTF8Get consumes the sequence, or one byte if it is malformed')
        E.prove(s, bv(r, 32) == U.decval(bs), 'UTF8Get returns the payload, or 0x800000xx for the bad byte xx')
        E.prove(s, Implies(p == n, And(bv(r, 32) == 0, used == 1)), 'UTF8Get returns NUL at the NUL')
    run_reader(E, 'UTF8Get(char const*&)', check, True)


def t_peek(E):
    def check(s, r, bs, n, p, cp):
        E.prove(s, bv(cp().idx, 64) == p, 'UTF8Peek does not move the pointer')
        E.prove(s, bv(r, 32) == U.decval(bs), 'UTF8Peek returns what UTF8Get would')
    run_reader(E, 'UTF8Peek(char const*&)', check, True)


def t_len(E):
    def check(s, r, bs, n, p, cp):
        E.prove(s, bv(r, 32) == U.declen(bs), 'UTF8Len(ptr) equals the bytes UTF8Get consumes')
    run_reader(E, 'UTF8Len(char const*)', check, False)


def t_lemma(E):
    b = [z3.BitVec('b%d' % k, 8) for k in range(6)]
    E.inputs = {'b%d' % k: x for k, x in enumerate(b)}
    st = State()
    ch = U.decval(b)
    bad = And(U.declen(b) == 1, Not(ULT(b[0], V(0x80, 8))))
    E.prove(st, Implies(bad, ch == (V(0x80000000, 32) | z3.ZeroExt(24, b[0]))), 'lemma: an undecodable byte xx yields 0x800000xx')
    E.prove(st, Implies(bad, And(U.enclen(ch) == 1, U.encbyte(ch, 1, 0) == b[0])), 'lemma: the marker re-encodes to the same single byte')
    E.prove(st, Implies(bad, U.illegal(ch)), 'lemma: the marker is recognised by UCS4IsIllegal')
    for t in range(1, 6):
        E.prove(st, Implies(b[t] == 0, ULE(U.declen(b), V(t, 32))), 'lemma: a sequence never extends over a NUL at offset %d' % t)
    E.prove(st, And(ULE(V(1, 32), U.declen(b)), ULE(U.declen(b), V(6, 32))), 'lemma: progress')


def t_small(E):
    c = z3.BitVec('c', 8)
    ch = z3.BitVec('ch', 32)
    E.inputs = {'b0': c, 'ch': ch}
    for s, r in E.run(State(), 'UTF8Is1st(char)', [c]):
        E.prove(s, z3.BoolVal(bool(r)) == U.is1st(c) if isinstance(r, int) else r == U.is1st(c), 'UTF8Is1st')
    for s, r in E.run(State(), 'UTF8Is2nd(char)', [c]):
        E.prove(s, z3.BoolVal(bool(r)) == Not(U.is1st(c)) if isinstance(r, int) else r == Not(U.is1st(c)), 'UTF8Is2nd')
    for s, r in E.run(State(), 'UTF8CorrectLen(char)', [c]):
        E.prove(s, bv(r, 32) == U.leadlen(c), 'UTF8CorrectLen')
    for s, r in E.run(State(), 'UCS4IsIllegal(char32_t)', [ch]):
        E.prove(s, (z3.BoolVal(bool(r)) if isinstance(r, int) else r) == U.illegal(ch), 'UCS4IsIllegal')
    for s, r in E.run(State(), 'UTF8EncodeIllegal(char)', [c]):
        E.prove(s, bv(r, 32) == (V(0x80000000, 32) | z3.ZeroExt(24, c)), 'UTF8EncodeIllegal')


def tasks(tier):
    return [Task('UTF8Get on arbitrary NUL-terminated bytes', 'char', t_get), Task('UTF8Peek', 'char', t_peek),
            Task('UTF8Len(const UTF8*)', 'char', t_len), Task('UTF8Put', 'char', c01.t_put), Task('UTF8Len(UCS4)', 'char', c01.t_len),
            Task('lemmas over the contracts', 'char', t_lemma), Task('byte and marker predicates', 'char', t_small)]


def hint(t, n, inp):
    if 'b0' in inp and 'b5' in inp:
        return 'bytes ' + ' '.join(str(inp['b%d' % k]) for k in range(6))
    return c01.hint(t, n, inp)
