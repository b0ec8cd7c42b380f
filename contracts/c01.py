"""C01: UTF-8 encode/decode are inverse, with minimal length."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT
from runner import Task
from sym import Ptr, bv, State
import u8spec as U

REPLAY = 'c01.cpp'
ASSUMPTIONS = ['the destination buffer of UTF8Put has room for 6 bytes']


def setup(E, n=16):
    st = State()
    buf = E.new_arr(st, 1, n, 'text')
    st.model = None
    p0 = 4
    pp = E.new_cells(st, 8, 'cp')
    st.w(pp).cells[0] = (8, Ptr(buf, p0))
    return st, buf, pp, p0


def t_len(E):
    ch = z3.BitVec('ch', 32)
    E.inputs = {'ch': ch}
    for st, r in E.run(State(), 'UTF8Len(char32_t)', [ch]):
        E.prove(st, bv(r, 32) == U.enclen(ch), 'UTF8Len(ch) is the minimal encoded length of ch')


def t_put(E):
    ch = z3.BitVec('ch', 32)
    E.inputs = {'ch': ch}
    st, buf, pp, p0 = setup(E)
    pre = [E.arr_read(st.objs[buf], i) for i in range(16)]
    n_ret = 0
    for s, r in E.run(st, 'UTF8Put(char*&, char32_t)', [Ptr(pp, 0), ch]):
        n_ret += 1
        p1 = s.objs[pp].cells[0][1]
        L = z3.ZeroExt(32, U.enclen(ch))
        E.prove(s, bv(p1.idx, 64) - p0 == L, 'UTF8Put advances by the encoded length')
        o = s.objs[buf]
        for n in range(1, 7):
            for k in range(n):
                E.prove(s, Implies(U.enclen(ch) == n, bv(E.arr_read(o, p0 + k), 8) == U.encbyte(ch, n, k)),
                        'UTF8Put writes byte %d of %d' % (k, n))
        for i in range(16):
            if i < p0:
                E.prove(s, bv(E.arr_read(o, i), 8) == pre[i], 'UTF8Put frame: bytes before the cursor unchanged')
            else:
                E.prove(s, Or(bv(E.arr_read(o, i), 8) == pre[i], ULT(V(i - p0, 64), L)), 'UTF8Put frame: bytes after the character unchanged')
    E.prove(State(), z3.BoolVal(n_ret >= 6), 'vacuity: every encoded length is reachable')


def t_get(E):
    """UTF8Get on arbitrary bytes meets its contract (shared with C02)"""
    st, buf, pp, p0 = setup(E)
    bs = [E.arr_read(st.objs[buf], p0 + k) for k in range(6)]
    E.inputs = {'b%d' % k: b for k, b in enumerate(bs)}
    for s, r in E.run(st, 'UTF8Get(char const*&)', [Ptr(pp, 0)]):
        p1 = s.objs[pp].cells[0][1]
        E.prove(s, bv(p1.idx, 64) - p0 == z3.ZeroExt(32, U.declen(bs)), 'UTF8Get consumes exactly the character')
        E.prove(s, bv(r, 32) == U.decval(bs), 'UTF8Get returns the decoded value')


def t_lenp(E):
    st, buf, pp, p0 = setup(E)
    bs = [E.arr_read(st.objs[buf], p0 + k) for k in range(6)]
    E.inputs = {'b%d' % k: b for k, b in enumerate(bs)}
    for s, r in E.run(st, 'UTF8Len(char const*)', [Ptr(buf, p0)]):
        E.prove(s, bv(r, 32) == U.declen(bs), 'UTF8Len(ptr) equals the bytes UTF8Get consumes')


def t_lemma(E):
    """over the contracts: decoding the encoding of ch gives ch back, whatever follows it"""
    ch = z3.BitVec('ch', 32)
    E.inputs = {'ch': ch}
    rest = [z3.BitVec('r%d' % k, 8) for k in range(6)]
    st = State()
    st.assume(Not(U.illegal(ch)))
    E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
    for n in range(1, 7):
        s = st.fork()
        s.assume(U.enclen(ch) == n)
        bs = [U.encbyte(ch, n, k) for k in range(n)] + rest[:6 - n]
        E.prove(s, U.decval(bs) == ch, 'lemma: decode(encode(ch)) == ch (%d bytes)' % n)
        E.prove(s, U.declen(bs) == n, 'lemma: decode consumes what encode wrote (%d bytes)' % n)


def t_padded(E):
    """UTF8PutPaddedZero(cp, n): writes an n-byte encoding of zero"""
    for n in range(0, 7):
        st, buf, pp, p0 = setup(E)
        E.inputs = {'n': n}
        for s, r in E.run(st, 'UTF8PutPaddedZero(char*&, int)', [Ptr(pp, 0), n]):
            p1 = s.objs[pp].cells[0][1]
            m = max(n, 1)
            E.prove(s, bv(p1.idx, 64) == p0 + m, 'UTF8PutPaddedZero advances by length')
            bs = [E.arr_read(s.objs[buf], p0 + k) for k in range(6)]
            E.prove(s, And(U.declen(bs) == m, U.decval(bs) == 0), 'UTF8PutPaddedZero writes a %d-byte zero' % m)


def tasks(tier):
    return [Task('UTF8Len(UCS4)', 'char', t_len), Task('UTF8Put', 'char', t_put), Task('UTF8Get', 'char', t_get),
            Task('UTF8Len(const UTF8*)', 'char', t_lenp), Task('lemma: round trip over the contracts', 'char', t_lemma),
            Task('UTF8PutPaddedZero', 'char', t_padded)]


def hint(t, n, inp):
    if 'ch' in inp:
        return 'ch %d' % inp['ch']
    if 'b0' in inp:
        return 'bytes ' + ' '.join(str(inp['b%d' % k]) for k in range(6))
