"""C04: UTF-16 encode/decode are inverse for every Unicode scalar value, in both byte orders."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, Extract, Concat
from runner import Task
from sym import Ptr, bv, State

REPLAY = 'c04.cpp'
ASSUMPTIONS = ['text handed to UTF16Get is well formed (lone surrogates are rejected by the library\'s own assertions)']


def sw(x):
    return Concat(Extract(7, 0, x), Extract(15, 8, x))


def u16len(ch):
    return If(ULT(ch, V(0x10000, 32)), V(1, 32), V(2, 32))


def unit(ch, k):
    """k-th UTF-16 unit by the Unicode definition"""
    c = ch - V(0x10000, 32)
    hi = V(0xD800, 16) | Extract(15, 0, z3.LShR(c, V(10, 32)))
    lo = V(0xDC00, 16) | (Extract(15, 0, c) & V(0x3FF, 16))
    if k == 0:
        return If(ULT(ch, V(0x10000, 32)), Extract(15, 0, ch), hi)
    return lo


def scalar(ch):
    return And(ULT(ch, V(0x110000, 32)), Not(And(ULE(V(0xD800, 32), ch), ULE(ch, V(0xDFFF, 32)))))


def setup(E):
    st = State()
    buf = E.new_arr(st, 2, 8, 'u16text')
    c = E.new_cells(st, 8, 'cp')
    st.w(c).cells[0] = (8, Ptr(buf, 2))
    ch = z3.BitVec('ch', 32)
    E.inputs = {'ch': ch}
    st.assume(scalar(ch))
    return st, buf, c, ch


def t_put(E):
    for swap in (0, 1):
        st, buf, c, ch = setup(E)
        E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
        pre = [E.arr_read(st.objs[buf], i) for i in range(8)]
        f = sw if swap else (lambda x: x)
        for s, r in E.run(st, 'UTF16Put(unsigned short*&, char32_t, bool)', [Ptr(c, 0), ch, swap]):
            q = bv(s.objs[c].cells[0][1].idx, 64)
            o = s.objs[buf]
            E.prove(s, q - 2 == z3.ZeroExt(32, u16len(ch)), 'UTF16Put advances by the encoded length')
            E.prove(s, bv(E.arr_read(o, 2), 16) == f(unit(ch, 0)), 'UTF16Put first unit (swap=%d)' % swap)
            E.prove(s, Implies(u16len(ch) == 2, bv(E.arr_read(o, 3), 16) == f(unit(ch, 1))), 'UTF16Put second unit (swap=%d)' % swap)
            E.prove(s, Implies(u16len(ch) == 1, bv(E.arr_read(o, 3), 16) == pre[3]), 'UTF16Put frame')
            for i in (0, 1, 4, 5, 6, 7):
                E.prove(s, bv(E.arr_read(o, i), 16) == pre[i], 'UTF16Put frame')


def t_get(E):
    for swap in (0, 1):
        st, buf, c, ch = setup(E)
        f = sw if swap else (lambda x: x)
        o = st.objs[buf]
        st.assume(E.arr_read(o, 2) == f(unit(ch, 0)))
        st.assume(Implies(u16len(ch) == 2, E.arr_read(o, 3) == f(unit(ch, 1))))
        E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
        for s, r in E.run(st.fork(), 'UTF16Get(unsigned short const*&, bool)', [Ptr(c, 0), swap]):
            q = bv(s.objs[c].cells[0][1].idx, 64)
            E.prove(s, q - 2 == z3.ZeroExt(32, u16len(ch)), 'UTF16Get consumes the character (swap=%d)' % swap)
            E.prove(s, bv(r, 32) == ch, 'UTF16Get returns the character (swap=%d)' % swap)
        for s, r in E.run(st.fork(), 'UTF16Len(unsigned short const*, bool)', [Ptr(buf, 2), swap]):
            E.prove(s, bv(r, 32) == u16len(ch), 'UTF16Len(ptr) equals the units of the character (swap=%d)' % swap)


def t_len(E):
    st, buf, c, ch = setup(E)
    for s, r in E.run(st, 'UTF16Len(char32_t)', [ch]):
        E.prove(s, bv(r, 32) == u16len(ch), 'UTF16Len(ch)')


def tasks(tier):
    return [Task('UTF16Put', 'char', t_put), Task('UTF16Get, UTF16Len(ptr)', 'char', t_get), Task('UTF16Len(UCS4)', 'char', t_len)]


def hint(t, n, inp):
    return 'ch %d' % inp['ch'] if 'ch' in inp else None
