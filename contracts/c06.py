"""C06: error numbers pack a message set and a message number without loss."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT
from runner import Task
from sym import Ptr, bv, State, NULL

REPLAY = 'c06.cpp'
ASSUMPTIONS = ['operator new does not fail']
FLAG, CUST = 0x80000000, 0x40000000


def pack(s, m):
    return V(FLAG | CUST, 32) | ((s & V(0xFFFF, 32)) << 14) | (m & V(0x3FFF, 32))


def norm(v):
    return If(v == 0, V(0, 32), v | V(FLAG | CUST, 32))


def one(E, fn, args, spec, what):
    st = State()
    n = 0
    for s, r in E.run(st, fn, args):
        n += 1
        e = spec
        if z3.is_bool(e):
            rr = z3.BoolVal(bool(r)) if isinstance(r, int) else r if z3.is_bool(r) else bv(r, r.size()) == 1
            E.prove(s, rr == e, what)
        else:
            E.prove(s, bv(r, 32) == e, what)
    E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: ' + fn + ' returns')


def t_num(E):
    a, b = z3.BitVec('set', 32), z3.BitVec('msg', 32)
    v, w = z3.BitVec('v', 32), z3.BitVec('w', 32)
    E.inputs = {'set': a, 'msg': b, 'v': v, 'w': w}
    one(E, 'w_pair', [a, b], pack(a, b), 'a set and message number pack into the documented bits, with the error flag and custom bits')
    one(E, 'w_set', [a, b], a & V(0xFFFF, 32), 'the message set is recovered')
    one(E, 'w_msg', [a, b], b & V(0x3FFF, 32), 'the message number is recovered')
    one(E, 'w_int', [v], norm(v), 'an integer error keeps its number and gets the error flag; zero stays zero')
    one(E, 'w_copy', [v], norm(v), 'copies and assignments keep the value')
    one(E, 'w_none', [], V(0, 32), 'no error is zero')
    one(E, 'w_set_i', [v], If(v == 0, V(0, 32), z3.LShR(v, 14) & V(0xFFFF, 32)), 'the message set of an integer error')
    one(E, 'w_msg_i', [v], If(v == 0, V(0, 32), v & V(0x3FFF, 32)), 'the message number of an integer error')
    one(E, 'w_eq', [v, w], norm(v) == norm(w), 'equality')
    one(E, 'w_ne', [v, w], norm(v) != norm(w), 'inequality')
    one(E, 'w_eqi', [v, w], norm(v) == w, 'equality with an integer')
    one(E, 'w_lti', [v, w], norm(v) < w, 'less than an integer')
    one(E, 'w_gti', [v, w], norm(v) > w, 'greater than an integer')
    one(E, 'w_flag', [], V(FLAG, 32), 'ERR_FLAG is the sign bit')
    one(E, 'w_cust', [], V(CUST, 32), 'ERR_CUST is the bit below it')


def t_lemma(E):
    a, b, c, d = [z3.BitVec(n, 32) for n in ('set', 'msg', 'set2', 'msg2')]
    E.inputs = {'set': a, 'msg': b, 'v': c, 'w': d}
    st = State()
    for x, m in ((a, 0x10000), (c, 0x10000), (b, 0x4000), (d, 0x4000)):
        st.assume(ULT(x, V(m, 32)))
    E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
    E.prove(st, Implies(pack(a, b) == pack(c, d), And(a == c, b == d)), 'lemma: different set/message pairs have different numbers')
    E.prove(st, pack(a, b) < 0, 'lemma: an error is negative')
    E.prove(st, norm(pack(a, b)) == pack(a, b), 'lemma: the number survives the trip through an integer')


def t_error(E):
    v = z3.BitVec('v', 32)
    E.inputs = {'v': v}
    one(E, 'w_err_none', [], V(0, 32), 'a default Error is no error')
    for fn in ('w_err_num', 'w_err_int'):
        st = State()
        d, p = E.new_arr(st, 1, 8, 'text'), E.new_arr(st, 1, 8, 'params')
        for s, r in E.run(st, fn, [v, Ptr(d, 0), Ptr(p, 0)]):
            E.prove(s, bv(r, 32) == norm(v), 'an Error keeps its number through copies and assignments')
            leak = [o for o in s.objs.values() if o.heap and o.alive]
            E.prove(s, z3.BoolVal(not leak), 'an Error body is released with its last reference')
    for fn, k in (('w_err_text', 0), ('w_err_parm', 1)):
        st = State()
        d = [E.new_arr(st, 1, 8, 'text'), E.new_arr(st, 1, 8, 'params')]
        for s, r in E.run(st, fn, [v, Ptr(d[0], 0), Ptr(d[1], 0)]):
            E.prove(s, z3.BoolVal(isinstance(r, Ptr) and r.obj == d[k] and r.idx == 0), 'an Error keeps its %s' % ('default text' if k == 0 else 'parameters'))
    for s, r in E.run(State(), 'w_err_none_text', []):
        E.prove(s, z3.BoolVal(isinstance(r, Ptr) and r.obj == 0), 'a default Error has no text')


def tasks(tier):
    return [Task('ErrNum', 'err', t_num), Task('lemmas over the packing', 'err', t_lemma), Task('Error', 'err', t_error)]


def hint(t, n, inp):
    return 'v %s' % ' '.join(str(inp.get(k, 0)) for k in ('set', 'msg', 'v', 'w')) if inp else None
