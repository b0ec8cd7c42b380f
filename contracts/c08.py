"""C08: a PegexpPointerSource delivers the text's characters once each, in order, up to the NUL, and its counts are those of the text read."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, NULL, isint
import u8spec as U

REPLAY = 'c08.cpp'
ASSUMPTIONS = ['the text is readable up to its NUL and shorter than 2^40 bytes; line and column numbers are below 2^60',
               'UTF8Get meets its contract (discharged by C02)', 'the Source is the library\'s, over const UTF8*, with UCS4 or char characters']
TRUSTED = ['__assert_fail does not return']


class Src:
    """a source at position d of a text whose NUL is at n (the text before and after d is arbitrary); origin: where the text started"""

    def __init__(self, E, null=False):
        st = State()
        self.E, self.st, self.null = E, st, null
        n, d, o = z3.BitVec('n', 64), z3.BitVec('d', 64), z3.BitVec('o', 64)
        self.n, self.d, self.o = n, d, o
        st.assume(ULE(o, d)), st.assume(ULE(d, n)), st.assume(ULE(n, V(1 << 40, 64)))
        self.base = z3.Array('text', z3.BitVecSort(64), z3.BitVecSort(8))
        self.buf = E.new_arr(st, 1, n + 1, 'text', base=self.base)
        st.assume(self.at(n) == 0)
        self.l, self.c = z3.BitVec('l', 64), z3.BitVec('c', 64)
        self.b = d - o
        for v in (self.l, self.c):
            st.assume(And(UGE(v, 1), ULE(v, V(1 << 60, 64))))
        # column 1 exactly at the start of a line
        self.od = E.new_cells(st, 8, 'od')
        self.oo = E.new_cells(st, 24, 'o')
        self.p = NULL if null else Ptr(self.buf, d)
        self.args = [self.p, self.b, self.l, self.c, Ptr(self.od, 0), Ptr(self.oo, 0)]
        E.inputs = {'left': n - d, 'line': self.l, 'col': self.c, 'byte': self.b, **{'w%d' % k: self.at(d + k) for k in range(8)}}
        E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')

        def get(E, st, args, dem):
            c = E.load(st, args[0], ('ptr',))
            if not isinstance(c, Ptr) or c.obj != self.buf:
                return NotImplemented
            x = bv(c.idx, 64)
            E.prove(st, ULE(x, self.n), 'UTF8Get precondition: the position is not beyond the NUL')
            E.store(st, args[0], Ptr(self.buf, x + z3.ZeroExt(32, U.declen(self.six(x)))), ('ptr',))
            return [(st, U.decval(self.six(x)))]
        E.contracts[E.find('UTF8Get(char const*&)')] = get

    def at(self, i):
        return z3.Select(self.base, bv(i, 64))

    def six(self, x):
        return [self.at(x + k) for k in range(6)]


def state(E, s, S):
    d = E.load(s, Ptr(S.od, 0), ('ptr',))
    return d, [bv(E.load(s, Ptr(S.oo, 8 * k), ('i', 64)), 64) for k in range(3)]


def expect(E, s, S, what, used, l, c, seen=None):
    d, (b2, l2, c2) = state(E, s, S)
    if S.null:
        E.prove(s, z3.BoolVal(isinstance(d, Ptr) and d.obj == 0), what + ': a null source stays null')
    elif not isinstance(d, Ptr) or d.obj != S.buf:
        E.prove(s, z3.BoolVal(False), what + ': position in the text')
        return
    else:
        E.prove(s, bv(d.idx, 64) - S.d == used, what + ': moves over exactly the character read')
        E.prove(s, ULE(bv(d.idx, 64), S.n), what + ': stays within the text')
        E.prove(s, b2 == bv(d.idx, 64) - S.o, what + ': byte count is the distance from the origin')
    E.prove(s, b2 == S.b + used, what + ': byte count')
    E.prove(s, l2 == l, what + ': line number')
    E.prove(s, c2 == c, what + ': column')


def b2(r):
    return z3.BoolVal(bool(r)) if isint(r) else (r if z3.is_bool(r) else r != 0)


def mk(pre, wide):
    def run(E, S, fn, chk, args=None):
        n = 0
        for s, r in E.run(S.st, pre + '_' + fn, S.args if args is None else args):
            n += 1
            chk(s, r)
        E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns' % fn)

    def reader(fn, asbyte):
        def t(E):
            for null in (False, True):
                S = Src(E, null)
                E.inputs['op'] = {'get_char': 0, 'get_byte': 1}[fn]
                eof = z3.BoolVal(True) if null else S.at(S.d) == 0
                if asbyte:
                    val, ln = S.at(S.d), V(1, 64)
                    none = V(0, 8)
                    nl = S.at(S.d) == 10
                else:
                    val, ln = U.decval(S.six(S.d)), z3.ZeroExt(32, U.declen(S.six(S.d)))
                    none = V(0xFFFFFFFF, 32)
                    nl = val == 10
                used = If(eof, V(0, 64), ln)
                L = If(And(Not(eof), nl), S.l + 1, S.l)
                C = If(eof, S.c, If(nl, V(1, 64), S.c + 1))

                def chk(s, r):
                    w = '%s %s%s' % (pre, fn, ' (null source)' if null else '')
                    E.prove(s, bv(r, 8 if asbyte else 32) == If(eof, none, val), w + ': returns the character there, or "none" at the end')
                    expect(E, s, S, w, used, L, C)
                    E.prove(s, UGE(state(E, s, S)[1][2], 1), w + ': columns count from 1')
                    E.prove(s, Implies(Not(eof), (state(E, s, S)[1][2] == 1) == nl), w + ': at the beginning of a line exactly after a newline')
                run(E, S, fn, chk)
        return t

    def queries(E):
        for null in (False, True):
            S = Src(E, null)
            eof = z3.BoolVal(True) if null else S.at(S.d) == 0
            z = V(0, 64)

            def q(fn, spec, what):
                S_ = Src(E, null)
                E.inputs['op'] = 2

                def chk(s, r):
                    E.prove(s, spec(r, S_), '%s %s %s' % (pre, fn, what))
                    expect(E, s, S_, '%s %s' % (pre, fn), z, S_.l, S_.c)
                run(E, S_, fn, chk, S_.args)
            q('eof', lambda r, S: b2(r) == (z3.BoolVal(True) if null else S.at(S.d) == 0), 'exactly at the NUL or for a null source')
            q('bol', lambda r, S: b2(r) == (S.c == 1), 'exactly in column 1')
            q('null', lambda r, S: b2(r) == z3.BoolVal(null), 'exactly for a null source')
            q('byte', lambda r, S: bv(r, 64) == S.b, 'is the byte count')
            q('line', lambda r, S: bv(r, 64) == S.l, 'is the line number')
            q('column', lambda r, S: bv(r, 64) == S.c, 'is the column')
            q('copy', lambda r, S: z3.BoolVal(True), 'copies')
            q('assign', lambda r, S: z3.BoolVal(True), 'copies')
            q('copy_moves', lambda r, S: z3.BoolVal(True), 'reads the copy')
            q('orig_moves', lambda r, S: z3.BoolVal(True), 'reads the original')

    def ctors(E):
        S = Src(E)
        S.o = S.d

        def chk(s, r):
            d, (b, l, c) = state(E, s, S)
            E.prove(s, z3.BoolVal(isinstance(d, Ptr) and d.obj == S.buf), pre + ' constructor: starts in the text')
            E.prove(s, And(bv(d.idx, 64) == S.d, b == 0, l == 1, c == 1), pre + ' constructor: starts at byte 0, line 1, column 1')
        run(E, S, 'ctor', chk, [S.p] + S.args[4:])
        S = Src(E)

        def chk0(s, r):
            d, (b, l, c) = state(E, s, S)
            E.prove(s, z3.BoolVal(isinstance(d, Ptr) and d.obj == 0), pre + ' default constructor: null')
            E.prove(s, And(b == 0, l == 1, c == 1), pre + ' default constructor: byte 0, line 1, column 1')
        run(E, S, 'ctor0', chk0, S.args[4:])

    def pairs(E):
        for fn in ('same', 'from', 'less', 'minus'):
            S = Src(E)
            e = z3.BitVec('e', 64)
            S.st.assume(And(ULE(S.o, e), ULE(e, S.n)))
            E.inputs['other'] = e - S.o
            spec = {'same': lambda r: b2(r) == (e == S.d), 'from': lambda r: bv(r, 64) == S.d - e, 'less': lambda r: b2(r) == ULT(S.d, e),
                    'minus': lambda r: bv(r, 64) == S.d - e}[fn]
            run(E, S, fn, lambda s, r: E.prove(s, spec(r), '%s %s compares positions in the text' % (pre, fn)),
                S.args[:4] + [Ptr(S.buf, e), e - S.o, z3.BitVec('l2', 64), z3.BitVec('c2', 64)])
        S = Src(E, True)
        S.st.assume(S.b == 0)
        run(E, S, 'same', lambda s, r: E.prove(s, b2(r), pre + ' two null sources are the same'), S.args[:4] + [NULL, 0, 1, 1])
        S = Src(E)
        run(E, S, 'same', lambda s, r: E.prove(s, Not(b2(r)), pre + ' a null source is not the same as one with text'), S.args[:4] + [NULL, 0, 1, 1])
    return [Task(pre + ' get_char', 'source', reader('get_char', not wide)), Task(pre + ' get_byte', 'source', reader('get_byte', True)),
            Task(pre + ' queries and copies', 'source', queries), Task(pre + ' constructors', 'source', ctors), Task(pre + ' comparisons', 'source', pairs)]


def tasks(tier):
    return mk('su', True) + mk('sc', False)


def hint(t, n, inp):
    if inp and 'w0' in inp and 'op' in inp:
        return 's %s' % ' '.join(str(inp['w%d' % k]) for k in range(min(8, inp['left'] + 1)))
