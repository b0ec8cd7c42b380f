"""C16: asInt32 gives the exact value of the number a text holds, or the documented error, for every text and every radix.

The text is an arbitrary sequence CH of n characters.  What the text means is defined by positions: P0 the first non-blank, P1 the first non-blank
after the sign, Q0 the first digit after the prefix, Q1 the first character after the run of digits, R1 the next non-blank; and by the value V of the
digits from Q0 up to a position (OVF: it does not fit in 64 bits).  Each is defined by its recurrence, which is instantiated where the code looks."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, NULL, isint, boolv, simp

REPLAY = 'c16.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']
ASSUMPTIONS = ['the text is well formed and shorter than 2^31 characters', 'StrVal::length and operator[] meet their contracts (discharged by C12)',
               'UCS4Digit meets its contract (discharged by C05); which characters are blank is as UCS4IsWhite says']
TRUSTED = ['__assert_fail does not return']
B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
CH = z3.Function('char_at', B32, B32)
WHITE = z3.Function('blank', B32, z3.BoolSort())
DIG = z3.Function('decimal_digit', B32, B32)
DV = z3.Function('digit_value', B32, B32, B32)
VAL = z3.Function('value_up_to', B32, B64)
OVF = z3.Function('beyond_64_bits', B32, z3.BoolSort())
DIGIT = 'StrValI<unsigned int>::Digit(char32_t, int)'
TRAIL, NODIG, OVER, NOTNUM, RADIX = 1, 2, 3, 4, 5


def c32(c):
    return V(ord(c), 32)


def digit(c, r):
    """value of the character as a digit in radix r (32-bit term), or -1"""
    up = If(And(UGE(c, c32('a')), ULE(c, c32('z'))), c - c32('a') + 10, If(And(UGE(c, c32('A')), ULE(c, c32('Z'))), c - c32('A') + 10, V(-1, 32)))
    d = If(DIG(c) >= 0, DIG(c), If(r > 10, up, V(-1, 32)))
    return If(And(d >= 0, Or(d < r, And(d == 1, r == 1))), d, V(-1, 32))


class N:
    def __init__(self, E, radix, witherr=True, withscan=True, case=None):
        st = self.st = State()
        self.E = E
        E.unroll_first = False
        E.smt = True
        n, P0, P1, Q1, R1 = (z3.BitVec(x, 32) for x in ('n', 'P0', 'P1', 'Q1', 'R1'))
        self.n, self.P0, self.P1, self.Q1, self.R1 = n, P0, P1, Q1, R1
        st.assume(ULT(n, V(1 << 31, 32)))
        self.a = E.new_cells(st, 64, 'text')
        self.err = Ptr(E.new_cells(st, 4, 'err'), 0) if witherr else NULL
        self.scan = Ptr(E.new_cells(st, 4, 'scanned'), 0) if withscan else NULL
        for p in (self.err, self.scan):
            if p is not NULL:
                E.store(st, p, E.fresh('before', 32), ('i', 32))
        self.radix = r = radix if z3.is_expr(radix) else V(radix, 32)
        # the parts of the text
        c0 = CH(P0)
        self.sign = Or(c0 == c32('+'), c0 == c32('-'))
        self.neg = c0 == c32('-')
        self.split = any(x == DIGIT for x in E.mod.dem.values())       # Digit is a function of its own, with a contract
        Q0, r2, S1 = z3.BitVec('Q0', 32), z3.BitVec('r2', 32), z3.BitVec('S1', 32)
        c1, nx = CH(P1), CH(P1 + 1)
        conc = not z3.is_expr(radix)
        is0, is2, is16 = ([z3.BoolVal(radix == x) for x in (0, 2, 16)] if conc else [r == x for x in (0, 2, 16)])
        zero = And(DIG(c1) == 0, ULT(P1 + 1, n))
        isb = And(zero, Or(nx == c32('b'), nx == c32('B')), Or(is0, is2))
        isx = And(zero, Or(nx == c32('x'), nx == c32('X')), Or(is0, is16))
        self.pre = Or(isb, isx)
        self.r2, self.Q0, self.S1 = r2, Q0, S1
        if case:                                    # one of the cases (they cover every text)
            sg, px = case
            st.assume({'': Not(self.sign), '+': c0 == c32('+'), '-': c0 == c32('-')}[sg])
            self.neg = z3.BoolVal(sg == '-')
            self.sign = z3.BoolVal(sg != '')
            st.assume({'b': isb, 'x': isx, '0': And(zero, Not(self.pre)), 'd': And(Not(zero), Not(self.pre)), '': Not(self.pre)}[px])
            self.pre = z3.BoolVal(px in ('b', 'x'))
            self.r2 = V({'b': 2, 'x': 16, '0': 8, 'd': 10}.get(px, radix), 32)
        st.assume(S1 == simp(If(self.sign, P0 + 1, P0)))
        st.assume(Q0 == simp(If(self.pre, P1 + 2, P1)))
        if case:
            st.assume(r2 == self.r2)
        elif conc and radix:
            self.r2 = r
        else:
            st.assume(r2 == If(isx, V(16, 32), If(isb, V(2, 32), If(is0, If(zero, V(8, 32), V(10, 32)), r))))
        for lo, hi in ((V(0, 32), P0), (self.S1, P1), (self.Q0, Q1), (Q1, R1)):
            st.assume(Implies(ULE(lo, n), And(ULE(lo, hi), ULE(hi, n))))
        self.nodig = Or(P0 == n, P1 == n, And(self.pre, self.Q0 == n))
        st.assume(And(VAL(self.Q0) == 0, Not(OVF(self.Q0))))
        for k in (P0, P1, P1 + 1, self.Q0, Q1, R1):
            self.facts(st, k)
        self.value(st, self.Q0)
        E.inputs = {'n': n, 'radix': r, 'P0': P0, 'P1': P1, 'Q0': self.Q0, 'Q1': Q1, 'R1': R1, 'value': VAL(Q1)}
        E.inputs.update({'c%d' % k: CH(V(k, 32)) for k in range(24)})
        E.inputs.update({'w%d' % k: WHITE(CH(V(k, 32))) for k in range(24)})
        E.inputs.update({'d%d' % k: DIG(CH(V(k, 32))) for k in range(24)})
        E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
        for d, h in (('StrRefI<unsigned int>::length() const', self.length), ('StrValI<unsigned int>::operator[](int) const', self.index),
                     ('UCS4IsWhite(char32_t)', self.white), ('UCS4Digit(char32_t)', self.dig), (DIGIT, self.digit)):
            ks = [k for k, x in E.mod.dem.items() if x == d]
            for k in ks:
                E.contracts[k] = h
        E.loop_inv = self.inv
        E.after_loop = self.after

    def after(self, E, s):
        n, P0, P1, Q0, Q1, R1 = self.n, self.P0, self.P1, self.Q0, self.Q1, self.R1
        pos = [P0, P1, Q0, Q1, R1, n, self.S1, P1 + 1, P0 + 1]
        D = [DV(CH(x), self.r2) for x in (Q1, Q0)]
        terms = pos + [CH(x) for x in (P0, P1, Q0, Q1, R1)] + D + [VAL(Q1)]
        facts = []
        for x in (P0, P1, Q0, Q1, R1):
            facts += [x == n, ULT(x, n)]
        facts += [ULT(Q0, Q1), Q0 == Q1, D[0] >= 0, D[1] >= 0, D[0] < 0, D[1] < 0, OVF(Q1), Not(OVF(Q1)), VAL(Q1) == 0]
        return terms, facts

    def facts(self, st, k):
        """the definitions of the positions and of the value, at position k"""
        c = CH(k)
        n = self.n
        st.assume(And(DIG(c) >= -1, DIG(c) <= 9))
        st.assume(And(*[Implies(And(ULE(lo, k), ULT(k, hi)), WHITE(c)) for lo, hi in ((V(0, 32), self.P0), (self.S1, self.P1), (self.Q1, self.R1))]))
        st.assume(And(*[Implies(And(k == hi, ULT(k, n)), Not(WHITE(c))) for hi in (self.P0, self.P1, self.R1)]))
        d = self.dv(st, c)
        st.assume(Implies(And(ULE(self.Q0, k), ULT(k, self.Q1)), d >= 0))
        st.assume(Implies(And(k == self.Q1, ULT(k, n)), d < 0))

    def value(self, st, k):
        """the definition of the value, at position k"""
        d = self.dv(st, CH(k))
        rads = [0x10, 2, 8, 10] if not z3.is_bv_value(self.r2) else [self.r2.as_long()]
        M = (1 << 64) - 1
        inr = And(ULE(self.Q0, k), ULT(k, self.Q1))
        st.assume(Implies(inr, d >= 0))
        st.assume(Implies(And(inr, OVF(k + 1)), OVF(self.Q1)))       # more digits do not make it smaller
        for q in rads:
            m = inr if len(rads) == 1 else And(inr, self.r2 == q)
            if q == 0:
                continue
            # v*q+d > 2^64-1 exactly when v > M/q, or v = M/q and d > M%q
            st.assume(Implies(m, OVF(k + 1) == Or(OVF(k), UGT(VAL(k), V(M // q, 64)), And(VAL(k) == V(M // q, 64), UGT(d, V(M % q, 32))))))
            st.assume(Implies(And(m, Not(OVF(k + 1))), VAL(k + 1) == VAL(k) * V(q, 64) + z3.SignExt(32, d)))

    def dv(self, st, c, r=None):
        r = self.r2 if r is None else r
        d = DV(c, r)
        st.assume(And(d >= -1, Or(d < r, And(d == 1, r == 1))))
        if not self.split:
            st.assume(d == digit(c, r))
        return d

    def digit(self, E, st, args, dem):
        return [(st, self.dv(st, bv(args[0], 32), bv(args[1], 32)))]

    def mine(self, p):
        return isinstance(p, Ptr) and p.obj == self.a

    def length(self, E, st, args, dem):
        return [(st, self.n)] if self.mine(args[0]) else NotImplemented

    def index(self, E, st, args, dem):
        if not self.mine(args[0]):
            return NotImplemented
        k = bv(args[1], 32)
        E.prove(st, ULE(k, self.n), 'asInt32 looks at no character beyond the end of the text')
        self.facts(st, k)
        return [(st, simp(If(k == self.n, V(0, 32), CH(k))))]

    def white(self, E, st, args, dem):
        return [(st, WHITE(bv(args[0], 32)))]

    def dig(self, E, st, args, dem):
        c = bv(args[0], 32)
        st.assume(And(DIG(c) >= -1, DIG(c) <= 9))
        return [(st, DIG(c))]

    def inv(self, E, st, view):
        out = []
        i32 = [v for v in view.vars if v.kind == 'int' and v.w == 32]
        i64 = [v for v in view.vars if v.kind == 'int' and v.w == 64]
        for v in i32 if i64 else ():
            self.value(st, bv(view.cur[v.key], 32))
        for v in i32:
            for nm, lo, hi in (('P0', V(0, 32), self.P0), ('P1', self.S1, self.P1), ('Q1', self.Q0, self.Q1), ('R1', self.Q1, self.R1), ('n', V(0, 32), self.n)):
                out.append(('%s within %s' % (v.name, nm), lambda kk, vv, v=v, lo=lo, hi=hi: And(ULE(lo, bv(vv[v.key], 32)), ULE(bv(vv[v.key], 32), hi))))
                out.append(('%s before %s' % (v.name, nm), lambda kk, vv, v=v, lo=lo, hi=hi: And(ULE(lo, bv(vv[v.key], 32)), ULT(bv(vv[v.key], 32), hi))))
            for w in i32:
                if w is not v:
                    out.append(('%s is the digit at %s' % (w.name, v.name), lambda kk, vv, v=v, w=w: bv(vv[w.key], 32) == DV(CH(bv(vv[v.key], 32)), self.r2)))
                    out.append(('%s is the character at %s' % (w.name, v.name), lambda kk, vv, v=v, w=w: bv(vv[w.key], 32) == CH(bv(vv[v.key], 32))))
            for w in i64:
                out.append(('%s is the value up to %s' % (w.name, v.name), lambda kk, vv, v=v, w=w: And(Not(OVF(bv(vv[v.key], 32))), bv(vv[w.key], 64) == VAL(bv(vv[v.key], 32)))))
        return out


def check(E, w, what):
    n = 0
    for s, r in E.run(w.st, 'n_asInt32', [Ptr(w.a, 0), w.err, w.radix if not z3.is_bv_value(w.radix) else w.radix.as_signed_long(), w.scan]):
        n += 1
        yield s, bv(r, 32), (bv(E.load(s, w.err, ('i', 32)), 32) if w.err is not NULL else None), (bv(E.load(s, w.scan, ('i', 32)), 32) if w.scan is not NULL else None)
    E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns' % what)


def code(E, k):
    r = [x for _, x in E.run(State(), 'n_errnum', [k])]
    return bv(r[0], 32)


def t_radix(radix, null=False, case=None):
    def t(E):
        for we, ws in ((False, False),) if null else ((True, True), ):
            codes = {k: code(E, k) for k in range(6)}
            w = N(E, radix, we, ws, case)
            nm = 'asInt32 radix %d%s' % (radix, '' if we else ' (no error wanted)')
            for s, r, e, sc in check(E, w, nm):
                bad = DV(CH(w.Q0), w.r2) < 0
                num = And(Not(w.nodig), Not(bad))
                ovf = OVF(w.Q1)
                v = VAL(w.Q1)
                big = UGT(v, If(w.neg, V(1 << 31, 64), V((1 << 31) - 1, 64)))
                low = z3.Extract(31, 0, v)
                E.prove(s, r == If(And(num, Not(ovf)), If(w.neg, -low, low), V(0, 32)), nm + ': the value of the digits with their sign (its low 32 bits if it does not fit), 0 without a number')
                if we:
                    exp = If(w.nodig, codes[NODIG], If(bad, codes[NOTNUM], If(Or(ovf, big), codes[OVER], If(w.R1 != w.n, codes[TRAIL], V(0, 32)))))
                    E.prove(s, e == exp, nm + ': no error exactly for a number that fits alone in the text, else the documented error')
                if ws:
                    E.prove(s, If(w.nodig, sc == w.n, If(bad, sc == w.Q0, If(ovf, And(UGT(sc, w.Q0), ULE(sc, w.Q1)), sc == w.R1))), nm + ': everything, what precedes the digits, or the number and the blanks after it was scanned')
    return t


def t_illegal(E):
    for we in (True, False):
        r = z3.BitVec('radix', 32)
        w = N(E, r, we, we)
        w.st.assume(Or(r < 0, r > 36))
        codes = code(E, RADIX)
        for s, x, e, sc in check(E, w, 'asInt32 illegal radix'):
            E.prove(s, x == 0, 'asInt32 illegal radix: 0')
            if we:
                E.prove(s, And(e == codes, sc == 0), 'asInt32 illegal radix: the documented error, nothing scanned')


def t_digit(E):
    """Digit meets the contract asInt32 relies on"""
    if not any(x == DIGIT for x in E.mod.dem.values()):
        return
    w = N(E, z3.BitVec('radix', 32))
    w.st.assume(And(w.radix >= 0, w.radix <= 36))
    E.contracts.pop(E.find(DIGIT))
    c = z3.BitVec('c', 32)
    n = 0
    for s, r in E.run(w.st, E.find(DIGIT), [c, w.radix]):
        n += 1
        E.prove(s, bv(r, 32) == digit(c, w.radix), 'Digit: the value of the character in the radix, or -1')
    E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: Digit returns')


def t_codes(E):
    c = [code(E, k) for k in range(6)]
    E.prove(State(), And(*[c[i] != c[j] for i in range(6) for j in range(i)]), 'asInt32: the errors differ from one another and from none')
    E.prove(State(), And(*[x < 0 for x in c[1:]]), 'asInt32: errors are negative')


PREF = {0: ('d', '0', 'b', 'x'), 2: ('', 'b'), 16: ('', 'x')}
WHAT = {'': 'no prefix', 'd': 'decimal', '0': 'octal', 'b': 'binary prefix', 'x': 'hexadecimal prefix'}


def tasks(tier):
    rads = [0, 16, 10, 36, 1, 2] if tier == 'quick' else [0, 16, 2, 10, 8, 36, 1] + [r for r in range(3, 36) if r not in (8, 10, 16)]
    cases = lambda r: [(sg, px) for px in PREF.get(r, ('',)) for sg in ('', '+', '-') if tier != 'quick' or r != 2 or not sg]
    out = [Task('asInt32 radix %d, %s, %s' % (r, WHAT[c[1]], 'sign ' + c[0] if c[0] else 'no sign'), 'num', t_radix(r, False, c), timeout=200) for r in rads for c in cases(r)]
    if tier != 'quick':
        out += [Task('asInt32 radix %d, %s, %s, no results wanted' % (r, WHAT[c[1]], 'sign ' + c[0] if c[0] else 'no sign'), 'num', t_radix(r, True, c), timeout=200) for r in (0, 10) for c in cases(r)]
    else:
        out.append(Task('asInt32 radix 10, no prefix, no sign, no results wanted', 'num', t_radix(10, True, ('', '')), timeout=200))
    return out + [Task('asInt32 illegal radix', 'num', t_illegal), Task('asInt32 errors', 'num', t_codes), Task('digits', 'num', t_digit)]


def hint(t, n, inp):
    if inp and 'n' in inp:
        return 'n %d %d %s' % (inp.get('radix', 0), min(inp['n'], 24), ' '.join('%d/%d/%d' % (inp['c%d' % k], int(bool(inp['w%d' % k])), inp['d%d' % k]) for k in range(min(24, inp['n']))))
