"""Contracts for class Pegexp (include/pegexp.h): pattern parsing, matching and captures.

Spec, written from the documentation of the pattern language: positions in the pattern are indices of its text, positions in the source are
abstract.  Ghost functions, each given by the one-step equations of the language (instantiated wherever the pattern is read or an atom is met):
  LIT/LITEND  the character a literal or escape stands for, and where it ends       NAMEEND  end of a label's name
  CEND, INC   end of a character class; membership
  SK          end of an atom with its label     END  end of a sequence     AEND  end of an alternate     EXTEND  end of an extension
  MOK/MS/MH   whether an atom matches at a source position, where the match ends, and the history of captures after it
  SOK/SS/SH   the same for a sequence, AOK/AS/AH for one alternate, LOK/LS/LH for a list of alternates, RS/RH for possessive repetition."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, Extract, SignExt, ZeroExt, Concat
from runner import Task
from sym import Ptr, bv, State, Forall, NULL, isint, isnull, simp, boolv, Unsupported

B64, B32, BOOL = z3.BitVecSort(64), z3.BitVecSort(32), z3.BoolSort()
F = z3.Function
PAT = z3.Array('pattern', B64, z3.BitVecSort(8))
LIT, LITEND = F('literal', B64, B32), F('literal_end', B64, B64)
NAMEEND, CEND, SK, END, AEND, EXTEND = [F(n, B64, B64) for n in ('name_end', 'class_end', 'atom_end', 'sequence_end', 'alternate_end', 'extension_end')]
INC = F('in_class', B64, B32, BOOL)
EOF, BOL = F('eof', B64, BOOL), F('bol', B64, BOOL)
CH, NX = F('char_at', B64, B32), F('next', B64, B64)
MOK, MS = F('matches', B64, B64, BOOL), F('match_end', B64, B64, B64)
MH = F('captures', B64, B64, B64, BOOL, BOOL, B64)
SOK, SS, SH = F('seq_matches', B64, B64, BOOL), F('seq_end', B64, B64, B64), F('seq_captures', B64, B64, B64, BOOL, BOOL, B64)
AOK, AS, AH = F('alt_matches', B64, B64, BOOL), F('alt_end', B64, B64, B64), F('alt_captures', B64, B64, B64, BOOL, BOOL, B64)
LOK, LS, LH = F('alts_match', B64, B64, BOOL), F('alts_end', B64, B64, B64), F('alts_captures', B64, B64, B64, BOOL, BOOL, B64)
RS, RH = F('rep_end', B64, B64, B64), F('rep_captures', B64, B64, B64, BOOL, B64)
XOK, XS, XH = F('ext_matches', B64, B64, BOOL), F('ext_end', B64, B64, B64), F('ext_captures', B64, B64, B64, BOOL, BOOL, B64)
FND, FST = F('found', B64, BOOL), F('found_at', B64, B64)
CNT, ROLL = F('count', B64, B32), F('rollback', B64, B32, B64)
CAP = F('captured', B64, B64, B32, B64, B64, B64, B64, BOOL, B64)
EXTENDS = F('extends', B64, B64, BOOL)
CT = {n: F('ctype_' + n, B32, BOOL) for n in ('alpha', 'digit', 'lower', 'upper', 'space', 'alnum')}
N = z3.BitVec('n', 64)
LIMIT = 1 << 30
PROPS = 'adhLUsw'
EXTCH = '~@#%_;<`'
PREFIX = '?*+&!'


def at(i):
    return z3.Select(PAT, bv(i, 64))


def isc(b, cs):
    return Or([b == ord(c) for c in cs])


def se(b):
    return SignExt(24, b)


# ---------------------------------------------------------------- character types (C locale below 128; above it, up to the locale)
def ctype(n, c):
    return CT[n](c)


def ctype_facts(c):
    lo, up, dg = And(c >= 97, c <= 122), And(c >= 65, c <= 90), And(c >= 48, c <= 57)
    ds = {'alpha': Or(lo, up), 'digit': dg, 'lower': lo, 'upper': up, 'space': Or(c == 32, And(c >= 9, c <= 13)), 'alnum': Or(lo, up, dg)}
    return And([Implies(And(c >= 0, c < 128), CT[n](c) == d) for n, d in ds.items()] + [Implies(c >= 128, Not(CT['digit'](c)))])


def isname(b):
    return Or(ctype('alnum', se(b)), b == ord('_'))


def charprop(c, ch):
    """does ch have the property that escape letter c stands for"""
    k = If(ULE(ch, V(255, 32)), ch, V(0, 32))
    hexd = Or(And(ch >= 48, ch <= 57), And(ch >= 97, ch <= 102), And(ch >= 65, ch <= 70))
    r = z3.BoolVal(False)
    for l, f in (('a', ctype('alpha', k)), ('d', ctype('digit', k)), ('h', hexd), ('L', ctype('lower', k)), ('U', ctype('upper', k)),
                 ('s', ctype('space', k)), ('w', ctype('alnum', k))):
        r = If(c == ord(l), f, r)
    return r


def isprop(i):
    return And(at(i) == ord('\\'), isc(at(i + 1), PROPS))


# ---------------------------------------------------------------- the spec of a literal
def hexval(b):
    """value of a hex digit, -1 if it is none"""
    return hexval32(se(b))


def hexval32(c):
    return If(And(c >= 48, c <= 57), c - 48, If(And(c >= 65, c <= 70), c - 55, If(And(c >= 97, c <= 102), c - 87, V(-1, 32))))


def lit_def(p):
    """(value, end) of the literal at p, as documented"""
    c, e = at(p), at(p + 1)
    octd = lambda b: And(b >= 48, b <= 55)
    o1, o2 = at(p + 2), at(p + 3)
    ov = If(octd(o1), If(octd(o2), ((se(e) - 48) << 6) + ((se(o1) - 48) << 3) + se(o2) - 48, ((se(e) - 48) << 3) + se(o1) - 48), se(e) - 48)
    oe = If(octd(o1), If(octd(o2), p + 4, p + 3), p + 2)

    def digits(q, m):
        """up to m hex digits from q: (value, end)"""
        v, en = V(0, 32), q + m
        vals = [hexval(at(q + i)) for i in range(m)]
        pre = [V(0, 32)]
        for i in range(m):
            pre.append((pre[-1] << 4) | vals[i])
        v = pre[m]
        for i in reversed(range(m)):
            v, en = If(vals[i] < 0, pre[i], v), If(vals[i] < 0, q + i, en)
        return v, en

    def braced(q, m, mb):
        b = at(q) == ord('{')
        v0, e0 = digits(q, m)
        v1, e1 = digits(q + 1, mb)
        e1 = If(at(e1) == ord('}'), e1 + 1, e1)
        return If(b, v1, v0), If(b, e1, e0)
    xv, xe = braced(p + 2, 2, 2)
    # with no digit at all there is no character (the value is 0), and the pattern continues after the x or x{
    xb = at(p + 2) == ord('{')
    nox = hexval(at(If(xb, p + 3, p + 2))) < 0
    xe = If(nox, If(xb, p + 3, p + 2), xe)
    uv, ue = braced(p + 2, 4, 8)
    m = se(e)
    for l, r in (('n', 10), ('t', 9), ('r', 13), ('b', 8), ('e', 27), ('f', 12)):
        m = If(e == ord(l), V(r, 32), m)
    val = If(octd(e), ov, If(e == ord('x'), xv, If(e == ord('u'), uv, m)))
    end = If(octd(e), oe, If(e == ord('x'), xe, If(e == ord('u'), ue, p + 2)))
    val = If(c == 0, V(0, 32), If(c != ord('\\'), se(c), If(e == 0, V(0, 32), val)))
    end = If(c == 0, p, If(c != ord('\\'), p + 1, If(e == 0, p + 1, end)))
    return val, end


# ---------------------------------------------------------------- one-step equations of the pattern language at pattern position i
def label_end(q):
    r = NAMEEND(q + 1)
    return If(at(q) == ord(':'), If(at(r) == ord(':'), r + 1, r), q)


def operand_end(q):
    return If(at(q) == ord('|'), END(q), SK(q))


def op_end(i, kind):
    """end of the atom at i, less its label"""
    if kind == '\\':
        return LITEND(i)
    if kind == '[':
        return CEND(i + If(at(i + 1) == ord('^'), V(2, 64), V(1, 64)))
    if kind == '(':
        g = END(i + 1)
        return If(at(g) == 0, g, g + 1)
    if kind in PREFIX:
        return operand_end(i + 1)
    return EXTEND(i) if kind == 'extension' else i + 1


def ended(c, alt=False):
    return isc(c, '\0)|' if alt else '\0)')


def atom_end_axiom(i, kind):
    """the end of an atom of the given kind"""
    return SK(i) == (i if kind == '\0' else AEND(i + 1) if kind == '|' else label_end(op_end(i, kind)))


def pattern_axioms(i, cls=False):
    i = bv(i, 64)
    c = at(i)
    fs = [NAMEEND(i) == If(isname(c), NAMEEND(i + 1), i),
          END(i) == If(ended(c), i, END(SK(i))),
          AEND(i) == If(ended(c, True), i, AEND(SK(i))),
          Implies(c == 0, LITEND(i) == i), Implies(And(c != 0, c != ord('\\')), LITEND(i) == i + 1)]
    e = LITEND(i)
    if cls:
        fs.append(CEND(i) == If(c == 0, i, If(c == ord(']'), i + 1, If(isprop(i), CEND(i + 2), If(at(e) == ord('-'), CEND(LITEND(e + 1)), CEND(e))))))
    return fs


def class_axiom(i, ch):
    i = bv(i, 64)
    c, e = at(i), LITEND(i)
    c1, c2, e2 = LIT(i), LIT(e + 1), LITEND(e + 1)
    return INC(i, ch) == And(c != 0, c != ord(']'), If(isprop(i), Or(charprop(at(i + 1), ch), INC(i + 2, ch)),
        If(at(e) == ord('-'), Or(And(ULE(c1, ch), ULE(ch, c2)), INC(e2, ch)), Or(ch == c1, INC(e, ch)))))


# ---------------------------------------------------------------- one-step equations of matching at pattern position p, source position s
def atom_axiom(p, s, H, d, r, kind):
    """an atom of the given kind: whether it matches, where the match ends, what is captured"""
    c, p1 = at(p), p + 1
    more, ch, nx = Not(EOF(s)), CH(s), NX(s)
    neg = at(p1) == ord('^')
    T = z3.BoolVal(True)
    if kind in ('\0', ')'):
        ok, en, h = T, s, H
    elif kind == '^':
        ok, en, h = BOL(s), s, H
    elif kind == '$':
        ok, en, h = Or(EOF(s), ch == 10), s, H
    elif kind == '.':
        ok, en, h = more, nx, H
    elif kind == '\\':
        ok, en, h = And(more, If(isprop(p), charprop(at(p1), ch), ch == LIT(p))), nx, H
    elif kind == '[':
        ok, en, h = And(more, neg != INC(If(neg, p + 2, p1), ch)), nx, H
    elif kind == '?':
        m = MOK(p1, s)
        ok, en, h = T, If(m, MS(p1, s), s), If(m, MH(p1, s, H, d, r), H)
    elif kind == '*':
        ok, en, h = T, RS(p1, s), RH(p1, s, H, d)
    elif kind == '+':
        ok, en, h = MOK(p1, s), RS(p1, MS(p1, s)), RH(p1, MS(p1, s), MH(p1, s, H, d, T), d)
    elif kind == '(':
        ok, en, h = SOK(p1, s), SS(p1, s), SH(p1, s, H, d, r)
    elif kind == '|':
        ok, en, h = LOK(p, s), LS(p, s), LH(p, s, H, d, r)
    elif kind == '&':
        ok, en, h = MOK(p1, s), s, H
    elif kind == '!':
        ok, en, h = Not(MOK(p1, s)), s, H
    elif kind == 'extension':
        ok, en, h = XOK(p, s), XS(p, s), XH(p, s, H, d, r)
    else:
        ok, en, h = And(more, se(c) == ch), nx, H
    if kind not in ('\0', '|'):
        q = op_end(p, kind)
        ne = NAMEEND(q + 1)
        h = If(And(at(q) == ord(':'), Not(d)), CAP(h, q + 1, Extract(31, 0, ne - q - 1), p, s, SK(p), en, r), h)
    return [MOK(p, s) == ok, Implies(ok, MS(p, s) == en), Implies(ok, MH(p, s, H, d, r) == h)]


def seq_axiom(OK, S, Hf, alt, p, s, H, d, r):
    x = ended(at(p), alt)
    e, m = operand_end(p), MS(p, s)
    h = MH(p, s, H, d, r)
    return [OK(p, s) == Or(x, And(MOK(p, s), OK(e, m))), S(p, s) == If(x, s, S(e, m)), Hf(p, s, H, d, r) == If(x, H, Hf(e, m, h, d, r))]


def alts_axiom(p, s, H, d, r):
    x = at(p) == ord('|')
    a = AOK(p + 1, s)
    n = SK(p)
    return [LOK(p, s) == And(x, Or(a, LOK(n, s))), LS(p, s) == If(a, AS(p + 1, s), LS(n, s)),
            LH(p, s, H, d, r) == If(a, AH(p + 1, s, H, d, r), LH(n, s, H, d, r))]


def rep_axiom(p, s, H, d):
    ok, m = MOK(p, s), MS(p, s)
    h = MH(p, s, H, d, z3.BoolVal(True))
    return [RS(p, s) == If(ok, If(m == s, s, RS(p, m)), s), RH(p, s, H, d) == If(ok, If(m == s, h, RH(p, m, h, d)), H)]


def match_axioms(p, s, H, d, r, use):
    """use: which of sequence, alternate, list of alternates, repetition the function at hand is about"""
    p, s, H = bv(p, 64), bv(s, 64), bv(H, 64)
    fs = []
    if 's' in use:
        fs += seq_axiom(SOK, SS, SH, False, p, s, H, d, r)
    if 'a' in use:
        fs += seq_axiom(AOK, AS, AH, True, p, s, H, d, r)
    if 'l' in use:
        fs += alts_axiom(p, s, H, d, r)
    if 'r' in use:
        fs += rep_axiom(p, s, H, d)
    return fs


USE = {'*': 'r', '+': 'r', '|': 'al', 'seq': 's'}


class W:
    """a pattern of any length, an extension of Pegexp, a source position and a context"""

    matching = False

    def __init__(self, E, kind, prop, plain=False):
        self.prop = prop
        self.E, st = E, State()
        for k in ('pat', 'src', 'dis', 'rep', 'hist', 'match', 'from', 'to'):
            r = [x for _, x in E.run(State(), 'L_' + k, [])]
            assert len(r) == 1 and isint(r[0])
            setattr(self, {'from': 'frm', 'match': 'matchsize'}.get(k, k), r[0])
        E.no_try, E.unroll_first = kind not in ("?", "+"), kind == 'lit'
        E.small = 60
        E.first_ms = 1500
        self.install()
        self.P = E.new_arr(st, 1, N + 1, 'pattern', base=PAT)
        st.assume(And(ULT(N, V(LIMIT, 64)), at(N) == 0))
        st.assume(And([Not(f(V(0, 32))) for f in CT.values()]))
        self.axioms = []
        self.kind, self.use, self.cls = kind, USE.get(kind, ''), kind == '['
        self.hook_reads()
        self.p0, self.s0, self.H0 = z3.BitVec('p', 64), z3.BitVec('s', 64), z3.BitVec('H', 64)
        p, s, h = self.p0, self.s0, self.H0
        st.assume(ULE(p, N))
        self.px, st = self.one(E.run(st, 'mk_plain' if plain else 'mk_px', [Ptr(self.P, 0)]))
        self.ctx, st = self.one(E.run(st, 'mk_ctx', []))
        self.state, st = self.one(E.run(st, 'mk_state', [Ptr(self.P, p), s]))
        self.cd, self.rn = z3.BitVec('disabled', 32), z3.BitVec('nesting', 32)
        st.assume(And(self.nest_ok(self.cd, p), self.nest_ok(self.rn, p)))
        self.put(st, self.dis, self.cd)
        self.put(st, self.rep, self.rn)
        E.store(st, Ptr(self.ctx.obj, self.hist), h, ('i', 64))
        st.ghost['H'] = ()
        self.track(st, h)
        E.inputs = {'n': N, 'p': p, 's': s, 'disabled': self.cd, 'nesting': self.rn}
        for i in range(12):
            E.inputs['c%d' % i] = at(p + i)
        self.d, self.r = self.cd != 0, self.rn > 0
        self.st = st
        E.loop_inv = self.loop_inv

    def hook_reads(self):
        """the equations of the language hold at every pattern position; they are made available where the code looks at the pattern"""
        E = self.E
        load = E.load

        def hooked(st, p, ty, what='load'):
            if isinstance(p, Ptr) and p.obj == self.P:
                self.look(st, p.idx)
                if len(self.kind) == 1 and ty == ('i', 8) and p.idx is not None and bv(p.idx, 64).eq(self.p0):
                    E.prove(st, ULT(self.p0, N + 1), 'load: in bounds of pattern')
                    return ord(self.kind)       # the kind of atom this contract is about
                r = load(st, p, ty, what)
                i = simp(bv(p.idx, 64))
                st.assume(Implies(at(i) != 0, ULT(i, N)))       # it was in bounds, and the pattern ends in a NUL
                return r
            return load(st, p, ty, what)
        E.load = hooked

    def look(self, st, i):
        i = simp(bv(i, 64))
        i = bv(i, 64)
        seen = st.ghost.get('looked', ())
        if i.get_id() in seen:
            return
        st.ghost['looked'] = seen + (i.get_id(),)
        self.axioms.append(i)
        if self.kind == 'lit':
            return
        for f in pattern_axioms(i, self.cls):
            st.assume(f)
        ch = getattr(self, 'ch', None)
        if ch is not None:
            st.assume(class_axiom(i, ch))
        if self.kind == '|':
            st.assume(Implies(at(i) == ord('|'), atom_end_axiom(i, '|')))
        if self.kind == '|' and self.matching:
            for f in alts_axiom(i, self.s0, self.H0, self.d, self.r):
                st.assume(f)
            for f in seq_axiom(AOK, AS, AH, True, i, bv(self.get(st, self.state, self.src, ('i', 64)), 64), self.history(st), self.d, self.r):
                st.assume(f)

    def unfold(self, st, p, s, H, d=None, r=None):
        for f in match_axioms(p, s, H, self.d if d is None else d, self.r if r is None else r, self.use):
            st.assume(f)

    def nest_ok(self, x, p):
        """nesting depth: every level is at least one character further into the pattern"""
        return And(x >= 0, x < V(1 << 30, 32), SignExt(32, x) + (N - p) < V(1 << 30, 64))

    def one(self, rs):
        rs = list(rs)
        assert len(rs) == 1
        return rs[0][1], rs[0][0]

    def put(self, st, off, v):
        self.E.store(st, Ptr(self.ctx.obj, off), v, ('i', 32))

    def vacuity(self):
        self.E.prove(self.st, z3.BoolVal(self.E.feasible(self.st)), 'vacuity: precondition satisfiable')

    def prove(self, props, s, f, name):
        if self.prop in props:
            self.E.prove(s, f, name)

    # ------------------------------------------------------------ histories of captures
    def track(self, st, h, base=None):
        """a history met on this path; base: the one it extends"""
        h = bv(h, 64)
        hs = st.ghost['H']
        st.assume(EXTENDS(h, h))
        if base is not None:
            b = bv(base, 64)
            st.assume(EXTENDS(h, b))
            for x in hs:
                st.assume(Implies(EXTENDS(b, x), EXTENDS(h, x)))
        if not any(h.eq(x) for x in hs):
            st.ghost['H'] = hs + (h,)

    def get(self, st, p, off, ty):
        return self.E.load(st, Ptr(p.obj, simp(bv(p.idx, 64) + off) if not isint(p.idx) else p.idx + off), ty)

    def where(self, st, sp):
        """(pattern index, source position) of a State"""
        q = self.get(st, sp, self.pat, ('ptr',))
        if not isinstance(q, Ptr) or q.obj != self.P:
            self.E.fail(st, 'the pattern pointer stays in the pattern')
            return None, None
        return bv(q.idx, 64), bv(self.get(st, sp, self.src, ('i', 64)), 64)

    def put_pattern(self, st, q):
        self.E.store(st, Ptr(self.state.obj, self.state.idx + self.pat), Ptr(self.P, q), ('ptr',))

    def setwhere(self, st, sp, q, s):
        E = self.E
        E.store(st, Ptr(sp.obj, sp.idx + self.pat), Ptr(self.P, q), ('ptr',))
        E.store(st, Ptr(sp.obj, sp.idx + self.src), s, ('i', 64))

    def history(self, st):
        return bv(self.E.load(st, Ptr(self.ctx.obj, self.hist), ('i', 64)), 64)

    def sethist(self, st, h, base=None):
        self.E.store(st, Ptr(self.ctx.obj, self.hist), h, ('i', 64))
        self.track(st, h, base)

    def flags(self, st):
        return [bv(self.E.load(st, Ptr(self.ctx.obj, o), ('i', 32)), 32) for o in (self.dis, self.rep)]

    def same_ctx(self, st, c):
        if not isinstance(c, Ptr) or c.obj != self.ctx.obj or not (isint(c.idx) and c.idx == 0):
            self.E.fail(st, 'the context is passed on')
            return False
        return True

    # ------------------------------------------------------------ contracts
    def install(self):
        E = self.E
        W_ = self

        def top(h):
            def g(E, st, a, dem):
                return NotImplemented if E.depth == 0 else h(E, st, a, dem)
            return g
        byname = {'match_atom': self.c_atom, 'match_sequence': self.c_seq, 'match_here': self.c_here, 'skip_atom': self.c_skip,
                  'skip_operand': self.c_skipop, 'literal_char': self.c_literal, 'char_property': self.c_prop, 'is_property': self.c_isprop, 'char_class': self.c_class, 'unhex': lambda E, st, a, d: [(st, simp(hexval32(bv(a[0], 32))))]}
        for m, d in E.mod.dem.items():
            if d.startswith('Pegexp<Ctx>::'):
                h = byname.get(d[13:].split('(')[0])
                if h:
                    E.contracts[m] = top(h)
        ext = {'src_eof': lambda E, st, a, d: [(st, EOF(bv(a[0], 64)))], 'src_bol': lambda E, st, a, d: [(st, BOL(bv(a[0], 64)))],
               'src_char': self.c_char, 'src_next': self.c_next, 'ctx_count': self.c_count,
               'ctx_rollback': self.c_roll, 'ctx_capture': self.c_capture, 'ctx_failure': lambda E, st, a, d: [(st, None)],
               'px_ext': self.c_ext, 'px_skip': self.c_skipext, 'strchr': self.c_strchr}
        for n in CT:
            ext['is' + n] = (lambda n: lambda E, st, a, d: self.c_ctype(st, n, a[0]))(n)
        for k, h in ext.items():
            E.contracts['@' + k] = h

    def c_char(self, E, st, a, d):
        E.prove(st, Not(EOF(bv(a[0], 64))), 'no character is taken at the end of the source')
        return [(st, CH(bv(a[0], 64)))]

    def c_next(self, E, st, a, d):
        return [(st, NX(bv(a[0], 64)))]

    def c_ctype(self, st, n, c):
        c = bv(c, 32)
        self.E.prove(st, And(c >= -128, c <= 255), 'the argument of is%s is in its domain' % n)
        return [(st, simp(If(ctype(n, c), V(1, 32), V(0, 32))))]

    def c_strchr(self, E, st, a, d):
        s, c = a[0], bv(a[1], 32)
        o = st.objs.get(s.obj) if isinstance(s, Ptr) else None
        if o is None or not isint(s.idx):
            return NotImplemented
        bs = []
        while True:
            b = E.load(st, Ptr(s.obj, s.idx + len(bs)), ('i', 8))
            if not isint(b) or len(bs) > 64:
                return NotImplemented
            bs.append(b)
            if b == 0:
                break
        c8 = Extract(7, 0, c)
        s1, s2 = st, st.fork()
        hit = Or([c8 == b for b in bs])
        s1.assume(hit)
        s2.assume(Not(hit))
        k = E.fresh('found', 64)
        s1.assume(Or([And(k == s.idx + i, c8 == b) for i, b in enumerate(bs)]))
        return [(x, v) for x, v in ((s1, Ptr(s.obj, k)), (s2, NULL)) if E.feasible(x)]

    def c_count(self, E, st, a, d):
        self.track(st, a[0])
        return [(st, CNT(bv(a[0], 64)))]

    def c_roll(self, E, st, a, d):
        h, k = bv(a[0], 64), bv(a[1], 32)
        R = E.fresh('rolled', 64)
        st.assume(R == ROLL(h, k))
        for b in st.ghost['H']:
            st.assume(Implies(And(EXTENDS(h, b), k == CNT(b)), R == b))
            st.assume(Implies(And(EXTENDS(h, b), CNT(b) <= k), EXTENDS(R, b)))
        # state terms stay small: when it is one of the histories met on this path, say so
        for b in st.ghost['H']:
            if not E.feasible(st, R != b):
                return [(st, b)]
        self.track(st, R)
        return [(st, R)]

    def c_capture(self, E, st, a, d):
        h = bv(a[0], 64)
        ps = []
        for x in (a[1], a[3], a[5]):
            if not isinstance(x, Ptr) or x.obj != self.P:
                E.fail(st, 'a capture refers to the pattern')
                return []
            ps.append(bv(x.idx, 64))
        rep = a[7] if not isint(a[7]) else z3.BoolVal(bool(a[7]))
        rep = boolv(rep) if not z3.is_bv(rep) else rep != 0
        r = CAP(h, ps[0], bv(a[2], 32), ps[1], bv(a[4], 64), ps[2], bv(a[6], 64), rep)
        self.track(st, r, h)
        st.assume(CNT(r) >= CNT(h))
        return [(st, r)]

    def enter(self, st, q, strict=None):
        E = self.E
        E.prove(st, ULE(q, N), 'the pattern position is inside the pattern')
        cd, rn = self.flags(st)
        E.prove(st, And(self.nest_ok(cd, q), self.nest_ok(rn, q)), 'nesting counts are in range')
        return cd != 0, rn > 0

    def c_atom(self, E, st, a, dem):
        this, sp, c = a
        q, s = self.where(st, sp)
        if q is None or not self.same_ctx(st, c):
            return []
        d, r = self.enter(st, q)
        self.look(st, q)
        H = self.history(st)
        self.unfold(st, q, s, H, d, r)
        ok, no = st, st.fork()
        ok.assume(MOK(q, s))
        e, h = simp(operand_end(q)), MH(q, s, H, d, r)
        ok.assume(And(ULE(q, e), ULE(e, N), Implies(at(q) != 0, ULT(q, e)), Implies(at(q) == ord('|'), And(ended(at(e)), END(e) == e)), Implies(d, h == H)))
        self.setwhere(ok, sp, e, MS(q, s))
        self.sethist(ok, h, H)
        no.assume(Not(MOK(q, s)))
        return [(x, v) for x, v in ((ok, 1), (no, 0)) if E.feasible(x)]

    def c_seq(self, E, st, a, dem):
        this, sp, c = a
        q, s = self.where(st, sp)
        if q is None or not self.same_ctx(st, c):
            return []
        d, r = self.enter(st, q)
        H = self.history(st)
        self.unfold(st, q, s, H, d, r)
        ok, no = st, st.fork()
        ok.assume(SOK(q, s))
        e, h = END(q), SH(q, s, H, d, r)
        ok.assume(And(ULE(q, e), ULE(e, N), ended(at(e)), Implies(d, h == H)))
        self.setwhere(ok, sp, e, SS(q, s))
        self.sethist(ok, h, H)
        no.assume(Not(SOK(q, s)))
        f = E.fresh('stopped', 64)
        no.assume(And(ULE(q, f), ULE(f, N), at(f) != 0))
        self.setwhere(no, sp, f, E.fresh('stopped_at', 64))
        return [(x, v) for x, v in ((ok, 1), (no, 0)) if E.feasible(x)]

    def setmatch(self, st, m, q1, s1, q2, s2):
        for o, q, s in ((self.frm, q1, s1), (self.to, q2, s2)):
            self.setwhere(st, Ptr(m.obj, m.idx + o), q, s)

    def source(self, st, sp):
        return bv(self.E.load(st, Ptr(sp.obj, sp.idx), ('i', 64)), 64)

    def c_here(self, E, st, a, dem):
        m, this, sp, c = a
        if not self.same_ctx(st, c):
            return []
        zero = V(0, 64)
        s, H = self.source(st, sp), self.history(st)
        d, r = self.enter(st, zero)
        self.look(st, zero)
        self.find_axiom(st, s)
        end = END(zero)
        yes = And(SOK(zero, s), at(end) == 0)
        ok, no = st, st.fork()
        ok.assume(And(yes, ULE(end, N)))
        self.setmatch(ok, m, zero, s, end, SS(zero, s))
        E.store(ok, Ptr(sp.obj, sp.idx), SS(zero, s), ('i', 64))
        self.sethist(ok, SH(zero, s, H, d, r), H)
        no.assume(Not(yes))
        f, fs, h = E.fresh('stopped', 64), E.fresh('stopped_at', 64), E.fresh('abandoned', 64)
        no.assume(And(ULE(f, N), at(f) != 0, Implies(at(end) == 0, h == H)))
        self.setmatch(no, m, f, fs, f, fs)
        self.sethist(no, h, H)
        return [(x, None) for x in (ok, no) if E.feasible(x)]

    def find_axiom(self, st, s):
        """the first position at or after s where the pattern matches"""
        yes = And(SOK(V(0, 64), s), at(END(V(0, 64))) == 0)
        st.assume(FND(s) == Or(yes, And(Not(EOF(s)), FND(NX(s)))))
        st.assume(FST(s) == If(yes, s, FST(NX(s))))
        st.assume(seq_axiom(SOK, SS, SH, False, V(0, 64), s, self.H0, self.d, self.r)[0])

    def patref(self, st, rp):
        q = self.E.load(st, rp, ('ptr',))
        if not isinstance(q, Ptr) or q.obj != self.P:
            self.E.fail(st, 'the pattern pointer stays in the pattern')
            return None
        q = bv(q.idx, 64)
        self.E.prove(st, ULE(q, N), 'the pattern position is inside the pattern')
        return q

    def c_skip(self, E, st, a, dem):
        q = self.patref(st, a[1])
        if q is None:
            return []
        e = SK(q)
        self.look(st, q)
        st.assume(And(ULE(q, e), ULE(e, N), Implies(at(q) != 0, ULT(q, e)), Implies(at(q) == ord('|'), ended(at(e), True))))
        E.store(st, a[1], Ptr(self.P, e), ('ptr',))
        return [(st, Ptr(self.P, e))]

    def c_skipop(self, E, st, a, dem):
        q = self.patref(st, a[1])
        if q is None:
            return []
        e = simp(operand_end(q))
        self.look(st, q)
        st.assume(And(ULE(q, e), ULE(e, N), Implies(at(q) != 0, ULT(q, e)), Implies(at(q) == ord('|'), And(ended(at(e)), END(e) == e))))
        E.store(st, a[1], Ptr(self.P, e), ('ptr',))
        return [(st, None)]

    def c_literal(self, E, st, a, dem):
        q = self.patref(st, a[1])
        if q is None:
            return []
        e = LITEND(q)
        self.look(st, q)
        st.assume(And(ULE(q, e), ULE(e, N), Implies(at(q) != 0, ULT(q, e))))
        E.store(st, a[1], Ptr(self.P, e), ('ptr',))
        return [(st, LIT(q))]

    def c_isprop(self, E, st, a, dem):
        q = a[0]
        if not isinstance(q, Ptr) or q.obj != self.P:
            E.fail(st, 'the pattern pointer stays in the pattern')
            return []
        q = bv(q.idx, 64)
        E.prove(st, ULE(q, N), 'the pattern position is inside the pattern')
        self.look(st, q)
        st.assume(self.prop_facts(q))
        return [(st, isprop(q))]

    def prop_facts(self, q):
        """consequences of the language: an escape that is a property is two characters long and inside the pattern"""
        return And(Implies(isprop(q), LITEND(q) == q + 2), Implies(at(q) != 0, ULT(q, N)), Implies(And(at(q) != 0, at(q + 1) != 0), ULT(q + 1, N)))

    def c_prop(self, E, st, a, dem):
        q = self.patref(st, a[1])
        if q is None:
            return []
        q = simp(q - 1)
        E.prove(st, And(ULT(q, N), at(q) == ord('\\')), 'a character property follows a backslash')
        self.look(st, q)
        e, ch = LITEND(q), bv(a[2], 32)
        st.assume(And(ULT(q, e), ULE(e, N), self.prop_facts(q)))
        E.store(st, a[1], Ptr(self.P, e), ('ptr',))
        return [(st, If(isprop(q), charprop(at(q + 1), ch), ch == LIT(q)))]

    def c_class(self, E, st, a, dem):
        sp = a[1]
        q, s = self.where(st, sp)
        if q is None:
            return []
        E.prove(st, ULE(q, N), 'the pattern position is inside the pattern')
        self.look(st, q)
        ok, no = st, st.fork()
        ok.assume(Not(EOF(s)))
        neg = at(q) == ord('^')
        b = If(neg, q + 1, q)
        e = CEND(b)
        ok.assume(And(ULE(q, e), ULE(e, N), ULE(b, N)))
        self.setwhere(ok, sp, e, NX(s))
        no.assume(EOF(s))
        return [(x, v) for x, v in ((ok, neg != INC(b, CH(s))), (no, 0)) if E.feasible(x)]

    def c_ext(self, E, st, a, dem):
        sp, c = a
        q, s = self.where(st, sp)
        if q is None or not self.same_ctx(st, c):
            return []
        d, r = self.enter(st, q)
        E.prove(st, at(q) != 0, 'an extension is not called at the end of the pattern')
        H = self.history(st)
        ok, no = st, st.fork()
        ok.assume(XOK(q, s))
        e, h = EXTEND(q), XH(q, s, H, d, r)
        ok.assume(And(ULT(q, e), ULE(e, N), Implies(d, h == H)))
        self.setwhere(ok, sp, e, XS(q, s))
        self.sethist(ok, h, H)
        no.assume(Not(XOK(q, s)))
        f, hf = E.fresh('stopped', 64), E.fresh('abandoned', 64)
        no.assume(And(ULE(f, N)))
        self.setwhere(no, sp, f, E.fresh('stopped_at', 64))
        self.sethist(no, hf, H)
        return [(x, v) for x, v in ((ok, 1), (no, 0)) if E.feasible(x)]

    def c_skipext(self, E, st, a, dem):
        q = self.patref(st, a[0])
        if q is None:
            return []
        E.prove(st, at(q) != 0, 'an extension is not skipped at the end of the pattern')
        e = EXTEND(q)
        st.assume(And(ULT(q, e), ULE(e, N)))
        E.store(st, a[0], Ptr(self.P, e), ('ptr',))
        return [(st, None)]

    # ------------------------------------------------------------ loop invariants
    def loop_inv(self, E, st, view):
        pats = [v for v in view.vars if v.kind == 'ptr' and v.obj == self.P]
        hists = [v for v in view.vars if v.key == ('cell', self.ctx.obj, self.hist)]
        poss = [v for v in view.vars if v.key[0] == 'cell' and v.kind == 'int' and v.w == 64 and v not in hists]
        bools = [v for v in view.vars if v.kind == 'int' and v.w in (1, 8)]
        d, r = self.d, self.r
        out = []
        ax = lambda f, *keys: f
        g = lambda vv, v: bv(vv[v.key], 64)
        b = lambda vv, v: boolv(vv[v.key]) if v.w == 1 else bv(vv[v.key], 8) != 0
        for v in bools:
            out.append(('%s unchanged' % v.name, lambda kk, vv, v=v: bv(vv[v.key], v.w) == bv(view.init[v.key], v.w)))
            if v.w == 8:
                out.append(('%s is a bool' % v.name, lambda kk, vv, v=v: ULE(bv(vv[v.key], 8), V(1, 8))))
        for v in hists:
            i = g(view.init, v)
            out.append(('captures unchanged', lambda kk, vv, v=v, i=i: g(vv, v) == i))
            out.append(('captures extend the old ones', lambda kk, vv, v=v, i=i: EXTENDS(g(vv, v), self.H0)))
            out.append(('captures extend those before the loop', lambda kk, vv, v=v, i=i: EXTENDS(g(vv, v), i)))
            out.append(('captures are off', lambda kk, vv, v=v, i=i: Implies(d, g(vv, v) == self.H0)))
        for v in pats:
            i = g(view.init, v)
            out.append(('in pattern ' + v.name, lambda kk, vv, v=v: ULE(g(vv, v), N)))
            out.append(('forward ' + v.name, lambda kk, vv, v=v, i=i: ULE(i, g(vv, v))))
            if self.kind in ('seq', '|', '('):
                out.append(('more to match ' + v.name, lambda kk, vv, v=v: Not(ended(at(g(vv, v))))))
            if self.kind == '|':
                out.append(('more of the alternate ' + v.name, lambda kk, vv, v=v: Not(ended(at(g(vv, v)), True))))
            if self.kind in ('|', 'op', '?', '*', '+', '&', '!'):
                out.append(('between alternates ' + v.name, lambda kk, vv, v=v: ended(at(g(vv, v)), True)))
            for nm, f in (('name', NAMEEND), ('class', CEND), ('sequence', END), ('alternate', AEND)):
                if f is CEND and not self.cls:
                    continue
                out.append(('%s end %s' % (nm, v.name), lambda kk, vv, v=v, i=i, f=f: f(g(vv, v)) == f(i)))
            ch = getattr(self, 'ch', None)
            if ch is not None:
                for w in bools:
                    out.append(('membership so far', lambda kk, vv, v=v, w=w, i=i: Or(b(vv, w), INC(g(vv, v), ch)) == Or(b(view.init, w), INC(i, ch))))
            for s in poss:
                j = g(view.init, s)
                for nm, u, OK, S, Hf in (('sequence', 's', SOK, SS, SH), ('alternate', 'a', AOK, AS, AH)):
                    if u not in self.use:
                        continue
                    def same(kk, vv, v=v, s=s, i=i, j=j, OK=OK):
                        return OK(g(vv, v), g(vv, s)) == OK(i, j)

                    def send(kk, vv, v=v, s=s, i=i, j=j, S=S):
                        return S(g(vv, v), g(vv, s)) == S(i, j)
                    facts = [(nm + ' ok', same), (nm + ' end', send)]
                    for h in hists:
                        facts.append((nm + ' captures', lambda kk, vv, v=v, s=s, h=h, i=i, j=j, Hf=Hf:
                                      Hf(g(vv, v), g(vv, s), g(vv, h), d, r) == Hf(i, j, g(view.init, h), d, r)))
                    out += facts
                    for w in bools:
                        for pol, B in (('', lambda vv, w: b(vv, w)), (' not', lambda vv, w: Not(b(vv, w)))):
                            for t, f in facts:
                                out.append((t + ' while matching' + pol, lambda kk, vv, w=w, f=f, B=B: Implies(B(vv, w), f(kk, vv))))
                            out.append((nm + ' failed' + pol, lambda kk, vv, w=w, i=i, j=j, OK=OK, B=B: Implies(Not(B(vv, w)), Not(OK(i, j)))))
                            out.append((nm + ' stopped early' + pol, lambda kk, vv, w=w, v=v, B=B: Implies(Not(B(vv, w)), at(g(vv, v)) != 0)))
            if 'l' in self.use:
                z = self.s0
                out.append(('alternates ok', lambda kk, vv, v=v, i=i: LOK(g(vv, v), z) == LOK(i, z)))
                out.append(('alternates end', lambda kk, vv, v=v, i=i: LS(g(vv, v), z) == LS(i, z)))
                out.append(('alternates captures', lambda kk, vv, v=v, i=i: LH(g(vv, v), z, self.H0, d, r) == LH(i, z, self.H0, d, r)))
        if self.kind == 'match':
            for s in poss:
                j = g(view.init, s)
                out.append(('first match', lambda kk, vv, s=s, j=j: And(FND(g(vv, s)) == FND(j), Implies(FND(j), FST(g(vv, s)) == FST(j)))))
        if 'r' in self.use:
            for s in poss:
                j, o = g(view.init, s), self.p0 + 1
                out.append(('repetition end', lambda kk, vv, s=s, j=j: RS(o, g(vv, s)) == RS(o, j)))
                for h in hists:
                    out.append(('repetition captures', lambda kk, vv, s=s, h=h, j=j: RH(o, g(vv, s), g(vv, h), d) == RH(o, j, g(view.init, h), d)))
        return out


def cls(c):
    """condition on the first character of the atom"""
    if c == 'literal':
        x = at(z3.BitVec('p', 64))
        return Not(Or(ended(x), isc(x, '^$.\\[?*+(|&!' + EXTCH), And(x > 0, x < 32)))
    if c == 'extension':
        x = at(z3.BitVec('p', 64))
        return Or(isc(x, EXTCH), And(x > 0, x < 32))
    return at(z3.BitVec('p', 64)) == ord(c)


KINDS = ['literal', 'extension', '\0', ')', '^', '$', '.', '\\', '[', '?', '*', '+', '(', '|', '&', '!']
nm = lambda c: {'\0': 'end of pattern'}.get(c, c)


def literal_kind(k):
    p = z3.BitVec('p', 64)
    c, e = at(p), at(p + 1)
    oct_, x, u = And(e >= 48, e <= 55), e == ord('x'), e == ord('u')
    return {'plain': c != ord('\\'), 'octal': And(c == ord('\\'), oct_), 'hexadecimal': And(c == ord('\\'), x), 'Unicode': And(c == ord('\\'), u, at(p + 2) != ord('{')),
            'Unicode, braces': And(c == ord('\\'), u, at(p + 2) == ord('{')), 'other escapes': And(c == ord('\\'), Not(Or(oct_, x, u)))}[k]


LITERALS = ['plain', 'octal', 'hexadecimal', 'Unicode', 'Unicode, braces', 'other escapes']


def t_literal(E, prop, k):
    w = W(E, 'lit', prop)
    w.st.assume(literal_kind(k))
    w.vacuity()
    ref, st = w.state, w.st
    p = w.p0
    for s, ret in E.run(st, 'Pegexp<Ctx>::literal_char(char const*&)', [w.px, Ptr(ref.obj, ref.idx + w.pat)]):
        q, _ = w.where(s, ref)
        if q is None:
            continue
        v, e = lit_def(p)
        w.prove(('C20',), s, And(ULE(p, q), ULE(q, N), Implies(at(p) != 0, ULT(p, q))), 'a literal ends inside the pattern')
        w.prove(('C20',), s, q == e, 'a literal ends where documented')
        w.prove(('C21',), s, bv(ret, 32) == v, 'a literal stands for the documented character')


def t_unhex(E, prop):
    w = W(E, 'lit', prop)
    c = z3.BitVec('c', 32)
    E.inputs = {'c': c}
    fn = [d for m, d in E.mod.dem.items() if d.startswith('Pegexp<Ctx>::unhex(')]
    if not fn:
        return E.prove(w.st, z3.BoolVal(True), 'no separate function for hex digits')
    w.vacuity()
    for s, ret in E.run(w.st, fn[0], [c]):
        E.prove(s, bv(ret, 32) == hexval32(c), 'a hex digit has its value, anything else is none')


def t_isprop(E, prop):
    w = W(E, 'lit', prop)
    fn = [d for m, d in E.mod.dem.items() if d.startswith('Pegexp<Ctx>::is_property(')]
    if not fn:
        return E.prove(w.st, z3.BoolVal(True), 'no separate test for character properties')
    w.vacuity()
    for s, ret in E.run(w.st, fn[0], [Ptr(w.P, w.p0)]):
        E.prove(s, flag(ret) == isprop(w.p0), 'the escapes that stand for character properties are recognised')


def t_prop(E, prop):
    w = W(E, 'lit', prop)
    fn = [d for m, d in E.mod.dem.items() if d.startswith('Pegexp<Ctx>::char_property(')]
    if not fn:
        return E.prove(w.st, z3.BoolVal(True), 'no separate function for character properties')
    p, ref, st, ch = w.p0, w.state, w.st, z3.BitVec('ch', 32)
    E.inputs['ch'] = ch
    st.assume(And(ULT(p, N), at(p) == ord('\\')))
    st.assume(w.prop_facts(p))
    st.assume(ctype_facts(If(ULE(ch, V(255, 32)), ch, V(0, 32))))
    w.put_pattern(st, p + 1)
    w.vacuity()
    for s, ret in E.run(st, fn[0], [w.px, Ptr(ref.obj, ref.idx + w.pat), ch]):
        q, _ = w.where(s, ref)
        if q is None:
            continue
        w.prove(('C20',), s, q == LITEND(p), 'a property or escape is passed')
        w.prove(('C21',), s, flag(ret) == If(isprop(p), charprop(at(p + 1), ch), ch == LIT(p)), 'a property or escape matches the characters documented')


def t_class(E, prop):
    w = W(E, '[', prop)
    fn = [d for m, d in E.mod.dem.items() if d.startswith('Pegexp<Ctx>::char_class(')]
    if not fn:
        return E.prove(w.st, z3.BoolVal(True), 'no separate function for character classes')
    st, p, s0, H = w.st, w.p0, w.s0, w.H0
    st.assume(ULT(V(0, 64), p))
    w.ch = CH(s0)
    w.look(st, p)
    w.vacuity()
    w.kind = 'class'
    neg = at(p) == ord('^')
    b = If(neg, p + 1, p)
    for s, ret in E.run(st, fn[0], [w.px, w.state]):
        q, x = w.where(s, w.state)
        if q is None:
            continue
        w.look(s, q)
        w.prove(('C21',), s, flag(ret) == And(Not(EOF(s0)), neg != INC(b, CH(s0))), 'a class matches the characters it lists, or those it does not')
        w.prove(('C20', 'C21'), s, If(EOF(s0), And(q == p, x == s0), And(q == CEND(b), x == NX(s0))), 'a class is passed to its end and takes one character')
        w.prove(('C20',), s, And(ULE(p, q), ULE(q, N)), 'matching stays inside the pattern')
        w.prove(('C22',), s, w.history(s) == H, 'no captures')


def t_skip(E, prop, c):
    w = W(E, c, prop)
    w.st.assume(cls(c))
    w.st.assume(atom_end_axiom(w.p0, c))
    w.vacuity()
    ref, st, p = w.state, w.st, w.p0
    for s, ret in E.run(st, 'Pegexp<Ctx>::skip_atom(char const*&)', [w.px, Ptr(ref.obj, ref.idx + w.pat)]):
        q, _ = w.where(s, ref)
        if q is None:
            continue
        w.look(s, q)
        w.prove(('C20',), s, ULE(q, N), 'skipping stays inside the pattern')
        w.prove(('C20',), s, And(ULE(p, q), Implies(at(p) != 0, ULT(p, q))), 'skipping an atom moves forward')
        w.prove(('C20',), s, q == SK(p), 'an atom is skipped to its end')
        if c == '|':
            w.prove(('C20',), s, ended(at(q), True), 'an alternate ends at the next, or at the end of the group')
        E.prove(s, z3.BoolVal(isinstance(ret, Ptr) and ret.obj == w.P) if not isinstance(ret, Ptr) or ret.obj != w.P else bv(ret.idx, 64) == q,
                'the new position is returned')


def t_skipop(E, prop):
    w = W(E, 'op', prop)
    w.vacuity()
    ref, st, p = w.state, w.st, w.p0
    w.look(st, p)
    for s, ret in E.run(st, 'Pegexp<Ctx>::skip_operand(char const*&)', [w.px, Ptr(ref.obj, ref.idx + w.pat)]):
        q, _ = w.where(s, ref)
        if q is None:
            continue
        w.prove(('C20',), s, And(ULE(p, q), ULE(q, N), Implies(at(p) != 0, ULT(p, q))), 'skipping stays inside the pattern')
        w.look(s, q)
        w.prove(('C20',), s, q == operand_end(p), 'an operand is skipped to its end')
        w.prove(('C20',), s, Implies(at(p) == ord('|'), ended(at(q))), 'alternates are skipped together')


def flag(ret):
    if isint(ret):
        return z3.BoolVal(bool(ret & 1))
    return ret if z3.is_bool(ret) else bv(ret, ret.size()) != 0


def t_atom(E, prop, c):
    w = W(E, c, prop)
    st, p, s0, H = w.st, w.p0, w.s0, w.H0
    st.assume(cls(c))
    st.assume(atom_end_axiom(p, c))
    for f in atom_axiom(p, s0, H, w.d, w.r, c):
        st.assume(f)
    w.matching = True
    w.look(st, p)
    w.unfold(st, p, s0, H)
    if c == '[':
        w.ch = CH(s0)
    w.vacuity()
    for s, ret in E.run(st, 'Pegexp<Ctx>::match_atom(PegexpState<Src>&, Ctx*)', [w.px, w.state, w.ctx]):
        q, x = w.where(s, w.state)
        if q is None:
            continue
        h = w.history(s)
        ok = flag(ret)
        cd, rn = w.flags(s)
        w.look(s, q)
        w.unfold(s, q, x, h)
        w.prove(('C20', 'C21', 'C22'), s, And(cd == w.cd, rn == w.rn), 'the nesting counts are restored')
        w.prove(('C21',), s, ok == MOK(p, s0), 'an atom matches exactly when documented')
        w.prove(('C20',), s, ULE(q, N), 'matching stays inside the pattern')
        w.prove(('C20', 'C21'), s, Implies(Not(ok), And(q == p, x == s0)), 'a failed atom leaves the pattern and the source where they were')
        w.prove(('C22',), s, Implies(Not(ok), h == H), 'a failed atom leaves no captures')
        w.prove(('C20',), s, Implies(ok, And(ULE(p, q), Implies(at(p) != 0, ULT(p, q)))), 'a matched atom is passed')
        w.prove(('C20',), s, Implies(ok, q == operand_end(p)), 'matching an atom passes what skipping it passes')
        if c == '|':
            w.prove(('C20',), s, Implies(ok, ended(at(q))), 'alternates are passed together')
        w.prove(('C21',), s, Implies(ok, x == MS(p, s0)), 'a matched atom consumes what is documented')
        w.prove(('C22',), s, Implies(ok, h == MH(p, s0, H, w.d, w.r)), 'a matched atom captures what is documented')
        w.prove(('C22',), s, Implies(ok, EXTENDS(h, H)), 'earlier captures are kept')
        w.prove(('C22',), s, Implies(And(ok, w.d), h == H), 'nothing is captured in a look-ahead')


def t_seq(E, prop):
    w = W(E, 'seq', prop)
    st, p, s0, H = w.st, w.p0, w.s0, w.H0
    w.look(st, p)
    w.unfold(st, p, s0, H)
    w.vacuity()
    for s, ret in E.run(st, 'Pegexp<Ctx>::match_sequence(PegexpState<Src>&, Ctx*)', [w.px, w.state, w.ctx]):
        q, x = w.where(s, w.state)
        if q is None:
            continue
        h = w.history(s)
        ok = flag(ret)
        cd, rn = w.flags(s)
        w.look(s, q)
        w.unfold(s, q, x, h)
        w.prove(('C20', 'C21', 'C22'), s, And(cd == w.cd, rn == w.rn), 'the nesting counts are restored')
        w.prove(('C20',), s, And(ULE(q, N), ULE(p, q)), 'matching stays inside the pattern')
        w.prove(('C20', 'C21'), s, Implies(And(ok, Not(ended(at(p)))), ULT(p, q)), 'a sequence that is not empty moves forward in the pattern')
        w.prove(('C21',), s, ok == SOK(p, s0), 'a sequence matches exactly when its atoms do, one after the other')
        w.prove(('C22',), s, Implies(Not(ok), h == H), 'a failed sequence leaves no captures')
        w.prove(('C20',), s, Implies(Not(ok), at(q) != 0), 'a failed sequence stops at the atom that failed')
        w.prove(('C20',), s, Implies(ok, And(q == END(p), ended(at(q)))), 'a sequence is matched to its end')
        w.prove(('C21',), s, Implies(ok, x == SS(p, s0)), 'a matched sequence consumes what its atoms consume')
        w.prove(('C22',), s, Implies(ok, h == SH(p, s0, H, w.d, w.r)), 'a matched sequence captures what its atoms capture')
        w.prove(('C22',), s, Implies(ok, EXTENDS(h, H)), 'earlier captures are kept')
        w.prove(('C22',), s, Implies(And(ok, w.d), h == H), 'nothing is captured in a look-ahead')


def t_here(E, prop):
    w = W(E, 'here', prop)
    st, s0, H, zero = w.st, w.s0, w.H0, V(0, 64)
    st.assume(And(w.nest_ok(w.cd, zero), w.nest_ok(w.rn, zero)))
    src, st = w.one(E.run(st, 'mk_src', [s0]))
    m, st = w.one(E.run(st, 'mk_match', []))
    w.setmatch(st, m, zero, s0, zero, s0)
    w.st = st
    w.look(st, zero)
    w.vacuity()
    end = END(zero)
    yes = And(SOK(zero, s0), at(end) == 0)
    for s, _ in E.run(st, 'Pegexp<Ctx>::match_here(Src&, Ctx*)', [m, w.px, src, w.ctx]):
        (q1, x1), (q2, x2) = [w.where(s, Ptr(m.obj, m.idx + o)) for o in (w.frm, w.to)]
        if q1 is None or q2 is None:
            continue
        h, x = w.history(s), w.source(s, src)
        w.prove(('C20',), s, And(ULE(q1, N), ULE(q2, N)), 'the result refers to the pattern')
        w.prove(('C21',), s, Implies(yes, And(q1 == 0, x1 == s0, q2 == end, x2 == SS(zero, s0), x == x2)), 'a match of the whole pattern is reported, and consumed')
        w.prove(('C21',), s, Implies(Not(yes), And(q1 == q2, x1 == x2, at(q1) != 0, x == s0)), 'a failure is reported as such, and consumes nothing')
        w.prove(('C22',), s, Implies(yes, h == SH(zero, s0, H, w.d, w.r)), 'a match captures what its atoms capture')
        w.prove(('C22',), s, Implies(And(Not(yes), at(end) == 0), h == H), 'a failure leaves no captures')
        w.prove(('C22',), s, EXTENDS(h, H), 'earlier captures are kept')


def t_match(E, prop):
    w = W(E, 'match', prop)
    st, s0, H, zero = w.st, w.s0, w.H0, V(0, 64)
    st.assume(And(w.nest_ok(w.cd, zero), w.nest_ok(w.rn, zero)))
    src, st = w.one(E.run(st, 'mk_src', [s0]))
    m, st = w.one(E.run(st, 'mk_match', []))
    w.setmatch(st, m, zero, s0, zero, s0)
    w.st = st
    w.look(st, zero)
    w.find_axiom(st, s0)
    w.vacuity()
    end = END(zero)
    st.assume(Implies(at(zero) != 0, Or(at(zero) == ord(')'), ULT(zero, end))))      # proved for match_sequence
    for s, _ in E.run(st, 'Pegexp<Ctx>::match(Src&, Ctx*)', [m, w.px, src, w.ctx]):
        (q1, x1), (q2, x2) = [w.where(s, Ptr(m.obj, m.idx + o)) for o in (w.frm, w.to)]
        if q1 is None or q2 is None:
            continue
        h, x = w.history(s), w.source(s, src)
        w.find_axiom(s, x)
        failed = And(at(q1) != 0, q1 == q2, x1 == x2)
        f = FST(s0)
        w.prove(('C20',), s, And(ULE(q1, N), ULE(q2, N)), 'the result refers to the pattern')
        w.prove(('C21',), s, failed == Not(FND(s0)), 'a match is found exactly when the pattern matches at some position')
        w.prove(('C21',), s, Implies(FND(s0), And(q1 == 0, x1 == f, q2 == end, x2 == SS(zero, f), x == f)), 'the first match is reported, and the source is left at its start')
        w.prove(('C21',), s, Implies(Not(FND(s0)), EOF(x)), 'all of the source is searched')
        w.prove(('C22',), s, Implies(FND(s0), h == SH(zero, f, H, w.d, w.r)), 'captures are those of the match found: none is left from the positions where it failed')
        w.prove(('C22',), s, Implies(And(Not(FND(s0)), at(end) == 0), h == H), 'a failure leaves no captures')
        w.prove(('C22',), s, EXTENDS(h, H), 'earlier captures are kept')


def t_failure(E, prop):
    w = W(E, 'lit', prop)
    st = w.st
    m, st = w.one(E.run(st, 'mk_match', []))
    q1, s1, q2, s2 = [z3.BitVec(n, 64) for n in ('from_pattern', 'from_source', 'to_pattern', 'to_source')]
    st.assume(And(ULE(q1, N), ULE(q2, N)))
    w.setmatch(st, m, q1, s1, q2, s2)
    w.st = st
    w.vacuity()
    for s, ret in E.run(st, 'm_fail', [m]):
        w.prove(('C21',), s, flag(ret) == And(at(q1) != 0, q1 == q2, s1 == s2), 'a failure is a result that did not advance, other than for an empty pattern')


def t_plain(E, prop):
    w = W(E, 'lit', prop, plain=True)
    st, p, s0, H = w.st, w.p0, w.s0, w.H0
    st.assume(at(p) != 0)
    w.vacuity()
    for s, ret in E.run(st, 'Pegexp<Ctx>::match_extended(PegexpState<Src>&, Ctx*)', [w.px, w.state, w.ctx]):
        q, x = w.where(s, w.state)
        if q is None:
            continue
        ok = flag(ret)
        yes = And(Not(EOF(s0)), se(at(p)) == CH(s0))
        w.prove(('C20',), s, And(ULE(q, N), Implies(ok, q == p + 1)), 'an extension character is passed like a literal')
        w.prove(('C21',), s, And(ok == yes, Implies(ok, x == NX(s0))), 'without an extension, its characters match themselves')
        w.prove(('C22',), s, w.history(s) == H, 'no captures')


def t_plainskip(E, prop):
    w = W(E, 'lit', prop, plain=True)
    st, p, ref = w.st, w.p0, w.state
    st.assume(at(p) != 0)
    w.vacuity()
    for s, ret in E.run(st, 'Pegexp<Ctx>::skip_extended(char const*&)', [w.px, Ptr(ref.obj, ref.idx + w.pat)]):
        q, _ = w.where(s, ref)
        if q is not None:
            w.prove(('C20',), s, q == p + 1, 'an extension character is skipped like a literal')


def tasks(prop, tier):
    ts = []

    def add(props, n, f, *a):
        if prop in props:
            ts.append(Task(n, 'pegexp', lambda E: f(E, prop, *a), timeout=300))
    P, M, C = 'C20', 'C21', 'C22'
    for k in LITERALS:
        add((P, M), 'literal_char (%s)' % k, t_literal, k)
    for n, f in (('unhex', t_unhex), ('is_property', t_isprop), ('char_property', t_prop)):
        add((P, M), n, f)
    add((P, M, C), 'char_class', t_class)
    for c in KINDS:
        add((P,), 'skip_atom (%s)' % nm(c), t_skip, c)
    add((P,), 'skip_operand', t_skipop)
    for c in KINDS:
        add((P, M, C), 'match_atom (%s)' % nm(c), t_atom, c)
    add((P, M, C), 'match_sequence', t_seq)
    add((P, M, C), 'match_extended (default)', t_plain)
    add((P,), 'skip_extended (default)', t_plainskip)
    add((P, M, C), 'match_here', t_here)
    add((P, M, C), 'match', t_match)
    add((M,), 'is_failure', t_failure)
    return ts


ASSUMPTIONS = [
    'the meaning of patterns is the set of equations at the head of contracts/pegx.py (ends of atoms, classes and sequences, matching, captures); they are instantiated where the code looks at the pattern or meets an atom, and have one solution for every pattern because each step moves forward in the pattern (proved) or in the source (assumed of sources)',
    'Pegexp is instantiated for an abstract Source whose positions, characters and ends are arbitrary, and an abstract Context whose captures form a history; other instantiations differ in these type arguments only',
    'a Context numbers its captures consecutively: rolling back to the count taken earlier on the same history restores that history',
    'an extension (match_extended/skip_extended) moves forward, ends where skipping ends, keeps earlier captures and captures nothing in a look-ahead; the default extension is verified to be a literal',
    'termination is not proved: recursion and repetition are verified for partial correctness (each recursive call is checked against the contract being proved)',
    'pattern text below 2^30 bytes; nesting counters below 2^30',
    'pattern characters are 7-bit or the documented 8-bit data; isalnum is asked about negative char values only in the range glibc supports (-128..255)',
    'a range whose first bound is above its last, or a character compared as an unsigned 32-bit number, is as in the equations (unsigned order)',
]
TRUSTED = ['isalpha, isdigit, islower, isupper, isspace, isalnum: C library (uninterpreted; for ASCII as in the C locale, NUL has none of the properties)', 'strchr: C library (by its definition)']


def hint(task, name, inp):
    """the pattern of the verifier's counterexample, from the atom at hand"""
    return ' '.join(str(inp['c%d' % i]) for i in range(12)) if inp and 'c0' in inp else None
