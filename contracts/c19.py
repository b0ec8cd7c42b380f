"""C19: a Variant holds exactly one live value of the type its tag names, and converts without loss or not at all.

The members of the union (strings, arrays, maps) are values: handles.  Their constructors, destructors, copies and the few operations Variant uses
have contracts over the ghost set of live objects: a constructor needs storage where nothing is live, a destructor, a copy and an assignment need
a live object of that very type.  What the members themselves do is C12..C15 (strings), C09/C10 (arrays) and C18 (maps)."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE, SignExt, ZeroExt, Extract
from runner import Task
from sym import Ptr, bv, State, Forall, NULL, isint, isnull, boolv, simp, Unsupported, conc

REPLAY = 'c19.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp', 'src/variant.cpp']
ASSUMPTIONS = ['strings, arrays and maps are values (C09, C10, C12-C15, C18) with the usual constructors, copies, assignment and destructors',
               'a string is read as a number by StrVal::asInt32 with any radix prefix; whether it succeeds and what it yields is a function of the string',
               'the tag of a Variant is one of the listed types', 'snprintf of one integer with %d, %ld or %lld writes its decimal digits and a NUL']
TRUSTED = ['snprintf', 'printf', '__assert_fail does not return']

NONE, INT, LONG, LL, STR, SA, VA, MAP = range(8)
KN = ['None', 'Integer', 'Long', 'LongLong', 'String', 'StrArray', 'VarArray', 'StrVarMap']
CL = {STR: 'S', SA: 'A', VA: 'V', MAP: 'M'}
H = z3.BitVecSort(64)
I32 = z3.BitVecSort(32)
DEC = z3.Function('decimal', H, H)                    # the text of an integer
NUM, ERR = z3.Function('number', H, I32), z3.Function('number_error', H, I32)
APP = z3.Function('append', H, I32, H, H)             # a Variant appended to an array
INS = z3.Function('insert', H, H, I32, H, H)          # a Variant inserted in a map
KEYAT, VTAG, VPAY = z3.Function('key_at', H, H), z3.Function('tag_at', H, I32), z3.Function('value_at', H, H)
MAPN = z3.Function('map_of_first', H, H)
OF = z3.Function('array_of', H, H, H)
EMPTY = {c: z3.BitVec('empty_' + c, 64) for c in 'SAVM'}
CLASSES = [('W', 'StrValI<unsigned int>'), ('S', 'StrRefI<unsigned int>'), ('A', 'StringArray'),
           ('A', 'Array<StrRefI<unsigned int>, unsigned int, ArrayBody<StrRefI<unsigned int>, unsigned int> >'),
           ('A', 'ArrayR<StrRefI<unsigned int>, unsigned int, Array<StrRefI<unsigned int>, unsigned int, ArrayBody<StrRefI<unsigned int>, unsigned int> >, ArrayBody<StrRefI<unsigned int>, unsigned int> >'),
           ('V', 'Array<Variant, unsigned int, ArrayBody<Variant, unsigned int> >'),
           ('V', 'ArrayR<Variant, unsigned int, Array<Variant, unsigned int, ArrayBody<Variant, unsigned int> >, ArrayBody<Variant, unsigned int> >'),
           ('M', 'StrVariantMap'), ('M', 'CowMap<Variant, StrValI<unsigned int>, CowMapBody<Variant, StrValI<unsigned int> > >')]
SAME = {'W': 'WS', 'S': 'WS', 'A': 'A', 'V': 'V', 'M': 'M'}
NAMES = {'W': 'StrVal', 'S': 'StrRef', 'A': 'StringArray', 'V': 'VariantArray', 'M': 'StrVariantMap', 'T': 'Variant'}


class W:
    def __init__(self, E):
        self.E, st = E, State()
        for k in ('size', 'tag', 'u', 'str', 'sarr', 'varr', 'map'):
            r = [x for _, x in E.run(State(), 'L_' + k, [])]
            assert len(r) == 1 and isint(r[0])
            setattr(self, k, r[0])
        self.sz = {'W': self.str, 'S': self.size - self.u, 'A': self.sarr, 'V': self.varr, 'M': self.map, 'T': self.size}
        self.st = st
        st.ghost['live'], st.ghost['text'] = (), ()
        self.install()
        E.inputs = {}
        E.unroll_first = False

    # ---------------------------------------------------------------- live objects
    def live(self, st, p):
        return next((c for k, c in st.ghost['live'] if k == (p.obj, p.idx)), None) if isinstance(p, Ptr) else None

    def where(self, p):
        if not isinstance(p, Ptr) or not isint(p.idx):
            raise Unsupported('an object at a symbolic place')
        return (p.obj, p.idx)

    def born(self, st, p, c, h):
        E = self.E
        k = self.where(p)
        n = self.sz[c]
        if not E.bounds(st, p, min(n, 8), 'construct a ' + NAMES[c]):
            return False
        for (o, i), x in st.ghost['live']:
            if o == k[0] and i < k[1] + n and k[1] < i + self.sz[x]:
                E.fail(st, 'nothing is constructed over a live %s' % NAMES[x])
                return False
        if h is not None:
            E.store(st, p, h, ('i', 64))
        st.ghost['live'] = st.ghost['live'] + ((k, c),)
        return True

    def die(self, st, p, c):
        E = self.E
        x = self.live(st, p)
        if x != c:
            E.fail(st, 'what is destroyed as a %s is a live one' % NAMES[c])
            return False
        k = self.where(p)
        st.ghost['live'] = tuple(e for e in st.ghost['live'] if e[0] != k)
        return True

    def value(self, st, p, c, what='used'):
        E = self.E
        if isinstance(p, Ptr) and p.obj in self.given:
            n, f = self.given[p.obj]
            E.prove(st, ULT(bv(p.idx, 64), bv(n, 64)), 'an element of the arrays given')
            return f(bv(p.idx, 64))
        x = self.live(st, p)
        if x is None or x not in SAME[c]:
            E.fail(st, 'what is %s as a %s is a live one' % (what, NAMES[c]))
            return None
        return bv(E.load(st, p, ('i', 64)), 64)

    given = {}

    def txt(self, s):
        return EMPTY['S'] if s == '' else z3.BitVec('text "%s"' % s, 64)

    def chars(self, st, p):
        """the value of a const char*"""
        for k, h in reversed(st.ghost['text']):
            if isinstance(p, Ptr) and k == (p.obj, p.idx):
                return h
        return self.txt(self.E.cstring(st, p))

    # ---------------------------------------------------------------- contracts of the members
    def install(self):
        E = self.E
        for m, d in E.mod.dem.items():
            for c, cl in CLASSES:
                if d.startswith(cl + '::') and '::' not in d[len(cl) + 2:].split('(')[0]:
                    name, _, rest = d[len(cl) + 2:].partition('(')
                    base = cl.split('<')[0]
                    h = self.handler(c, cl, base, name, rest.rsplit(')', 1)[0])
                    if h:
                        E.contracts[m] = h
        E.contracts['@snprintf'] = self.c_snprintf
        E.contracts['@__assert_fail'] = self.c_assert

    def handler(self, c, cl, base, name, args):
        W_ = self
        if name == '~' + base:
            return lambda E, st, a, d: [(st, None)] if W_.die(st, a[0], c) else []
        if name == base:
            if args == '':
                return lambda E, st, a, d: [(st, None)] if W_.born(st, a[0], c, EMPTY['S' if c == 'W' else c]) else []
            for c2, cl2 in CLASSES:
                if args == cl2 + ' const&' and c2 in SAME[c]:
                    def copy(E, st, a, d):
                        h = W_.value(st, a[1], c2, 'copied')
                        return [(st, None)] if h is not None and W_.born(st, a[0], c, h) else []
                    return copy
            if args == 'char const*, StrDataType':
                def text(E, st, a, d):
                    return [(st, None)] if W_.born(st, a[0], c, W_.chars(st, a[1])) else []
                return text
            if args in ('StrValI<unsigned int> const*, unsigned int, unsigned int', 'Variant const*, unsigned int, unsigned int'):
                def many(E, st, a, d):
                    if not isinstance(a[1], Ptr) or a[1].obj not in W_.given or not (isint(a[1].idx) and a[1].idx == 0):
                        raise Unsupported('an array built of something else')
                    return [(st, None)] if W_.born(st, a[0], c, OF(V(a[1].obj, 64), ZeroExt(32, bv(a[2], 32)))) else []
                return many
            return None
        if name == 'operator=' and any(args == cl2 + ' const&' and c2 in SAME[c] for c2, cl2 in CLASSES):
            def assign(E, st, a, d):
                h = W_.value(st, a[1], c, 'copied')
                if h is None or W_.value(st, a[0], c, 'assigned to') is None:
                    return []
                E.store(st, a[0], h, ('i', 64))
                return [(st, a[0])]
            return assign
        if name == 'asInt32':
            def num(E, st, a, d):
                h = W_.value(st, a[0], c)
                if h is None:
                    return []
                if not (isint(a[2]) and a[2] == 0) or not isnull(a[3]):
                    raise Unsupported('asInt32 with other arguments')
                if not isnull(a[1]):
                    E.store(st, a[1], ERR(h), ('i', 32))
                return [(st, NUM(h))]
            return num
        if c == 'V' and name in ('append', 'push', 'operator+=') and args == 'Variant const&':
            def app(E, st, a, d):
                h, v = W_.value(st, a[0], 'V', 'appended to'), W_.variant(st, a[1])
                if h is None or v is None:
                    return []
                E.store(st, a[0], APP(h, *v), ('i', 64))
                return [(st, a[0])]
            return app
        if c == 'M' and name == 'insert':
            def ins(E, st, a, d):
                h, k, v = W_.value(st, a[0], 'M', 'inserted in'), W_.value(st, a[1], 'W'), W_.variant(st, a[2])
                if h is None or k is None or v is None:
                    return []
                E.store(st, a[0], INS(h, k, *v), ('i', 64))
                return [(st, z3.BitVecVal(1, 8) == 1)]
            return ins
        return None

    def c_snprintf(self, E, st, a, d):
        fmt = E.cstring(st, a[2])
        w = {'%d': 32, '%i': 32, '%ld': 64, '%li': 64, '%lld': 64, '%lli': 64}.get(fmt)
        if w is None or len(a) != 4:
            raise Unsupported('snprintf ' + fmt)
        n = a[1]
        if not isint(n) or not E.bounds(st, a[0], n, 'snprintf'):
            return []
        E.prove(st, z3.BoolVal(n >= (12 if w == 32 else 21)), 'the buffer holds every number')
        v = bv(a[3], 64)
        got = a[3].size() if isinstance(a[3], z3.BitVecRef) else w
        E.prove(st, z3.BoolVal(got == w), 'the conversion fits the argument')
        if w == 32:
            v = SignExt(32, bv(a[3], 32))
        st.ghost['text'] = st.ghost['text'] + ((self.where(a[0]), DEC(v)),)
        return [(st, E.fresh('len', 32))]

    may_abort = None

    def c_assert(self, E, st, a, d):
        E.prove(st, boolv(self.may_abort) if self.may_abort is not None else z3.BoolVal(False), 'it aborts only where the value cannot be converted')
        return []

    # ---------------------------------------------------------------- Variants
    def raw(self, n=None, name='storage'):
        return Ptr(self.E.new_cells(self.st, n or self.size, name), 0)

    def make(self, kind, name):
        st, E = self.st, self.E
        p = self.raw(None, name)
        E.store(st, Ptr(p.obj, self.tag), kind, ('i', 32))
        h = z3.BitVec(name + '_value', 64)
        E.inputs[name + '_type'], E.inputs[name + '_value'] = z3.BitVecVal(kind, 32), h
        E.store(st, Ptr(p.obj, self.u), h, ('i', 64))
        if kind >= STR:
            st.ghost['live'] = st.ghost['live'] + (((p.obj, self.u), CL[kind]),)
        return p, self.canon(kind, h)

    def canon(self, kind, h):
        return SignExt(32, Extract(31, 0, h)) if kind == INT else V(0, 64) if kind == NONE else h

    def member(self, c, name):
        p = self.raw(self.sz[c], name)
        h = z3.BitVec(name + '_value', 64)
        self.E.store(self.st, p, h, ('i', 64))
        self.st.ghost['live'] = self.st.ghost['live'] + (((p.obj, 0), c),)
        return p, h

    def variant(self, st, p):
        """(tag, value) of the Variant at p; its tag names the live member"""
        E = self.E
        if isinstance(p, Ptr) and p.obj in self.vgiven:
            E.prove(st, ULT(bv(p.idx, 64), bv(self.vgiven[p.obj], 64)), 'an element of the arrays given')
            return VTAG(bv(p.idx, 64)), VPAY(bv(p.idx, 64))
        k = (p.obj, p.idx)
        g = next((v for q, v in st.ghost.get('opaque', ()) if q == k), None)
        if g is not None:
            return g
        t = E.load(st, Ptr(p.obj, p.idx + self.tag), ('i', 32))
        t = conc(t) if not isint(t) else t
        if not isint(t):
            raise Unsupported('symbolic tag')
        if not 0 <= t <= MAP:
            E.fail(st, 'the tag is one of the types')
            return None
        x = self.live(st, Ptr(p.obj, p.idx + self.u))
        if x != CL.get(t):
            E.fail(st, 'the tag (%s) names the live member (%s)' % (KN[t], NAMES.get(x, 'none')))
            return None
        h = V(0, 64) if t == NONE else SignExt(32, bv(E.load(st, Ptr(p.obj, p.idx + self.u), ('i', 32)), 32)) if t == INT else bv(E.load(st, Ptr(p.obj, p.idx + self.u), ('i', 64)), 64)
        return V(t, 32), h

    vgiven = {}

    def opaque(self):
        """copies of Variants of any type are values too"""
        E = self.E
        self.st.ghost['opaque'] = ()

        def dtor(E, st, a, d):
            if (a[0].obj, a[0].idx) not in [q for q, v in st.ghost['opaque']]:
                return NotImplemented
            if not self.die(st, a[0], 'T'):
                return []
            st.ghost['opaque'] = tuple(e for e in st.ghost['opaque'] if e[0] != (a[0].obj, a[0].idx))
            return [(st, None)]
        for m, d in E.mod.dem.items():
            if d == 'Variant::Variant(Variant const&)':
                E.contracts[m] = self.vcopy
            if d == 'Variant::~Variant()':
                E.contracts[m] = dtor

    def vcopy(self, E, st, a, d):
        v = self.variant(st, a[1])
        if v is None or not self.born(st, a[0], 'T', None):
            return []
        st.ghost['opaque'] = st.ghost['opaque'] + ((self.where(a[0]), v),)
        return [(st, None)]

    def run(self, fn, args):
        E = self.E
        E.prove(self.st, z3.BoolVal(E.feasible(self.st)), 'vacuity: precondition satisfiable')
        rs = list(E.run(self.st, fn, args))
        return rs

    def check(self, s, what, variants, members=()):
        """variants: {pointer object: (tag, value)}; members: {pointer object: (class, value)}; nothing else is alive"""
        E = self.E
        okay = set()
        for o, (t, h) in variants.items():
            v = self.variant(s, Ptr(o, 0))
            if v is None:
                continue
            E.prove(s, And(v[0] == t, v[1] == h), what + ': the type and the value are as they should be')
            okay.add((o, self.u))
        for o, (c, h) in dict(members).items():
            v = self.value(s, Ptr(o, 0), c)
            if v is not None and h is not None:
                E.prove(s, v == h, what + ': the value given is as it should be')
            okay.add((o, 0))
        for k, c in s.ghost['live']:
            if k not in okay:
                E.fail(s, what + ': every temporary is destroyed and nothing is leaked (a %s is)' % NAMES[c])


# ------------------------------------------------------------------ construction
def t_new(E, fn):
    w = W(E)
    p = w.raw()
    if fn == 'v_none':
        args, exp, mem = [], (NONE, V(0, 64)), {}
    elif fn in ('v_int', 'v_long', 'v_longlong'):
        x = z3.BitVec('x', 32 if fn == 'v_int' else 64)
        E.inputs['x'] = x
        args, exp, mem = [x], ({'v_int': INT, 'v_long': LONG}.get(fn, LL), SignExt(32, x) if fn == 'v_int' else x), {}
    elif fn == 'v_chars':
        s = Ptr(E.new_cells(w.st, 8, 'chars'), 0)
        w.st.ghost['text'] = (((s.obj, 0), z3.BitVec('chars', 64)),)
        args, exp, mem = [s], (STR, z3.BitVec('chars', 64)), {}
    else:
        k = {'v_str': STR, 'v_sarr': SA, 'v_varr': VA, 'v_map': MAP}[fn]
        c = {STR: 'W'}.get(k, CL[k])
        m, h = w.member(c, 'given')
        args, exp, mem = [m], (k, h), {m.obj: (c, h)}
    for s, r in w.run(fn, [p] + args):
        w.check(s, 'construction', {p.obj: exp}, mem)


def t_newn(E, fn):
    """from a C array of n"""
    w = W(E)
    p = w.raw()
    n = z3.BitVec('n', 32)
    w.st.assume(ULT(n, V(1 << 28, 32)))
    E.inputs['n'] = n
    st = w.st
    keys, vals = E.new_arr(st, w.str, ZeroExt(32, n), 'keys'), E.new_arr(st, w.size, ZeroExt(32, n), 'values')
    w.given = {keys: (ZeroExt(32, n), KEYAT)}
    w.vgiven = {vals: ZeroExt(32, n)}
    if fn == 'v_mapn':
        w.opaque()
        st.assume(MAPN(V(0, 64)) == EMPTY['M'])
        st.foralls.append(Forall(lambda t: MAPN(bv(t, 64) + 1) == INS(MAPN(bv(t, 64)), KEYAT(bv(t, 64)), VTAG(bv(t, 64)), VPAY(bv(t, 64))), (0,), 'given', dom='k'))
        E.loop_inv = lambda E, st, view: [('built so far', lambda kk, vv, v=v: bv(vv[v.key], 64) == MAPN(bv(kk, 64))) for v in view.vars
                                          if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell' and v.key[1:] == (p.obj, w.u)]
        args, exp = [Ptr(keys, 0), Ptr(vals, 0), n], (MAP, MAPN(ZeroExt(32, n)))
    else:
        a = keys if fn == 'v_sarrn' else vals
        w.given = {a: (ZeroExt(32, n), KEYAT)}
        args, exp = [Ptr(a, 0), n], (SA if fn == 'v_sarrn' else VA, OF(V(a, 64), ZeroExt(32, n)))
    for s, r in w.run(fn, [p] + args):
        w.check(s, 'construction', {p.obj: exp})


def t_type(E):
    for t in range(-1, 10):
        w = W(E)
        p = w.raw()
        for s, r in w.run('v_type', [p, t & 0xffffffff]):
            k = t if NONE <= t <= MAP else NONE
            w.check(s, 'construction of a type', {p.obj: (k, EMPTY[CL[k]] if k >= STR else V(0, 64))})


def t_copy(E, k):
    w = W(E)
    q, h = w.make(k, 'a')
    p = w.raw()
    for s, r in w.run('v_copy', [p, q]):
        w.check(s, 'copying', {p.obj: (k, h), q.obj: (k, h)})


def t_assign(E, k, j):
    w = W(E)
    p, g = w.make(k, 'a')
    q, h = (p, g) if j is None else w.make(j, 'b')
    for s, r in w.run('v_assign', [p, q]):
        w.check(s, 'assignment', {p.obj: (k if j is None else j, h), q.obj: (k if j is None else j, h)})


def t_dtor(E, k):
    w = W(E)
    p, h = w.make(k, 'a')
    for s, r in w.run('v_dtor', [p]):
        w.check(s, 'destruction', {})


def t_query(E, k):
    w = W(E)
    p, h = w.make(k, 'a')
    for fn in ('v_tag', 'v_null', 'v_name'):
        w.st.ghost['live'] = w.st.ghost['live']
        for s, r in w.run(fn, [p]):
            w.check(s, fn[2:], {p.obj: (k, h)})
            if fn == 'v_tag':
                E.prove(s, bv(r, 32) == k, 'type() is the type')
            elif fn == 'v_null':
                E.prove(s, (z3.BoolVal(bool(r)) if isint(r) else r if z3.is_bool(r) else r != 0) == z3.BoolVal(k == NONE), 'is_null() exactly for None')
            else:
                E.prove(s, z3.BoolVal(E.cstring(s, r) == KN[k]), 'type_name() names the type')


# ------------------------------------------------------------------ conversion
def convert(k, t, h):
    """(can it be converted, the value) of a value h of type k as type t"""
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    if k == t:
        return T, h
    if t == NONE:
        return T, V(0, 64)
    if t in (INT, LONG, LL):
        if k in (INT, LONG, LL):
            return (h == SignExt(32, Extract(31, 0, h)) if t == INT else T), h
        if k == STR:
            return ERR(h) == 0, SignExt(32, NUM(h))
    if t == STR and k in (INT, LONG, LL):
        return T, DEC(h)
    return Fa, h


def t_const(E, t, k):
    """the const accessors: the value, if it is of that type"""
    w = W(E)
    w.may_abort = z3.BoolVal(k != t)
    p, h = w.make(k, 'a')
    fn = {INT: 'c_int', LONG: 'c_long', LL: 'c_longlong', STR: 'c_str', SA: 'c_sarr', VA: 'c_varr', MAP: 'c_map'}[t]
    c = {STR: 'W'}.get(t, CL.get(t))
    q = w.raw(w.sz[c], 'result') if t >= STR else None
    for s, r in w.run(fn, ([q] if q else []) + [p]):
        E.prove(s, z3.BoolVal(k == t), 'a value of another type is not given as one of this type')
        w.check(s, 'accessor', {p.obj: (k, h)}, {q.obj: (c, h)} if q else {})
        if t < STR:
            E.prove(s, (SignExt(32, bv(r, 32)) if t == INT else bv(r, 64)) == h, 'the accessor gives the value')


def t_as(E, t, k):
    """the accessors that convert"""
    w = W(E)
    p, h = w.make(k, 'a')
    ok, x = convert(k, t, h)
    w.may_abort = Not(ok)
    fn = {INT: 'm_int', LONG: 'm_long', LL: 'm_longlong', STR: 'm_str', SA: 'm_sarr', VA: 'm_varr', MAP: 'm_map'}[t]
    c = {STR: 'W'}.get(t, CL.get(t))
    q = w.raw(w.sz[c], 'result') if t >= STR else None
    for s, r in w.run(fn, ([q] if q else []) + [p]):
        E.prove(s, ok, 'a value that would be lost is not converted')
        w.check(s, 'conversion', {p.obj: (t, x)}, {q.obj: (c, x)} if q else {})
        if t < STR:
            ok2 = isinstance(r, Ptr) and r.obj == p.obj and r.idx == w.u
            E.prove(s, z3.BoolVal(ok2), 'the accessor refers to the value')


def t_coerce(E, k):
    for t in range(8):
        w = W(E)
        p, h = w.make(k, 'a')
        ok, x = convert(k, t, h)
        w.may_abort = Not(ok)
        for s, r in w.run('v_coerce', [p, t]):
            E.prove(s, ok, 'a value that would be lost is not converted')
            w.check(s, 'conversion', {p.obj: (t, x)})


def t_shift(E, fn, k, j):
    w = W(E)
    r = w.raw(w.varr, 'result')
    q, h = w.make(j, 'b')
    mem = {}
    if fn == 'v_shift':
        p, g = w.make(k, 'a')
        var = {p.obj: (k, g), q.obj: (j, h)}
    else:
        k = STR
        var = {q.obj: (j, h)}
        if fn == 'v_shifts':
            p, g = w.member('W', 'given')
            mem[p.obj] = ('W', g)
        else:
            p = Ptr(E.new_cells(w.st, 8, 'chars'), 0)
            g = z3.BitVec('chars', 64)
            w.st.ghost['text'] = (((p.obj, 0), g),)
    mem[r.obj] = ('V', APP(APP(EMPTY['V'], V(k, 32), g), V(j, 32), h))
    for s, x in w.run(fn, [r, p, q]):
        w.check(s, 'operator<<', var, mem)


def tasks(tier):
    ts = []

    def t(name, fn, *a):
        ts.append(Task(name, 'variant', (lambda fn, a: lambda E: fn(E, *a))(fn, a), timeout=120))
    for fn in ('v_none', 'v_int', 'v_long', 'v_longlong', 'v_str', 'v_chars', 'v_sarr', 'v_varr', 'v_map'):
        t('Variant construction: ' + fn[2:], t_new, fn)
    for fn in ('v_sarrn', 'v_varrn', 'v_mapn'):
        t('Variant construction: ' + fn[2:], t_newn, fn)
    t('Variant construction: of a type', t_type)
    for k in range(8):
        t('copy constructor: ' + KN[k], t_copy, k)
        t('destructor: ' + KN[k], t_dtor, k)
        t('type, is_null, type_name: ' + KN[k], t_query, k)
        t('coerce: ' + KN[k], t_coerce, k)
        t('assignment to itself: ' + KN[k], t_assign, k, None)
        for j in range(8):
            t('assignment: %s = %s' % (KN[k], KN[j]), t_assign, k, j)
            if j:
                t('const accessor: %s of %s' % (KN[j], KN[k]), t_const, j, k)
                t('accessor: %s of %s' % (KN[j], KN[k]), t_as, j, k)
        t('operator<<: String << %s' % KN[k], t_shift, 'v_shifts', None, k)
        t('operator<<: text << %s' % KN[k], t_shift, 'v_shiftc', None, k)
        t('operator<<: %s << %s' % (KN[k], KN[(k * 3 + 1) % 8]), t_shift, 'v_shift', k, (k * 3 + 1) % 8)
    return ts
