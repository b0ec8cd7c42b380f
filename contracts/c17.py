"""C17: as_json gives the JSON text of the value, in the layout asked for; the characters of a string are escaped as JSON requires.

Texts are sequences of literals and of abstract texts (the JSON of an element, the digits of a number, the escaped form of a string, a repeated
indent); concatenation is associative.  The JSON of the first k elements is a ghost function JP of the array or map, given by its recursion."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, SignExt, ZeroExt, Extract
from runner import Task
from sym import Ptr, bv, State, Forall, NULL, isint, isnull, boolv, simp, Unsupported, conc
import c19
import u8spec as U
from c19 import (W as W19, H, I32, DEC, EMPTY, NONE, INT, LONG, LL, STR, SA, VA, MAP, KN, CL)

REPLAY = 'c17.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp', 'src/variant.cpp']
ASSUMPTIONS = ['strings, arrays and maps are values (C09, C10, C12-C15, C18); concatenation, substr and shorter act on texts as documented',
               'StrBody::transform replaces every character by what its function yields (C13 verifies it for the case conversions)',
               'the layout is as_json\'s: -2, -1, or an indent from 0 to 2^28; fewer than 2^28 elements',
               'strings hold Unicode scalar values: the code asserts that a character is at most U+10FFFF',
               'the JSON of the elements is by induction: as_json is assumed of elements as it is proved']
TRUSTED = ['snprintf', 'std::map iteration visits each entry once, in key order']
CAT = z3.Function('cat', H, H, H)
REP = z3.Function('repeat', H, I32, H)
ESC = z3.Function('escaped', H, H)
JS = z3.Function('json', I32, H, I32, H)
LEN = z3.Function('length', H, H)
ELEM, KEY = z3.Function('string_at', H, H, H), z3.Function('key_at', H, H, H)
ETAG, EVAL = z3.Function('type_at', H, H, I32), z3.Function('value_at', H, H, H)
JP = z3.Function('json_of_first', H, H)


class W(W19):
    def __init__(self, E):
        self.seqs = {}
        W19.__init__(self, E)
        self.pairs = {}

    # ---------------------------------------------------------------- texts as sequences
    def seq(self, h):
        h = simp(h) if not isinstance(h, int) else V(h, 64)
        h = bv(h, 64)
        if h.eq(EMPTY['S']):
            return ()
        return self.seqs.get(h.get_id(), (h,))

    def lit(self, s):
        if s == '':
            return EMPTY['S']
        h = z3.BitVec('text "%s"' % s, 64)
        self.seqs[h.get_id()] = (s,)
        self.keep = getattr(self, 'keep', []) + [h]
        return h

    def txt(self, s):
        return self.lit(s)

    def mk(self, atoms):
        out = []
        for a in atoms:
            if isinstance(a, str) and out and isinstance(out[-1], str):
                out[-1] += a
            elif not (isinstance(a, str) and a == ''):
                out.append(a)
        if not out:
            return EMPTY['S']
        t = self.lit(out[-1]) if isinstance(out[-1], str) else out[-1]
        for a in reversed(out[:-1]):
            t = CAT(self.lit(a) if isinstance(a, str) else a, t)
        t = simp(t)
        self.seqs[t.get_id()] = tuple(out)
        self.keep = getattr(self, 'keep', []) + [t]
        return t

    def cat(self, *hs):
        return self.mk([a for h in hs for a in self.seq(h)])

    def rep(self, s, n):
        n = simp(bv(n, 32))
        if isint(n):
            return self.lit(s * n)
        return REP(self.lit(s), n)

    # ---------------------------------------------------------------- more of the members
    def handler(self, c, cl, base, name, args):
        W_, E = self, self.E
        sv = 'StrValI<unsigned int> const&'

        def result(st, a, h):
            return [(st, None)] if W_.born(st, a[0], 'W', h) else []
        if c == 'W':
            if name == 'operator+' and args in (sv, 'char const*'):
                def plus(E, st, a, d):
                    x = W_.value(st, a[1], 'W')
                    y = W_.value(st, a[2], 'W') if args == sv else W_.chars(st, a[2])
                    return result(st, a, W_.cat(x, y)) if x is not None and y is not None else []
                return plus
            if name in ('operator+=', 'append') and args == sv:
                def add(E, st, a, d):
                    x, y = W_.value(st, a[0], 'W'), W_.value(st, a[1], 'W')
                    if x is None or y is None:
                        return []
                    E.store(st, a[0], W_.cat(x, y), ('i', 64))
                    return [(st, a[0])]
                return add
            if name == 'operator*':
                def times(E, st, a, d):
                    x = W_.value(st, a[1], 'W')
                    if x is None:
                        return []
                    E.prove(st, bv(a[2], 32) >= 0, 'a text is repeated 0 or more times')
                    s = W_.seq(x)
                    if len(s) != 1 or not isinstance(s[0], str):
                        raise Unsupported('repeating an unknown text')
                    return result(st, a, W_.rep(s[0], a[2]))
                return times
            if name == 'substr':
                def substr(E, st, a, d):
                    x = W_.value(st, a[1], 'W')
                    if x is None:
                        return []
                    at, n = conc(a[2]), conc(a[3])
                    if not isint(at) or not isint(n) or n not in (0xffffffff, -1):
                        raise Unsupported('substr')
                    s = list(W_.seq(x))
                    if at == 0 or not s:
                        return result(st, a, x)
                    if not isinstance(s[0], str) or (len(s[0]) < at and len(s) > 1):
                        raise Unsupported('substr of an unknown text')
                    s[0] = s[0][at:]
                    return result(st, a, W_.mk(s))
                return substr
            if name == 'shorter':
                def shorter(E, st, a, d):
                    x = W_.value(st, a[1], 'W')
                    n = conc(a[2])
                    if x is None:
                        return []
                    if not isint(n):
                        raise Unsupported('shorter')
                    s = list(W_.seq(x))
                    if all(isinstance(q, str) for q in s):
                        t = ''.join(s)
                        if n == len(t) + 1:             # substr(0, -1): all of it
                            return result(st, a, x)
                        return result(st, a, W_.lit(t[:len(t) - n] if n <= len(t) else ''))
                    if isinstance(s[-1], str):
                        if len(s[-1]) < n:
                            raise Unsupported('shorter')
                        return result(st, a, W_.mk(s[:-1] + [s[-1][:len(s[-1]) - n]]))
                    if s[-1].decl().eq(REP):
                        u = W_.seq(s[-1].arg(0))[0]
                        if n % len(u) == 0:
                            E.prove(st, s[-1].arg(1) >= n // len(u), 'there are that many characters to leave out')
                            return result(st, a, W_.mk(s[:-1] + [W_.rep(u, s[-1].arg(1) - n // len(u))]))
                    raise Unsupported('shorter')
                return shorter
            if name == 'asJSON':
                def esc(E, st, a, d):
                    x = W_.value(st, a[1], 'W')
                    return result(st, a, ESC(x)) if x is not None else []
                return esc
        if name == 'length' and c in 'AV':
            def length(E, st, a, d):
                x = W_.value(st, a[0], c)
                if x is None:
                    return []
                st.assume(ULT(LEN(x), V(1 << 28, 64)))
                return [(st, simp(Extract(31, 0, LEN(x))))]
            return length
        if name == 'operator[]' and c == 'A':
            def sat(E, st, a, d):
                x = W_.value(st, a[1], c)
                if x is None:
                    return []
                i = SignExt(32, bv(a[2], 32))
                E.prove(st, ULT(i, LEN(x)), 'an element of the array')
                h = ELEM(x, i)
                return result(st, a, h)
            return sat
        if name == 'operator[]' and c == 'V':
            def vat(E, st, a, d):
                byval = len(a) == 3
                x = W_.value(st, a[1 if byval else 0], c)
                if x is None:
                    return []
                i = SignExt(32, bv(a[-1], 32))
                E.prove(st, ULT(i, LEN(x)), 'an element of the array')
                if byval:
                    return W_.vcopy(E, st, [a[0], Ptr(W_.pair(st, x, W_.size), simp(i))], d)
                return [(st, Ptr(W_.pair(st, x, W_.size), simp(i)))]
            return vat
        if c == 'M' and name in ('begin', 'end'):
            def it(E, st, a, d):
                x = W_.value(st, a[0], c)
                if x is None:
                    return []
                st.assume(ULT(LEN(x), V(1 << 28, 64)))
                return [(st, Ptr(W_.pair(st, x, W_.str + W_.size), 0 if name == 'begin' else simp(LEN(x))))]
            return it
        return W19.handler(self, c, cl, base, name, args)

    def pair(self, st, x, esz):
        """the elements of an array or the entries of a map, in order"""
        for o, h in self.pairs.items():
            if h.eq(x):
                return o
        raise Unsupported('the elements of another container')

    def value(self, st, p, c, what='used'):
        if isinstance(p, Ptr) and p.obj in self.pairs:
            x = self.pairs[p.obj]
            self.E.prove(st, And(ULT(bv(p.idx, 64), LEN(x)), z3.BoolVal(p.sub == 0)), 'an entry of the map')
            return KEY(x, bv(p.idx, 64))
        return W19.value(self, st, p, c, what)

    def variant(self, st, p):
        if isinstance(p, Ptr) and p.obj in self.pairs:
            x = self.pairs[p.obj]
            i = bv(p.idx, 64)
            self.E.prove(st, And(ULT(i, LEN(x)), z3.BoolVal(p.sub == (0 if self.E_esz[p.obj] == self.size else self.str))), 'an element of the container')
            return ETAG(x, i), EVAL(x, i)
        return W19.variant(self, st, p)

    def install(self):
        W19.install(self)
        E = self.E

        def json(E, st, a, d):
            if E.depth == 0 or (E.depth == 1 and not st.ghost.get('in')):
                st.ghost['in'] = 1
                return NotImplemented
            v = self.variant(st, a[1])
            if v is None:
                return []
            n = bv(a[2], 32)
            E.prove(st, n >= -2, 'the layout of an element is -2, -1 or an indent')
            if z3.is_bv_value(v[0]) and v[0].as_long() < STR or z3.is_bv_value(v[0]) and v[0].as_long() == STR:
                n = V(-1, 32)           # numbers and strings have one layout
            return [(st, None)] if self.born(st, a[0], 'W', JS(v[0], v[1], n)) else []
        it = 'std::_Rb_tree_const_iterator<std::pair<StrValI<unsigned int> const, Variant> >::'
        for m, d in E.mod.dem.items():
            if d == 'Variant::as_json(int) const':
                E.contracts[m] = json
            elif d in (it + 'operator*() const', it + 'operator->() const'):
                E.contracts[m] = lambda E, st, a, d: [(st, E.load(st, a[0], ('ptr',)))]
            elif d == it + 'operator++(int)' or d == it + 'operator++()':
                def inc(E, st, a, d):
                    p = E.load(st, a[0], ('ptr',))
                    E.prove(st, ULT(bv(p.idx, 64), LEN(self.pairs[p.obj])), 'an iterator moves to the next entry only')
                    E.store(st, a[0], Ptr(p.obj, simp(bv(p.idx, 64) + 1)), ('ptr',))
                    return [(st, p if '(int)' in d else a[0])]
                E.contracts[m] = inc
            elif d.startswith('std::_Rb_tree_const_iterator<std::pair<StrValI<unsigned int> const, Variant> >::operator--'):
                E.contracts[m] = lambda E, st, a, d: self.unsupported()

    def unsupported(self):
        raise Unsupported('moving an iterator back')


def layout(w, mode, n):
    """(separator, what follows the opening bracket, what precedes the closing one, colon, layout of the elements)"""
    if mode == 'tight':
        return w.lit(','), EMPTY['S'], EMPTY['S'], w.lit(':'), V(-2, 32)
    if mode == 'compact':
        return w.lit(', '), w.lit(' '), w.lit(' '), w.lit(': '), V(-1, 32)
    i1 = w.rep('  ', n + 1)
    return w.cat(w.lit(',\n'), i1), w.cat(w.lit('\n'), i1), w.cat(w.lit('\n'), w.rep('  ', n)), w.lit(': '), n + 1


def t_json(E, k, mode):
    w = W(E)
    st = w.st
    w.opaque()
    p, h = w.make(k, 'a')
    r = w.raw(w.str, 'result')
    n = z3.BitVec('indent', 32)
    st.assume({'tight': n == -2, 'compact': n == -1}.get(mode, And(n >= 0, n < (1 << 28))))
    E.inputs['indent'] = n
    sep, op, cl, colon, nn = layout(w, mode, n)
    if k in (SA, VA, MAP):
        L = LEN(h)
        E.inputs['length'] = L
        st.assume(ULT(L, V(1 << 28, 64)))
        if k != SA:
            esz = w.size if k == VA else w.size + w.str
            o = E.new_arr(st, esz, L, 'elements')
            w.pairs[o] = h
            w.E_esz = {o: esz}
        b = '{' if k == MAP else '['
        st.assume(JP(V(0, 64)) == w.cat(w.lit(b), op))

        def elem(t):
            if k == SA:
                return w.mk([JS(V(STR, 32), ELEM(h, t), V(-1, 32))])
            e = JS(ETAG(h, t), EVAL(h, t), nn)
            return w.mk([e]) if k == VA else w.cat(JS(V(STR, 32), KEY(h, t), V(-1, 32)), colon, e)
        step = lambda t: JP(t + 1) == If(t == 0, w.cat(JP(t), elem(t)), w.cat(JP(t), sep, elem(t)))
        st.foralls.append(Forall(lambda t: step(bv(t, 64)), (0,), 'given', dom='k'))
        orig = w.value
        E.loop_inv = lambda E, st, view: [('built so far', lambda kk, vv, v=v: bv(vv[v.key], 64) == JP(bv(kk, 64))) for v in view.vars
                                          if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell']
        exp = w.cat(JP(L), cl, w.lit('}' if k == MAP else ']'))
    elif k == STR:
        exp = w.cat(w.lit('"'), ESC(h), w.lit('"'))
    elif k == NONE:
        exp = w.lit('null')
    else:
        exp = DEC(h)
    for s, x in w.run('v_json', [r, p, n]):
        w.check(s, 'as_json', {p.obj: (k, h)}, {r.obj: ('W', exp)})


# ------------------------------------------------------------------ the escape of one character
def escape(ch):
    """[(condition, bytes)]: the JSON of a character; short escapes, other controls as \\u00XX, the rest of the BMP as it is, others as a surrogate pair"""
    short = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
    hexd = lambda x: If(ULT(x, V(10, 8)), x + 48, x + 55)
    out = [(ch == ord(c), [V(ord(x), 8) for x in t]) for c, t in short.items()]
    isshort = Or([c for c, _ in out])

    def u4(u):
        return [V(92, 8), V(ord('u'), 8)] + [hexd(ZeroExt(4, Extract(4 * k + 3, 4 * k, u))) for k in (3, 2, 1, 0)]
    out.append((And(Not(isshort), ULT(ch, V(32, 32))), u4(ch)))
    for n, lo, hi in ((1, 32, 0x80), (2, 0x80, 0x800), (3, 0x800, 0x10000)):
        out.append((And(Not(isshort), Not(ULT(ch, V(lo, 32))), ULT(ch, V(hi, 32))), [U.encbyte(ch, n, k) for k in range(n)]))
    c = ch - 0x10000
    out.append((Not(ULT(ch, V(0x10000, 32))), u4(V(0xD800, 32) + z3.LShR(c, V(10, 32))) + u4(V(0xDC00, 32) + (c & 0x3FF))))
    return out


def t_escape(E):
    E.auto_unroll = 20
    st = State()
    lay = {}
    for k in ('body', 'offset', 'numchars', 'start', 'elements', 'str'):
        lay[k] = [x for _, x in E.run(State(), 'L_' + k, [])][0]
    (st, b), = list(E.run(st, 'j_body', []))
    ch = z3.BitVec('ch', 32)
    E.inputs = {'ch': ch}
    st.assume(And(ULE(ch, V(0x10FFFF, 32)), Or(ULT(ch, V(0xD800, 32)), UGT(ch, V(0xDFFF, 32)))))
    arr = z3.Array('text', H, z3.BitVecSort(8))
    t = E.new_arr(st, 1, V(16, 64), 'text', base=arr)
    n = U.enclen(ch)
    for k in range(4):
        byte = U.encbyte(ch, 4, k)
        for m in (3, 2, 1):
            byte = If(n == m, U.encbyte(ch, m, k) if k < m else z3.Select(arr, V(k, 64)), byte)
        st.assume(z3.Select(arr, V(k, 64)) == byte)
    done = []
    op = [m for m, d in E.mod.dem.items() if d == 'std::function<StrValI<unsigned int> (char const*&, char const*)>::operator()(char const*&, char const*) const']
    if len(op) != 1:
        raise Unsupported('transform is called some other way')

    def transform(E, st, a, d):
        cp = Ptr(E.new_cells(st, 8, 'cp'), 0)
        E.store(st, cp, Ptr(t, 0), ('ptr',))
        r = Ptr(E.new_cells(st, lay['str'], 'replacement'), 0)
        out = []
        for s, x in E.call_fn(st, op[0], [r, a[1], cp, Ptr(t, 16)]):
            if s.dead:
                continue
            q = E.load(s, cp, ('ptr',))
            E.prove(s, z3.BoolVal(isinstance(q, Ptr) and q.obj == t) if not isinstance(q, Ptr) or q.obj != t else bv(q.idx, 64) == ZeroExt(32, n), 'one character is replaced')
            v = E.load(s, Ptr(r.obj, lay['body']), ('ptr',))
            if isnull(v):
                E.fail(s, 'a character has an escaped form')
                continue
            p = E.load(s, Ptr(v.obj, v.idx + lay['start']), ('ptr',))
            ne = bv(E.load(s, Ptr(v.obj, v.idx + lay['elements']), ('i', 32)), 32)
            nc = bv(E.load(s, Ptr(r.obj, lay['numchars']), ('i', 32)), 32)
            E.prove(s, bv(E.load(s, Ptr(r.obj, lay['offset']), ('i', 32)), 32) == 0, 'the escaped form is all of its body')
            for cond, bs in escape(ch):
                if not E.feasible(s, cond):
                    continue
                c = s.fork()
                c.assume(cond)
                E.prove(c, ne == len(bs) + 1, 'the escaped form has the right length')
                E.prove(c, nc == (len(bs) if z3.is_bv_value(simp2(bs[0])) else 1), 'the characters of the escaped form are counted')
                for k, x in enumerate(bs):
                    E.prove(c, bv(E.load(c, E.ptr_add(c, p, k, 1), ('i', 8)), 8) == x, 'the escaped form is as JSON requires')
            done.append(1)
            out.append((s, None))
        return out
    for m, d in E.mod.dem.items():
        if d.startswith('StrBodyI<unsigned int>::transform('):
            E.contracts[m] = transform
    E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
    for s, x in E.run(st, 'j_json', [b]):
        pass
    if not done:
        raise Unsupported('no character was transformed')


def simp2(x):
    return z3.simplify(x)


def tasks(tier):
    ts = []
    for k in range(8):
        for mode in ('tight', 'compact', 'indented'):
            ts.append(Task('as_json: %s, %s' % (KN[k], mode), 'variant', (lambda k, m: lambda E: t_json(E, k, m))(k, mode), timeout=120))
    ts.append(Task('toJSON: the escape of a character', 'variant', t_escape, timeout=300))
    return ts
