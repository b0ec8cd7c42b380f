"""Contracts of StrVal's public operations (C12..C15) and the proofs of the contracts they use."""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from sym import boolv, Ptr, bv, State, Forall, NULL, isint, isnull, simp
import u8spec as U
import c03
import strv
from strv import arr, World, Contracts, Text, Val, EMPTY, Empty, One, Cat, Sub, sub, lo32, z64, b1, char_val, setup, S64

ASSUMPTIONS = ['operator new does not fail', 'texts are well formed (complete 1 to 6 byte encodings, none of them of the reserved values 0x800000xx and 0xFFFFFFFF) and shorter than 2^26 bytes',
               'bodies hold UTF-8 (not StrRawBinary) and StrVal<32-bit index>', 'fewer than 2^28 users of a body',
               'one byte after borrowed text is readable (StrBody counts it), and an empty borrowed text is NUL-terminated']
TRUSTED = ['__assert_fail does not return']
NONE32 = V(0xFFFFFFFF, 32)


def hint(t, n, inp):
    """concrete states around a counterexample, for replay/c12.cpp"""
    g = lambda k, d=0: inp.get(k) if isinstance(inp.get(k), int) else d
    tags = sorted(k[2:] for k in inp if k.startswith('n_'))
    ta = tags[0] if tags else 'a'
    tb = tags[1] if len(tags) > 1 else ta
    out = []
    for cap in (5, 13):
        la = min(g('n_' + ta), cap)
        off = min(g('off_' + ta), 6)
        rc = max([g(k, 1) for k in inp if k.startswith('rc_')] or [1])
        p = g('pos', g('at', g('i', g('k'))))
        q = g('len', g('times'))
        for tail in (0, 2):
            out.append('%d %d %d %d %d %d %u %u %d' % (la, off, la + off + tail, int(rc > 1), int(inp.get('kind_' + ta) == 'static'), min(g('n_' + tb), cap), p % 64, q % 64, g('ch') % 14))
    return out


# ------------------------------------------------------------------ proofs of the shared contracts
def lemma_tasks(Task):
    def forward(E):
        """on a well-formed text the decoder's contract is the one used here"""
        st = State()
        for L in range(1, 7):
            bs = [z3.BitVec('b%d' % k, 8) for k in range(6)]
            wf = And([U.leadlen(bs[0]) == L] + [Not(U.is1st(b)) for b in bs[1:L]])
            s = st.fork()
            s.assume(wf)
            E.prove(s, z3.BoolVal(E.feasible(s)), 'vacuity: a character of %d bytes' % L)
            E.prove(s, U.declen(bs) == L, 'lemma: decoding consumes exactly the character (%d bytes), whatever follows' % L)
            if L < 6:
                E.prove(s, Not(U.illegal(U.decval(bs))), 'lemma: a complete character of %d bytes is not a reserved value' % L)
            ch = z3.BitVec('ch', 32)
            s2 = st.fork()
            s2.assume(And(Not(U.illegal(ch)), U.enclen(ch) == L))
            es = [U.encbyte(ch, L, k) if k < L else z3.BitVec('x%d' % k, 8) for k in range(6)]
            E.prove(s2, And([U.leadlen(es[0]) == L] + [Not(U.is1st(b)) for b in es[1:L]]), 'lemma: an encoded character is a complete character (%d bytes)' % L)
            E.prove(s2, U.decval(es) == ch, 'lemma: and decodes to itself (%d bytes)' % L)

    def backward(E):
        st = State()
        for L in range(1, 7):
            bs = {k: z3.BitVec('b_%d' % k, 8) for k in range(-6, 6)}
            lim = z3.BitVec('lim', 64)
            s = st.fork()
            s.assume(And([U.leadlen(bs[-L]) == L] + [Not(U.is1st(bs[-k])) for k in range(1, L)] + [UGE(lim, L)]))
            E.prove(s, c03.spec_back(lambda k: bs[k], lim) == L, 'lemma: backing up from the end of a character reaches its start (%d bytes)' % L)
        # every encoded form ends before the next character: sections and concatenations of texts are texts
    def counts(E):
        """two sections with the same bytes have the same characters: by induction, the k-th character starts at the same byte"""
        for L in range(1, 7):
            st = State()
            a, b = z3.BitVec('first_a', 8), z3.BitVec('first_b', 8)
            pa, pb = z3.BitVec('pa', 64), z3.BitVec('pb', 64)
            st.assume(And(pa == pb, a == b, U.leadlen(a) == L))
            E.prove(st, pa + z3.ZeroExt(0, V(L, 64)) == pb + If(U.leadlen(b) == L, V(L, 64), V(0, 64)), 'lemma: texts with the same bytes so far have the next character at the same byte (%d bytes)' % L)
        st = State()
        w = State()
        A, B = Text(st, 'A'), Text(st, 'B')
        st.assume(A.m == B.m)
        # P_A(k) == P_B(k) up to the smaller count (the induction above); the shorter one ends there
        for X, Y in ((A, B), (B, A)):
            s = st.fork()
            s.assume(ULE(X.NC, Y.NC))
            s.assume(bv(X.P(s, X.NC), 64) == bv(Y.P(s, X.NC), 64))
            Y.P(s, Y.NC)
            s.assume(Y.facts1(bv(X.NC, 64)))
            E.prove(s, X.NC == Y.NC, 'lemma: texts with the same bytes have the same number of characters')
        # characters t.. of A start with the bytes of B: by the same induction P_A(t+j) == P_A(t) + P_B(j) while both go on; so A has B's characters there
        t, j = z3.ZeroExt(38, z3.BitVec('t', 26)), None
        s = w
        A, B = Text(s, 'A'), Text(s, 'B')
        s.assume(And(ULE(t, A.NC), ULT(A.NC, t + B.NC)))
        j = simp(A.NC - t)
        s.assume(bv(A.P(s, A.NC), 64) == bv(A.P(s, t), 64) + bv(B.P(s, j), 64))
        B.P(s, B.NC)
        s.assume(B.facts1(j))
        E.prove(s, Not(ULE(B.m, A.m - bv(A.P(s, t), 64))), 'lemma: a text that starts with the bytes of another has its characters')
    return [Task('lemma: the same bytes are the same characters', 'str', counts), Task('lemma: decoding a text forwards', 'str', forward), Task('lemma: decoding a text backwards', 'str', backward)]


def text_hook(w, T, oid, extra=None):
    """candidates: a pointer into the text is at the (i0 + k)-th or (i0 - k)-th character after k iterations"""
    def hook(E, st, view):
        out = []
        for v in view.vars:
            if v.kind == 'ptr' and v.obj == oid:
                i0 = bv(T.I(st, view.init[v.key]), 64)
                for sg in (1, -1):
                    ix = lambda t, sg=sg, i0=i0: i0 + bv(t, 64) if sg > 0 else i0 - bv(t, 64)
                    st.foralls.append(Forall(lambda t, ix=ix: And([T.facts1(ix(t))] + [T.facts2(ix(t), x) for x in st.ghost.get(('men', T.name), ())]), (0,), 'text', dom='k'))
                    out.append(('%s at character i0%sk' % (v.name, '+' if sg > 0 else '-'),
                                lambda kk, vv, v=v, ix=ix: And(bv(vv[v.key], 64) == T.Pf(ix(kk)), ULE(ix(kk), T.NC), ULE(bv(kk, 64), T.NC))))
                out.append(('%s stays' % v.name, lambda kk, vv, v=v: bv(vv[v.key], 64) == bv(view.init[v.key], 64)))
            elif v.kind == 'int' and v.w == 32:
                out.append(('count %s' % v.name, lambda kk, vv, v=v: ULE(bv(vv[v.key], 32), lo32(T.NC))))
        return out + (extra(E, st, view) if extra else [])
    return hook


def contract_tasks(Task):
    ts = []

    def body(kind):
        def numc(E):
            setup(E)
            w = World(E, nulls=False)
            b = w.new_body('a', kind)
            Contracts(w).install(chars=False)
            E.loop_inv = text_hook(w, b.text, b.data)
            st0 = w.st.fork()
            n = 0
            E.inputs['op'] = 'numChars'
            for s, r in E.run(w.st, 's_bnumChars', [Ptr(b.oid, 0)]):
                n += 1
                E.prove(s, z64(r) == b.text.NC, 'numChars: the number of characters')
                framed(E, w, s, b, 'numChars')
                E.prove(s, z64(bv(s.objs[b.oid].cells[w.L.chars][1], 32)) == b.text.NC, 'numChars: the count is remembered')
            E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: numChars returns')

        def nth(E):
            setup(E)
            w = World(E, nulls=False)
            b = w.new_body('a', kind)
            c = Contracts(w)
            c.install(chars=False)
            for k in [k for k, v in E.mod.dem.items() if v == c.NUM]:
                E.contracts[k] = c.num
            T, st = b.text, w.st
            E.loop_inv = text_hook(w, T, b.data)
            k = z3.BitVec('k', 32)
            mc, mb = z3.BitVec('mc', 32), z3.BitVec('mb', 32)
            st.assume(ULE(z64(k), T.NC))
            st.assume(And(w.mark_ok(st, T, mc, mb)))
            m = E.new_cells(st, 8, 'mark')
            E._cell_store(st.w(m), 0, 4, mc)
            E._cell_store(st.w(m), 4, 4, mb)
            T.P(st, z64(k))
            n = 0
            E.inputs.update(op='nthChar', k=k, mc=mc, n=T.NC, m=T.m)
            E.prove(st, z3.BoolVal(E.feasible(st)), 'vacuity: precondition satisfiable')
            for s, r in E.run(st, 's_bnthChar', [Ptr(b.oid, 0), k, Ptr(m, 0)]):
                n += 1
                if not isinstance(r, Ptr) or r.obj != b.data:
                    E.fail(s, 'nthChar: the result is in the text')
                    continue
                E.prove(s, bv(r.idx, 64) == T.P(s, z64(k)), 'nthChar: the start of the k-th character, whatever the bookmark')
                framed(E, w, s, b, 'nthChar')
                f = bv(s.objs[b.oid].cells[w.L.chars][1], 32)
                E.prove(s, Or(f == b.c0, z64(f) == T.NC), 'nthChar: the cached count stays right')
                c1, b1_ = [bv(s.objs[m].cells[q][1], 32) for q in (0, 4)]
                E.prove(s, Or(And(c1 == mc, b1_ == mb), And(c1 == k, z64(b1_) == T.P(s, z64(k)))), 'nthChar: the bookmark stays, or marks the character found')
            E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: nthChar returns')
        return numc, nth

    def framed(E, w, s, b, what):
        L = w.L
        o = s.objs[b.oid]
        E.prove(s, And(z3.BoolVal(bool(o.alive)), bv(o.cells[L.ref][1], 32) == b.rc, bv(o.cells[L.bnum][1], 32) == b.bnum, bv(o.cells[L.alloc][1], 32) == b.al,
                       z3.BoolVal(o.cells[L.start][1].obj == b.data)), what + ': nothing else changes')
        d = s.objs[b.data]
        E.prove(s, z3.BoolVal(bool(d.alive) and d.log == () and d.base is b.base), what + ': the text is unchanged')
    for kind in ('heap', 'static'):
        numc, nth = body(kind)
        ts.append(Task('StrBody::numChars (%s)' % kind, 'str', numc))
        ts.append(Task('StrBody::nthChar (%s)' % kind, 'str', nth, timeout=300))

    def t(nm, m, kind):
        def fn(E):
            setup(E)
            w = arr.World(E)
            getattr(arr.BodyContracts(w), m)(kind)
        ts.append(Task('ArrayBody<char> %s (%s)' % (nm, kind), 'str', fn, timeout=300))
    for k in ('copy', 'null', 'borrow'):
        t('constructor', 'prove_ctor', k)
    for k in ('heap data', 'heap null', 'nobuf data', 'nobuf null'):
        t('insert', 'prove_insert', k)
    return ts


# ------------------------------------------------------------------ the operations
SC = ('heap', 'static', 'null')
PARTS = ('heap-whole', 'heap-part', 'static-whole', 'static-part', 'null')
CPAIRS = tuple('%s %s' % (a, b) for a in PARTS for b in (('heap', 'static', 'null', 'same', 'self') if a != 'null' else ('heap', 'static', 'null', 'self')))
PAIRS = ('heap heap', 'heap static', 'static heap', 'static static', 'heap null', 'null heap', 'null static', 'static null', 'null null', 'heap same', 'heap self', 'static same', 'static self', 'null self')


class Ops:
    """group -> [(name, scenario, fn(E, w, scenario), kw)]; aspects: value (C12, C13, C15), own (C14)"""

    def __init__(self, aspect, tier='thorough'):
        self.aspect, self.tier = aspect, tier
        self.seq, self.own = aspect == 'value', aspect == 'own'
        self.ops = []
        self.build()

    def op(self, group, name, scens, fn, **kw):
        for sc in scens:
            self.ops.append((group, name, sc, fn, kw))

    def tasks(self, Task, groups):
        out = []
        for g, name, sc, fn, kw in self.ops:
            if g in groups:
                out.append(Task('%s (%s)' % (name, sc), 'str', (lambda fn, name, sc: lambda E: self.run(E, name, sc, fn))(fn, name, sc), **kw))
        return out

    def run(self, E, name, sc, fn):
        setup(E)
        w = World(E)
        c = Contracts(w)
        c.merge = not self.own
        c.install(verifying={'Unshare': Contracts.UNSH, 'insert': Contracts.INS, 'data': Contracts.DATA, 'data3': Contracts.DATA, 'copyBody': Contracts.COPY, 'nthChar': Contracts.NTHN, 'nthChar const': Contracts.NTHC, 'index': Contracts.IDX, 'index beyond': Contracts.IDX, 'compare': Contracts.CMP}.get(name))
        E.inputs['op'] = name
        if not self.own:
            w.isolation = w.refs = lambda *a: None
        else:
            sv = w.same_value
            w.same_value = lambda s, ptr, val, what: sv(s, ptr, val, what) if 'operand' in what else None
            w.wf = lambda *a: None
        E.loop_inv = find_hook(w)
        E.no_try = 'find' in name
        fn(E, w, sc)

    def two(self, w, sc):
        ka, kb = sc.split()
        a = w.scen(ka)
        if kb == 'self':
            return a, a
        if kb == 'same':
            return a, w.slice('b', a.body)
        return a, w.scen(kb, 'b')

    # generic shapes
    def value(self, group, name, args, want, pre=None, scens=SC, mutable=False):
        def f(E, w, sc):
            a = w.scen(sc)
            ar, env = args(E, w, a)
            if pre:
                w.st.assume(pre(a, env))
                if not E.feasible(w.st):
                    return

            def chk(s, r):
                if self.seq:
                    want(E, w, s, a, env, r, name)
                w.same_value(s, a.ptr, a.val, 'operand of ' + name)
                if mutable:
                    w.wf(s, a.ptr, name)
            w.call('s_' + name, [a.ptr] + ar, [a.ptr], chk, name)
        self.op(group, name, scens, f)

    def value2(self, group, name, args, want, pre=None, pairs=PAIRS, prep=None, **kw):
        def f(E, w, sc):
            a, b = self.two(w, sc)
            ar, env = args(E, w, a)
            if pre:
                w.st.assume(pre(a, b, env))
                if not E.feasible(w.st):
                    return
            if prep and self.seq:
                prep(E, w, a, b)

            def chk(s, r):
                if self.seq:
                    want(E, w, s, a, b, env, r, name)
                w.same_value(s, a.ptr, a.val, 'operand of ' + name)
                if b is not a:
                    w.same_value(s, b.ptr, b.val, 'second operand of ' + name)
            w.call('s_' + name, [a.ptr, b.ptr] + ar, [a.ptr] + ([b.ptr] if b is not a else []), chk, name)
        self.op(group, name, pairs, f, **kw)

    def ctor(self, group, name, args, want, fn=None):
        def f(E, w, sc):
            r = w.result()
            for ar, env in args(E, w):
                def chk(s, _):
                    v = want(s, env)
                    w.same_value(s, r, v, name)
                    w.wf(s, r, name)
                w.call(fn or 's_' + name, [r] + ar, [r], chk, name)
        self.op(group, name, ('-',), f)

    def result(self, group, name, args, want, pre=None, scens=SC, binary=False, owned=False):
        def f(E, w, sc):
            a, b = self.two(w, sc) if binary else (w.scen(sc), None)
            r = w.result()
            ar, env = args(E, w, a) if not binary else ([b.ptr], b)
            if pre:
                w.st.assume(pre(a, env))
                if not E.feasible(w.st):
                    return

            def chk(s, _):
                w.same_value(s, r, want(s, a, env), name)
                w.wf(s, r, name)
                x = w.data_of(s, r, name) if owned else None
                if x is not None and not s.objs[x[1].obj].heap:
                    E.prove(s, x[4] == 0, 'a copy of a string over borrowed text has its own text')
                w.same_value(s, a.ptr, a.val, 'operand of ' + name)
                if b is not None and b is not a:
                    w.same_value(s, b.ptr, b.val, 'second operand of ' + name)
            w.call('s_' + name, [r, a.ptr] + ar, [a.ptr, r] + ([b.ptr] if b is not None and b is not a else []), chk, name)
        self.op(group, name, PAIRS if binary else scens, f)

    def mutate(self, group, name, args, want, pre=None, scens=SC, binary=False, extra=None, pairs=PAIRS, **kw):
        def f(E, w, sc):
            b = None
            if binary:
                a, b = self.two(w, sc)
                ar, env = args(E, w, a, b)
            else:
                a = w.scen(sc)
                ar, env = args(E, w, a)
            if pre:
                w.st.assume(pre(a, env))
                if not E.feasible(w.st):
                    return

            def chk(s, r):
                w.same_value(s, a.ptr, want(s, a, env), name)
                w.wf(s, a.ptr, name)
                if b is not None and b is not a:
                    w.same_value(s, b.ptr, b.val, 'other operand of ' + name)
                if extra:
                    extra(s, w, a, b, env)
            w.call('s_' + name, [a.ptr] + ar, [a.ptr] + ([b.ptr] if b is not None and b is not a else []), chk, name)
        self.op(group, name, pairs if binary else scens, f, **kw)

    def build(self):
        i32 = lambda nm: z3.BitVec(nm, 32)
        none = lambda E, w, a=None: ([], None)

        def ints(*names):
            def g(E, w, a):
                vs = [i32(n) for n in names]
                for n, v in zip(names, vs):
                    E.inputs[n] = v
                return vs, vs
            return g
        n_of = lambda a: bv(a.n, 32)
        # ---- C12: observers
        O = 'observe'
        self.value(O, 'length', none, lambda E, w, s, a, e, r, nm: E.prove(s, z64(r) == a.N, nm))
        self.value(O, 'empty', none, lambda E, w, s, a, e, r, nm: E.prove(s, b1(r) == (a.N == 0), nm))
        self.value(O, 'bool', none, lambda E, w, s, a, e, r, nm: E.prove(s, b1(r) == (a.N != 0), nm))
        self.value(O, 'numBytes', none, lambda E, w, s, a, e, r, nm: E.prove(s, z64(r) == a.val.M, nm + ': the bytes of the characters'))

        def index(E, w, s, a, e, r, nm):
            i = z64(e[0])
            E.prove(s, bv(r, 32) == If(i == a.N, V(0, 32), bv(a.val.tx.CH(s, i), 32)), nm + ': the character there, NUL at the end')
        self.value(O, 'index', ints('i'), index, pre=lambda a, e: ULE(e[0], n_of(a)))

        def noindex(E, w, s, a, e, r, nm):
            E.prove(s, bv(r, 32) == NONE32, nm + ': no character beyond the end')

        def beyond(E, w, sc):
            a = w.scen(sc)
            i = i32('i')
            E.inputs['i'] = i
            w.st.assume(UGT(i, n_of(a)))
            w.call('s_index', [a.ptr, i], [a.ptr], lambda s, r: self.seq and noindex(E, w, s, a, [i], r, 'index'), 'index')
        self.op(O, 'index beyond', SC, beyond)

        def bytes_at(E, w, s, a, r, nm, term):
            if not isinstance(r, Ptr) or r.obj == 0 or not s.objs[r.obj].alive:
                E.fail(s, nm + ': points at the text')
                return
            d = s.objs[r.obj]
            q = E.fresh('q', 64)
            s1 = s.fork()
            s1.assume(ULT(q, a.val.M))
            x = simp(bv(r.idx, 64) + q)
            E.prove(s, ULE(bv(r.idx, 64) + a.val.M, bv(d.len, 64)), nm + ': the bytes are readable')
            if E.feasible(s1):
                E.prove(s1, bv(E.arr_read(d, x), 8) == bv(a.val.at(q), 8), nm + ': the bytes of the value', terms=[x, q])
            if term:
                e = simp(bv(r.idx, 64) + a.val.M)
                E.prove(s, And(ULT(e, bv(d.len, 64)), bv(E.arr_read(d, e), 8) == 0), nm + ': NUL-terminated', terms=[e])
        self.value(O, 'utf8', none, lambda E, w, s, a, e, r, nm: bytes_at(E, w, s, a, r, nm, True), mutable=True)

        def outn(E, w, a):
            o = E.new_cells(w.st, 4, 'bytes')
            return [Ptr(o, 0)], o

        def utf8n(E, w, s, a, e, r, nm):
            bytes_at(E, w, s, a, r, nm, False)
            E.prove(s, z64(E.load(s, Ptr(e, 0), ('i', 32))) == a.val.M, nm + ': the number of bytes')
        self.value(O, 'utf8n', outn, utf8n)

        # ---- the contracts of StrVal's own building blocks
        B = 'blocks'

        def sole(s, w, ptr, nm, unless=None):
            b, _, _ = w.view(s, ptr)
            o = s.objs.get(b.obj) if isinstance(b, Ptr) else None
            if o is None or not o.alive:
                return
            x = o.cells[w.L.start][1]
            ok = And(bv(o.cells[w.L.ref][1], 32) == 1, z3.BoolVal(not isnull(x) and bool(s.objs[x.obj].heap)))
            w.E.prove(s, ok if unless is None else Or(unless, ok), nm + ': a body of its own')
        self.sole = sole

        def copybody(E, w, sc):
            a = w.scen(sc)

            def chk(s, r):
                w.same_value(s, a.ptr, a.val, 'copyBody')
                w.wf(s, a.ptr, 'copyBody')
                sole(s, w, a.ptr, 'copyBody')
            w.call('s_copyBody', [a.ptr], [a.ptr], chk, 'copyBody')
        self.op(B, 'copyBody', PARTS, copybody)

        def unshare(E, w, sc):
            a = w.scen(sc)

            def chk(s, r):
                w.same_value(s, a.ptr, a.val, 'Unshare')
                w.wf(s, a.ptr, 'Unshare')
                sole(s, w, a.ptr, 'Unshare')
                x = w.data_of(s, a.ptr, 'Unshare')
                if x is not None:
                    b, start, T, off, n = x
                    E.prove(s, And(bv(off, 32) == 0, z64(n) == bv(T.NC, 64)), 'Unshare: all of its text')
                    if b.obj == a.body.oid:
                        E.prove(s, z3.BoolVal(start.obj == a.body.data and s.objs[start.obj].log == ()), 'Unshare: the text is unchanged')
            w.call('s_unshare', [a.ptr], [a.ptr], chk, 'Unshare')
        self.op(B, 'Unshare', PARTS, unshare)

        def nthop(nm, fn, mut):
            def f(E, w, sc):
                a = w.scen(sc)
                k = i32('k')
                E.inputs['k'] = k
                T = a.body.text

                def chk(s, r):
                    for inside in (True, False):
                        s2 = s.fork()
                        s2.assume(ULE(k, n_of(a)) if inside else UGT(k, n_of(a)))
                        if not E.feasible(s2):
                            continue
                        if inside:
                            if not isinstance(r, Ptr) or r.obj != a.body.data:
                                E.fail(s2, nm + ': the result is in the text')
                                continue
                            E.prove(s2, bv(r.idx, 64) == bv(T.P(s2, simp(z64(a.off) + z64(k))), 64), nm + ': the start of that character')
                        else:
                            E.prove(s2, z3.BoolVal(isnull(r)), nm + ': null beyond the end')
                    w.same_value(s, a.ptr, a.val, 'operand of ' + nm)
                    w.wf(s, a.ptr, nm)
                w.call(fn, [a.ptr, k], [a.ptr], chk, nm)
            self.op(B, nm, SC, f)
        nthop('nthChar const', 's_nthc', False)
        nthop('nthChar', 's_nthn', True)

        # ---- C12: construction
        K = 'construct'
        self.ctor(K, 'default', lambda E, w: [([], None)], lambda s, e: EMPTY)

        def cstr(E, w):
            st = w.st
            T = Text(st, 's')
            base = z3.Array('data_s', S64, z3.BitVecSort(8))
            oid = E.new_arr(st, 1, simp(T.m + 1), 'source', base=base)
            st.w(oid).const = True
            st.assume(And(z3.Select(base, T.m) == 0, Implies(T.m != 0, z3.Select(base, V(0, 64)) != 0)))
            st.ghost[('nonul', oid)] = True
            w.settext(st, oid, T)
            E.inputs.update(bytes_s=T.m, chars_s=T.NC)
            return [([Ptr(oid, 0)], Val(T, lambda q: z3.Select(base, bv(q, 64))))]
        self.ctor(K, 'cstr', cstr, lambda s, e: e)
        self.ctor(K, 'cstr null', lambda E, w: [([NULL], None)], lambda s, e: EMPTY, fn='s_cstr')

        def data(al):
            """characters [lo, lo+n) of the caller's text"""
            def g(E, w):
                st = w.st
                T = Text(st, 's')
                base = z3.Array('data_s', S64, z3.BitVecSort(8))
                oid = E.new_arr(st, 1, T.m, 'source', base=base)
                st.w(oid).const = True
                w.settext(st, oid, T)
                lo, n = z3.ZeroExt(38, z3.BitVec('lo', 26)), z3.ZeroExt(38, z3.BitVec('n', 26))
                st.assume(And(ULE(lo, T.NC), ULE(n, T.NC - lo)))
                E.inputs.update(bytes_s=T.m, chars_s=n)
                p = bv(T.P(st, lo), 64)
                d = simp(bv(T.P(st, simp(lo + n)), 64) - p)
                len_ = lo32(d)
                st.assume(z64(len_) == d)
                ar = [Ptr(oid, p), len_]
                if al:
                    a = z3.BitVec('al', 64)
                    st.assume(ULE(a, V(4 * strv.MAXN, 64)))
                    ar.append(a)
                v = Val(T, lambda q: z3.Select(base, bv(q, 64)))
                return [(ar, v.sub(st, lo, n))]
            return g
        self.ctor(K, 'data', data(False), lambda s, e: e)
        self.ctor(K, 'data3', data(True), lambda s, e: e)

        def chr_(E, w):
            ch = i32('ch')
            E.inputs['ch'] = ch
            w.st.assume(Not(U.illegal(ch)))
            return [([ch], ch)]

        def chval(s, ch):
            # the encoded length is decided on every path
            return char_val(ch, s.ghost['enclen'])
        self.charop = chval

        def chrctor(E, w, sc):
            r = w.result()
            (ar, ch), = chr_(E, w)
            for L in range(1, 7):
                w2 = w.st.fork()
                w2.assume(U.enclen(ch) == L)
                keep, w.st = w.st, w2

                def chk(s, _):
                    w.same_value(s, r, char_val(ch, L), 'character')
                    w.wf(s, r, 'character')
                w.call('s_ch', [r] + ar, [r], chk, 'character')
                w.st = keep
        self.op(K, 'character', ('-',), chrctor)

        def frombody(E, w, sc):
            b = w.new_body('a', sc)
            r = w.result()
            T = b.text
            v = Val(T, lambda q: z3.Select(b.base, bv(q, 64)))

            def chk(s, _):
                w.same_value(s, r, v, 'from a body')
                w.wf(s, r, 'from a body')
            w.call('s_body', [r, Ptr(b.oid, 0)], [r], chk, 'from a body')
        self.op(K, 'body', ('heap', 'static'), frombody)
        same = lambda s, a, e: a.val
        self.result(K, 'copy', none, same, owned=True)
        self.result(K, 'ref', none, same)
        two = lambda E, w, a, b: ([b.ptr], b)
        self.mutate(K, 'assign', two, lambda s, a, b: b.val, binary=True)

        def dtor(E, w, sc):
            a = w.scen(sc)
            w.call('s_dtor', [a.ptr], [], lambda s, r: E.prove(s, z3.BoolVal(True), 'destructor returns'), 'destructor')
        self.op('own', 'dtor', SC, dtor)

        # ---- C13: sections
        X = 'section'
        clamp = lambda a, at, ln: If(UGE(at, n_of(a)), V(0, 32), If(Or(ln == NONE32, UGT(ln, n_of(a) - at)), n_of(a) - at, ln))

        def section(s, a, at, n):
            """characters [at, at+n); nothing if n is 0"""
            n = bv(n, 32)
            at2 = If(n == 0, V(0, 32), bv(at, 32))
            return a.val.sub(s, z64(at2), z64(n))
        self.result(X, 'substr', ints('at', 'len'), lambda s, a, e: section(s, a, e[0], clamp(a, e[0], e[1])), pre=lambda a, e: e[1] >= -1)
        self.result(X, 'substr1', ints('at'), lambda s, a, e: section(s, a, e[0], clamp(a, e[0], NONE32)))
        self.result(X, 'head', ints('k'), lambda s, a, e: section(s, a, V(0, 32), If(ULT(e[0], n_of(a)), e[0], n_of(a))), pre=lambda a, e: e[0] >= 0)
        self.result(X, 'tail', ints('k'), lambda s, a, e: section(s, a, n_of(a) - e[0], e[0]), pre=lambda a, e: ULE(e[0], n_of(a)))
        self.result(X, 'shorter', ints('k'), lambda s, a, e: section(s, a, V(0, 32), n_of(a) - e[0]), pre=lambda a, e: ULE(e[0], n_of(a)))

        # ---- C13: concatenation and insertion
        J = 'join'
        cat = lambda s, a, b: a.val.cat(s, b.val)
        self.result(J, 'plus', None, cat, binary=True)

        def withch(name, mut):
            def f(E, w, sc):
                a = w.scen(sc)
                (ar, ch), = chr_(E, w)
                r = None if mut else w.result()
                base = w.st
                for L in range(1, 7):
                    w.st = base.fork()
                    w.st.assume(U.enclen(ch) == L)

                    def chk(s, _):
                        w.same_value(s, a.ptr if mut else r, a.val.cat(s, char_val(ch, L)), name)
                        w.wf(s, a.ptr if mut else r, name)
                        if not mut:
                            w.same_value(s, a.ptr, a.val, 'operand of ' + name)
                    w.call('s_' + name, ([] if mut else [r]) + [a.ptr] + ar, [a.ptr] + ([] if mut else [r]), chk, name)
            self.op(J, name, SC, f)
        withch('plus_ch', False)
        withch('addeq_ch', True)

        def withcstr(name, first):
            def args(E, w, a):
                (ar, v), = cstr(E, w)
                return ar, v
            self.result(J, name, args, (lambda s, a, e: e.cat(s, a.val)) if first else (lambda s, a, e: a.val.cat(s, e)))
        withcstr('plus_cstr', False)
        withcstr('cstr_plus', True)
        self.mutate(J, 'addeq', two, cat, binary=True)
        self.mutate(J, 'append', two, cat, binary=True)
        self.mutate(J, 'prepend', two, lambda s, a, b: b.val.cat(s, a.val), binary=True)

        def insargs(E, w, a, b):
            p = i32('pos')
            E.inputs['pos'] = p
            w.st.assume(ULE(p, n_of(a)))
            return [p, b.ptr], (b, p)

        def ins(s, a, e):
            b, p = e
            return a.val.sub(s, V(0, 64), z64(p)).cat(s, b.val).cat(s, a.val.sub(s, z64(p), z64(n_of(a) - p)))

        def own_body(s, w, a, b, e):
            adj = z3.BoolVal(False)
            if a.body is b.body:
                adj = And(e[1] == n_of(a), simp(bv(a.off, 32) + e[1]) == bv(b.off, 32))
            self.sole(s, w, a.ptr, 'insert', adj)
        self.mutate(J, 'insert', insargs, ins, binary=True, extra=own_body, pairs=CPAIRS, timeout=400)

        def mul(E, w, sc):
            kind, k = sc.rsplit(' x', 1)
            k = int(k)
            a = w.scen(kind)
            r = w.result()
            E.inputs['times'] = k

            def chk(s, _):
                v = EMPTY if k == 0 else a.val
                for _ in range(1, k):
                    v = v.cat(s, a.val)
                w.same_value(s, r, v, 'repetition')
                w.wf(s, r, 'repetition')
                w.same_value(s, a.ptr, a.val, 'operand of repetition')
            w.call('s_mul', [r, a.ptr, k], [a.ptr, r], chk, 'repetition')
        self.op(J, 'mul', tuple('%s x%d' % (k, n) for k in SC for n in (0, 1, 2, 3)), mul, kind='bounded', bound='0 to 3 repetitions (any text)')

        # ---- C15: comparison
        C = 'compare'

        def prefix(E, w, a, b):
            p = z3.BitVec('prefix', 64)
            m = If(ULT(a.val.M, b.val.M), a.val.M, b.val.M)
            at = lambda v, q: bv(v.val.at(q), 8)
            w.st.assume(And(ULE(p, m), Or(p == m, at(a, p) != at(b, p))))
            w.st.terms.append(p)
            w.st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), p), at(a, bv(t, 64)) == at(b, bv(t, 64))), (0,), 'common prefix'))
            lt = If(ULT(p, m), ULT(at(a, p), at(b, p)), ULT(a.val.M, b.val.M))
            eq = And(p == m, a.val.M == b.val.M)
            E.pref = p
            E.prefix = a, b, lt, eq
            # the same bytes are the same number of characters (lemma)
            w.st.assume(Implies(eq, a.val.N == b.val.N))

        def order(spec):
            def g(E, w, s, a, b, e, r, nm):
                _, _, lt, eq = E.prefix
                E.prove(s, spec(r, lt, eq), nm + ': byte order of the two texts', terms=[E.pref])
            return g
        self.value2(C, 'compare', none, order(lambda r, lt, eq: And((bv(r, 32) < 0) == lt, (bv(r, 32) == 0) == eq)), prep=prefix)
        for nm, sp in (('eq', lambda lt, eq: eq), ('ne', lambda lt, eq: Not(eq)), ('lt', lambda lt, eq: lt), ('le', lambda lt, eq: Or(lt, eq)),
                       ('gt', lambda lt, eq: Not(Or(lt, eq))), ('ge', lambda lt, eq: Not(lt)), ('cmp2', lambda lt, eq: Not(Or(lt, eq))), ('equiv', lambda lt, eq: eq)):
            self.value2(C, nm, none, order(lambda r, lt, eq, sp=sp: b1(r) == sp(lt, eq)), prep=prefix)
        # ---- C15: searching
        F = 'find'

        def chararg(*names):
            def g(E, w, a):
                c = i32('ch')
                vs = [i32(n) for n in names]
                E.inputs['ch'] = c
                for n, v in zip(names, vs):
                    E.inputs[n] = v
                return [c] + vs, [c] + vs
            return g

        def first(E, w, s, a, r, ok, lo, hi, nm):
            """r: least index in [lo, hi) with ok, -1 if none (64-bit indexes)"""
            r = bv(r, 32)
            t = E.fresh('t', 64)
            for found in (True, False):
                s3 = s.fork()
                s3.assume((r != NONE32) if found else (r == NONE32))
                if not E.feasible(s3):
                    continue
                if found:
                    E.prove(s3, And(r >= 0, ULT(z64(r), hi), UGE(z64(r), lo), ok(s3, z64(r))), nm + ': the index found is in range and matches', terms=[z64(r)])
                s3.assume(And(ULE(lo, t), ULT(t, z64(r) if found else hi)))
                o = ok(s3, t)
                E.prove(s3, Not(o), nm + ': nothing before it matches', terms=[simp(t - lo)])

        def last(E, w, s, a, r, ok, hi, nm, also=None):
            """r: greatest index below hi (cases) with ok, -1 if none"""
            r = bv(r, 32)
            for c, h in hi:
                s2 = s.fork()
                s2.assume(c)
                if not E.feasible(s2):
                    continue
                for found in (True, False):
                    s3 = s2.fork()
                    s3.assume((r != NONE32) if found else (r == NONE32))
                    if not E.feasible(s3):
                        continue
                    if found:
                        E.prove(s3, And(r >= 0, ULT(z64(r), h), ok(s3, z64(r))), nm + ': the index found is in range and matches', terms=[z64(r)])
                    t = E.fresh('t', 64)
                    s3.assume(And(ULT(t, h), UGT(t, z64(r)) if found else z3.BoolVal(True)))
                    o = ok(s3, t)
                    E.prove(s3, Not(o), nm + ': nothing after it matches', terms=[simp(h - 1 - t)] + ([simp(also - t)] if also is not None else []))
        lo_of = lambda x: z3.SignExt(32, x) + 1
        hi_of = lambda a, x, more=0: [(x == NONE32, simp(a.N + more)), (x != NONE32, z64(x))]
        isch = lambda a, c: lambda s, i: bv(a.val.tx.CH(s, i), 32) == c
        after_ok = lambda x: And(x >= -1, x < (1 << 30))
        before_ok = lambda a, x: Or(x == NONE32, ULE(x, n_of(a)))
        self.value(F, 'find', chararg('after'), lambda E, w, s, a, e, r, nm: first(E, w, s, a, r, isch(a, e[0]), lo_of(e[1]), a.N, nm), pre=lambda a, e: after_ok(e[1]))
        self.value(F, 'rfind', chararg('before'), lambda E, w, s, a, e, r, nm: last(E, w, s, a, r, isch(a, e[0]), hi_of(a, e[1]), nm), pre=lambda a, e: before_ok(a, e[1]))

        def anyof(neg):
            def g(a, b):
                def ok(s, i):
                    m = w_member(s, a, b, i)
                    return Not(m) if neg else m
                return ok
            return g

        MEM = z3.Function('member', z3.BitVecSort(32), z3.BoolSort())
        WIT = z3.Function('witness', z3.BitVecSort(32), S64)

        def w_member(s, a, b, i):
            c = bv(a.val.tx.CH(s, i), 32)
            chb = lambda t: bv(b.val.tx.CH(State(), t), 32)
            s.assume(Implies(MEM(c), And(ULT(WIT(c), b.val.N), chb(WIT(c)) == c)))
            s.terms.append(simp(WIT(c)))
            return MEM(c)

        def member(E, w, a, b):
            """ghost: MEM(c) iff c is one of the characters of b; WIT(c) is then the index of one"""
            st, x = w.st, b.val
            chb = lambda t: bv(x.tx.CH(State(), t), 32)
            st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), x.N), MEM(chb(bv(t, 64)))), (0,), 'member'))
            ax = lambda c: Implies(MEM(c), And(ULT(WIT(c), x.N), chb(WIT(c)) == c))

            def each(E, st, view):
                out = []
                for v in view.vars:
                    if v.kind == 'int' and v.w == 32 and isint(v.step) and v.step != 0:
                        i0 = z64(view.init[v.key])
                        up = v.step == 1
                        ch = lambda kk, i0=i0, up=up: bv(a.val.tx.CH(State(), simp(i0 + kk if up else i0 - kk)), 32)
                        for sg in (True, False):
                            out.append(('%s the set' % ('not in' if sg else 'in'),
                                        lambda kk, ch=ch, sg=sg: And(Implies(ax(ch(kk)), Not(MEM(ch(kk))) if sg else MEM(ch(kk)))),
                                        lambda kk, ch=ch: [simp(WIT(ch(kk)))]))
                return out
            E.loop_each = each
        FP = ('heap static', 'heap null', 'null heap', 'null null') if self.tier == 'quick' else ('heap heap', 'heap static', 'static heap', 'heap null', 'null heap', 'null null', 'heap same', 'heap self')
        for nm, neg, back in (('findAny', 0, 0), ('rfindAny', 0, 1), ('findNot', 1, 0), ('rfindNot', 1, 1)):
            if back:
                self.value2(F, nm, ints('before'), lambda E, w, s, a, b, e, r, nm, neg=neg: last(E, w, s, a, r, anyof(neg)(a, b), hi_of(a, e[0]), nm),
                            pre=lambda a, b, e: before_ok(a, e[0]), prep=member, pairs=FP, timeout=400)
            else:
                self.value2(F, nm, ints('after'), lambda E, w, s, a, b, e, r, nm, neg=neg: first(E, w, s, a, r, anyof(neg)(a, b), lo_of(e[0]), a.N, nm),
                            pre=lambda a, b, e: after_ok(e[0]), prep=member, pairs=FP, timeout=400)
        # substrings: EQ(x, y, n) abbreviates "the n bytes at x equal the n bytes at y"
        EQ = z3.Function('same_bytes', S64, S64, S64, z3.BoolSort())

        def eqbytes(E, w, a, b):
            def mc(E, st, args, dem):
                p, q, n = args
                n = bv(simp(bv(n, 64)), 64)
                out = []
                for x, s_, w_ in ((p, a, 'first'), (q, b, 'second')):
                    if x.obj != s_.body.data:
                        E.fail(st, 'memcmp: %s operand is in its text' % w_)
                        return []
                    d = st.objs[x.obj]
                    E.prove(st, And(z3.BoolVal(bool(d.alive)), ULE(bv(x.idx, 64), bv(d.len, 64)), ULE(n, bv(d.len, 64) - bv(x.idx, 64))), 'memcmp: %s operand in bounds' % w_)
                eq = EQ(bv(p.idx, 64), bv(q.idx, 64), n)
                r = E.fresh('memcmp', 32)
                for c, v in ((eq, 0), (Not(eq), None)):
                    s = st.fork()
                    s.assume(c)
                    if not E.feasible(s):
                        continue
                    if v is None:
                        s.assume(r != 0)
                    out.append((s, 0 if v == 0 else r))
                return out
            E.contracts['@memcmp'] = E.contracts['@bcmp'] = mc

        def occurs(a, b):
            def ok(s, i):
                x = bv(a.body.text.P(s, simp(z64(a.off) + i)), 64)
                y = bv(b.body.text.P(s, z64(b.off)), 64)
                end = bv(a.body.text.P(s, simp(z64(a.off) + a.N)), 64)
                o = And(ULE(b.val.M, end - x), EQ(x, y, simp(b.val.M)))
                s.assume(Implies(o, ULE(simp(i + b.N), a.N)))    # the same bytes are the same characters (lemma)
                return o
            return ok
        SP = [x for x in FP if x != 'heap same' or self.tier != 'quick']
        self.value2(F, 'finds', ints('after'), lambda E, w, s, a, b, e, r, nm: first(E, w, s, a, r, occurs(a, b), lo_of(e[0]), a.N + 1, nm), pre=lambda a, b, e: after_ok(e[0]), prep=eqbytes, pairs=SP, timeout=400)
        self.value2(F, 'rfinds', ints('before'), lambda E, w, s, a, b, e, r, nm: last(E, w, s, a, r, occurs(a, b), hi_of(a, e[0], 1), nm, a.N - b.N),
                    pre=lambda a, b, e: before_ok(a, e[0]), prep=eqbytes, pairs=SP, timeout=400)


def find_hook(w):
    """the only memory the searching loops may change is the cached character count"""
    def hook(E, st, view):
        out = []
        L = w.L
        for v in view.vars:
            if v.key[0] == 'cell' and v.kind == 'int':
                for b in w.bodies.values():
                    if v.key[1] == b.oid and v.key[2] == L.chars:
                        out.append(('cached count', lambda kk, vv, v=v, b=b: w.body_ok(b.text, vv[v.key], b.bnum)[0]))
        return out
    return hook
