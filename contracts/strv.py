"""State and specification vocabulary for include/strval.h, shared by C12..C17.

A text is a well-formed UTF-8 byte sequence of NC characters and m bytes.  It is described by ghost functions
  P(k): byte position of the k-th character (0 <= k <= NC; P(0) = 0, P(NC) = m, strictly increasing by 1 to 6),
  I(x): the character index of a boundary x (I(P(k)) = k),   CH(k): the k-th character.
The texts of operands are uninterpreted; the texts of what the code builds from them (sections, concatenations, one encoded
character) are the compositions.  Facts about P are stated at the indices a proof mentions.  That the decoding functions behave
on such a text as their contracts here say is proved from their byte-level contracts (C01..C03) in the lemma tasks.

A StrVal is {body, offset, num_chars, mark}; its value is characters [offset, offset+num_chars) of the body's text.
Representation invariant (assumed of every operand, proved of every result):
  body: as in arr.py for ArrayBody<char>; the text occupies all bytes but the last, which is NUL where the body owns it;
        the cached character count is 0 (not counted) or NC
  offset+num_chars <= NC;  num_chars = 0 only over an empty text;  the bookmark is (0, _) or (c, P(c)) with c <= offset+num_chars
"""
import os, importlib.util
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from sym import boolv, Ptr, bv, State, Forall, NULL, sub64, isint, isnull, conc, simp
import u8spec as U

_s = importlib.util.spec_from_file_location('arr_char', os.path.join(os.path.dirname(__file__), 'arr.py'))
arr = importlib.util.module_from_spec(_s)
_s.loader.exec_module(arr)
arr.ESZ, arr.W = 1, 8
arr.BodyContracts.CTOR = 'ArrayBody<char, unsigned int>::ArrayBody(char const*, bool, unsigned int, unsigned int)'
arr.BodyContracts.INSERT = 'ArrayBody<char, unsigned int>::insert(unsigned int, char const*, unsigned int)'
arr.BodyContracts.REMOVE = 'ArrayBody<char, unsigned int>::remove(unsigned int, int)'
MAXN = arr.MAXN
z64, b1 = arr.z64, arr.b1
S64 = z3.BitVecSort(64)


def lo32(x):
    return simp(z3.Extract(31, 0, bv(x, 64)))


# ------------------------------------------------------------------ texts
class Text:
    def __init__(self, st, name, nc=None, m=None):
        self.name = name
        # positions are below 2^26: the ghost functions are defined on (and by) the low 27 bits of their arguments
        self.NC = z3.ZeroExt(38, z3.BitVec('nc_' + name, 26))
        self.m = z3.ZeroExt(38, z3.BitVec('m_' + name, 26))
        S27, B = z3.BitVecSort(27), 26
        P, I, C = z3.Function('P_' + name, S27, S27), z3.Function('I_' + name, S27, S27), z3.Function('CH_' + name, S27, z3.BitVecSort(32))
        low = lambda k: z3.Extract(26, 0, bv(k, 64))
        self.idx = {}
        nc = bv(simp(self.NC), 64)

        def Pf(k):
            k = bv(simp(bv(k, 64)), 64)
            if z3.is_bv_value(k) and k.as_long() == 0:
                return V(0, 64)
            if k.eq(nc):
                return bv(simp(self.m), 64)
            e = z3.ZeroExt(37, P(z3.simplify(low(k))))
            s = bv(simp(e), 64)
            self.idx[s.get_id()] = (s, k)
            return s
        self.Pf = Pf
        self.If = lambda x: z3.ZeroExt(37, I(low(x)))
        self.Cf = lambda k: C(low(k))
        st.assume(And(ULE(self.NC, self.m), ULE(self.m, V(MAXN - 1, 64)), (self.NC == 0) == (self.m == 0)))

    def facts1(self, k):
        P = self.Pf
        if k.eq(bv(simp(self.NC), 64)) or z3.is_bv_value(k) and k.as_long() == 0:
            return z3.BoolVal(True)
        return Implies(ULE(k, self.NC), And(ULE(k, P(k)), ULE(P(k), self.m), ULE(self.NC - k, self.m - P(k)), self.If(P(k)) == k,
                                            (k == 0) == (P(k) == 0), (k == self.NC) == (P(k) == self.m)))

    def facts2(self, a, b):
        P = self.Pf
        for x in (a, b):
            if x.eq(bv(simp(self.NC), 64)) or z3.is_bv_value(x) and x.as_long() == 0:
                return z3.BoolVal(True)     # in facts1
        f = lambda a, b: Implies(And(ULT(a, b), ULE(b, self.NC)), And(ULT(P(a), P(b)), ULE(b - a, P(b) - P(a))))
        return And(f(a, b), f(b, a))

    def mention(self, st, k):
        k = bv(simp(bv(k, 64)), 64)
        key = ('men', self.name)
        l = st.ghost.get(key, ())
        for x in l:
            if x.eq(k):
                return k
        st.assume(self.facts1(k))
        for x in l:
            st.assume(self.facts2(x, k))
        st.ghost[key] = l + (k,)
        return k

    def P(self, st, k):
        return self.Pf(self.mention(st, k))

    def step(self, st, k):
        """P(k+1), for k < NC"""
        k = bv(simp(bv(k, 64)), 64)
        a, b = self.P(st, k), self.P(st, k + 1)
        st.assume(Implies(ULT(k, self.NC), And(UGE(b - a, 1), ULE(b - a, 6))))
        return b

    def I(self, st, x):
        x = bv(simp(bv(x, 64)), 64)
        if x.get_id() in self.idx:
            return self.idx[x.get_id()][1]
        if z3.is_bv_value(x) and x.as_long() == 0:
            return V(0, 64)
        if x.eq(bv(simp(self.m), 64)):
            return bv(self.NC, 64)
        return self.mention(st, self.If(x))

    def CH(self, st, k):
        k = bv(simp(bv(k, 64)), 64)
        c = bv(simp(self.Cf(k)), 32)
        st.assume(Implies(ULT(k, self.NC), Not(U.illegal(c))))
        return c


class Sub:
    """characters [lo, lo+n) of a text"""

    def __init__(self, st, T, lo, n):
        if isinstance(T, Sub):
            T, lo = T.T, simp(bv(T.lo, 64) + bv(lo, 64))
        self.T, self.lo, self.NC = T, bv(lo, 64), bv(n, 64)
        self.p0 = T.P(st, self.lo)
        self.m = simp(T.P(st, simp(self.lo + self.NC)) - self.p0)

    def P(self, st, k):
        return simp(self.T.P(st, simp(self.lo + bv(k, 64))) - self.p0)

    def step(self, st, k):
        return simp(bv(self.T.step(st, simp(self.lo + bv(k, 64))), 64) - self.p0)

    def I(self, st, x):
        return simp(bv(self.T.I(st, simp(bv(x, 64) + self.p0)), 64) - self.lo)

    def CH(self, st, k):
        return self.T.CH(st, simp(self.lo + bv(k, 64)))


class Cat:
    def __init__(self, st, A, B):
        self.A, self.B = A, B
        self.NC = simp(bv(A.NC, 64) + bv(B.NC, 64))
        self.m = simp(bv(A.m, 64) + bv(B.m, 64))

    def P(self, st, k):
        k = bv(k, 64)
        A, B = self.A, self.B
        return simp(If(ULE(k, bv(A.NC, 64)), bv(A.P(st, k), 64), bv(A.m, 64) + bv(B.P(st, simp(k - bv(A.NC, 64))), 64)))

    def step(self, st, k):
        k = bv(k, 64)
        A, B = self.A, self.B
        return simp(If(ULT(k, bv(A.NC, 64)), bv(A.step(st, k), 64), bv(A.m, 64) + bv(B.step(st, simp(k - bv(A.NC, 64))), 64)))

    def I(self, st, x):
        x = bv(x, 64)
        A, B = self.A, self.B
        return simp(If(ULT(x, bv(A.m, 64)), bv(A.I(st, x), 64), bv(A.NC, 64) + bv(B.I(st, simp(x - bv(A.m, 64))), 64)))

    def CH(self, st, k):
        k = bv(k, 64)
        A, B = self.A, self.B
        return simp(If(ULT(k, bv(A.NC, 64)), bv(A.CH(st, k), 32), bv(B.CH(st, simp(k - bv(A.NC, 64))), 32)))


class One:
    """one character encoded in L bytes"""

    def __init__(self, L, ch):
        self.L, self.ch, self.NC, self.m = L, ch, V(1, 64), V(L, 64)

    def P(self, st, k):
        return simp(If(bv(k, 64) == 0, V(0, 64), V(self.L, 64)))

    step = lambda self, st, k: V(self.L, 64)

    def I(self, st, x):
        return simp(If(bv(x, 64) == 0, V(0, 64), V(1, 64)))

    def CH(self, st, k):
        return self.ch


class Empty:
    NC = m = V(0, 64)
    P = step = I = lambda self, st, k: V(0, 64)
    CH = lambda self, st, k: V(0, 32)


def sub(st, T, lo, n):
    lo, n = bv(simp(bv(lo, 64)), 64), bv(simp(bv(n, 64)), 64)
    if isint(simp(lo)) and simp(lo) == 0 and n.eq(bv(simp(bv(T.NC, 64)), 64)):
        return T
    return Sub(st, T, lo, n)


class Val:
    """a value: a text and its bytes"""

    def __init__(self, tx, at, cuts=()):
        self.tx, self.at, self.cuts = tx, at, tuple(cuts)       # cuts: byte positions where parts meet
        self.N, self.M = bv(tx.NC, 64), bv(tx.m, 64)

    def sub(self, st, lo, n):
        p0 = bv(self.tx.P(st, lo), 64)
        at = self.at
        return Val(sub(st, self.tx, lo, n), lambda q: at(simp(bv(q, 64) + p0)))

    def cat(self, st, b):
        a = self
        return Val(Cat(st, a.tx, b.tx), lambda q: If(ULT(bv(q, 64), a.M), bv(a.at(q), 8), bv(b.at(simp(bv(q, 64) - a.M)), 8)), a.cuts + (a.M,) + tuple(simp(a.M + c) for c in b.cuts))


EMPTY = Val(Empty(), lambda q: V(0, 8))


def char_val(ch, L):
    def at(q):
        x = V(0, 8)
        for k in range(L):
            x = If(bv(q, 64) == k, U.encbyte(ch, L, k), x)
        return x
    return Val(One(L, ch), at)


# ------------------------------------------------------------------ state
class World(arr.World):
    def __init__(self, E, nulls=True):
        super().__init__(E)
        L = self.L
        for k in ('chars', 'mark'):
            setattr(L, k, L.const('L_' + k))
        self.texts = {}
        if nulls:
            r = list(E.run(self.st, 'mk_nulls', []))
            assert len(r) == 1
            self.st = r[0][0]
            g = [n for n, d in E.mod.dem.items() if n in E.mod.globals and d == 'StrBodyI<unsigned int>::nullBody']
            names = [n for n in E.mod.globals if 'nullBodyE' in n and not n.startswith('@_ZGV')]
            p = E.global_ptr(self.st, names[0])
            b = arr.Slice()
            b.tag, b.kind, b.oid = 'null', 'static', p.obj
            o = self.st.w(b.oid)
            b.bnum, b.al = 1, 0
            assert o.cells[L.bnum][1] == 1 and o.cells[L.alloc][1] == 0, 'nullBody is an empty text'
            b.data = o.cells[L.start][1].obj
            b.base = None
            b.rc = z3.BitVec('rc_null', 32)
            self.st.assume(And(b.rc >= 2, b.rc < (1 << 28)))
            E._cell_store(o, L.ref, 4, b.rc)
            b.text, b.c0 = Empty(), 0
            b.slices = 0
            self.bodies['null'] = b
            self.settext(self.st, b.data, b.text)
        self.z = z3.BitVecVal(0, 64)
        E.inputs = {}

    def settext(self, st, oid, T):
        o = st.objs[oid]
        st.ghost[('text', oid)] = (T, o.log)

    def text(self, st, oid):
        g = st.ghost.get(('text', oid))
        o = st.objs.get(oid)
        if g is None or o is None or not (g[1] is o.log or g[1] == o.log):
            return None
        return g[0]

    def src_text(self, tag, static=False):
        """caller's bytes: a text followed by a NUL (or, static, by any readable byte)"""
        E, st = self.E, self.st
        T = Text(st, tag)
        base = z3.Array('data_' + tag, S64, z3.BitVecSort(8))
        return T, base

    def new_body(self, tag, kind):
        E, L, st = self.E, self.L, self.st
        T = Text(st, tag)
        b = arr.Slice()
        b.tag, b.kind = tag, kind
        b.text = T
        b.oid = E.new_cells(st, L.sizeB, 'body_' + tag, heap='new')
        c = st.w(b.oid).cells
        for off, x in st.objs[self.proto.obj].cells.items():
            c[off] = x
        b.rc = z3.BitVec('rc_' + tag, 32)
        b.bnum, b.al = lo32(T.m + 1), z3.BitVec('alloc_' + tag, 32)
        st.assume(And(b.rc >= (2 if kind == 'static' else 1), b.rc < (1 << 28)))
        b.base = z3.Array('data_' + tag, S64, z3.BitVecSort(8))
        if kind == 'heap':
            st.assume(And(ULE(b.bnum, b.al), ULE(b.al, MAXN)))
            b.data = E.new_arr(st, 1, z3.ZeroExt(32, b.al), 'data_' + tag, heap='new[]', base=b.base)
            st.assume(z3.Select(b.base, T.m) == 0)
        else:
            b.al = 0
            b.data = E.new_arr(st, 1, simp(T.m + 1), 'borrowed_' + tag, base=b.base)
            st.w(b.data).const = True
            st.assume(Implies(T.m == 0, z3.Select(b.base, T.m) == 0))
        st.ghost[('nul', b.data)] = T.m      # used only where the text is empty or owned: see strlen below
        cnt = z3.Bool('counted_' + tag)
        b.c0 = If(cnt, lo32(T.NC), V(0, 32))
        for f in self.body_ok(T, b.c0, b.bnum):
            st.assume(f)
        for off, n, x in ((L.ref, 4, b.rc), (L.start, 8, Ptr(b.data, 0)), (L.bnum, 4, b.bnum), (L.alloc, 4, b.al), (L.chars, 4, b.c0)):
            E._cell_store(st.w(b.oid), off, n, x)
        b.slices = 0
        self.settext(st, b.data, T)
        self.bodies[tag] = b
        return b

    def slice(self, tag, body, part=None):
        """part: None any section, 'whole' all of the text, 'part' less than all of it"""
        E, st, L = self.E, self.st, self.L
        s = arr.Slice()
        s.tag, s.body = tag, body
        s.oid = E.new_cells(st, L.sizeA, 'str_' + tag)
        s.ptr = Ptr(s.oid, 0)
        body.slices += 1
        st.assume(body.rc >= V(body.slices + (1 if body.kind == 'static' else 0) + (1 if body.tag == 'null' else 0), 32))
        T = body.text
        o = st.w(s.oid)
        if body.tag == 'null':
            s.off = s.n = s.mc = 0
            s.mb = z3.BitVec('markb_' + tag, 32)
            s.val = EMPTY
        else:
            u = lambda nm: z3.ZeroExt(6, z3.BitVec(nm + tag, 26))
            s.off, s.n = (0, lo32(T.NC)) if part == 'whole' else (u('off_'), u('n_'))
            if part == 'part':
                st.assume(Or(s.off != 0, z64(s.n) != T.NC))
            if part == 'whole':
                st.assume(z64(s.n) == T.NC)
            st.assume(And(ULE(z64(s.off), T.NC), ULE(z64(s.n), T.NC - z64(s.off)), Implies(s.n == 0, T.NC == 0)))
            s.mc, s.mb = u('markc_'), z3.BitVec('markb_' + tag, 32)
            for f in self.mark_ok(st, T, s.mc, s.mb, s.off, s.n):
                st.assume(f)
            base = body.base
            p0 = T.P(st, z64(s.off))
            s.val = Val(sub(st, T, z64(s.off), z64(s.n)), lambda q: z3.Select(base, simp(p0 + bv(q, 64))))
        for off, n, x in ((L.body, 8, Ptr(body.oid, 0)), (L.offset, 4, s.off), (L.num, 4, s.n), (L.mark, 4, s.mc), (L.mark + 4, 4, s.mb)):
            E._cell_store(o, off, n, x)
        self.ops[tag] = s
        s.N = s.val.N
        E.inputs['n_' + tag] = s.n
        E.inputs['kind_' + tag] = body.kind if body.tag != 'null' else 'null'
        E.inputs['off_' + tag] = s.off
        E.inputs['mark_' + tag] = s.mc
        E.inputs['rc_' + body.tag] = body.rc
        E.inputs['bytes_' + body.tag] = T.m
        E.inputs['chars_' + body.tag] = T.NC
        return s

    @staticmethod
    def mark_ok(st, T, mc, mb, off=None, n=None):
        """the bookmark is right, and not beyond the section (the same formulas wherever it is assumed or proved)"""
        mc, mb = bv(mc, 32), bv(mb, 32)
        out = [Or(mc == 0, And(ULE(z64(mc), bv(T.NC, 64)), z64(mb) == bv(T.P(st, z64(mc)), 64)))]
        if off is not None:
            out.append(Or(mc == 0, ULE(z64(mc), z64(off) + z64(n))))
        return out

    @staticmethod
    def body_ok(T, f, bnum):
        """the body's fields agree with its text"""
        return [Or(bv(f, 32) == 0, z64(f) == bv(T.NC, 64)), z64(bnum) == bv(T.m, 64) + 1]

    def scen(self, kind, tag='a'):
        kind, _, part = kind.partition('-')
        return self.slice(tag, self.bodies['null'] if kind == 'null' else self.new_body(tag, kind), part or None)

    # ------------------------------------------------------------------ postconditions
    def data_of(self, s, ptr, what):
        E, L = self.E, self.L
        b, off, n = self.view(s, ptr)
        if not isinstance(b, Ptr) or isnull(b) or not s.objs[b.obj].alive:
            E.fail(s, what + ': body is alive')
            return None
        start = s.objs[b.obj].cells[L.start][1]
        if isnull(start) or not s.objs[start.obj].alive or not (isint(start.idx) and start.idx == 0):
            E.fail(s, what + ': data is alive')
            return None
        T = self.text(s, start.obj)
        if T is None:
            E.fail(s, what + ': the bytes of the body are a known text')
            return None
        return b, start, T, off, n

    def same_value(self, s, ptr, val, what):
        """the StrVal at ptr has exactly the characters and bytes of val"""
        E, L = self.E, self.L
        x = self.data_of(s, ptr, what)
        if x is None:
            return
        b, start, T, off, n = x
        E.prove(s, z64(n) == val.N, what + ': number of characters')
        s2 = s.fork()
        j = E.fresh('j', 64)
        s2.assume(ULE(j, val.N))
        o64 = z64(off)
        p0 = bv(T.P(s2, o64), 64)
        d = bv(T.P(s2, simp(o64 + j)), 64) - p0
        w = bv(val.tx.P(s2, j), 64)
        E.prove(s2, d == w, what + ': where each character starts')
        s3 = s.fork()
        q = E.fresh('q', 64)
        s3.assume(ULT(q, val.M))
        if not E.feasible(s3):
            return
        p0 = bv(T.P(s3, o64), 64)
        got = E.arr_read(s3.objs[start.obj], simp(p0 + q))
        ends = list(val.cuts) + [None]
        for k, e in enumerate(ends):
            s4 = s3.fork() if len(ends) > 1 else s3
            if k:
                s4.assume(UGE(q, ends[k - 1]))
            if e is not None:
                s4.assume(ULT(q, e))
            if len(ends) > 1 and not E.feasible(s4):
                continue
            E.prove(s4, bv(got, 8) == bv(val.at(q), 8), what + ': every byte' + (' (part %d)' % (k + 1) if len(ends) > 1 else ''), terms=[simp(p0 + q), q])

    def wf(self, s, ptr, what):
        E, L = self.E, self.L
        x = self.data_of(s, ptr, what)
        if x is None:
            return
        b, start, T, off, n = x
        s = s.fork()
        c = s.objs[b.obj].cells
        bnum, al, nch = bv(c[L.bnum][1], 32), bv(c[L.alloc][1], 32), bv(c[L.chars][1], 32)
        d = s.objs[start.obj]
        NC, m = bv(T.NC, 64), bv(T.m, 64)
        E.prove(s, And(ULE(z64(off), NC), ULE(z64(n), NC - z64(off))), what + ': invariant: section within its text')
        E.prove(s, Or(z64(n) != 0, NC == 0), what + ': invariant: an empty string uses an empty text')
        E.prove(s, z64(bnum) == m + 1, what + ': invariant: the text and one more byte')
        E.prove(s, And(ULE(z64(bnum), bv(d.len, 64)), Or(al == 0, z64(al) == bv(d.len, 64))), what + ': invariant: body within its buffer')
        if d.heap:
            E.prove(s, al != 0, what + ': invariant: owned buffer is known as owned')
            E.prove(s, bv(E.arr_read(d, simp(m)), 8) == 0, what + ': invariant: owned text ends with a NUL', terms=[m])
        else:
            E.prove(s, al == 0, what + ': invariant: borrowed buffer is known as borrowed')
        E.prove(s, Or(nch == 0, z64(nch) == NC), what + ': invariant: cached count is right')
        o = s.objs[ptr.obj]
        mc, mb = self.mark_of(s, ptr)
        E.prove(s, And(self.mark_ok(s, T, mc, mb, off, n)), what + ': invariant: the bookmark is right')

    def mark_of(self, s, ptr):
        L = self.L
        g = lambda off: bv(self.E._cell_load(s, ptr.obj, ptr.idx + off, 4, ('i', 32)), 32)
        return g(L.mark), g(L.mark + 4)

    def unchanged(self, s, b, what):
        if b.tag == 'null':
            d, d0 = s.objs[b.data], self.st0.objs[b.data]
            self.E.prove(s, z3.BoolVal(d.log == d0.log), what + ': the empty text is unchanged')
            return
        super().unchanged(s, b, what)


class Contracts(arr.BodyContracts):
    """the body's operations over texts; callers are checked against these, the bodies against them in separate tasks"""
    NTH = 'StrBodyI<unsigned int>::nthChar(unsigned int, StrBookmark<unsigned int>&)'
    NUM = 'StrBodyI<unsigned int>::numChars()'
    LEN = 'UTF8Len(char const*)'
    GET = 'UTF8Get(char const*&)'
    BACK = 'UTF8Backup(char const*, char const*)'
    PUT = 'UTF8Put(char*&, char32_t)'

    COPY = 'StrValI<unsigned int>::copyBody()'
    UNSH = 'StrValI<unsigned int>::Unshare()'
    merge = False       # only values matter: a body that may have lost its last user is not looked at again
    INS = 'StrValI<unsigned int>::insert(unsigned int, StrValI<unsigned int> const&)'
    NTHC = 'StrValI<unsigned int>::nthChar(unsigned int) const'
    DATA = 'StrRefI<unsigned int>::StrRefI(char const*, unsigned int, unsigned long)'
    NTHN = 'StrValI<unsigned int>::nthChar(unsigned int)'
    IDX = 'StrValI<unsigned int>::operator[](int) const'
    CMP = 'StrValI<unsigned int>::compare(StrValI<unsigned int> const&, StrValI<unsigned int>::CompareStyle) const'

    def install(self, body=True, chars=True, vals=True, verifying=None):
        E = self.E
        self.verifying = verifying
        if body:
            super().install()
        if vals:
            for d, h in ((self.COPY, self.copybody), (self.UNSH, self.unshare), (self.INS, self.strinsert), (self.DATA, self.datactor), (self.NTHC, self.nthc), (self.NTHN, self.nthn), (self.IDX, self.index), (self.CMP, self.cmp)):
                if d != verifying or d in (self.COPY, self.INS, self.DATA, self.UNSH):
                    for k in [k for k, v in E.mod.dem.items() if v == d]:
                        E.contracts[k] = h
        for d, h in ((self.LEN, self.u8len), (self.GET, self.u8get), (self.BACK, self.u8back), (self.PUT, self.u8put)) + (((self.NTH, self.nth), (self.NUM, self.num)) if chars else ()):
            for k in [k for k, v in E.mod.dem.items() if v == d]:
                E.contracts[k] = h
        E.contracts['@strlen'] = self.strlen

    # ---- sources of bytes
    def readable(self, s, el, num, what):
        E = self.E
        if isinstance(el, Ptr) and el.obj and s.objs[el.obj].kind == 'cells':
            d = s.objs[el.obj]
            E.prove(s, z3.BoolVal(bool(d.alive) and isint(el.idx)), what + ' (live)')
            return E.prove(s, ULE(z64(num), V(d.len - el.idx, 64)), what)
        return super().readable(s, el, num, what)

    def reader(self, s, el):
        o, E = s.objs[el.obj], self.E
        if o.kind == 'cells':
            xs = [(k, E._cell_load(s, el.obj, el.idx + k, 1, ('i', 8))) for k in range(o.len - el.idx) if el.idx + k in o.cells]

            def rd(d):
                x = V(0, 8)
                for k, y in xs:
                    x = If(bv(d, 64) == k, bv(y, 8), x)
                return simp(x)
            return rd
        return super().reader(s, el)

    def strlen(self, E, st, args, dem):
        p = args[0]
        if not isinstance(p, Ptr) or p.obj == 0:
            return NotImplemented
        o = st.objs[p.obj]
        T = self.w.text(st, p.obj)
        if T is None:
            return NotImplemented
        E.prove(st, And(z3.BoolVal(bool(o.alive)), ULE(bv(p.idx, 64), bv(T.m, 64)), ULT(bv(T.m, 64), bv(o.len, 64)), bv(E.arr_read(o, simp(bv(T.m, 64))), 8) == 0),
                'strlen: the text ends with a NUL', terms=[T.m])
        if isinstance(T, Empty):
            return [(st, 0)]
        nz = ('nonul', p.obj)
        if nz in st.ghost:
            return [(st, simp(bv(T.m, 64) - bv(p.idx, 64)))]
        # the text may contain NUL characters: only at its end is the result known
        E.prove(st, bv(p.idx, 64) == bv(T.m, 64), 'strlen: the bytes before the terminating NUL contain no other')
        return [(st, 0)]

    def body_text(self, st, this, what):
        L = self.L
        o = st.objs[this.obj]
        start = o.cells[L.start][1]
        if isnull(start):
            return None, None
        if not o.alive or not st.objs[start.obj].alive:
            self.E.fail(st, what + ': the body is alive')
            return None, None
        T = self.w.text(st, start.obj)
        if T is None:
            self.E.fail(st, what + ': the bytes of the body are a known text')
        return start, T

    # ---- decoding, on texts
    def at_char(self, st, p, what, end=False):
        """(text, index) of the character at p"""
        E = self.E
        T = self.w.text(st, p.obj) if isinstance(p, Ptr) and p.obj else None
        if T is None:
            E.fail(st, what + ': the position is in a known text')
            return None, None
        x = bv(p.idx, 64)
        k = bv(T.I(st, x), 64)
        E.prove(st, And(ULE(k, bv(T.NC, 64)) if end else ULT(k, bv(T.NC, 64)), bv(T.P(st, k), 64) == x), what + ': the position is the start of a character')
        return T, k

    def known(self, st, p):
        return isinstance(p, Ptr) and p.obj != 0 and ('text', p.obj) in st.ghost

    def u8len(self, E, st, args, dem):
        if not self.known(st, args[0]):
            return NotImplemented
        T, k = self.at_char(st, args[0], 'UTF8Len')
        if T is None:
            return []
        r = bv(T.step(st, k), 64) - bv(T.P(st, k), 64)
        return [(st, lo32(r))]

    def u8get(self, E, st, args, dem):
        p = E.load(st, args[0], ('ptr',))
        if not self.known(st, p):
            return NotImplemented
        T, k = self.at_char(st, p, 'UTF8Get')
        if T is None:
            return []
        E.store(st, args[0], Ptr(p.obj, bv(T.step(st, k), 64)), ('ptr',))
        return [(st, T.CH(st, k))]

    def u8back(self, E, st, args, dem):
        p, lim = args
        if not self.known(st, p):
            return NotImplemented
        T, k = self.at_char(st, p, 'UTF8Backup', True)
        if T is None:
            return []
        E.prove(st, z3.BoolVal(isinstance(lim, Ptr) and lim.obj == p.obj and isint(lim.idx) and lim.idx == 0), 'UTF8Backup: the limit is the start of the text')
        out = []
        s0 = st.fork()
        s0.assume(k == 0)
        if E.feasible(s0):
            out.append((s0, NULL))
        st.assume(k != 0)
        if E.feasible(st):
            T.step(st, k - 1)
            out.append((st, Ptr(p.obj, bv(T.P(st, k - 1), 64))))
        return out

    def u8put(self, E, st, args, dem):
        p, ch = E.load(st, args[0], ('ptr',)), bv(args[1], 32)
        if not isinstance(p, Ptr) or not isint(p.idx):
            return NotImplemented
        E.prove(st, Not(U.illegal(ch)), 'UTF8Put: a character, not the marker of an undecodable byte')
        out = []
        for L in range(1, 7):
            s = st.fork()
            s.assume(U.enclen(ch) == L)
            if not E.feasible(s):
                continue
            for k in range(L):
                E.store(s, Ptr(p.obj, p.idx + k), simp(U.encbyte(ch, L, k)), ('i', 8))
            E.store(s, args[0], Ptr(p.obj, p.idx + L), ('ptr',))
            if p.idx == 0:
                s.ghost[('chr', p.obj)] = (L, ch)
            out.append((s, None))
        return out

    def char_buf(self, st, p):
        """a local buffer that holds one encoded character and a NUL"""
        g = st.ghost.get(('chr', p.obj))
        if g is None:
            return None
        L, ch = g
        E = self.E
        o = st.objs[p.obj]
        ok = And([bv(E.load(st, Ptr(p.obj, k), ('i', 8)), 8) == U.encbyte(ch, L, k) for k in range(L)])
        if E.prove(st, ok, 'the buffer holds the encoded character'):
            return One(L, ch)
        return None

    def source(self, st, p):
        if not isinstance(p, Ptr) or p.obj == 0:
            return None
        T = self.w.text(st, p.obj)
        if T is None and ('chr', p.obj) in st.ghost:
            T = self.char_buf(st, p)
            if T is not None and st.objs[p.obj].kind == 'arr':
                self.w.settext(st, p.obj, T)
        return T

    # ---- the character table of a body
    def num(self, E, st, args, dem):
        """ensures: the number of characters; it may be remembered"""
        this, = args
        L = self.L
        start, T = self.body_text_local(st, this)
        if T is None:
            return NotImplemented
        f0 = bv(st.objs[this.obj].cells[L.chars][1], 32)
        if isint(simp(f0)) and simp(f0) == 0xFFFFFFFF:
            return NotImplemented
        E.prove(st, And(self.w.body_ok(T, f0, st.objs[this.obj].cells[L.bnum][1])), 'numChars: the body is a text and its count is right')
        E._cell_store(st.w(this.obj), L.chars, 4, lo32(T.NC))
        return [(st, lo32(T.NC))]

    def body_text_local(self, st, this):
        L = self.L
        start = st.objs[this.obj].cells[L.start][1]
        if isnull(start):
            return None, None
        T = self.source(st, start)
        if T is None:
            self.E.fail(st, 'the bytes of the body are a known text')
        return start, T

    def nth(self, E, st, args, dem):
        """requires k <= the number of characters and a right bookmark.  ensures: the start of the k-th character; the bookmark stays right"""
        this, k, mark = args
        L = self.L
        start, T = self.body_text_local(st, this)
        if T is None:
            return NotImplemented
        k = bv(k, 32)
        o = st.objs[this.obj]
        f0 = bv(o.cells[L.chars][1], 32)
        k64 = self.w64(st, k)
        E.prove(st, ULE(k64, bv(T.NC, 64)), 'nthChar: the index is within the text')
        st.assume(ULE(k64, bv(T.NC, 64)))
        E.prove(st, And(self.w.body_ok(T, f0, o.cells[L.bnum][1])), 'nthChar: the body is a text and its count is right')
        g = lambda off: bv(E._cell_load(st, mark.obj, mark.idx + off, 4, ('i', 32)), 32)
        mc, mb = g(0), g(4)
        E.prove(st, And(self.w.mark_ok(st, T, mc, mb)), 'nthChar: the bookmark is right')
        p = bv(T.P(st, k64), 64)
        self.counted(st, this, T)
        mc1, mb1 = E.fresh('mc', 32), E.fresh('mb', 32)
        st.assume(Or(And(mc1 == mc, mb1 == mb), And(mc1 == k, z64(mb1) == p)))
        for f in self.w.mark_ok(st, T, mc1, mb1):
            st.assume(f)
        E._cell_store(st.w(mark.obj), mark.idx, 4, mc1)
        E._cell_store(st.w(mark.obj), mark.idx + 4, 4, mb1)
        return [(st, Ptr(start.obj, p))]

    def counted(self, st, body, T):
        """the characters may have been counted"""
        E, L = self.E, self.L
        f1 = E.fresh('chars', 32)
        st.assume(self.w.body_ok(T, f1, st.objs[body.obj].cells[L.bnum][1])[0])
        E._cell_store(st.w(body.obj), L.chars, 4, f1)

    # ---- StrVal's own building blocks
    def sv(self, st, p, what):
        """(body, start, text, offset, n) of the StrVal at p, after checking what every operation needs of it"""
        E, L = self.E, self.L
        if not isinstance(p, Ptr) or not p.obj or not isint(p.idx):
            return None
        b, off, n = self.w.view(st, p)
        if not isinstance(b, Ptr) or isnull(b) or not st.objs[b.obj].alive or not isint(simp(b.idx)) or simp(b.idx) != 0:
            E.fail(st, what + ': the body is alive')
            return None
        start, T = self.body_text_local(st, b)
        if T is None:
            return None
        if not st.objs[start.obj].alive:
            E.fail(st, what + ': the data is alive')
            return None
        o = st.objs[b.obj]
        E.prove(st, And(self.w.body_ok(T, o.cells[L.chars][1], o.cells[L.bnum][1])), what + ': the body is a text and its count is right')
        NC = bv(T.NC, 64)
        sec = self.section_ok(T, off, n)
        E.prove(st, sec, what + ': the section is within its text')
        st.assume(sec)
        E.prove(st, And(self.w.mark_ok(st, T, *self.w.mark_of(st, p))), what + ': the bookmark is right')
        return b, start, T, off, n

    @staticmethod
    def section_ok(T, off, n):
        NC = bv(T.NC, 64)
        return And(ULE(z64(off), NC), ULE(z64(n), NC - z64(off)))

    def val(self, st, start, T, off, n):
        p0 = bv(T.P(st, z64(off)), 64)
        o, E = st.objs[start.obj].copy(), self.E
        return Val(sub(st, T, z64(off), z64(n)), lambda q: E.arr_read(o, simp(p0 + bv(q, 64))))

    def nthc(self, E, st, args, dem):
        return self.nthv(st, args, False)

    def nthn(self, E, st, args, dem):
        return self.nthv(st, args, True)

    def index(self, E, st, args, dem):
        """ensures: the character there, NUL at the end, no character beyond"""
        this, k = args
        x = self.sv(st, this, 'operator[]')
        if x is None:
            return NotImplemented
        b, start, T, off, n = x
        k, n = bv(k, 32), bv(n, 32)
        self.counted(st, b, T)
        c = T.CH(st, simp(z64(off) + z64(k)))
        return [(st, simp(If(ULT(k, n), c, If(k == n, V(0, 32), V(0xFFFFFFFF, 32)))))]

    def cmp(self, E, st, args, dem):
        """ensures: negative, zero or positive as the byte order of the two texts"""
        a, b, style = args
        if not (isint(style) and style == 0):
            return NotImplemented
        xa, xb = self.sv(st, a, 'compare'), self.sv(st, b, 'compare')
        if xa is None or xb is None:
            return NotImplemented
        self.counted(st, xa[0], xa[2])
        self.counted(st, xb[0], xb[2])
        r = E.fresh('cmp', 32)
        g = getattr(E, 'prefix', None)
        if g is not None:
            x, y, lt, eq = g
            rev = (a.obj, b.obj) == (y.ptr.obj, x.ptr.obj) and x is not y
            if (a.obj, b.obj) != (x.ptr.obj, y.ptr.obj) and not rev:
                return NotImplemented
            st.assume(And((r > 0 if rev else r < 0) == lt, (r == 0) == eq))
        return [(st, r)]

    def nthv(self, st, args, save):
        """ensures: the start of the k-th character of the section (its end, for k = length), null beyond; a bookmark that is right stays right"""
        E, L = self.E, self.L
        this, k = args
        x = self.sv(st, this, 'nthChar')
        if x is None:
            return NotImplemented
        b, start, T, off, n = x
        k = bv(k, 32)
        out = []
        s0 = st.fork()
        s0.assume(UGT(k, bv(n, 32)))
        if E.feasible(s0):
            out.append((s0, NULL))
        st.assume(ULE(k, bv(n, 32)))
        if not E.feasible(st):
            return out
        p = bv(T.P(st, simp(z64(off) + z64(k))), 64)
        self.counted(st, b, T)
        if save:
            self.new_mark(st, this, T, off, n)
        out.append((st, Ptr(start.obj, p)))
        return out

    def new_mark(self, st, this, T, off, n):
        E, L = self.E, self.L
        mc, mb = E.fresh('mc', 32), E.fresh('mb', 32)
        for f in self.w.mark_ok(st, T, mc, mb, off, n):
            st.assume(f)
        E._cell_store(st.w(this.obj), this.idx + L.mark, 4, mc)
        E._cell_store(st.w(this.obj), this.idx + L.mark + 4, 4, mb)

    def release(self, st, b, start):
        """one user less: the states after"""
        E, L = self.E, self.L
        rc = bv(st.objs[b.obj].cells[L.ref][1], 32)
        out = []
        s = st.fork()
        s.assume(rc == 1)
        if E.feasible(s):
            s.w(b.obj).alive = False
            if s.objs[start.obj].heap:
                s.w(start.obj).alive = False
            if self.merge:
                o = st.fork()
                o.w(b.obj).alive = False
                if o.objs[start.obj].heap:
                    o.w(start.obj).alive = False
                return [o]
            out.append(s)
        s = st.fork()
        s.assume(rc != 1)
        if E.feasible(s):
            E._cell_store(s.w(b.obj), L.ref, 4, simp(rc - 1))
            out.append(s)
        return out

    def install_value(self, s, this, val):
        """a new body, used by `this` only, holds the value"""
        E, L = self.E, self.L
        nb = E.new_cells(s, L.sizeB, 'body_new', heap='new')
        c = s.w(nb).cells
        for off, x in s.objs[self.w.proto.obj].cells.items():
            c[off] = x
        al = E.fresh('alloc', 32)
        M = bv(simp(val.M), 64)
        E.prove(s, ULE(M, V(8 * MAXN, 64)), 'the new text is within the size bound')
        s.assume(And(ULE(M, V(8 * MAXN, 64)), ULE(M + 1, z64(al)), ULE(al, V(32 * MAXN, 32))))
        d = E.new_arr(s, 1, z64(al), 'data_new', heap='new[]')
        s.w(d).log = (('rng', 0, M, val.at), ('pt', M, V(0, 8)))
        bnum = lo32(M + 1)
        for off, n, x in ((L.ref, 4, 1), (L.start, 8, Ptr(d, 0)), (L.bnum, 4, bnum), (L.alloc, 4, al)):
            E._cell_store(s.w(nb), off, n, x)
        self.w.settext(s, d, val.tx)
        E._cell_store(s.w(this.obj), this.idx + L.body, 8, Ptr(nb, 0))
        E._cell_store(s.w(this.obj), this.idx + L.offset, 4, 0)
        n = lo32(val.N)
        s.assume(And(z64(bnum) == M + 1, z64(n) == val.N))
        E._cell_store(s.w(this.obj), this.idx + L.num, 4, n)
        self.counted(s, Ptr(nb, 0), val.tx)
        s.assume(self.section_ok(val.tx, 0, n))
        self.new_mark(s, this, val.tx, 0, n)

    def nested(self, st, key):
        """False on the call whose body is being verified"""
        if key == self.verifying and not st.ghost.get(('in', key)):
            st.ghost[('in', key)] = True
            return False
        return True

    verifying = None

    def copybody(self, E, st, args, dem):
        """ensures: `this` has the same characters in a new body that nobody else uses; one user less of the old body"""
        if not self.nested(st, self.COPY):
            return NotImplemented
        this, = args
        x = self.sv(st, this, 'copyBody')
        if x is None:
            return NotImplemented
        b, start, T, off, n = x
        E.prove(st, Implies(z64(n) == 0, bv(T.NC, 64) == 0), 'copyBody: an empty string uses an empty text')
        v = self.val(st, start, T, off, n)
        self.counted(st, b, T)
        out = self.release(st, b, start)
        for s in out:
            self.install_value(s, this, v)
        return [(s, None) for s in out]

    def unshare(self, E, st, args, dem):
        """ensures: `this` has the same characters, all those of a body nobody else uses: the one it had, unchanged, or a new one"""
        if not self.nested(st, self.UNSH):
            return NotImplemented
        this, = args
        x = self.sv(st, this, 'Unshare')
        if x is None:
            return NotImplemented
        b, start, T, off, n = x
        E.prove(st, Implies(z64(n) == 0, bv(T.NC, 64) == 0), 'Unshare: an empty string uses an empty text')
        v = self.val(st, start, T, off, n)
        self.counted(st, b, T)
        out = []
        s = st.fork()
        s.assume(And(bv(off, 32) == 0, z64(n) == bv(T.NC, 64), bv(st.objs[b.obj].cells[self.L.ref][1], 32) == 1))
        if E.feasible(s):
            out.append(s)
        for s in self.release(st, b, start):
            self.install_value(s, this, v)
            out.append(s)
        return [(s, None) for s in out]

    def strinsert(self, E, st, args, dem):
        """requires pos <= length.  ensures: the addend's characters are at pos, the others around them; either `this` was extended over the
        adjoining section of the same body, or it has a body of its own and the old one has one user less"""
        if not self.nested(st, self.INS):
            return NotImplemented
        this, pos, other = args
        x, y = self.sv(st, this, 'insert'), self.sv(st, other, 'insert (addend)')
        if x is None or y is None:
            return NotImplemented
        b, start, T, off, n = x
        b2, start2, T2, off2, n2 = y
        pos, n, off = bv(pos, 32), bv(n, 32), bv(off, 32)
        E.prove(st, ULE(pos, n), 'insert: the position is within the string')
        st.assume(ULE(pos, n))
        for nn, tt, w_ in ((n, T, ''), (n2, T2, ' (addend)')):
            E.prove(st, Implies(z64(nn) == 0, bv(tt.NC, 64) == 0), 'insert%s: an empty string uses an empty text' % w_)
        adj = And(pos == n, simp(off + pos) == bv(off2, 32)) if b.obj == b2.obj else z3.BoolVal(False)
        out = []
        s = st.fork()
        s.assume(adj)
        if E.feasible(s):
            s.assume(z64(simp(n + bv(n2, 32))) == z64(n) + z64(n2))
            self.counted(s, b, T)
            E._cell_store(s.w(this.obj), this.idx + self.L.num, 4, simp(n + bv(n2, 32)))
            s.assume(self.section_ok(T, off, simp(n + bv(n2, 32))))
            out.append((s, this))
        s = st.fork()
        s.assume(Not(adj))
        if not E.feasible(s):
            return out
        va, vb = self.val(s, start, T, off, n), self.val(s, start2, T2, off2, n2)
        v = va.sub(s, V(0, 64), z64(pos)).cat(s, vb)
        rest = simp(z64(n) - z64(pos))
        if not (isint(rest) and rest == 0):
            v = v.cat(s, va.sub(s, z64(pos), rest))
        self.counted(s, b, T)
        if b2.obj != b.obj:
            self.counted(s, b2, T2)
        for s2 in self.release(s, b, start):
            self.install_value(s2, this, v)
            out.append((s2, this))
        return out

    def datactor(self, E, st, args, dem):
        """requires a section of a text.  ensures: a string of those characters, with a body of its own unless it is empty"""
        if not self.nested(st, self.DATA):
            return NotImplemented
        this, data, n, al = args
        L = self.L
        n, al = bv(n, 32), bv(al, 64)
        out = []
        s0 = st.fork()
        s0.assume(n == 0)
        if E.feasible(s0):
            nb = self.w.bodies['null'].oid
            E._cell_store(s0.w(this.obj), this.idx + L.body, 8, Ptr(nb, 0))
            E._cell_store(s0.w(nb), L.ref, 4, simp(bv(s0.objs[nb].cells[L.ref][1], 32) + 1))
            E._cell_store(s0.w(this.obj), this.idx + L.offset, 4, 0)
            E._cell_store(s0.w(this.obj), this.idx + L.num, 4, 0)
            out.append((s0, None))
        st.assume(n != 0)
        if not E.feasible(st):
            return out
        T = self.source(st, data)
        if T is None:
            return NotImplemented
        E.prove(st, ULE(al, V(4 * MAXN, 64)), 'StrVal(data, length, allocate): the allocation is within the size bound')
        x = bv(data.idx, 64)
        E.prove(st, z3.BoolVal(bool(st.objs[data.obj].alive)), 'StrVal(data, length): the data is alive')
        lo = self.boundary(st, T, x, 'StrVal(data, length): whole characters')
        hi = self.boundary(st, T, simp(x + self.w64(st, n)), 'StrVal(data, length): whole characters')
        E.prove(st, ULE(lo, hi), 'StrVal(data, length): a section of the text')
        o = st.objs[data.obj].copy()
        v = Val(sub(st, T, lo, simp(hi - lo)), lambda q: E.arr_read(o, simp(x + bv(q, 64))))
        m0, m1 = (E._cell_load(st, this.obj, this.idx + L.mark + k, 4, ('i', 32)) if this.idx + L.mark + k in st.objs[this.obj].cells else None for k in (0, 4))
        self.install_value(st, this, v)
        for k, m in ((0, m0), (4, m1)):
            c = st.w(this.obj).cells
            if m is None:
                c.pop(this.idx + L.mark + k, None)
            else:
                E._cell_store(st.w(this.obj), this.idx + L.mark + k, 4, m)
        out.append((st, None))
        return out

    # ---- texts of what is built
    def ctor(self, E, st, args, dem):
        this, data, copy, n, al = args
        if not (isint(copy) and copy & 1):
            return NotImplemented
        T = self.source(st, data)
        r = super().ctor(E, st, args, dem)
        if r is NotImplemented:
            return r
        for s, _ in r:
            start = s.objs[this.obj].cells[self.L.start][1]
            if isnull(start) or T is None:
                continue
            x, N = bv(data.idx, 64), self.w64(s, n)
            if E.prove(s, And(bv(E.arr_read(s.objs[data.obj], simp(bv(T.m, 64))), 8) == 0, simp(x + N) == bv(T.m, 64) + 1), 'q', quiet=True):
                end = bv(T.NC, 64)
            else:
                end = self.boundary(s, T, simp(x + N), 'ArrayBody(data): whole characters are copied')
            lo = self.boundary(s, T, x, 'ArrayBody(data): whole characters are copied')
            E.prove(s, ULE(lo, end), 'ArrayBody(data): a section of the text is copied')
            self.w.settext(s, start.obj, sub(s, T, lo, simp(end - lo)))
        return r

    def w64(self, st, v):
        """the 32-bit v as a 64-bit value, without wrapping where that is provable"""
        r = self.E.widen(st, v, False)
        return bv(r, 64) if r is not None else z64(v)

    def boundary(self, s, T, x, what):
        k = bv(T.I(s, x), 64)
        self.E.prove(s, And(ULE(k, bv(T.NC, 64)), bv(T.P(s, k), 64) == bv(x, 64)), what)
        return k

    def insert(self, E, st, args, dem):
        this, pos, el, num = args
        L = self.L
        c = st.objs[this.obj].cells
        start0, bnum0 = c[L.start][1], bv(c[L.bnum][1], 32)
        T = Empty() if isnull(start0) else self.w.text(st, start0.obj)
        o = st.objs.get(el.obj) if isinstance(el, Ptr) else None
        nul = o is not None and isinstance(o.base, (bytes, list, tuple)) and isint(el.idx) and el.idx < len(o.base) and o.base[el.idx] == 0 and isint(num) and num == 1
        T2 = None if nul else self.source(st, el)
        r = super().insert(E, st, args, dem)
        if r is NotImplemented:
            return r
        for s, _ in r:
            start = s.objs[this.obj].cells[L.start][1]
            if isnull(start):
                continue
            bn = s.objs[this.obj].cells[L.bnum][1]
            if start.obj == (start0.obj if not isnull(start0) else 0) and s.objs[start.obj].log is st.objs[start.obj].log:
                continue        # nothing inserted
            if nul:
                if T is not None:
                    E.prove(s, And(z64(pos) == bv(T.m, 64), z64(bnum0) == bv(T.m, 64)), 'the terminating NUL is put after the text')
                    self.w.settext(s, start.obj, T)
                continue
            if T is None or T2 is None:
                continue
            x = bv(el.idx, 64)
            p = self.boundary(s, T, self.w64(s, pos), 'insert: at the start of a character')
            lo = self.boundary(s, T2, x, 'insert: whole characters')
            hi = self.boundary(s, T2, simp(x + self.w64(s, num)), 'insert: whole characters')
            E.prove(s, ULE(lo, hi), 'insert: a section of the text')
            mid = sub(s, T2, lo, simp(hi - lo))
            t = Cat(s, sub(s, T, 0, p), mid)
            rest = simp(bv(T.NC, 64) - p)
            if not (isint(rest) and rest == 0):
                t = Cat(s, t, sub(s, T, p, rest))
            self.w.settext(s, start.obj, t)
        return r


def setup(E):
    E.new_elem = 1
    E.unroll_first = False
    E.wide = True
    E.wide_ms = 1500
