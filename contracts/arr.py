"""State and specification vocabulary for include/array.h, shared by C09, C10 and C11.

A slice is {body, offset, num_elements}; its value is the sequence data[offset .. offset+num_elements).
Representation invariant (assumed of every operand, proved of every result):
  body null:      offset and num_elements are 0
  body non-null:  ref_count is the number of slices that use it (plus one for borrowed data), offset+num_elements <= body length,
                  and the body's data is a live buffer of num_alloc >= length elements, or borrowed data of exactly `length` elements.
"""
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from sym import boolv, Ptr, bv, State, Forall, NULL, sub64, isint, isnull, conc, simp

MAXN = 1 << 26
ESZ = 4
W = 32


class Layout:
    _c = {}

    def __init__(self, E):
        self.E = E
        for k in ('sizeA', 'sizeB', 'body', 'offset', 'num', 'ref', 'start', 'bnum', 'alloc'):
            setattr(self, k, self.const('L_' + k))

    def const(self, fn):
        r = [x for _, x in self.E.run(State(), fn, [])]
        assert len(r) == 1 and isint(r[0])
        return r[0]


class Slice:
    """an operand"""
    pass


class World:
    def __init__(self, E):
        self.E, self.st = E, State()
        self.L = Layout(E)
        self.ops = {}
        self.bodies = {}
        r = list(E.run(self.st, 'mk_body', []))
        assert len(r) == 1
        self.st, self.proto = r[0]
        E.inputs = {}

    def cell(self, oid, off):
        return self.st.objs[oid].cells[off][1]

    def new_body(self, tag, kind):
        """kind: heap, static, nobuf"""
        E, st, L = self.E, self.st, self.L
        b = Slice()
        b.tag, b.kind = tag, kind
        b.oid = E.new_cells(st, L.sizeB, 'body_' + tag, heap='new')
        b.cells0 = None
        c = st.w(b.oid).cells
        for off, x in st.objs[self.proto.obj].cells.items():
            c[off] = x
        b.rc = z3.BitVec('rc_' + tag, 32)
        b.bnum, b.al = z3.BitVec('len_' + tag, 32), z3.BitVec('alloc_' + tag, 32)
        st.assume(And(b.rc >= (2 if kind == 'static' else 1), b.rc < (1 << 28)))
        if kind == 'nobuf':
            b.bnum = b.al = 0
            b.data = None
            b.base = None
            start = NULL
        else:
            st.assume(ULE(b.bnum, MAXN))
            b.base = z3.Array('data_' + tag, z3.BitVecSort(64), z3.BitVecSort(W))
            if kind == 'heap':
                st.assume(And(ULE(b.bnum, b.al), ULE(b.al, MAXN), UGE(b.al, 1)))
                b.data = E.new_arr(st, ESZ, z3.ZeroExt(32, b.al), 'data_' + tag, heap='new[]', base=b.base)
            else:
                st.assume(UGE(b.bnum, 1))
                b.al = 0
                b.data = E.new_arr(st, ESZ, z3.ZeroExt(32, b.bnum), 'borrowed_' + tag, base=b.base)
                st.w(b.data).const = True
            start = Ptr(b.data, 0)
        E._cell_store(st.w(b.oid), L.ref, 4, b.rc)
        E._cell_store(st.w(b.oid), L.start, 8, start)
        E._cell_store(st.w(b.oid), L.bnum, 4, b.bnum)
        E._cell_store(st.w(b.oid), L.alloc, 4, b.al)
        b.slices = 0
        self.bodies[tag] = b
        return b

    def slice(self, tag, body):
        """an array variable over body (None: null)"""
        E, st, L = self.E, self.st, self.L
        s = Slice()
        s.tag, s.body = tag, body
        s.oid = E.new_cells(st, L.sizeA, 'array_' + tag)
        s.ptr = Ptr(s.oid, 0)
        o = st.w(s.oid)
        if body is None:
            s.off = s.n = 0
            E._cell_store(o, L.body, 8, NULL)
        else:
            body.slices += 1
            st.assume(body.rc >= V(body.slices + (1 if body.kind == 'static' else 0), 32))
            if body.kind == 'nobuf':
                s.off = s.n = 0
            else:
                s.off, s.n = z3.BitVec('off_' + tag, 32), z3.BitVec('n_' + tag, 32)
                st.assume(And(ULE(s.off, body.bnum), ULE(s.n, body.bnum - s.off)))
            E._cell_store(o, L.body, 8, Ptr(body.oid, 0))
        E._cell_store(o, L.offset, 4, s.off)
        E._cell_store(o, L.num, 4, s.n)
        self.ops[tag] = s
        n, off = s.n, s.off
        if body is not None and body.base is not None:
            base = body.base
            s.at = lambda j: z3.Select(base, z3.ZeroExt(32, bv(off, 32)) + bv(j, 64))
        else:
            s.at = lambda j: V(0, W)
        s.N = z3.ZeroExt(32, bv(n, 32))
        E.inputs['n_' + tag] = s.n
        E.inputs['kind_' + tag] = 'null' if body is None else body.kind
        E.inputs['off_' + tag] = s.off
        if body is not None:
            E.inputs['rc_' + body.tag] = body.rc
            E.inputs['blen_' + body.tag] = body.bnum
            E.inputs['shared_with'] = body.tag
            if body.base is not None:
                for k in range(8):
                    E.inputs['%s%d' % (tag, k)] = s.at(k)
        return s

    def scen(self, kind, tag='a'):
        return self.slice(tag, None if kind == 'null' else self.new_body(tag, kind))

    def result(self):
        """uninitialised storage for a returned array"""
        return Ptr(self.E.new_cells(self.st, self.L.sizeA, 'array_r'), 0)

    def buf(self, name, n=1):
        """caller's int variable(s)"""
        base = z3.Array('buf_' + name, z3.BitVecSort(64), z3.BitVecSort(W))
        oid = self.E.new_arr(self.st, ESZ, n, name, base=base)
        p = Ptr(oid, 0)
        p_at = lambda j: z3.Select(base, bv(j, 64))
        self.E.inputs[name] = p_at(0)
        return p, p_at

    # ------------------------------------------------------------------ postconditions
    def view(self, s, ptr):
        """(body oid or None, offset, num) of an array variable in state s"""
        L = self.L
        o = s.objs[ptr.obj]
        g = lambda off, n: self.E._cell_load(s, ptr.obj, ptr.idx + off, n, ('i', 8 * n) if n < 8 else ('ptr',))
        b, off, n = g(L.body, 8), g(L.offset, 4), g(L.num, 4)
        return b, off, n

    def same_value(self, s, ptr, N, at, what, j=None):
        """the array at ptr has exactly the N elements at(0..N)"""
        E, L = self.E, self.L
        b, off, n = self.view(s, ptr)
        N = bv(N, 64)
        E.prove(s, z3.ZeroExt(32, bv(n, 32)) == N, what + ': length')
        if isnull(b):
            E.prove(s, N == 0, what + ': null array is empty')
            return
        o = s.objs.get(b.obj)
        if o is None or not o.alive:
            E.fail(s, what + ': body is alive')
            return
        start = o.cells[L.start][1]
        if isnull(start):
            E.prove(s, N == 0, what + ': array without data is empty')
            return
        d = s.objs[start.obj]
        if not d.alive:
            E.fail(s, what + ': data is alive')
            return
        j = E.fresh('j', 64) if j is None else j
        s2 = s.fork()
        s2.assume(ULT(j, N))
        if not E.feasible(s2):
            return
        idx = simp(z3.ZeroExt(32, bv(off, 32)) + j)
        got = E.arr_read(d, simp(idx + bv(start.idx, 64)))
        E.prove(s2, bv(got, W) == bv(at(j), W), what + ': every element', terms=[idx, j])

    def wf(self, s, ptr, what):
        """representation invariant of a result"""
        E, L = self.E, self.L
        b, off, n = self.view(s, ptr)
        if isnull(b):
            E.prove(s, bv(n, 32) == 0, what + ': invariant: null array is empty')
            return
        o = s.objs.get(b.obj)
        if o is None or not o.alive:
            E.fail(s, what + ': invariant: body is alive')
            return
        c = o.cells
        bnum, al, start = c[L.bnum][1], c[L.alloc][1], c[L.start][1]
        E.prove(s, And(ULE(bv(off, 32), bv(bnum, 32)), ULE(bv(n, 32), bv(bnum, 32) - bv(off, 32))), what + ': invariant: slice within its body')
        if isnull(start):
            E.prove(s, And(bv(bnum, 32) == 0, bv(al, 32) == 0), what + ': invariant: no data, no elements')
        else:
            d = s.objs[start.obj]
            ln = bv(d.len, 64)
            E.prove(s, And(ULE(z3.ZeroExt(32, bv(bnum, 32)), ln), Or(bv(al, 32) == 0, z3.ZeroExt(32, bv(al, 32)) == ln)), what + ': invariant: body within its buffer')
            E.prove(s, z3.BoolVal(bool(d.alive) and start.idx == 0), what + ': invariant: the buffer is live')
            if d.heap:
                E.prove(s, bv(al, 32) != 0, what + ': invariant: owned buffer is known as owned')
            else:
                E.prove(s, bv(al, 32) == 0, what + ': invariant: borrowed buffer is known as borrowed')

    def isolation(self, s, what):
        """a body that other slices use, and borrowed data, are never changed"""
        E, L = self.E, self.L
        for b in self.bodies.values():
            o = s.objs[b.oid]
            others = b.rc > V(b.slices + (1 if b.kind == 'static' else 0), 32)
            touched = []
            alive = o.alive
            # "others": some slice outside the operands still uses the body
            sh = s.fork()
            sh.assume(others)
            if not E.feasible(sh):
                continue
            E.prove(sh, z3.BoolVal(bool(alive)), what + ': a shared body is not freed')
            if not alive:
                continue
            for off, v0, w in ((L.bnum, b.bnum, 32), (L.alloc, b.al, 32)):
                E.prove(sh, bv(o.cells[off][1], w) == bv(v0, w), what + ': fields of a shared body unchanged')
            st_ = o.cells[L.start][1]
            E.prove(sh, z3.BoolVal(isnull(st_) if b.data is None else (isinstance(st_, Ptr) and st_.obj == b.data and isint(st_.idx) and st_.idx == 0)), what + ': buffer of a shared body unchanged')
            if b.data is not None:
                d = s.objs[b.data]
                E.prove(sh, z3.BoolVal(bool(d.alive)), what + ': buffer of a shared body not freed')
                self.unchanged(sh, b, what)

    def unchanged(self, s, b, what):
        d, d0 = s.objs[b.data], self.st0.objs[b.data]
        if d.log == d0.log and d.base is d0.base:
            self.E.prove(s, z3.BoolVal(True), what + ': elements of a shared body unchanged')
            return
        j = self.E.fresh('j', 64)
        s = s.fork()
        s.assume(ULT(j, z3.ZeroExt(32, bv(b.bnum, 32))))
        self.E.prove(s, bv(self.E.arr_read(d, j), W) == z3.Select(b.base, j), what + ': elements of a shared body unchanged', terms=[j])

    def refs(self, s, roots, what):
        """reference counts equal the number of users; unreferenced storage is freed once, referenced storage is not (no leak, no early free)"""
        E, L = self.E, self.L
        uses = {}
        for p in roots:
            b, _, _ = self.view(s, p)
            if not isnull(b):
                uses[b.obj] = uses.get(b.obj, 0) + 1
        reach = set()
        for b in self.bodies.values():
            o = s.objs[b.oid]
            outside = b.rc - V(b.slices, 32)
            want = outside + V(uses.pop(b.oid, 0), 32)
            if o.alive:
                E.prove(s, bv(o.cells[L.ref][1], 32) == want, what + ': reference count is the number of users', )
                E.prove(s, want != 0, what + ': a body without users is freed')
                reach.add(b.oid)
                x = o.cells[L.start][1]
                if not isnull(x):
                    reach.add(x.obj)
            else:
                E.prove(s, want == 0, what + ': a body with users is not freed')
                if b.data is not None and b.kind == 'heap':
                    E.prove(s, z3.BoolVal(not s.objs[b.data].alive), what + ': the buffer of a freed body is freed')
        for oid, k in uses.items():
            o = s.objs[oid]
            if not o.alive:
                E.fail(s, what + ': the body of a result is alive')
                continue
            x = o.cells[L.start][1]
            al = o.cells[L.alloc][1]
            borrowed = 1 if (not isnull(x) and not s.objs[x.obj].heap) else 0
            E.prove(s, bv(o.cells[L.ref][1], 32) == V(k + borrowed, 32), what + ': reference count of a new body is the number of users')
            reach.add(oid)
            if not isnull(x):
                reach.add(x.obj)
        for oid, o in s.objs.items():
            if o.heap and o.alive and oid not in reach and oid != self.proto.obj and oid not in self.ignore_leak:
                E.fail(s, what + ': no storage is leaked (%s)' % o.name)
        E.prove(s, z3.BoolVal(True), what + ': nothing leaked')

    def call(self, fn, args, roots, chk, what, ret_roots=()):
        """run fn in the world; roots: array variables alive afterwards"""
        E = self.E
        self.st0 = self.st.fork()
        self.ignore_leak = set(o for o, x in self.st.objs.items() if x.heap and o not in [b.oid for b in self.bodies.values()] + [b.data for b in self.bodies.values()])
        n = 0
        E.prove(self.st, z3.BoolVal(E.feasible(self.st)), 'vacuity: precondition satisfiable')
        for s, r in E.run(self.st, fn, args):
            if s.dead:
                continue
            if not n or E.tier == 'thorough':
                n += E.feasible(s)
            chk(s, r)
            self.isolation(s, what)
            self.refs(s, roots, what)
        E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns (its result satisfies the contracts used)' % fn)


class BodyContracts:
    """contracts of ArrayBody's own operations; callers are checked against these, the bodies against them in separate tasks"""

    CTOR = 'ArrayBody<int, unsigned int>::ArrayBody(int const*, bool, unsigned int, unsigned int)'
    INSERT = 'ArrayBody<int, unsigned int>::insert(unsigned int, int const*, unsigned int)'
    REMOVE = 'ArrayBody<int, unsigned int>::remove(unsigned int, int)'

    def __init__(self, w):
        self.w, self.E, self.L = w, w.E, w.L

    def install(self):
        inv = {v: k for k, v in self.E.mod.dem.items()}
        for d, h in ((self.CTOR, self.ctor), (self.INSERT, self.insert), (self.REMOVE, self.remove)):
            for k in [k for k, v in self.E.mod.dem.items() if v == d]:
                self.E.contracts[k] = h

    def readable(self, s, el, num, what):
        """[el, el+num) are readable elements"""
        E = self.E
        if not isinstance(el, Ptr) or el.obj == 0:
            E.fail(s, what)
            return False
        d = s.objs[el.obj]
        if d.kind == 'cells':
            # one variable of the caller
            E.prove(s, z3.BoolVal(bool(d.alive) and isint(el.idx) and 0 <= el.idx and el.idx + ESZ <= d.len), what + ' (live)')
            return E.prove(s, ULE(bv(num, 32), V(1, 32)), what)
        E.prove(s, z3.BoolVal(bool(d.alive)), what + ' (live)')
        return E.prove(s, And(ULE(bv(el.idx, 64), bv(d.len, 64)), ULE(z64(num), bv(d.len, 64) - bv(el.idx, 64))), what)

    def reader(self, s, el):
        o = s.objs[el.obj]
        E = self.E
        if o.kind == 'cells':
            x = E._cell_load(s, el.obj, el.idx, ESZ, ('i', 8 * ESZ))
            return lambda d: x
        return lambda d: E.arr_read(o, simp(bv(el.idx, 64) + bv(d, 64)))

    def ctor(self, E, st, args, dem):
        """requires copy; data readable for n elements.  ensures: unshared body with exactly those elements and room for max(n, alloc)"""
        this, data, copy, n, al = args
        if not (isint(copy) and copy & 1) or st.objs[this.obj].kind != 'cells':
            return NotImplemented
        L = self.L
        out = []
        n, al = bv(n, 32), bv(al, 32)
        room = simp(If(ULT(al, n), n, al))
        for nz in (False, True):
            s = st.fork()
            s.assume(room != 0 if nz else room == 0)
            if not E.feasible(s):
                continue
            c = s.w(this.obj).cells
            for off, x in s.objs[self.w.proto.obj].cells.items():
                c[off] = x
            E._cell_store(s.w(this.obj), L.ref, 4, 0)
            E._cell_store(s.w(this.obj), L.bnum, 4, simp(n) if nz else 0)
            if not nz:
                E._cell_store(s.w(this.obj), L.start, 8, NULL)
                E._cell_store(s.w(this.obj), L.alloc, 4, 0)
                out.append((s, None))
                continue
            some = s.fork()
            some.assume(n != 0)
            rd = lambda d: V(0, W)
            if E.feasible(some):
                if self.readable(some, data, n, 'precondition of ArrayBody(data, copy, n): the data is readable'):
                    rd = self.reader(s, data)
                else:
                    continue
            E.prove(s, ULE(room, V(4 * MAXN, 32)), 'precondition of ArrayBody(data, copy, n): size within the bound')
            a2 = E.fresh('alloc', 32)
            s.assume(And(ULE(room, a2), ULE(a2, V(8 * MAXN, 32))))
            d = E.new_arr(s, ESZ, z3.ZeroExt(32, a2), 'data_new', heap='new[]')
            s.w(d).log = (('rng', 0, z3.ZeroExt(32, n), rd),)
            E._cell_store(s.w(this.obj), L.start, 8, Ptr(d, 0))
            E._cell_store(s.w(this.obj), L.alloc, 4, a2)
            out.append((s, None))
        return out

    def fields(self, s, this):
        c, L = s.objs[this.obj].cells, self.L
        return c[L.ref][1], c[L.start][1], bv(c[L.bnum][1], 32), bv(c[L.alloc][1], 32)

    def insert(self, E, st, args, dem):
        """requires an unshared body, pos <= length, num readable elements outside the body's own buffer.
        ensures: the elements before pos stay, the num elements follow, then the rest; the buffer has room for them; the old buffer is
        freed if it was replaced and owned"""
        this, pos, el, num = args
        o = st.objs[this.obj]
        L = self.L
        if not o.alive or this.idx != 0:
            return NotImplemented
        rc, start, bnum, al = self.fields(st, this)
        pos, num = bv(pos, 32), bv(num, 32)
        E.prove(st, ULE(bv(rc, 32), V(1, 32)), 'precondition of insert: the body is not shared')
        out = []
        s0 = st.fork()
        s0.assume(num == 0)
        if E.feasible(s0):
            out.append((s0, None))
        s1 = st.fork()
        s1.assume(num != 0)
        if not E.feasible(s1):
            return out
        if not E.prove(s1, ULE(pos, bnum), 'precondition of insert: the position is within the body'):
            return out
        if not self.readable(s1, el, num, 'precondition of insert: the elements are readable'):
            return out
        if not isnull(start):
            E.prove(s1, z3.BoolVal(el.obj != start.obj), 'precondition of insert: the elements are not in the buffer they are inserted into')
        newn = simp(bnum + num)
        E.prove(s1, And(ULE(num, V(4 * MAXN, 32)), ULE(bnum, V(4 * MAXN, 32))), 'precondition of insert: sizes within the bound')
        s1.assume(And(ULE(pos, bnum), ULE(num, V(4 * MAXN, 32)), ULE(bnum, V(4 * MAXN, 32))))
        N0, P, K = z64(bnum), z64(pos), z64(num)
        rd = self.reader(s1, el)
        for grow in (False, True):
            s = s1.fork()
            s.assume(UGT(newn, al) if grow else ULE(newn, al))
            if not E.feasible(s):
                continue
            if grow:
                old = s.objs[start.obj] if not isnull(start) else None
                a2 = E.fresh('alloc', 32)
                s.assume(And(ULE(newn, a2), ULE(a2, V(16 * MAXN, 32))))
                d = E.new_arr(s, ESZ, z3.ZeroExt(32, a2), 'data_grown', heap='new[]')
                if old is not None:
                    ro = (lambda old: lambda j: E.arr_read(old, bv(j, 64)))(old)
                    s.w(d).log = (('rng', 0, P, ro), ('rng', P, K, rd), ('rng', simp(P + K), simp(N0 - P), (lambda ro: lambda j: ro(simp(P + bv(j, 64))))(ro)))
                    owned = s.fork()
                    owned.assume(al != 0)
                    if old.heap and E.feasible(owned):
                        E.prove(s, al != 0, 'an owned buffer is known as owned')
                        s.w(start.obj).alive = False
                    elif E.feasible(owned):
                        E.fail(s, 'a borrowed buffer is not freed')
                else:
                    s.w(d).log = (('rng', P, K, rd),)
                E._cell_store(s.w(this.obj), L.start, 8, Ptr(d, 0))
                E._cell_store(s.w(this.obj), L.alloc, 4, a2)
            elif start.obj == 0:
                E.fail(s, 'insert into a body without data')
                continue
            else:
                d = start.obj
                E.prove(s, z3.BoolVal(bool(s.objs[d].alive) and not s.objs[d].const), 'insert changes only the body\'s own buffer')
                E.prove(s, ULE(z64(newn), bv(s.objs[d].len, 64)), 'insert stays within the buffer')
                old = s.objs[d]
                if same_expr(pos, bnum):
                    if isint(simp(num)) and simp(num) == 1:
                        s.w(d).log = old.log + (('pt', simp(N0), rd(0)),)
                    else:
                        s.w(d).log = old.log + (('rng', P, K, rd),)
                else:
                    ro = (lambda old: lambda j: E.arr_read(old, simp(P + bv(j, 64))))(old)
                    s.w(d).log = old.log + (('rng', P, K, rd), ('rng', simp(P + K), simp(N0 - P), ro))
            E._cell_store(s.w(this.obj), L.bnum, 4, newn)
            out.append((s, None))
        return out

    def remove(self, E, st, args, dem):
        """requires an unshared body, at < length, len elements from there.  ensures: they are gone, the rest keeps its order"""
        this, at, ln = args
        o = st.objs[this.obj]
        L = self.L
        if not o.alive or this.idx != 0:
            return NotImplemented
        rc, start, bnum, al = self.fields(st, this)
        at, ln = bv(at, 32), bv(ln, 32)
        E.prove(st, ULE(bv(rc, 32), V(1, 32)), 'precondition of remove: the body is not shared')
        ok = And(ULT(at, bnum), Or(ln == V(0xFFFFFFFF, 32), ULE(ln, bnum - at)))
        if not E.prove(st, Or(ln == 0, ok), 'precondition of remove: the section is within the body') or isnull(start):
            return []
        st.assume(Or(ln == 0, ok))
        k = simp(If(ln == V(0xFFFFFFFF, 32), bnum - at, ln))
        d = start.obj
        E.prove(st, Or(k == 0, z3.BoolVal(bool(st.objs[d].alive) and not st.objs[d].const)), 'remove changes only the body\'s own buffer')
        old = st.objs[d]
        ro = lambda j: E.arr_read(old, simp(z64(at) + z64(k) + bv(j, 64)))
        s = st.fork()
        s.w(d).log = old.log + (('rng', z64(at), simp(z64(bnum) - z64(at) - z64(k)), ro),)
        E._cell_store(s.w(this.obj), L.bnum, 4, simp(bnum - k))
        return [(s, None)]

    # ---- the contracts' own proofs
    def seq_is(self, s, this, N, at, what):
        """the body at `this` holds exactly at(0..N) in a live buffer with room"""
        E, L = self.E, self.L
        o = s.objs[this.obj]
        E.prove(s, z3.BoolVal(bool(o.alive)), what + ': the body is alive')
        rc, start, bnum, al = self.fields(s, this)
        E.prove(s, z64(bnum) == bv(N, 64), what + ': length')
        if isnull(start):
            E.prove(s, And(bv(N, 64) == 0, al == 0), what + ': no data, no elements')
            return None
        d = s.objs[start.obj]
        E.prove(s, z3.BoolVal(bool(d.alive) and isint(start.idx) and start.idx == 0), what + ': the buffer is live')
        E.prove(s, And(ULE(z64(bnum), z64(al)), z64(al) == bv(d.len, 64)) if d.heap else And(al == 0, ULE(z64(bnum), bv(d.len, 64))), what + ': the buffer has room')
        j = E.fresh('j', 64)
        s2 = s.fork()
        s2.assume(ULT(j, bv(N, 64)))
        if E.feasible(s2):
            E.prove(s2, bv(E.arr_read(d, j), W) == bv(at(j), W), what + ': every element', terms=[j])
        return start.obj

    def no_leak(self, s, st0, keep, what):
        for oid, o in s.objs.items():
            if o.heap and o.alive and oid not in st0.objs and oid not in keep:
                self.E.fail(s, what + ': no storage is leaked (%s)' % o.name)
        self.E.prove(s, z3.BoolVal(True), what + ': nothing leaked')

    def prove_ctor(self, kind):
        E, w = self.E, self.w
        st = w.st
        n, al = z3.BitVec('n', 32), z3.BitVec('al', 32)
        st.assume(And(ULE(n, V(4 * MAXN, 32)), ULE(al, V(4 * MAXN, 32))))
        base = z3.Array('src', z3.BitVecSort(64), z3.BitVecSort(W))
        if kind == 'null':
            st.assume(n == 0)
            p = NULL
        else:
            p = Ptr(E.new_arr(st, ESZ, z64(n), 'src', base=base), 0)
        E.inputs.update(n=n, al=al, op='body')
        if kind == 'borrow':
            st.assume(n != 0)
        st0 = st.fork()
        cnt = 0
        for s, r in E.run(st, 'b_new', [p, int(kind != 'borrow'), n, al]):
            if s.dead:
                continue
            cnt += 1
            d = self.seq_is(s, r, z64(n), lambda j: z3.Select(base, bv(j, 64)), 'ArrayBody(data)')
            rc, start, bnum, a2 = self.fields(s, r)
            if kind == 'borrow':
                E.prove(s, And(bv(rc, 32) == 1, a2 == 0, z3.BoolVal(d == p.obj)), 'ArrayBody(borrowed): the data itself is used and never freed')
            else:
                E.prove(s, And(bv(rc, 32) == 0, ULE(n, a2), ULE(al, a2), ULE(a2, V(8 * MAXN, 32)), z3.BoolVal(d is None or d not in st0.objs)), 'ArrayBody(copy): unshared, room for the allocation')
            self.no_leak(s, st0, [r.obj, d], 'ArrayBody(data)')
        E.prove(State(), z3.BoolVal(cnt >= 1), 'vacuity: ArrayBody(data) returns')

    def prove_insert(self, kind):
        E, w = self.E, self.w
        st = w.st
        bd, el = kind.split()
        b = w.new_body('b', bd)
        pos, n = z3.BitVec('pos', 32), z3.BitVec('n', 32)
        st.assume(And(ULE(pos, bv(b.bnum, 32)), ULE(n, V(4 * MAXN, 32)), b.rc <= 1))
        base = z3.Array('src', z3.BitVecSort(64), z3.BitVecSort(W))
        if el == 'null':
            st.assume(n == 0)
            p = NULL
        else:
            p = Ptr(E.new_arr(st, ESZ, z64(n), 'src', base=base), 0)
        E.inputs.update(n=n, pos=pos, op='body')
        st0 = st.fork()
        cnt = 0
        N0, P, K = z64(b.bnum), z64(pos), z64(n)
        if b.base is not None:
            old = lambda j: z3.Select(b.base, bv(j, 64))
        else:
            old = lambda j: V(0, W)
        for s, r in E.run(st, 'b_insert', [Ptr(b.oid, 0), pos, p, n]):
            if s.dead:
                continue
            cnt += 1
            d = self.seq_is(s, Ptr(b.oid, 0), N0 + K, lambda j: If(ULT(j, P), old(j), If(ULT(j, P + K), z3.Select(base, j - P), old(j - K))), 'insert')
            rc, start, bnum, a2 = self.fields(s, Ptr(b.oid, 0))
            E.prove(s, And(bv(rc, 32) == b.rc, ULE(a2, V(16 * MAXN, 32))), 'insert: the reference count stays, the allocation is bounded')
            fits = ULE(bv(b.bnum, 32) + n, bv(b.al, 32))
            if d is None or d == b.data:
                E.prove(s, Or(n == 0, fits), 'insert: the buffer is kept only if it has room')
                if d is not None:
                    E.prove(s, a2 == bv(b.al, 32), 'insert: allocation unchanged')
            else:
                E.prove(s, And(Not(fits), z3.BoolVal(d not in st0.objs)), 'insert: the buffer is replaced only if it has no room')
                if b.data is not None and bd == 'heap':
                    E.prove(s, z3.BoolVal(not s.objs[b.data].alive), 'insert: the old buffer is freed')
            self.no_leak(s, st0, [d], 'insert')
        E.prove(State(), z3.BoolVal(cnt >= 1), 'vacuity: insert returns')

    def prove_remove(self, kind):
        E, w = self.E, self.w
        st = w.st
        b = w.new_body('b', kind)
        at, n = z3.BitVec('at', 32), z3.BitVec('n', 32)
        st.assume(And(ULT(at, bv(b.bnum, 32)), Or(n == V(0xFFFFFFFF, 32), ULE(n, bv(b.bnum, 32) - at)), b.rc <= 1))
        E.inputs.update(n=n, at=at, op='body')
        st0 = st.fork()
        cnt = 0
        k = If(n == V(0xFFFFFFFF, 32), bv(b.bnum, 32) - at, n)
        old = lambda j: z3.Select(b.base, bv(j, 64))
        for s, r in E.run(st, 'b_remove', [Ptr(b.oid, 0), at, n]):
            if s.dead:
                continue
            cnt += 1
            d = self.seq_is(s, Ptr(b.oid, 0), z64(bv(b.bnum, 32) - k), lambda j: If(ULT(j, z64(at)), old(j), old(j + z64(k))), 'remove')
            rc, start, bnum, a2 = self.fields(s, Ptr(b.oid, 0))
            E.prove(s, And(bv(rc, 32) == b.rc, a2 == bv(b.al, 32), z3.BoolVal(d == b.data)), 'remove: same buffer, same allocation, same users')
            self.no_leak(s, st0, [d], 'remove')
        E.prove(State(), z3.BoolVal(cnt >= 1), 'vacuity: remove returns')


def same_expr(a, b):
    d = simp(bv(a, 32) - bv(b, 32))
    return isint(d) and d == 0


def body_tasks(Task):
    ts = []

    def t(nm, m, kind):
        def fn(E):
            setup(E)
            w = World(E)
            getattr(BodyContracts(w), m)(kind)
        ts.append(Task('ArrayBody %s (%s)' % (nm, kind), 'array', fn))
    for k in ('copy', 'null', 'borrow'):
        t('constructor', 'prove_ctor', k)
    for k in ('heap data', 'heap null', 'nobuf data', 'nobuf null'):
        t('insert', 'prove_insert', k)
    t('remove', 'prove_remove', 'heap')
    return ts


PRED = z3.Function('pred', z3.BitVecSort(W), z3.BoolSort())
CMP = z3.Function('cmp3', z3.BitVecSort(W), z3.BitVecSort(32))
MAPF = z3.Function('mapf', z3.BitVecSort(W), z3.BitVecSort(W))
INJ = z3.Function('injf', z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
ACC = z3.Function('acc', z3.BitVecSort(64), z3.BitVecSort(W))


def setup(E):
    E.contracts['@pred'] = lambda E, st, a, d: [(st, PRED(bv(a[0], W)))]
    E.contracts['@cmp3'] = lambda E, st, a, d: [(st, CMP(bv(a[0], W)))]
    E.contracts['@mapf'] = lambda E, st, a, d: [(st, MAPF(bv(a[0], W)))]
    E.contracts['@injf'] = lambda E, st, a, d: [(st, INJ(bv(a[0], W), bv(a[1], W)))]
    E.new_elem = ESZ
    E.unroll_first = False
    E.wide = True


def z64(x):
    return z3.ZeroExt(32, bv(x, 32))


def b1(r):
    return z3.BoolVal(bool(r)) if isint(r) else r if z3.is_bool(r) else bv(r, r.size()) != 0


ASCEND = 'the comparator is ascending over the array (needed for bsearch to find what is there)'
CNT = z3.Function('cnt', z3.BitVecSort(64), z3.BitVecSort(64))


def view_int(view, w):
    return [v for v in view.vars if v.kind == 'int' and v.w == w]


class Ops:
    """every operation: (name, scenarios, body(World, scenario) )"""

    def __init__(self, seq, own):
        self.seq, self.own = seq, own         # which aspects are proved here
        self.ops = []
        self.build()

    def op(self, name, scens, fn, **kw):
        self.ops.append((name, scens, fn, kw))

    def run(self, E, name, scen, f):
        setup(E)
        w = World(E)
        BodyContracts(w).install()
        E.inputs['op'] = name
        if not self.own:
            w.isolation = w.refs = lambda *a: None
        if not self.seq:
            sv = w.same_value
            w.same_value = lambda s, ptr, N, at, what, j=None: sv(s, ptr, N, at, what, j) if 'operand' in what else None
            w.wf = lambda *a: None
        f(E, w, scen)

    # ---- generic shapes
    def value(self, name, args, want, pre=None, scens=('heap', 'static', 'null', 'nobuf')):
        """observer: returns a scalar, changes nothing"""
        def f(E, w, sc):
            a = w.scen(sc)
            ar, env = args(E, w, a)
            if pre:
                w.st.assume(pre(a, env))
                if not E.feasible(w.st):
                    return

            def chk(s, r):
                if self.seq:
                    want(E, w, s, a, env, r, 'a_' + name)
                w.same_value(s, a.ptr, a.N, a.at, 'operand of ' + name)
            w.call('a_' + name, [a.ptr] + ar, [a.ptr], chk, name)
        self.op(name, scens, f)

    def value2(self, name, want):
        """observer of two arrays"""
        def f(E, w, sc):
            a, b = self.two(w, sc)

            def chk(s, r):
                if self.seq:
                    want(E, w, s, a, b, r, 'a_' + name)
                w.same_value(s, a.ptr, a.N, a.at, 'operand of ' + name)
                if b is not a:
                    w.same_value(s, b.ptr, b.N, b.at, 'second operand of ' + name)
            if self.seq:
                E.prefix = self.prefix(E, w, a, b)
            w.call('a_' + name, [a.ptr, b.ptr], [a.ptr] + ([b.ptr] if b is not a else []), chk, name)
        self.op(name, self.pairs, f)

    def prefix(self, E, w, a, b):
        """ghost: the length p of the longest common prefix"""
        p = z3.BitVec('prefix', 64)
        m = If(ULT(a.N, b.N), a.N, b.N)
        w.st.assume(And(ULE(p, m), Or(p == m, a.at(p) != b.at(p))))
        w.st.terms.append(p)
        w.st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), p), a.at(t) == b.at(t)), (0,), 'common prefix'))
        return p, m

    def ctor(self, name, args, want, rootsf=None):
        def f(E, w, sc):
            r = w.result()
            ar, env = args(E, w, None)

            def chk(s, _):
                n, at = want(None, env)
                w.same_value(s, r, n, at, name)
                w.wf(s, r, name)
            w.call('a_' + name, [r] + ar, [r], chk, name)
        self.op(name, ('-',), f)

    def result(self, name, args, want, pre=None, scens=('heap', 'static', 'null', 'nobuf'), binary=False):
        """returns a new array; operand(s) unchanged"""
        def f(E, w, sc):
            if binary:
                a, b = self.two(w, sc)
            else:
                a = w.scen(sc)
                b = None
            r = w.result()
            ar, env = args(E, w, a) if not binary else ([b.ptr], b)
            if pre:
                w.st.assume(pre(a, env))
                if not E.feasible(w.st):
                    return

            def chk(s, _):
                n, at = want(a, env)
                w.same_value(s, r, n, at, name)
                w.wf(s, r, name)
                w.same_value(s, a.ptr, a.N, a.at, 'operand of ' + name)
                if b is not None and b is not a:
                    w.same_value(s, b.ptr, b.N, b.at, 'second operand of ' + name)
            w.call('a_' + name, [r, a.ptr] + ar, [a.ptr, r] + ([b.ptr] if b is not None and b is not a else []), chk, name)
        self.op(name, self.pairs if binary else scens, f)

    def mutate(self, name, args, want, pre=None, scens=('heap', 'static', 'null', 'nobuf'), binary=False, ret=None):
        """changes the array in place"""
        def f(E, w, sc):
            b = None
            if binary:
                a, b = self.two(w, sc)
                ar, env = args(E, w, a, b)
            else:
                a = w.scen(sc)
                ar, env = args(E, w, a)
            if pre:
                w.st.assume(pre(a, env))
                if not E.feasible(w.st):
                    return

            def chk(s, r):
                n, at = want(a, env)
                w.same_value(s, a.ptr, n, at, name)
                w.wf(s, a.ptr, name)
                if ret and self.seq:
                    E.prove(s, bv(r, W) == ret(a, env), name + ': returned element')
                if b is not None and b is not a:
                    w.same_value(s, b.ptr, b.N, b.at, 'other operand of ' + name)
            w.call('a_' + name, [a.ptr] + ar, [a.ptr] + ([b.ptr] if b is not None and b is not a else []), chk, name)
        self.op(name, self.pairs if binary else scens, f)

    pairs = ('heap heap', 'heap static', 'static heap', 'heap null', 'null heap', 'null null', 'null static', 'heap same', 'heap self', 'static same', 'static self', 'nobuf heap', 'heap nobuf', 'nobuf self', 'null self')

    def two(self, w, sc):
        ka, kb = sc.split()
        a = w.scen(ka)
        if kb == 'self':
            return a, a
        if kb == 'same':
            return a, w.slice('b', a.body)
        return a, w.scen(kb, 'b')

    def build(self):
        i32 = lambda nm: z3.BitVec(nm, 32)

        def ints(*names):
            def g(E, w, a):
                vs = [i32(n) for n in names]
                for n, v in zip(names, vs):
                    E.inputs[n] = v
                return vs, vs
            return g

        def elem(*names):
            """an int variable of the caller, and ints"""
            def g(E, w, a):
                p, at = w.buf('e')
                vs = [i32(n) for n in names]
                for n, v in zip(names, vs):
                    E.inputs[n] = v
                return [p] + vs, [at(0)] + vs
            return g
        none = lambda E, w, a: ([], None)
        inr = lambda a, e: ULT(e[0], bv(a.n, 32))
        ne = lambda a, e: bv(a.n, 32) != 0
        is_elem = lambda idx: lambda E, w, s, a, e, r, nm: E.prove(s, bv(r, W) == a.at(idx(a, e)), nm + ': the element')
        NN = ('heap', 'static')
        # ---- observers
        self.value('length', none, lambda E, w, s, a, e, r, nm: E.prove(s, bv(r, 32) == bv(a.n, 32), nm))
        self.value('empty', none, lambda E, w, s, a, e, r, nm: E.prove(s, b1(r) == (bv(a.n, 32) == 0), nm))
        for nm in ('index', 'elem', 'elem_ref', 'asElements'):
            self.value(nm, ints('i'), is_elem(lambda a, e: z64(e[0])), pre=inr, scens=NN)
        for nm in ('last', 'last_ref'):
            self.value(nm, none, is_elem(lambda a, e: a.N - 1), pre=ne, scens=NN)
        # ---- slices
        clampn = lambda a, at, ln: If(UGE(at, bv(a.n, 32)), V(0, 32), If(Or(ln == V(0xFFFFFFFF, 32), UGT(ln, bv(a.n, 32) - at)), bv(a.n, 32) - at, ln))
        sub = lambda a, at, n: (z64(n), lambda j: a.at(z64(at) + bv(j, 64)))
        self.result('copy', none, lambda a, e: (a.N, a.at))
        self.result('slice', ints('at', 'len'), lambda a, e: sub(a, e[0], clampn(a, e[0], e[1])), pre=lambda a, e: e[1] >= -1)
        self.result('slice1', ints('at'), lambda a, e: sub(a, e[0], clampn(a, e[0], V(0xFFFFFFFF, 32))))
        self.result('head', ints('k'), lambda a, e: sub(a, V(0, 32), If(ULT(e[0], bv(a.n, 32)), e[0], bv(a.n, 32))), pre=lambda a, e: e[0] >= 0)
        self.result('tail', ints('k'), lambda a, e: sub(a, bv(a.n, 32) - e[0], e[0]), pre=lambda a, e: ULE(e[0], bv(a.n, 32)))
        self.result('shorter', ints('k'), lambda a, e: sub(a, V(0, 32), bv(a.n, 32) - e[0]), pre=lambda a, e: ULE(e[0], bv(a.n, 32)))
        self.result('drop', ints('k'), lambda a, e: sub(a, e[0], bv(a.n, 32) - e[0]), pre=lambda a, e: ULE(e[0], bv(a.n, 32)))
        # ---- concatenation
        cat = lambda a, b: (a.N + b.N, lambda j: If(ULT(bv(j, 64), a.N), a.at(j), b.at(bv(j, 64) - a.N)))
        self.result('plus', None, cat, binary=True)
        app = lambda a, x: (a.N + 1, lambda j: If(bv(j, 64) == a.N, x, a.at(j)))
        self.result('pluse', elem(), lambda a, e: app(a, e[0]))
        for nm in ('addeqe', 'shl', 'push', 'appende'):
            self.mutate(nm, elem(), lambda a, e: app(a, e[0]))
        two = lambda E, w, a, b: ([b.ptr], b)
        for nm in ('addeq', 'append'):
            self.mutate(nm, two, cat, binary=True)

        def insargs(E, w, a, b):
            p = i32('pos')
            E.inputs['pos'] = p
            w.st.assume(ULE(p, bv(a.n, 32)))
            return [p, b.ptr], (b, z64(p))
        self.mutate('insert', insargs, lambda a, e: (a.N + e[0].N, lambda j: If(ULT(bv(j, 64), e[1]), a.at(j), If(ULT(bv(j, 64), e[1] + e[0].N), e[0].at(bv(j, 64) - e[1]), a.at(bv(j, 64) - e[0].N)))), binary=True)
        self.mutate('unshift', elem(), lambda a, e: (a.N + 1, lambda j: If(bv(j, 64) == 0, e[0], a.at(bv(j, 64) - 1))))
        self.mutate('assign', two, lambda a, b: (b.N, b.at), binary=True)
        # ---- element changes
        put = lambda a, i, x: (a.N, lambda j: If(bv(j, 64) == i, x, a.at(j)))
        self.mutate('elem_mut', ints('i', 'v'), lambda a, e: put(a, z64(e[0]), e[1]), pre=inr, scens=NN)
        self.mutate('set', ints('i', 'v'), lambda a, e: put(a, z64(e[0]), e[1]), pre=inr, scens=NN, ret=lambda a, e: e[1])
        self.mutate('last_mut', ints('v'), lambda a, e: put(a, a.N - 1, e[0]), pre=ne, scens=NN)
        # ---- removal
        rem = lambda a, at, n: (a.N - n, lambda j: If(ULT(bv(j, 64), at), a.at(j), a.at(bv(j, 64) + n)))
        self.mutate('clear', none, lambda a, e: (V(0, 64), a.at))
        self.mutate('remove', ints('at', 'len'), lambda a, e: rem(a, z64(e[0]), If(e[1] == V(0xFFFFFFFF, 32), a.N - z64(e[0]), z64(e[1]))),
                    pre=lambda a, e: And(ULE(e[0], bv(a.n, 32)), Or(e[1] == V(0xFFFFFFFF, 32), ULE(e[1], bv(a.n, 32) - e[0]))))
        self.mutate('remove1', ints('at'), lambda a, e: rem(a, z64(e[0]), a.N - z64(e[0])), pre=lambda a, e: ULE(e[0], bv(a.n, 32)))
        self.mutate('delete_at', ints('at'), lambda a, e: rem(a, z64(e[0]), V(1, 64)), pre=inr, scens=NN, ret=lambda a, e: a.at(z64(e[0])))
        self.mutate('shift', none, lambda a, e: rem(a, V(0, 64), V(1, 64)), pre=ne, scens=NN, ret=lambda a, e: a.at(0))
        self.mutate('pull', none, lambda a, e: (a.N - 1, a.at), pre=ne, scens=NN, ret=lambda a, e: a.at(a.N - 1))
        self.mutate('reverse', none, lambda a, e: (a.N, lambda j: a.at(a.N - 1 - bv(j, 64))))

        # ---- searching
        def first(E, w, s, a, r, ok, los, nm):
            """r is the least index >= lo whose element satisfies ok, -1 if none; los: [(condition, lo)]"""
            r = bv(r, 32)
            t = E.fresh('t', 64)
            for c, lo in los:
                s2 = s.fork()
                s2.assume(c)
                if not E.feasible(s2):
                    continue
                for found, q in ((True, r != V(0xFFFFFFFF, 32)), (False, r == V(0xFFFFFFFF, 32))):
                    s3 = s2.fork()
                    s3.assume(q)
                    if not E.feasible(s3):
                        continue
                    if found:
                        E.prove(s3, And(r >= 0, ULT(r, bv(a.n, 32)), UGE(z3.ZeroExt(32, r), lo), ok(a.at(z64(r)))), nm + ': the index found is in range and matches', terms=[z64(r)])
                    s3.assume(And(ULE(lo, t), ULT(t, z3.ZeroExt(32, r) if found else a.N)))
                    E.prove(s3, Not(ok(a.at(t))), nm + ': nothing before it matches', terms=[simp(t - lo)])

        def lastf(E, w, s, a, r, ok, his, nm):
            r = bv(r, 32)
            t = E.fresh('t', 64)
            for c, hi in his:
                s2 = s.fork()
                s2.assume(c)
                if not E.feasible(s2):
                    continue
                for found, q in ((True, r != V(0xFFFFFFFF, 32)), (False, r == V(0xFFFFFFFF, 32))):
                    s3 = s2.fork()
                    s3.assume(q)
                    if not E.feasible(s3):
                        continue
                    if found:
                        E.prove(s3, And(r >= 0, ULT(z3.ZeroExt(32, r), hi), ok(a.at(z64(r)))), nm + ': the index found is in range and matches', terms=[z64(r)])
                    s3.assume(And(ULT(t, hi), UGT(t, z3.ZeroExt(32, r)) if found else z3.BoolVal(True)))
                    E.prove(s3, Not(ok(a.at(t))), nm + ': nothing after it matches', terms=[simp(hi - 1 - t)])
        lo_of = lambda x: [(x < 0, V(0, 64)), (x >= 0, z3.ZeroExt(32, x) + 1)]
        hi_of = lambda a, x: [(x < 0, a.N), (x >= 0, z3.ZeroExt(32, x))]
        self.value('find', elem('after'), lambda E, w, s, a, e, r, nm: first(E, w, s, a, r, lambda x: x == e[0], lo_of(e[1]), nm), pre=lambda a, e: And(e[1] < (1 << 30)))
        self.value('rfind', elem('before'), lambda E, w, s, a, e, r, nm: lastf(E, w, s, a, r, lambda x: x == e[0], hi_of(a, e[1]), nm), pre=lambda a, e: e[1] <= bv(a.n, 32))
        self.value('findf', ints('after'), lambda E, w, s, a, e, r, nm: first(E, w, s, a, r, PRED, lo_of(e[0]), nm), pre=lambda a, e: And(e[0] < (1 << 30)))
        self.value('rfindf', ints('before'), lambda E, w, s, a, e, r, nm: lastf(E, w, s, a, r, PRED, hi_of(a, e[0]), nm), pre=lambda a, e: e[0] <= bv(a.n, 32))
        self.value('detect', none, lambda E, w, s, a, e, r, nm: first(E, w, s, a, r, PRED, [(z3.BoolVal(True), V(0, 64))], nm))
        # ---- comparison
        def cmp3way(E, w, s, a, b, r, nm):
            p, m = E.prefix
            lt = lambda x, y: If(x, V(0xFFFFFFFF, 32), y)
            E.prove(s, bv(r, 32) == If(ULT(p, m), If(a.at(p) < b.at(p), V(0xFFFFFFFF, 32), V(1, 32)), If(ULT(a.N, b.N), V(0xFFFFFFFF, 32), If(UGT(a.N, b.N), V(1, 32), V(0, 32)))),
                    nm + ': lexicographic order', terms=[p])

        def equal(neg):
            def g(E, w, s, a, b, r, nm):
                p, m = E.prefix
                E.prove(s, b1(r) == (And(a.N == b.N, p == m) if not neg else Not(And(a.N == b.N, p == m))), nm + ': same length and elements', terms=[p])
            return g
        self.value2('compare', cmp3way)
        self.value2('eq', equal(False))
        self.value2('ne', equal(True))

        # ---- visiting
        def quant(neg):
            """all (any with neg): r iff every (some) element satisfies pred"""
            def g(E, w, s, a, e, r, nm):
                q = (lambda x: Not(PRED(x))) if neg else PRED
                yes = Not(b1(r)) if neg else b1(r)
                s1 = s.fork()
                t = E.fresh('t', 64)
                s1.assume(And(yes, ULT(t, a.N)))
                if E.feasible(s1):
                    E.prove(s1, q(a.at(t)), nm + ': holds for every element', terms=[t])
                s2 = s.fork()
                s2.assume(Not(yes))
                if E.feasible(s2):
                    s2.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), a.N), q(a.at(t))), (0,)))
                    E.prove(s2, z3.BoolVal(False), nm + ': some element decides it')
            return g
        self.value('all', none, quant(False))
        self.value('any', none, quant(True))

        def counted(E, w, a):
            """ghost: cnt(k) elements among the first k satisfy pred"""
            st = w.st
            st.assume(CNT(V(0, 64)) == 0)
            st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), a.N), CNT(bv(t, 64) + 1) == CNT(bv(t, 64)) + If(PRED(a.at(t)), V(1, 64), V(0, 64))), (0,), 'count', dom='k'))
            # a count never falls: consequence of the recursion
            st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), a.N), And(ULE(CNT(bv(t, 64) + 1), CNT(a.N)), ULE(CNT(bv(t, 64)), bv(t, 64)))), (0,), 'count', dom='k'))
            st.foralls.append(Forall(lambda t: Implies(ULE(bv(t, 64), a.N), And(ULE(CNT(bv(t, 64)), CNT(a.N)), ULE(CNT(bv(t, 64)), bv(t, 64)))), (0,), 'count', dom='k'))

            def hook(E, st, view):
                out = [('at most one so far', lambda kk, vv: ULE(CNT(bv(kk, 64)), V(1, 64))), ('at most two so far', lambda kk, vv: ULE(CNT(bv(kk, 64)), V(2, 64)))]
                for v in view.vars:
                    if v.kind == 'int' and v.w in (32, 64):
                        out.append(('count ' + v.name, lambda kk, vv, v=v: bv(vv[v.key], v.w) == z3.Extract(v.w - 1, 0, CNT(bv(kk, 64)))))
                    if v.kind == 'int' and v.w in (1, 8):
                        out.append(('found ' + v.name, lambda kk, vv, v=v: (boolv(vv[v.key]) if v.w == 1 else bv(vv[v.key], v.w) == 1) == (CNT(bv(kk, 64)) == 1)))
                        if v.w == 8:
                            out.append(('bool ' + v.name, lambda kk, vv, v=v: ULE(bv(vv[v.key], 8), V(1, 8))))
                return out
            E.loop_inv = hook
            return [], None
        self.value('oneq', counted, lambda E, w, s, a, e, r, nm: E.prove(s, b1(r) == (CNT(a.N) == 1), nm + ': exactly one element satisfies it'))

        def outbuf(E, w, a):
            E.out = E.new_arr(w.st, ESZ, a.N, 'visited')
            return [Ptr(E.out, 0)], None

        def visited(E, w, s, a, nm):
            t = E.fresh('t', 64)
            s1 = s.fork()
            s1.assume(ULT(t, a.N))
            if E.feasible(s1):
                E.prove(s1, bv(E.arr_read(s1.objs[E.out], t), W) == a.at(t), nm + ': every element is visited in order', terms=[t])

        def each(E, w, s, a, e, r, nm):
            E.prove(s, bv(r, 32) == bv(a.n, 32), nm + ': visits as many elements as there are')
            visited(E, w, s, a, nm)
        self.value('each', outbuf, each)

        def injargs(E, w, a):
            p, at = w.buf('e')
            ar, _ = outbuf(E, w, a)
            st = w.st
            st.assume(ACC(V(0, 64)) == at(0))
            st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), a.N), ACC(bv(t, 64) + 1) == INJ(ACC(bv(t, 64)), a.at(t))), (0,), 'accumulate', dom='k'))
            E.loop_inv = lambda E, st, view: [('accumulated ' + v.name, lambda kk, vv, v=v: bv(vv[v.key], 32) == ACC(bv(kk, 64))) for v in view_int(view, 32)]
            return [p] + ar, None

        def inject(E, w, s, a, e, r, nm):
            E.prove(s, bv(r, 32) == ACC(a.N), nm + ': folds all elements from the left')
            visited(E, w, s, a, nm)
        self.value('inject', injargs, inject)
        self.result('map', none, lambda a, e: (a.N, lambda j: MAPF(a.at(j))))

        def sorted_by(E, w, a):
            st = w.st
            t0 = z3.BitVec('t0', 64)
            E.t0 = t0
            st.terms.append(t0)
            if a.body is not None and a.body.base is not None:
                c0 = CMP(a.at(t0))

                def asc(u):
                    u = bv(u, 64)
                    c = CMP(a.at(u))
                    return Implies(And(ULT(u, a.N), ULT(t0, a.N)), And(Implies(ULE(u, t0), And(Implies(c > 0, c0 > 0), Implies(c0 < 0, c < 0))),
                                                                     Implies(ULE(t0, u), And(Implies(c < 0, c0 < 0), Implies(c0 > 0, c > 0)))))
                st.foralls.append(Forall(asc, (z64(a.off),), ASCEND, trig=a.body.base))

                def hook(E, st, view):
                    out = []
                    vs = [v for v in view.vars if v.kind == 'int' and v.w in (32, 64)]
                    Z = lambda v, x: z64(x) if v.w == 32 else bv(x, 64)
                    for v in vs:
                        out.append(('low ' + v.name, lambda kk, vv, v=v: Implies(And(ULT(t0, Z(v, vv[v.key])), ULT(t0, a.N)), c0 < 0)))
                        out.append(('high ' + v.name, lambda kk, vv, v=v: Implies(And(UGE(t0, Z(v, vv[v.key])), ULT(t0, a.N)), c0 > 0)))
                        out.append(('within ' + v.name, lambda kk, vv, v=v: ULE(Z(v, vv[v.key]), a.N)))
                        for u in vs:
                            if u is not v:
                                out.append(('order %s %s' % (u.name, v.name), lambda kk, vv, u=u, v=v: ULE(Z(u, vv[u.key]), Z(v, vv[v.key]))))
                    return out
                E.loop_inv = hook
            return [], None

        def bsearch(E, w, s, a, e, r, nm):
            r = bv(r, 32)
            s1 = s.fork()
            s1.assume(r != V(0xFFFFFFFF, 32))
            if E.feasible(s1):
                E.prove(s1, And(ULT(z64(r), a.N), CMP(a.at(z64(r))) == 0), nm + ': the index found matches')
            s2 = s.fork()
            s2.assume(And(r == V(0xFFFFFFFF, 32), ULT(E.t0, a.N)))
            if E.feasible(s2):
                E.prove(s2, CMP(a.at(E.t0)) != 0, nm + ': not found means no element matches')
        self.value('bsearch', sorted_by, bsearch)

        # ---- filters: complete for up to 3 elements
        def few(a, e):
            return ULE(bv(a.n, 32), V(3, 32))

        def kept(keep):
            """the subsequence of the elements that satisfy keep"""
            def want(a, e):
                cs = [And(ULT(V(t, 64), a.N), keep(a.at(V(t, 64)))) for t in range(3)]
                pos = [V(0, 64)]
                for c in cs:
                    pos.append(pos[-1] + If(c, V(1, 64), V(0, 64)))

                def at(j):
                    x = V(0, W)
                    for t in range(3):
                        x = If(And(cs[t], pos[t] == bv(j, 64)), a.at(V(t, 64)), x)
                    return x
                return pos[3], at
            return want
        B = dict(kind='bounded', bound='arrays of at most 3 elements', scens=('heap', 'static', 'null', 'nobuf'))
        self.result('select', none, kept(PRED), pre=few)
        self.ops[-1] = self.ops[-1][:3] + (dict(kind='bounded', bound='at most 3 elements'),)
        self.mutate('delete_if', none, kept(lambda x: Not(PRED(x))), pre=few)
        self.ops[-1] = self.ops[-1][:3] + (dict(kind='bounded', bound='at most 3 elements'),)

        # ---- construction
        def data(E, w, a):
            n, al = i32('n'), i32('al')
            w.st.assume(And(ULE(n, V(MAXN, 32)), ULE(al, V(MAXN, 32))))
            base = z3.Array('src', z3.BitVecSort(64), z3.BitVecSort(W))
            oid = E.new_arr(w.st, ESZ, z64(n), 'src', base=base)
            E.inputs.update(n_a=n, al=al)
            for q in range(8):
                E.inputs['a%d' % q] = z3.Select(base, V(q, 64))
            return [Ptr(oid, 0), n, al], (n, base)
        src = lambda a, e: (z64(e[0]), lambda j: z3.Select(e[1], bv(j, 64)))
        self.ctor('default', none, lambda a, e: (V(0, 64), lambda j: V(0, W)))
        self.ctor('data', data, src)

        def stat(E, w, a):
            ar, e = data(E, w, a)
            w.st.assume(e[0] != 0)
            return ar[:2], e
        self.ctor('static', stat, src)

        def one(E, w, a):
            E.inputs['e'] = i32('e')
            return [i32('e')], i32('e')
        self.ctor('one', one, lambda a, e: (V(1, 64), lambda j: e))

        def dtor(E, w, sc):
            a = w.scen(sc)
            w.call('a_dtor', [a.ptr], [], lambda s, r: E.prove(s, z3.BoolVal(True), 'destructor returns'), 'destructor')
        self.op('dtor', ('heap', 'static', 'null', 'nobuf'), dtor)
