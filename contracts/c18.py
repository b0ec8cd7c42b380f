"""C18: a CowMap is an independent value: each operation has the effect of that operation on a finite map, and on no other map; the shared
body is owned exactly.

The map inside a body is a value (a handle); std::map's operations have contracts over the ghost functions PRES (key present), VAL (its value),
N (size), KA/RK (key at a place in the order, and back).  std::map itself is trusted."""
import re
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, Forall, NULL, isint, isnull, boolv, simp, Unsupported

REPLAY = 'c18.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']
ASSUMPTIONS = ['operator new does not fail', 'std::map meets its contracts (finite map; iteration visits each entry once, in key order)',
               'a finite map is determined by its entries, and inserting the i-th entry to the first i entries gives the first i+1 entries',
               'fewer than 2^28 users of a body, fewer than 2^30 entries', 'verified for CowMap<int,int>']
TRUSTED = ['std::map<int,int>', '__assert_fail does not return']
H, K, I = z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64)
PRES = z3.Function('present', H, K, z3.BoolSort())
VAL = z3.Function('value', H, K, K)
N = z3.Function('entries', H, I)
NODES = z3.Function('nodes', H, z3.ArraySort(I, K))      # key and value of the i-th entry at 2i and 2i+1
RK = z3.Function('rank', H, K, I)
INS = z3.Function('insert', H, K, K, H)
SET = z3.Function('set', H, K, K, H)
ERA = z3.Function('erase', H, K, H)
PREFIX = z3.Function('prefix', H, I, H)
FOLD = z3.Function('given', I, H)
PRED = z3.Function('predicate', K, K, z3.BoolSort())
SEL = z3.Function('selected', H, I, H)
MAP2 = z3.Function('mapped', H, I, H)
NKEY = z3.Function('newkey', K, K, K)
NVAL = z3.Function('newval', K, K, K)
INJ = z3.Function('inj', K, K, K, K)
ACC = z3.Function('accumulated', I, K)
ALEN = z3.Function('array_length', H, I)
AAT = z3.Function('array_element', H, I, K)
APP = z3.Function('array_append', H, K, H)
KEYS = z3.Function('keys_of_first', H, I, H)
NONE = z3.BitVec('empty_array', 64)
CNT = z3.Function('count', I, I)
EMPTY = z3.BitVec('empty_map', 64)
KA = lambda h, i: z3.Select(NODES(h), 2 * bv(i, 64))
VA = lambda h, i: z3.Select(NODES(h), 2 * bv(i, 64) + 1)
MAPT = 'std::map<int, int, std::less<int>, std::allocator<std::pair<int const, int> > >::'
SMALL = V(1 << 30, 64)


class W:
    def __init__(self, E):
        self.E, st = E, State()
        for k in ('sizeM', 'sizeB', 'ref', 'map'):
            r = [x for _, x in E.run(State(), 'L_' + k, [])]
            assert len(r) == 1 and isint(r[0])
            setattr(self, k, r[0])
        self.st = st
        self.install()
        r = list(E.run(st, 'mk_body', []))
        assert len(r) == 1
        self.st, self.proto = r[0]
        self.st.ghost['defs'], self.st.ghost['keys'] = (), ()
        self.q = z3.BitVec('anykey', 32)
        self.key(self.st, self.q)
        self.define(self.st, 'empty', lambda q: Not(PRES(EMPTY, q)), N(EMPTY) == 0)
        self.bodies, self.maps = {}, {}
        E.inputs = {}
        # two maps with the same entries are the same size (what is compared at the end is every key and the size)

    # ---------------------------------------------------------------- the ghost theory
    def key(self, st, k):
        ks = st.ghost.get('keys', ())
        k = bv(k, 32)
        if any(k.eq(x) for x in ks):
            return
        st.ghost['keys'] = ks + (k,)
        for _, f in st.ghost.get('defs', ()):
            st.assume(f(k))

    def define(self, st, tag, f, g=None):
        ds = st.ghost.get('defs', ())
        if any(t == tag for t, _ in ds):
            return
        st.ghost['defs'] = ds + ((tag, f),)
        if g is not None:
            st.assume(g)
        for k in st.ghost.get('keys', ()):
            st.assume(f(k))

    def known(self, st, h):
        """the map h can be enumerated"""
        def f(q):
            return And(ULE(N(h), SMALL), Implies(PRES(h, q), And(ULT(RK(h, q), N(h)), KA(h, RK(h, q)) == q, VA(h, RK(h, q)) == VAL(h, q))))
        self.define(st, ('enum', h.get_id()), f, ULE(N(h), SMALL))

    def place(self, st, h, i):
        """mention the i-th entry of h"""
        self.known(st, h)
        k = KA(h, i)
        st.assume(Implies(ULT(bv(i, 64), N(h)), And(PRES(h, k), RK(h, k) == bv(i, 64), VAL(h, k) == VA(h, i))))
        self.key(st, k)

    def ins(self, st, h, k, v):
        k, v = bv(k, 32), bv(v, 32)
        self.key(st, k)
        n = simp(INS(h, k, v))
        self.define(st, ('ins', n.get_id()), lambda q: And(PRES(n, q) == Or(q == k, PRES(h, q)), VAL(n, q) == If(And(q == k, Not(PRES(h, k))), v, VAL(h, q))),
                    And(N(n) == N(h) + If(PRES(h, k), V(0, 64), V(1, 64)), ULE(N(h), SMALL)))
        return n

    def set(self, st, h, k, v):
        k, v = bv(k, 32), bv(v, 32)
        self.key(st, k)
        n = simp(SET(h, k, v))
        self.define(st, ('set', n.get_id()), lambda q: And(PRES(n, q) == Or(q == k, PRES(h, q)), VAL(n, q) == If(q == k, v, VAL(h, q))),
                    And(N(n) == N(h) + If(PRES(h, k), V(0, 64), V(1, 64)), ULE(N(h), SMALL)))
        return n

    def era(self, st, h, k):
        k = bv(k, 32)
        self.key(st, k)
        n = simp(ERA(h, k))
        self.define(st, ('era', n.get_id()), lambda q: And(PRES(n, q) == And(q != k, PRES(h, q)), VAL(n, q) == VAL(h, q)),
                    N(n) == N(h) - If(PRES(h, k), V(1, 64), V(0, 64)))
        return n

    def prefix(self, st, h, i):
        n = simp(PREFIX(h, bv(i, 64)))
        self.known(st, h)
        self.define(st, ('prefix', n.get_id()), lambda q: Implies(ULE(bv(i, 64), N(h)), And(PRES(n, q) == And(PRES(h, q), ULT(RK(h, q), bv(i, 64))), VAL(n, q) == VAL(h, q))),
                    Implies(ULE(bv(i, 64), N(h)), N(n) == bv(i, 64)))
        return n

    # ---------------------------------------------------------------- where the map of a body is
    def handle(self, st, p):
        """the value of the std::map at p, entries written through a reference included"""
        E = self.E
        h = bv(E.load(st, p, ('i', 64)), 64)
        g = st.ghost.get(('nodes', p.obj, p.idx))
        if g is not None and g[0].eq(h):
            o = st.objs[g[1]]
            if o.log:
                n = h
                for e in o.log:
                    if e[0] != 'pt':
                        raise Unsupported('several entries of a map written at once')
                    i = simp(bv(e[1], 64))
                    j = z3.LShR(i, 1)
                    E.prove(st, z3.Extract(0, 0, i) == 1, 'only the value of an entry is written')
                    self.place(st, h, j)
                    n = self.set(st, n, KA(h, j), e[2])
                self.update(st, p, n, drop=False)
                h = n
        return h

    def update(self, st, p, h, drop=True):
        E = self.E
        g = st.ghost.get(('nodes', p.obj, p.idx))
        if g is not None:
            if drop:
                st.w(g[1]).alive = False
            st.ghost[('nodes', p.obj, p.idx)] = None
        E.store(st, p, h, ('i', 64))

    def nodes(self, st, p):
        h = self.handle(st, p)
        g = st.ghost.get(('nodes', p.obj, p.idx))
        if g is not None and g[0].eq(h):
            return h, g[1]
        self.known(st, h)
        o = self.E.new_arr(st, 4, 2 * N(h), 'entries', base=NODES(h))
        st.ghost[('nodes', p.obj, p.idx)] = (h, o)
        return h, o

    def at(self, st, p, i):
        h, o = self.nodes(st, p)
        return Ptr(o, simp(2 * bv(i, 64)))

    # ---------------------------------------------------------------- contracts of std::map
    def install(self):
        E = self.E
        E.contract_rx = getattr(E, 'contract_rx', [])
        C = {}

        def ld(st, p):
            return bv(E.load(st, p, ('i', 32)), 32)

        def kv(st, p):
            return ld(st, p), ld(st, E.ptr_add(st, p, 4, 1))

        def ctor(E, st, a, d):
            E.store(st, a[0], EMPTY, ('i', 64))
            return [(st, None)]

        def copy(E, st, a, d):
            h = self.handle(st, a[1])
            E.store(st, a[0], h, ('i', 64))
            return [(st, None)]

        def assign(E, st, a, d):
            h = self.handle(st, a[1])
            self.update(st, a[0], h)
            return [(st, a[0])]

        def dtor(E, st, a, d):
            self.handle(st, a[0])
            return [(st, None)]

        def clear(E, st, a, d):
            self.update(st, a[0], EMPTY)
            return [(st, None)]

        def find(E, st, a, d):
            k = ld(st, a[1])
            h, o = self.nodes(st, a[0])
            self.key(st, k)
            return [(st, Ptr(o, simp(2 * If(PRES(h, k), RK(h, k), N(h)))))]

        def count(E, st, a, d):
            k = ld(st, a[1])
            h = self.handle(st, a[0])
            self.key(st, k)
            return [(st, If(PRES(h, k), V(1, 64), V(0, 64)))]

        def begin(E, st, a, d):
            h, o = self.nodes(st, a[0])
            return [(st, Ptr(o, 0))]

        def end(E, st, a, d):
            h, o = self.nodes(st, a[0])
            return [(st, Ptr(o, simp(2 * N(h))))]

        def size(E, st, a, d):
            h = self.handle(st, a[0])
            self.known(st, h)
            return [(st, N(h))]

        def empty(E, st, a, d):
            h = self.handle(st, a[0])
            self.known(st, h)
            return [(st, N(h) == 0)]

        def insert(E, st, a, d):
            k, v = kv(st, a[1])
            h = self.handle(st, a[0])
            self.update(st, a[0], self.ins(st, h, k, v))
            if E.plain_loop:
                return [(st, (NULL, 0))]
            n, o = self.nodes(st, a[0])
            self.key(st, k)
            return [(st, (Ptr(o, simp(2 * RK(n, k))), If(PRES(h, k), V(0, 8), V(1, 8))))]

        def erase_key(E, st, a, d):
            k = ld(st, a[1])
            h = self.handle(st, a[0])
            self.key(st, k)
            self.update(st, a[0], self.era(st, h, k))
            return [(st, If(PRES(h, k), V(1, 64), V(0, 64)))]

        def erase_at(E, st, a, d):
            h, o = self.nodes(st, a[0])
            p = a[1]
            if not isinstance(p, Ptr) or p.obj != o:
                raise Unsupported('iterator of another map')
            E.prove(st, ULT(bv(p.idx, 64), 2 * N(h)), 'std::map::erase precondition: the iterator is at an entry')
            i = z3.LShR(bv(p.idx, 64), 1)
            self.place(st, h, i)
            self.update(st, a[0], self.era(st, h, KA(h, i)))
            n, o2 = self.nodes(st, a[0])
            return [(st, Ptr(o2, p.idx))]

        def index(E, st, a, d):
            k = ld(st, a[1])
            h = self.handle(st, a[0])
            n = self.ins(st, h, k, V(0, 32))
            self.update(st, a[0], n)
            n, o = self.nodes(st, a[0])
            self.key(st, k)
            return [(st, E.ptr_add(st, Ptr(o, simp(2 * RK(n, k))), 4, 1))]
        pats = [(r'map\(\)', ctor), (r'map\(std::map<.*> const&\)', copy), (r'operator=\(std::map<.*> const&\)', assign), (r'~map\(\)', dtor), (r'clear\(\)', clear),
                (r'find\(int const&\)( const)?', find), (r'count\(int const&\) const', count), (r'c?begin\(\)( const)?', begin), (r'c?end\(\)( const)?', end),
                (r'size\(\) const', size), (r'empty\(\) const', empty), (r'insert\(std::pair<int const, int>( const&|&&)\)', insert),
                (r'erase\(int const&\)', erase_key), (r'erase\[abi:cxx11\]\(std::_Rb_tree_(const_)?iterator<.*>\)', erase_at), (r'erase\(std::_Rb_tree_(const_)?iterator<.*>\)', erase_at),
                (r'operator\[\]\(int( const)?&&?\)', index)]
        pats = [(re.compile(re.escape(MAPT) + p + r'$'), h) for p, h in pats]
        for m, dn in E.mod.dem.items():
            for rx, h in pats:
                if rx.match(dn):
                    E.contracts[m] = h

        def step(c):
            def h(E, st, a, d):
                p = a[0]
                if not isinstance(p, Ptr) or p.obj not in st.objs or st.objs[p.obj].name != 'entries':
                    raise Unsupported('iterator into an unknown map')
                o = st.objs[p.obj]
                if not o.alive:
                    E.fail(st, 'iterator used after the map changed')
                    return []
                E.prove(st, ULT(bv(p.idx, 64), o.len) if c > 0 else UGT(bv(p.idx, 64), 0), 'iterator precondition: not moved beyond the ends')
                hd = o.base.arg(0)
                i = z3.LShR(bv(p.idx, 64), 1)
                self.place(st, hd, i)
                return [(st, Ptr(p.obj, simp(bv(p.idx, 64) + 2 * c)))]
            return h
        for m in E.mod.funcs:
            if m.startswith('@_ZSt18_Rb_tree_increment'):
                E.contracts[m] = step(1)
            elif m.startswith('@_ZSt18_Rb_tree_decrement'):
                E.contracts[m] = step(-1)
            elif '_M_valptr' in m and '_Rb_tree_node' in m:
                def val(E, st, a, d):
                    p = a[0]
                    if not isinstance(p, Ptr) or p.obj not in st.objs or st.objs[p.obj].name != 'entries':
                        return NotImplemented
                    i = z3.LShR(bv(p.idx, 64), 1)
                    self.place(st, st.objs[p.obj].base.arg(0), i)
                    E.prove(st, ULT(bv(p.idx, 64), st.objs[p.obj].len), 'iterator precondition: at an entry, not at the end')
                    return [(st, p)]
                E.contracts[m] = val
        E.contracts['@pred'] = lambda E, st, a, d: [(st, If(PRED(bv(a[0], 32), bv(a[1], 32)), V(1, 1), V(0, 1)) == 1)]
        E.contracts['@newkey'] = lambda E, st, a, d: [(st, NKEY(bv(a[0], 32), bv(a[1], 32)))]
        E.contracts['@newval'] = lambda E, st, a, d: [(st, NVAL(bv(a[0], 32), bv(a[1], 32)))]
        E.contracts['@inj'] = lambda E, st, a, d: [(st, INJ(bv(a[0], 32), bv(a[1], 32), bv(a[2], 32)))]
        E.plain_loop = False

    # ---------------------------------------------------------------- state
    def body(self, tag):
        E, st = self.E, self.st
        oid = E.new_cells(st, self.sizeB, 'body_' + tag, heap='new')
        c = st.w(oid).cells
        for off, x in st.objs[self.proto.obj].cells.items():
            c[off] = x
        rc, h = z3.BitVec('rc_' + tag, 32), z3.BitVec('map_' + tag, 64)
        st.assume(And(rc >= 1, rc < (1 << 28)))
        self.known(st, h)
        st.assume(PREFIX(h, V(0, 64)) == EMPTY)
        st.foralls.append(Forall(lambda t, h=h: prefix_facts(self, self.st, h, t), (0,), 'prefix', dom='k'))
        E._cell_store(st.w(oid), self.ref, 4, rc)
        E._cell_store(st.w(oid), self.map, 8, h)
        b = type('Body', (), {})()
        b.tag, b.oid, b.rc, b.h, b.users = tag, oid, rc, h, 0
        self.bodies[tag] = b
        E.inputs['rc_' + tag] = rc
        E.inputs['n_' + tag] = N(h)
        return b

    def var(self, tag, body):
        E, st = self.E, self.st
        oid = E.new_cells(st, self.sizeM, 'map_' + tag)
        E._cell_store(st.w(oid), 0, 8, Ptr(body.oid, 0))
        body.users += 1
        st.assume(body.rc >= body.users)
        self.maps[tag] = (oid, body)
        return Ptr(oid, 0)

    def raw(self):
        return Ptr(self.E.new_cells(self.st, self.sizeM, 'new_map'), 0)

    def intbuf(self, tag):
        v = z3.BitVec(tag, 32)
        oid = self.E.new_cells(self.st, 4, tag)
        self.E._cell_store(self.st.w(oid), 0, 4, v)
        self.st.w(oid).const = True
        self.E.inputs[tag] = v
        return Ptr(oid, 0), v

    # ---------------------------------------------------------------- postconditions
    def check(self, s, what, res, gone=(), extra=()):
        """res: variable -> (present(q), value(q), size) expected, None: its own old map. Other users of a body keep it as it was."""
        E, q = self.E, self.q
        uses = {}
        for p, e in list(res.items()):
            b = E.load(s, Ptr(p, 0), ('ptr',))
            ok = isinstance(b, Ptr) and b.obj and s.objs[b.obj].alive and isint(b.idx) and b.idx == 0 and b.obj not in extra
            E.prove(s, z3.BoolVal(bool(ok)), what + ': the map has a live body')
            if not ok:
                continue
            uses[b.obj] = uses.get(b.obj, 0) + 1
            h = self.handle(s, Ptr(b.obj, self.map))
            if e is None:
                e = self.model([x for o, x in self.maps.values() if o == p][0].h)
            pr, va, n = e
            E.prove(s, PRES(h, q) == pr(q), what + ': exactly the right keys')
            E.prove(s, Implies(pr(q), VAL(h, q) == va(q)), what + ': each key has the right value')
            E.prove(s, N(h) == n, what + ': number of entries')
        for tag, b in self.bodies.items():
            mine = sum(1 for o, x in self.maps.values() if x is b)
            now = uses.get(b.oid, 0)
            o = s.objs[b.oid]
            if not o.alive:
                E.prove(s, z3.BoolVal(now == 0), what + ': a body in use is not freed')
                E.prove(s, b.rc == mine, what + ': a body other maps use is not freed')
                continue
            rc = E.load(s, Ptr(b.oid, self.ref), ('i', 32))
            E.prove(s, bv(rc, 32) == b.rc + (now - mine), what + ': the count is the number of users')
            E.prove(s, bv(rc, 32) != 0, what + ': an unused body is freed')
            s1 = s.fork()
            s1.assume(b.rc > mine)
            if E.feasible(s1):
                h = self.handle(s1, Ptr(b.oid, self.map))
                E.prove(s1, And(PRES(h, q) == PRES(b.h, q), Implies(PRES(b.h, q), VAL(h, q) == VAL(b.h, q)), N(h) == N(b.h)), what + ': other maps sharing the body are unchanged')
        for i, o in s.objs.items():
            if i in self.base or not o.heap or not o.alive:
                continue
            rc = E.load(s, Ptr(i, self.ref), ('i', 32)) if o.len == self.sizeB else None
            E.prove(s, z3.BoolVal(i in uses and rc is not None), what + ': nothing leaked')
            if i in uses and rc is not None:
                E.prove(s, bv(rc, 32) == uses[i], what + ': the count of a new body is the number of its users')

    @staticmethod
    def model(h):
        return (lambda q: PRES(h, q), lambda q: VAL(h, q), N(h))

    def run(self, fn, args):
        E = self.E
        E.prove(self.st, z3.BoolVal(E.feasible(self.st)), 'vacuity: precondition satisfiable')
        self.base = set(self.st.objs)
        n = 0
        for s, r in E.run(self.st, fn, args):
            if s.dead:
                continue
            n += 1
            yield s, r
        E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns' % fn)


def unshare_hook(w):
    """a body made by copying holds the first k entries of the old one after k steps"""
    def hook(E, st, view):
        out = []
        for v in view.vars:
            if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell' and v.key[2] == w.map:
                for b in w.bodies.values():
                    h = b.h
                    w.known(st, h)
                    out.append(('copied so far', lambda kk, vv, v=v, h=h: And(bv(vv[v.key], 64) == PREFIX(h, bv(kk, 64)), ULE(bv(kk, 64), N(h)))))
        return out
    return hook


def prefix_facts(w, st, h, t):
    t = bv(t, 64)
    q = w.q
    n, n1 = PREFIX(h, t), PREFIX(h, t + 1)
    k, v = KA(h, t), VA(h, t)
    return And(PREFIX(h, V(0, 64)) == EMPTY, Implies(ULT(t, N(h)), INS(n, k, v) == n1),
               Implies(ULE(t, N(h)), And(N(n) == t, PRES(n, q) == And(PRES(h, q), ULT(RK(h, q), t)), VAL(n, q) == VAL(h, q),
                                         *[And(PRES(n, x) == And(PRES(h, x), ULT(RK(h, x), t)), VAL(n, x) == VAL(h, x)) for x in st.ghost['keys']])))


def setup(E):
    E.unroll_first = False
    w = W(E)
    E.loop_inv = unshare_hook(w)
    return w


SC = ('sole', 'shared')


def start(E):
    w = setup(E)
    A = w.body('a')
    a = w.var('a', A)
    return w, A, a


def t_new(E, fn):
    w = setup(E)
    r = w.raw()
    args, res = [r], {r.obj: w.model(EMPTY)}
    if fn == 'm_copy':
        A = w.body('a')
        a = w.var('a', A)
        args, res = [r, a], {r.obj: w.model(A.h), a.obj: None}
    for s, x in w.run(fn, args):
        w.check(s, fn[2:], res)


def t_data(E):
    w = setup(E)
    st = w.st
    n = z3.BitVec('n', 32)
    st.assume(And(n >= 0, ULT(n, 1 << 20)))
    kb, vb = z3.Array('keys', I, K), z3.Array('vals', I, K)
    ko = E.new_arr(st, 4, z3.ZeroExt(32, n), 'keys', base=kb)
    vo = E.new_arr(st, 4, z3.ZeroExt(32, n), 'values', base=vb)
    st.assume(FOLD(V(0, 64)) == EMPTY)
    st.foralls.append(Forall(lambda t: FOLD(bv(t, 64) + 1) == INS(FOLD(bv(t, 64)), z3.Select(kb, bv(t, 64)), z3.Select(vb, bv(t, 64))), (0,), 'given', dom='k'))
    E.loop_inv = lambda E, st, view: [('built so far', lambda kk, vv, v=v: bv(vv[v.key], 64) == FOLD(bv(kk, 64))) for v in view.vars if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell' and v.key[2] == w.map]
    r = w.raw()
    E.inputs['n'] = n
    for s, x in w.run('m_data', [r, Ptr(ko, 0), Ptr(vo, 0), n]):
        w.check(s, 'construction from arrays', {r.obj: w.model(FOLD(z3.ZeroExt(32, n)))})


def t_assign(E, kind):
    w, A, a = start(E)
    if kind == 'self':
        b, hb = a, A
    else:
        hb = A if kind == 'same' else w.body('b')
        b = w.var('b', hb)
    for s, x in w.run('m_assign', [a, b]):
        w.check(s, 'assignment', {a.obj: w.model(hb.h), b.obj: w.model(hb.h)})


def t_dtor(E):
    w, A, a = start(E)
    for s, x in w.run('m_dtor', [a]):
        w.check(s, 'destructor', {})


def t_mut(E, fn, other):
    """insert, remove, put, clear; other: another variable of this caller shares the body"""
    w, A, a = start(E)
    res = {}
    if other:
        b = w.var('b', A)
        res[b.obj] = None
    kp, k = w.intbuf('k')
    v = z3.BitVec('v', 32)
    E.inputs['v'] = v
    h = A.h
    w.key(w.st, k)
    has = PRES(h, k)
    one = If(has, V(0, 64), V(1, 64))
    args, exp, nm = {
        'm_insert': ([a, k, v], (lambda q: Or(q == k, PRES(h, q)), lambda q: If(And(q == k, Not(has)), v, VAL(h, q)), N(h) + one), 'insert'),
        'm_put': ([a, kp, v], (lambda q: Or(q == k, PRES(h, q)), lambda q: If(q == k, v, VAL(h, q)), N(h) + one), 'put'),
        'm_remove': ([a, kp], (lambda q: And(q != k, PRES(h, q)), lambda q: VAL(h, q), N(h) - If(has, V(1, 64), V(0, 64))), 'remove'),
        'm_clear': ([a], w.model(EMPTY), 'clear')}[fn]
    res[a.obj] = exp
    for s, x in w.run(fn, args):
        w.check(s, nm, res)
        if fn == 'm_put':
            E.prove(s, bv(x, 32) == k, 'put returns the key')


def bo(r):
    return z3.BoolVal(bool(r)) if isint(r) else (r if z3.is_bool(r) else r != 0)


def t_look(E, fn):
    w, A, a = start(E)
    kp, k = w.intbuf('k')
    w.key(w.st, k)
    h = A.h
    out = Ptr(E.new_cells(w.st, 8, 'out'), 0)
    args = {'m_index': [a, kp], 'm_contains': [a, kp], 'm_find': [a, kp, out], 'm_size': [a]}[fn]
    for s, r in w.run(fn, args):
        w.check(s, fn[2:], {a.obj: None})
        if fn == 'm_index':
            E.prove(s, bv(r, 32) == If(PRES(h, k), VAL(h, k), V(0, 32)), 'operator[] gives the value of the key, or the default value')
        elif fn == 'm_size':
            E.prove(s, bv(r, 64) == N(h), 'size is the number of entries')
        else:
            E.prove(s, bo(r) == PRES(h, k), fn[2:] + ' exactly if the key is present')
            if fn == 'm_find':
                s1 = s.fork()
                s1.assume(bo(r))
                if E.feasible(s1):
                    E.prove(s1, And(bv(E.load(s1, out, ('i', 32)), 32) == k, bv(E.load(s1, Ptr(out.obj, 4), ('i', 32)), 32) == VAL(h, k)), 'find is at the entry of the key')


def t_iter(E, fn):
    w, A, a = start(E)
    st, h = w.st, A.h
    ko = E.new_arr(st, 4, N(h), 'keys_out')
    vo = E.new_arr(st, 4, N(h), 'values_out')
    for s, r in w.run(fn, [a, Ptr(ko, 0), Ptr(vo, 0)]):
        w.check(s, fn[2:], {a.obj: None})
        E.prove(s, z3.ZeroExt(32, bv(r, 32)) == N(h), fn[2:] + ': visits every entry once')
        t = E.fresh('t', 64)
        s.assume(ULT(t, N(h)))
        if E.feasible(s):
            E.prove(s, And(bv(E.arr_read(s.objs[ko], t), 32) == KA(h, t), bv(E.arr_read(s.objs[vo], t), 32) == VA(h, t)), fn[2:] + ': each entry with its key and value, in order', terms=[t])


def t_quant(E, fn):
    w, A, a = start(E)
    st, h = w.st, A.h
    t = z3.BitVec('anyplace', 64)
    st.terms.append(t)
    P = lambda i: PRED(KA(h, i), VA(h, i))
    if fn == 'm_one':
        st.assume(CNT(V(0, 64)) == 0)
        st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), N(h)), And(CNT(bv(t, 64) + 1) == CNT(bv(t, 64)) + If(P(t), V(1, 64), V(0, 64)),
                                                                           ULE(CNT(bv(t, 64) + 1), CNT(N(h))), ULE(CNT(bv(t, 64)), bv(t, 64)))), (0,), 'count', dom='k'))
        st.foralls.append(Forall(lambda t: Implies(ULE(bv(t, 64), N(h)), And(ULE(CNT(bv(t, 64)), CNT(N(h))), ULE(CNT(bv(t, 64)), bv(t, 64)))), (0,), 'count', dom='k'))

        def hook(E, st, view):
            out = [('at most one so far', lambda kk, vv: ULE(CNT(bv(kk, 64)), V(1, 64))), ('at most two so far', lambda kk, vv: ULE(CNT(bv(kk, 64)), V(2, 64)))]
            for v in view.vars:
                if v.kind == 'int' and v.w in (32, 64):
                    out.append(('count ' + v.name, lambda kk, vv, v=v: bv(vv[v.key], v.w) == z3.Extract(v.w - 1, 0, CNT(bv(kk, 64)))))
                if v.kind == 'int' and v.w in (1, 8):
                    out.append(('found ' + v.name, lambda kk, vv, v=v: (boolv(vv[v.key]) if v.w == 1 else bv(vv[v.key], v.w) == 1) == (CNT(bv(kk, 64)) == 1)))
                    if v.w == 8:
                        out.append(('bool ' + v.name, lambda kk, vv, v=v: ULE(bv(vv[v.key], 8), V(1, 8))))
            return out
        E.loop_inv = hook
    for s, r in w.run(fn, [a]):
        w.check(s, fn[2:], {a.obj: None})
        r = bo(r)
        if fn == 'm_one':
            E.prove(s, r == (CNT(N(h)) == 1), 'one: exactly one entry satisfies it')
            continue
        want = fn == 'm_all'      # r == want: every entry has P == want;  otherwise some entry has P != want
        s1 = s.fork()
        s1.assume(And(r == want, ULT(t, N(h))))
        if E.feasible(s1):
            E.prove(s1, P(t) == want, fn[2:] + (': every entry satisfies it' if want else ': no entry satisfies it'), terms=[t])
        s2 = s.fork()
        s2.assume(r != want)
        if E.feasible(s2):
            s2.foralls.append(Forall(lambda i: Implies(ULT(bv(i, 64), N(h)), P(i) == want), (0,)))
            s2.foralls.append(Forall(lambda i: Implies(ULT(bv(i, 64), N(h)), P(i) == want), (0,), 'witness', dom='k'))
            E.prove(s2, z3.BoolVal(False), fn[2:] + ': some entry decides it')


def t_list(E, fn):
    """keys, values: Array<int>'s operations by their contracts (C09): an Array is its sequence of elements"""
    w, A, a = start(E)
    st, h = w.st, A.h
    q = z3.BitVec('anyplace', 64)
    st.terms.append(q)
    item = KA if fn == 'm_keys' else VA
    st.assume(And(KEYS(h, V(0, 64)) == NONE, ALEN(NONE) == 0))
    made = []

    def ctor(E, st, a, d):
        E.prove(st, bv(a[2], 32) == 0, 'Array constructed empty')
        E.store(st, a[0], NONE, ('i', 64))
        return [(st, None)]

    def copy(E, st, a, d):
        E.store(st, a[0], bv(E.load(st, a[1], ('i', 64)), 64), ('i', 64))
        return [(st, None)]

    def append(E, st, a, d):
        x = bv(E.load(st, a[1], ('i', 32)), 32)
        c = bv(E.load(st, a[0], ('i', 64)), 64)
        n = simp(APP(c, x))
        E.store(st, a[0], n, ('i', 64))
        return [(st, a[0])]
    n = 0
    for m, dn in E.mod.dem.items():
        if re.match(r'ArrayR?<int, unsigned int, ', dn):
            tail = dn.rsplit(' >::', 1)[-1]
            if re.match(r'ArrayR?\(int const\*, unsigned int, unsigned int\)$', tail):
                E.contracts[m] = ctor
            elif re.search(r'::ArrayR?\(ArrayR?<.*> const&\)$', dn):
                E.contracts[m] = copy
            elif re.match(r'(append|operator\+=|operator<<|push)\(int const&\)$', tail):
                E.contracts[m] = append
            elif tail.startswith('~Array'):
                E.contracts[m] = lambda E, st, a, d: [(st, None)]

    def facts(t):
        t = bv(t, 64)
        return Implies(ULT(t, N(h)), APP(KEYS(h, t), item(h, t)) == KEYS(h, t + 1))
    st.foralls.append(Forall(facts, (0,), 'list', dom='k'))

    def hook(E, st, view):
        return [('listed so far ' + v.name, lambda kk, vv, v=v: bv(vv[v.key], 64) == KEYS(h, bv(kk, 64))) for v in view.vars if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell']
    E.loop_inv = hook
    r = Ptr(E.new_cells(st, 64, 'result'), 0)
    for s, x in w.run(fn, [r, a]):
        w.check(s, fn[2:], {a.obj: None})
        c = bv(E.load(s, r, ('i', 64)), 64)
        E.prove(s, c == KEYS(h, N(h)), fn[2:] + ': the array of all %s, in order' % ('keys' if fn == 'm_keys' else 'values'))


def t_build(E, fn):
    """select, map: put by its contract"""
    w, A, a = start(E)
    st, h = w.st, A.h
    F = SEL if fn == 'm_select' else MAP2
    st.assume(F(h, V(0, 64)) == EMPTY)
    NK, NV = (lambda t: NKEY(KA(h, t), VA(h, t))), (lambda t: NVAL(KA(h, t), VA(h, t)))

    def facts(t):
        t = bv(t, 64)
        n = SET(F(h, t), KA(h, t), VA(h, t)) if fn == 'm_select' else SET(F(h, t), NK(t), NV(t))
        if fn == 'm_select':
            n = If(PRED(KA(h, t), VA(h, t)), n, F(h, t))
        return Implies(ULT(t, N(h)), F(h, t + 1) == n)
    st.foralls.append(Forall(facts, (0,), 'build', dom='k'))

    def put(E, st, a, d):
        b = E.load(st, a[0], ('ptr',))
        if not isinstance(b, Ptr) or b.obj not in st.objs or not isint(b.idx):
            raise Unsupported('put on a map of unknown body')
        if not E.prove(st, bv(E.load(st, Ptr(b.obj, w.ref), ('i', 32)), 32) == 1, 'only user', quiet=True):
            return NotImplemented
        k = bv(E.load(st, a[1], ('i', 32)), 32)
        p = Ptr(b.obj, w.map)
        w.update(st, p, simp(SET(w.handle(st, p), k, bv(a[2], 32))))
        return [(st, k)]
    for m, dn in E.mod.dem.items():
        if re.match(r'CowMap<int, int, CowMapBody<int, int> >::put\(int const&, int\)$', dn):
            E.contracts[m] = put

    def hook(E, st, view):
        return [('built so far ' + v.name, lambda kk, vv, v=v: bv(vv[v.key], 64) == F(h, bv(kk, 64))) for v in view.vars if v.kind == 'int' and v.w == 64 and v.key[0] == 'cell' and v.key[2] == w.map]
    E.loop_inv = hook
    r = w.raw()
    for s, x in w.run(fn, [r, a]):
        w.check(s, fn[2:], {a.obj: None, r.obj: w.model(F(h, N(h)))})


def t_inject(E):
    w, A, a = start(E)
    st, h = w.st, A.h
    i0 = z3.BitVec('start', 32)
    E.inputs['start'] = i0
    st.assume(ACC(V(0, 64)) == i0)
    st.foralls.append(Forall(lambda t: Implies(ULT(bv(t, 64), N(h)), ACC(bv(t, 64) + 1) == INJ(ACC(bv(t, 64)), KA(h, t), VA(h, t))), (0,), 'accumulate', dom='k'))
    E.loop_inv = lambda E, st, view: [('accumulated ' + v.name, lambda kk, vv, v=v: bv(vv[v.key], 32) == ACC(bv(kk, 64))) for v in view.vars if v.kind == 'int' and v.w == 32]
    for s, x in w.run('m_inject', [a, i0]):
        w.check(s, 'inject', {a.obj: None})
        E.prove(s, bv(x, 32) == ACC(N(h)), 'inject: folds all entries in order')


def t_lemmas(E):
    """the induction steps of the facts used about the ghost functions defined by recursion"""
    w = setup(E)
    st, q = w.st, w.q
    h, t = z3.BitVec('map', 64), z3.BitVec('t', 64)
    w.known(st, h)
    w.place(st, h, t)
    st.assume(And(ULT(t, N(h)), ULT(N(h), SMALL)))
    for nm, F, n1, cond in (('prefix', PREFIX, lambda n, k, v: w.ins(st, n, k, v), lambda: z3.BoolVal(True)),
                            ('selected', SEL, lambda n, k, v: w.set(st, n, k, v), lambda: PRED(q, VAL(h, q)))):
        k, v = KA(h, t), VA(h, t)
        s = st.fork()
        n = F(h, t)
        if nm == 'prefix':
            m = w.ins(s, n, k, v)
            s.assume(N(n) == t)
        else:
            m0 = w.set(s, n, k, v)
            P = PRED(k, v)
            m = If(P, m0, n)
        for x in (q, k):
            inn = And(PRES(h, x), ULT(RK(h, x), t), PRED(x, VAL(h, x)) if nm == 'selected' else z3.BoolVal(True))
            s.assume(And(PRES(n, x) == inn, Implies(PRES(n, x), VAL(n, x) == VAL(h, x))))
        inn = And(PRES(h, q), ULT(RK(h, q), t + 1), PRED(q, VAL(h, q)) if nm == 'selected' else z3.BoolVal(True))
        E.prove(s, And(PRES(m, q) == inn, Implies(PRES(m, q), VAL(m, q) == VAL(h, q))), 'lemma: %s: induction step' % nm)
        E.prove(s, Implies(True, PRES(EMPTY, q) == And(PRES(h, q), ULT(RK(h, q), V(0, 64)))), 'lemma: %s: base' % nm)
        if nm == 'prefix':
            E.prove(s, N(m) == t + 1, 'lemma: prefix: number of entries')
    s = st.fork()
    s.assume(PRES(h, q))
    E.prove(s, ULT(RK(h, q), N(h)), 'lemma: every entry has a place')


def tasks(tier):
    ts = []
    T = lambda name, f, **kw: ts.append(Task(name, 'map', f, **kw))
    for fn in ('m_default', 'm_copy'):
        T(fn[2:], (lambda fn: lambda E: t_new(E, fn))(fn))
    T('data', t_data)
    for k in ('different', 'same', 'self'):
        T('assign (%s)' % k, (lambda k: lambda E: t_assign(E, k))(k))
    T('dtor', t_dtor)
    for fn in ('m_insert', 'm_remove', 'm_put', 'm_clear'):
        for o in (False, True):
            T('%s (%s)' % (fn[2:], 'two variables' if o else 'one variable'), (lambda fn, o: lambda E: t_mut(E, fn, o))(fn, o))
    for fn in ('m_index', 'm_contains', 'm_find', 'm_size'):
        T(fn[2:], (lambda fn: lambda E: t_look(E, fn))(fn))
    for fn in ('m_iter', 'm_each'):
        T(fn[2:], (lambda fn: lambda E: t_iter(E, fn))(fn))
    for fn in ('m_all', 'm_any', 'm_one'):
        T(fn[2:], (lambda fn: lambda E: t_quant(E, fn))(fn))
    T('keys', lambda E: t_list(E, 'm_keys'))
    T('values', lambda E: t_list(E, 'm_values'))
    T('select', lambda E: t_build(E, 'm_select'))
    T('map', lambda E: t_build(E, 'm_map'))
    T('inject', t_inject)
    T('lemmas', t_lemmas)
    return ts
