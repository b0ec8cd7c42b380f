"""Path-based symbolic execution of LLVM IR: generates the proof obligations of the contracts in /verif/contracts.

Memory model: every allocation is an object; a pointer is (object, element index, sub-byte offset).  Objects are either
'cells' (concrete byte offsets: structs, frames, vtables, small tables) or 'arr' (an SMT array of fixed-size elements with
symbolic length plus a log of point writes and range writes).  Machine integers are bit-vectors of their real width.
"""
import re, time, itertools, shutil, subprocess
import z3
import ir

z3.set_param('auto_config', True)


CVC5 = shutil.which('cvc5')


class Unsupported(Exception):
    pass


class PathLimit(Exception):
    pass


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    v = mask(v, w)
    return v - (1 << w) if v >> (w - 1) else v


def isint(x):
    return isinstance(x, int)


def bv(x, w):
    if isint(x):
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def conc(x):
    """normalise: z3 numerals -> python int"""
    if isint(x):
        return x
    if isinstance(x, z3.BitVecNumRef):
        return x.as_long()
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x):
            return 1
        if z3.is_false(x):
            return 0
    return x


def simp(x):
    if isint(x):
        return x
    return conc(z3.simplify(x))


CMPK = {z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT}


def plain_cmp(f):
    """unsigned comparison of a variable with a number: kept as it is (z3.simplify would split it into bits)"""
    if not isinstance(f, z3.BoolRef):
        return False
    if f.decl().kind() == z3.Z3_OP_NOT:
        f = f.arg(0)
    if f.decl().kind() not in CMPK:
        return False
    a, b = f.arg(0), f.arg(1)
    if z3.is_bv_value(b):
        return z3.is_const(a)
    return z3.is_bv_value(a) and z3.is_const(b)


def keepc(c):
    """constant if it simplifies to one, else as written (z3.simplify splits comparisons of extended values into bit fields)"""
    r = simp(c)
    return r if isint(r) else c


def boolv(x):
    if isint(x):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BitVecRef):
        return x == 1
    return x


def add64(a, b):
    if isint(a) and isint(b):
        return mask(a + b, 64)
    if isint(a) and a == 0:
        return b
    if isint(b) and b == 0:
        return a
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isint(a) and isint(b):
        return mask(a - b, 64)
    if isint(b) and b == 0:
        return a
    return simp(bv(a, 64) - bv(b, 64))


def mul64(a, c):
    if isint(a):
        return mask(a * c, 64)
    if c == 1:
        return a
    return simp(bv(a, 64) * z3.BitVecVal(c, 64))


class Ptr:
    __slots__ = ('obj', 'idx', 'sub')

    def __init__(self, obj, idx=0, sub=0):
        self.obj, self.idx, self.sub = obj, idx, sub

    def __repr__(self):
        return 'Ptr(%s,%s%s)' % (self.obj, self.idx, '+%d' % self.sub if self.sub else '')


NULL = Ptr(0, 0, 0)


def isnull(p):
    return isinstance(p, Ptr) and p.obj == 0 and isint(p.idx) and p.idx == 0


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Obj:
    __slots__ = ('kind', 'esz', 'len', 'alive', 'heap', 'cells', 'base', 'log', 'name', 'const', 'lazy', 'tag')

    def __init__(self, kind, esz, ln, name, heap=None, base=None, const=False):
        self.kind, self.esz, self.len, self.name, self.heap = kind, esz, ln, name, heap
        self.alive = True
        self.cells = {}
        self.base = base
        self.log = ()
        self.const = const
        self.lazy = None
        self.tag = None

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        return o


class Forall:
    """forall t (BV64): fn(t); los: offsets such that a read at index x suggests the instance t = x - lo"""
    __slots__ = ('fn', 'los', 'name', 'dom', 'trig')

    def __init__(self, fn, los=(0,), name='', dom=None, trig=None):
        # dom 'k': quantifies over iteration counts, instantiated at loop counters only
        # trig: an array; instantiated at every index (less lo) at which the array is read in the query
        self.fn, self.los, self.name, self.dom, self.trig = fn, list(los), name, dom, trig


class State:
    __slots__ = ('objs', 'owned', 'pc', 'foralls', 'ghost', 'model', 'notes', 'dead', 'terms', 'kterms')

    def __init__(self):
        self.objs, self.owned, self.pc, self.foralls, self.ghost = {}, set(), [], [], {}
        self.model = None
        self.notes = []
        self.dead = False
        self.terms = []
        self.kterms = []

    def fork(self):
        s = State()
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.foralls = list(self.foralls)
        s.ghost = dict(self.ghost)
        s.model = self.model
        s.notes = list(self.notes)
        s.terms = list(self.terms)
        s.kterms = list(self.kterms)
        return s

    def w(self, oid):
        """writable object"""
        if oid not in self.owned:
            self.objs[oid] = self.objs[oid].copy()
            self.owned.add(oid)
        return self.objs[oid]

    def assume(self, f):
        f = conc(f) if not isint(f) else f
        if isint(f):
            if not f:
                self.pc.append(z3.BoolVal(False))
                self.model = None
            return
        self.pc.append(f)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(f, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None


class Obligation:
    __slots__ = ('name', 'status', 'model', 'secs', 'where', 'inputs', 'trivial')

    def __init__(self, name, status, secs=0.0, model=None, where='', inputs=None, trivial=False):
        self.name, self.status, self.secs, self.model, self.where = name, status, secs, model, where
        self.inputs = inputs
        self.trivial = trivial


class Engine:
    def __init__(self, mod, timeout_ms=20000):
        self.mod = mod
        self.oid = itertools.count(1)
        self.fresh_n = itertools.count(1)
        self.obls = []
        self.timeout = timeout_ms
        self.contracts = {}      # mangled -> handler
        self.contract_re = []    # (compiled regex on demangled, handler)
        self.globals_obj = {}
        self.inputs = {}         # name -> z3 expr or callable(model) for replays
        self.solver_secs = 0.0
        self.unroll = 40
        self.loop_mode = 'auto'
        self.max_paths = 20000
        self.paths = 0
        self.executed = set()    # functions whose body was executed (demangled)
        self.called_contracts = set()
        self.trusted = set()
        self.where = ''
        self.new_elem = 1        # element size of operator new[] buffers
        self.depth = 0
        self.notes = []
        self.loop_inv = None
        self.loop_each = None
        self._opq = {}
        self._flat = {}
        self.no_try = False      # do not try to unroll before summarising
        self.unwind_fail = []
        self.summaries = []
        self.global_inits = {}
        self.int_ptr = False
        self.shared = {}         # object id -> handler(E, st, p, 'load'|'store'|'add'|'sub', ty, value): object other threads use too; None: default
        self.volatile = {}       # object id -> (lo, hi): shared scalar that any thread may set to a value in [lo,hi) at any time
        self.frozen_globals = None   # regex: mutable globals that must never be written
        self.cov = {}
        self.deadline = None
        self.wide_ms = 120
        self.after_loop = None   # hook: (terms, facts) to express what is known after a loop in
        self.smt = False         # z3's core SMT solver without preprocessing
        self.first_ms = None     # give the first attempt this long before other solvers are tried
        self._simpid = {}
        self.stop_on_fail = True
        self.sumloops = 0
        self.quiet = False
        self.auto_unroll = 10
        self.unroll_first = True
        self.small = None        # feasibility checks drop path conditions larger than this (sound: more paths are explored)
        self._small = {}
        self._sel = {}
        self.wide = False        # rewrite 32-bit index arithmetic that provably does not wrap as 64-bit arithmetic (each rewrite is proved)
        self.widened = 0
        self.by = {'z3': 0, 'cvc5': 0}

    # ------------------------------------------------------------------ solver
    def fresh(self, name, w):
        n = '%s!%d' % (name, next(self.fresh_n))
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def fresh_arr(self, name, esz):
        return z3.Array('%s!%d' % (name, next(self.fresh_n)), z3.BitVecSort(64), z3.BitVecSort(8 * esz))

    def _solver(self, ms):
        s = z3.Tactic('smt').solver() if self.smt or (self.wide and self.wide_ms > 500) else z3.Solver()
        s.set('timeout', ms)
        return s

    def is_small(self, f):
        """fewer than self.small distinct AST nodes"""
        if self.small is None:
            return True
        k = f.get_id()
        r = self._small.get(k)
        if r is None:
            seen, todo = set(), [f]
            while todo and len(seen) <= self.small:
                x = todo.pop()
                i = x.get_id()
                if i not in seen:
                    seen.add(i)
                    todo.extend(x.children())
            r = (len(seen) <= self.small, f)      # keep f alive: ids are reused
            self._small[k] = r
        return r[0]

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time budget of this contract used up')

    def check_deadline_soft(self):
        self.check_deadline()

    def feasible(self, st, cond=None):
        if cond is not None:
            cond = simp(cond) if not isint(cond) and not plain_cmp(cond) else cond
            if isint(cond):
                if not cond:
                    return False
                cond = None
        if st.model is not None:
            if cond is None:
                return True
            try:
                if z3.is_true(st.model.eval(cond, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        self.check_deadline()
        t = time.time()
        s = self._solver(4000 if not self.wide else self.wide_ms)
        for f in st.pc:
            if self.is_small(f):
                s.add(f)
        for f in self.inst(st, []):
            s.add(f)
        if cond is not None:
            s.add(cond)
        r = s.check()
        if r == z3.unknown and self.wide and self.cvc5(s, 4000)[0] == 'unsat':
            r = z3.unsat
        self.solver_secs += time.time() - t
        if r == z3.unsat:
            return False
        if r == z3.sat and cond is None:
            st.model = s.model()
        if r == z3.sat and cond is not None:
            self._lastmodel = s.model()
        else:
            self._lastmodel = None
        return True

    def selects(self, e):
        """(array id, index) of every array read in e"""
        k = e.get_id()
        r = self._sel.get(k)
        if r is None:
            out, seen, todo = {}, set(), [e]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if x.decl().kind() == z3.Z3_OP_SELECT:
                    out[(x.arg(0).get_id(), x.arg(1).get_id())] = (x.arg(0), x.arg(1))
                todo.extend(x.children())
            r = self._sel[k] = (out, e)
        return r[0]

    def inst(self, st, terms, goal=None):
        out = []
        if not st.foralls:
            return out
        seen = set()
        for fa in st.foralls:
            if fa.trig is None:
                continue
            tid = fa.trig.get_id()
            for c in st.pc + ([goal] if goal is not None else []):
                for (a, _), (_, ix) in self.selects(c).items():
                    if a != tid:
                        continue
                    for lo in fa.los:
                        u = sub64(ix, lo)
                        k = (id(fa), u if isint(u) else u.get_id())
                        if k not in seen:
                            seen.add(k)
                            out.append(boolv(fa.fn(u)))
        ts = list(st.terms) + [t for t in terms if not isinstance(t, tuple)]
        for fa in st.foralls:
            if fa.trig is not None:
                continue
            for t in (ts if fa.dom is None else st.kterms):
                for lo in fa.los:
                    u = sub64(t, lo)
                    k = (id(fa), u if isint(u) else u.get_id())
                    if k in seen:
                        continue
                    seen.add(k)
                    f = fa.fn(u)
                    if isint(f):
                        if f:
                            continue
                        f = z3.BoolVal(False)
                    out.append(f)
        return out

    def known_fact(self, st, g):
        """every conjunct of g (simplified) is literally one of the facts of st"""
        if len(st.pc) > 400:
            return False
        ids = set()
        for c in st.pc:
            k = c.get_id()
            r = self._simpid.get(k)
            if r is None:
                e = z3.simplify(c)
                r = self._simpid[k] = ([x.get_id() for x in (e.children() if z3.is_and(e) else [e])], c, e)
            ids.update(r[0])
        return all(x.get_id() in ids for x in (g.children() if z3.is_and(g) else [g]))

    def prove(self, st, f, name, terms=(), quiet=False):
        """record and discharge an obligation: in every state satisfying st.pc, f"""
        f = boolv(f)
        if self.quiet and not quiet:
            return True
        t = time.time()
        g = z3.simplify(f)
        if z3.is_true(g):
            if not quiet:
                self.obls.append(Obligation(name, 'proved', 0.0, where=self.where, trivial=True))
            return True
        self.check_deadline()
        if self.known_fact(st, g):
            if not quiet:
                self.obls.append(Obligation(name, 'proved', 0.0, where=self.where, trivial=True))
            return True
        if self.small is not None and not quiet:
            s = self._solver(2000)
            for c in st.pc:
                if self.is_small(c):
                    s.add(c)
            s.add(z3.Not(f))
            if s.check() == z3.unsat:
                dt = time.time() - t
                self.solver_secs += dt
                self.obls.append(Obligation(name, 'proved', dt, where=self.where))
                return True
        r, s = self.decide(st.pc + self.inst(st, list(terms), f) + [z3.Not(f)], quiet)
        dt = time.time() - t
        self.solver_secs += dt
        if quiet:
            return r == z3.unsat
        if r == z3.unsat:
            self.obls.append(Obligation(name, 'proved', dt, where=self.where))
            return True
        if r == z3.sat:
            m = s.model()
            self.obls.append(Obligation(name, 'failed', dt, None, self.where, self.model_inputs(st, m)))
        else:
            self.obls.append(Obligation(name, 'unknown', dt, where=self.where))
        return False

    def decide(self, fs, quiet):
        """satisfiability of the conjunction: (result, solver with a model if sat).  z3, then cvc5 on the integers, then z3 again"""
        ghost = self.wide and self.wide_ms > 500
        s = self._solver(min(self.timeout, 500 if ghost else self.wide_ms) if self.wide else min(self.timeout, self.first_ms or self.timeout))
        s.add(*fs)
        r = s.check()
        if r != z3.unknown:
            self.by['z3'] += 1
            return r, s
        if ghost:
            # fewer hypotheses first: those about the terms of the goal
            for sel in self.relevant(fs):
                s2 = z3.Solver()
                s2.add(*sel)
                if self.cvc5(s2, 2000)[0] == 'unsat':
                    self.by['cvc5'] += 1
                    return z3.unsat, s
        for seed in ((0, 7) if ghost else ()):
            s2 = self._solver(self.wide_ms)
            s2.set('random_seed', seed)
            s2.add(*fs)
            r = s2.check()
            if r != z3.unknown:
                self.by['z3'] += 1
                return r, s2
        r, vals = self.cvc5(s, min(self.timeout, 20000))
        if r == 'unsat':
            self.by['cvc5'] += 1
            return z3.unsat, s
        if r == 'sat' and quiet:
            return z3.sat, s
        if r == 'sat':
            s2 = self._solver(self.timeout)
            s2.add(*fs)
            s2.add(*vals)
            if s2.check() == z3.sat:
                return z3.sat, s2
        if quiet and self.wide:
            return z3.unknown, s
        # second attempt with a different tactic
        if not self.wide:
            s = z3.Tactic('qfaufbv').solver()
        s.set('timeout', self.timeout)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            self.by['z3'] += 1
        return r, s

    def opaque(self, e):
        """the uninterpreted terms of e (not looking inside them)"""
        k = e.get_id()
        r = self._opq.get(k)
        if r is not None:
            return r[1]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([k])
        else:
            r = frozenset().union(*[self.opaque(c) for c in e.children()])
        self._opq[k] = (e, r)
        return r

    def opaque_args(self, e):
        """the uninterpreted terms inside the arguments of those of e"""
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                for c in x.children():
                    out |= self.opaque(c)
            todo.extend(x.children())
        return frozenset(out)

    def flat_facts(self, f):
        r = self._flat.get(f.get_id())
        if r is None:
            out, todo = [], [f]
            while todo:
                x = todo.pop()
                if z3.is_and(x):
                    todo.extend(x.children())
                elif z3.is_implies(x) and z3.is_and(x.arg(1)):
                    todo.extend(z3.Implies(x.arg(0), y) for y in x.arg(1).children())
                else:
                    out.append((x, self.opaque(x)))
            r = self._flat[f.get_id()] = (f, out)
        return r[1]

    def relevant(self, fs):
        """growing selections of the hypotheses about the terms of the goal"""
        goal, flat = fs[-1], [y for x in fs[:-1] for y in self.flat_facts(x)]
        G, last = self.opaque(goal), -1
        for stage in range(4):
            sel = [x for x, a in flat if a <= G]
            if last < len(sel) < 0.8 * len(flat):
                yield sel + [goal]
            last = len(sel)
            if stage == 0:
                G = G | self.opaque_args(goal)
                continue
            N = set(G)
            for x, a in flat:
                if len(a - G) <= 1 and a & G:
                    N |= a
            G = frozenset(N)

    def cvc5(self, s, ms):
        if CVC5 is None:
            return 'unknown', []
        scal = {}
        seen = set()
        todo = list(s.assertions())
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x):
                scal[x.sexpr()] = x
            if z3.is_fp(x):
                return 'unknown', []
            todo.extend(x.children())
        names = list(scal)
        txt = '(set-option :produce-models true)\n(set-logic QF_AUFBV)\n' + s.to_smt2()
        if names:
            txt += '(get-value (%s))\n' % ' '.join(names)
        try:
            r = subprocess.run([CVC5, '--solve-bv-as-int=bitwise', '--tlimit=%d' % ms, '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown', []
        o = r.stdout.strip().split('\n', 1)
        if o[0] == 'unsat':
            return 'unsat', []
        if o[0] == 'sat':
            vals = []
            for m in re.finditer(r'\((\|[^|]*\||[^\s()|]+) (#b[01]+|#x[0-9a-fA-F]+)\)', o[1] if len(o) > 1 else ''):
                x = scal.get(m.group(1))
                if x is not None:
                    v = m.group(2)
                    vals.append(x == z3.BitVecVal(int(v[2:], 2 if v[1] == 'b' else 16), x.size()))
            return 'sat', vals
        return 'unknown', []

    def model_inputs(self, st, m):
        out = {}
        for k, e in self.inputs.items():
            try:
                out[k] = self._ev(m, e)
            except Exception as x:
                out[k] = 'ERR ' + str(x)
        return out

    def _ev(self, m, e):
        if callable(e):
            return e(lambda x: self._ev(m, x))
        if isint(e):
            return e
        if isinstance(e, str):
            return e
        v = m.eval(e, model_completion=True)
        return conc(v)

    # ------------------------------------------------------------------ objects
    def new_cells(self, st, size, name, heap=None):
        i = next(self.oid)
        st.objs[i] = Obj('cells', 1, size, name, heap)
        st.owned.add(i)
        return i

    def new_arr(self, st, esz, ln, name, heap=None, base=None):
        i = next(self.oid)
        if base is None:
            base = self.fresh_arr(name, esz)
        st.objs[i] = Obj('arr', esz, ln, name, heap, base)
        st.owned.add(i)
        return i

    def base_addr(self, oid):
        if oid == 0:
            return 0
        return z3.BitVec('addr!%s' % (oid,), 64)

    def addr(self, st, p):
        if isinstance(p, Fn):
            return z3.BitVec('fnaddr!%s' % p.name, 64)
        esz = 1 if p.obj == 0 else st.objs[p.obj].esz
        off = add64(mul64(p.idx, esz), p.sub)
        if p.obj == 0:
            return off
        return add64(self.base_addr(p.obj), off)

    def byteoff(self, st, p):
        esz = 1 if p.obj == 0 else st.objs[p.obj].esz
        return add64(mul64(p.idx, esz), p.sub)

    def ptr_add(self, st, p, n, scale):
        """p + n*scale bytes"""
        if isinstance(p, Fn):
            if isint(n) and n == 0:
                return p
            raise Unsupported('arithmetic on function pointer')
        if isint(n):
            n = sgn(n, 64)
            if n == 0:
                return p
        esz = 1 if p.obj == 0 else st.objs[p.obj].esz
        if scale % esz == 0:
            return Ptr(p.obj, add64(p.idx, mul64(n, scale // esz)), p.sub)
        if isint(n):
            tot = p.sub + n * scale
            return Ptr(p.obj, add64(p.idx, mask(tot // esz, 64)), tot % esz)
        # symbolic byte offset into an array of wider elements: must be a multiple of the element
        q = simp(z3.UDiv(bv(n, 64) * z3.BitVecVal(scale, 64), z3.BitVecVal(esz, 64)))
        raise Unsupported('symbolic byte offset in %d-byte elements' % esz)

    # ------------------------------------------------------------------ memory access
    def arr_read(self, o, i):
        """element of an arr object as BV(8*esz) or int"""
        w = 8 * o.esz
        i = conc(i)
        acc = []
        res = None
        for e in reversed(o.log):
            if e[0] == 'pt':
                d = sub64(i, e[1])
                if isint(d):
                    if d == 0:
                        res = e[2]
                        break
                    continue
                acc.append((d == 0, e[2]))
            else:
                d = sub64(i, e[1])
                n = e[2]
                c = keepc(z3.ULT(bv(d, 64), bv(n, 64))) if not (isint(d) and isint(n)) else int(d < n)
                if isint(c):
                    if c:
                        res = e[3](d)
                        break
                    continue
                acc.append((c, e[3](d)))
        if res is None:
            b = o.base
            if isinstance(b, (bytes, bytearray, list, tuple)):
                if isint(i):
                    if 0 <= i < len(b):
                        res = b[i]
                    else:
                        raise Unsupported('constant table read out of range')
                else:
                    res = z3.BitVecVal(b[-1], w)
                    for k in range(len(b) - 2, -1, -1):
                        res = z3.If(bv(i, 64) == k, z3.BitVecVal(b[k], w), res)
            elif callable(b):
                res = b(i)
            else:
                res = z3.Select(b, bv(i, 64))
        for c, v in reversed(acc):
            if isinstance(v, Ptr) or isinstance(res, Ptr):
                raise Unsupported('pointer in array ite')
            res = z3.If(c, bv(v, w), bv(res, w))
        return conc(res)

    def bounds(self, st, p, n, what):
        """obligation: the n-byte access at p is inside a live object"""
        if not isinstance(p, Ptr) or p.obj == 0:
            self.fail(st, '%s: null or invalid pointer dereference' % what)
            return False
        o = st.objs[p.obj]
        if not o.alive:
            self.fail(st, '%s: access to freed memory (%s)' % (what, o.name))
            return False
        if o.len is None:
            return True
        if o.kind == 'cells':
            if isint(p.idx):
                off = sgn(p.idx, 64)
                if off < 0 or off + n > o.len:
                    self.fail(st, '%s: out of bounds of %s' % (what, o.name))
                    return False
                return True
            f = z3.And(z3.ULE(p.idx, o.len - n))
        else:
            cnt = (p.sub + n + o.esz - 1) // o.esz
            if isint(p.idx) and isint(o.len):
                if not (0 <= sgn(p.idx, 64) and p.idx + cnt <= o.len):
                    self.fail(st, '%s: out of bounds of %s' % (what, o.name))
                    return False
                return True
            f = z3.And(z3.ULT(bv(p.idx, 64), bv(o.len, 64)))
            if cnt > 1:
                f = z3.And(f, z3.ULE(bv(cnt, 64), bv(o.len, 64) - bv(p.idx, 64)))
        ok = self.prove(st, f, '%s: in bounds of %s' % (what, o.name), terms=[p.idx])
        if not ok:
            st.assume(f)
            if not self.feasible(st):
                st.dead = True
                return False
        return True

    def fail(self, st, name):
        """an obligation that is simply false on this (feasible) path"""
        self.prove(st, z3.BoolVal(False), name)
        st.dead = True

    def load(self, st, p, ty, what='load'):
        ty = self.mod.resolve(ty)
        n = self.mod.size(ty)
        if isinstance(p, (PInt,)):
            p = p.p
        if isinstance(p, Ptr) and p.obj == 0 and not isnull(p):
            raise Unsupported('load through integer pointer')
        if not self.bounds(st, p, n, what):
            return None
        o = st.objs[p.obj]
        if p.obj in self.shared:
            r = self.shared[p.obj](self, st, p, 'load', ty, None)
            if st.dead:
                return None
            if r is not None:
                return r
            o = st.objs[p.obj]
        if p.obj in self.volatile:
            lo, hi = self.volatile[p.obj]
            v = self.fresh('shared_' + o.name, 8 * n)
            st.assume(z3.And(v >= lo, v < hi))
            return v
        if ty[0] in ('struct', 'arr'):
            if ty[0] == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                return tuple(self.load(st, self.ptr_add(st, p, off, 1), f) for off, f in zip(offs, ty[1]))
            return tuple(self.load(st, self.ptr_add(st, p, k * self.mod.size(ty[2]), 1), ty[2]) for k in range(ty[1]))
        if o.kind == 'arr':
            return self._from_bits(self._arr_load(st, o, p, n), ty)
        if isint(p.idx):
            return self._from_bits(self._cell_load(st, p.obj, p.idx, n, ty), ty)
        # symbolic offset in a cells object: choose among the initialised cells of that size
        cand = [off for off, (sz, v) in sorted(o.cells.items()) if sz == n]
        opts = []
        many = len(cand) > 24 and not any(isinstance(o.cells[c][1], (Ptr, Fn)) for c in cand)
        for off in cand:
            if many or self.feasible(st, p.idx == off):
                opts.append((off, o.cells[off][1]))
        if not opts:
            raise Unsupported('symbolic offset load')
        self.prove(st, z3.Or([p.idx == off for off, _ in opts]), what + ': index selects an element of ' + o.name)
        if any(isinstance(v, (Ptr, Fn)) for _, v in opts):
            raise Unsupported('symbolic offset pointer load')
        r = bv(opts[-1][1], 8 * n)
        for off, v in reversed(opts[:-1]):
            r = z3.If(p.idx == off, bv(v, 8 * n), r)
        return self._from_bits(r, ty)

    def _from_bits(self, v, ty):
        if v is None:
            return None
        if ty[0] == 'i':
            w = ty[1]
            if w == 1:
                if isint(v):
                    return v & 1
                if isinstance(v, z3.BoolRef):
                    return v
                return conc(z3.simplify(z3.Extract(0, 0, v) == 1))
            if isinstance(v, Ptr):
                return PInt(v)
            if isinstance(v, z3.BoolRef):
                return bv(v, w)
            return v
        if ty[0] == 'ptr':
            if isinstance(v, PInt):
                return v.p
            if isint(v):
                if v == 0:
                    return NULL
                return Ptr(0, v)
            return v
        return v

    def _arr_load(self, st, o, p, n):
        if n == o.esz and p.sub == 0:
            return self.arr_read(o, p.idx)
        if n < o.esz and p.sub + n <= o.esz:
            e = self.arr_read(o, p.idx)
            if isint(e):
                return mask(e >> (8 * p.sub), 8 * n)
            return conc(z3.simplify(z3.Extract(8 * (p.sub + n) - 1, 8 * p.sub, e)))
        if p.sub == 0 and n % o.esz == 0:
            parts = [self.arr_read(o, add64(p.idx, k)) for k in range(n // o.esz)]
            if all(isint(x) for x in parts):
                r = 0
                for k, x in enumerate(parts):
                    r |= x << (8 * o.esz * k)
                return r
            return z3.simplify(z3.Concat(*[bv(x, 8 * o.esz) for x in reversed(parts)]))
        raise Unsupported('misaligned array access')

    def _cell_load(self, st, oid, off, n, ty):
        o = st.objs[oid]
        c = o.cells.get(off)
        if c and c[0] == n:
            return c[1]
        # any overlap?
        over = [(a, s, v) for a, (s, v) in o.cells.items() if a < off + n and off < a + s]
        if not over:
            if o.lazy:
                v = o.lazy(self, st, oid, off, ty)
                if v is not None:
                    st.w(oid).cells[off] = (n, v)
                    return v
            if ty[0] == 'ptr':
                raise Unsupported('load of uninitialised pointer from %s+%d' % (o.name, off))
            v = self.fresh('uninit_%s_%d' % (o.name, off), 8 * n)
            st.w(oid).cells[off] = (n, v)
            return v
        if all(isint(v) or isinstance(v, (z3.BitVecRef, z3.BoolRef)) for _, _, v in over):
            bs = []
            for k in range(off, off + n):
                for a, s, v in over:
                    if a <= k < a + s:
                        if isint(v):
                            bs.append((v >> (8 * (k - a))) & 0xff)
                        else:
                            bs.append(z3.Extract(8 * (k - a) + 7, 8 * (k - a), bv(v, 8 * s)))
                        break
                else:
                    bs.append(self.fresh('uninit', 8))
            if all(isint(b) for b in bs):
                return sum(b << (8 * i) for i, b in enumerate(bs))
            r = [bv(b, 8) for b in reversed(bs)]
            return conc(z3.simplify(z3.Concat(*r) if len(r) > 1 else r[0]))
        raise Unsupported('partial pointer load')

    def store(self, st, p, v, ty, what='store'):
        ty = self.mod.resolve(ty)
        n = self.mod.size(ty)
        if not self.bounds(st, p, n, what):
            return
        o = st.objs[p.obj]
        if p.obj in self.shared:
            r = self.shared[p.obj](self, st, p, 'store', ty, v)
            if st.dead or r is not None:
                return
            o = st.objs[p.obj]
        if p.obj in self.volatile:
            lo, hi = self.volatile[p.obj]
            x = bv(v, 8 * n)
            self.prove(st, z3.And(x >= lo, x < hi), what + ': the shared value stays within its range')
            return
        if o.const:
            self.fail(st, what + ': write to constant ' + o.name)
            return
        if ty[0] == 'struct':
            offs, _ = self.mod.struct_layout(ty)
            for off, f, x in zip(offs, ty[1], v):
                self.store(st, self.ptr_add(st, p, off, 1), x, f, what)
            return
        if ty[0] == 'i' and ty[1] == 1 and isinstance(v, z3.BoolRef):
            v = bv(v, 8)
        o = st.w(p.obj)
        if o.kind == 'arr':
            self._arr_store(st, o, p, v, n)
            return
        if isint(p.idx):
            self._cell_store(o, p.idx, n, v)
            return
        cand = [off for off, (sz, x) in sorted(o.cells.items()) if sz == n and self.feasible(st, p.idx == off)]
        self.prove(st, z3.Or([p.idx == off for off in cand]) if cand else z3.BoolVal(False),
                   what + ': index selects an element of ' + o.name)
        for off in cand:
            x = o.cells[off][1]
            if isinstance(x, (Ptr, Fn)) or isinstance(v, (Ptr, Fn)):
                raise Unsupported('symbolic offset pointer store')
            o.cells[off] = (n, z3.If(p.idx == off, bv(v, 8 * n), bv(x, 8 * n)))

    def _cell_store(self, o, off, n, v):
        if off in o.cells and o.cells[off][0] == n:
            o.cells[off] = (n, v)
            return
        for a in list(o.cells):
            s, x = o.cells[a]
            if a < off + n and off < a + s:
                del o.cells[a]
                if a < off or a + s > off + n:
                    if isinstance(x, (Ptr, Fn, PInt)):
                        raise Unsupported('partial pointer overwrite')
                    for k in range(a, a + s):
                        if k < off or k >= off + n:
                            o.cells[k] = (1, (x >> (8 * (k - a))) & 0xff if isint(x) else
                                          z3.simplify(z3.Extract(8 * (k - a) + 7, 8 * (k - a), bv(x, 8 * s))))
        o.cells[off] = (n, v)

    def _arr_store(self, st, o, p, v, n):
        if n == o.esz and p.sub == 0:
            o.log = o.log + (('pt', p.idx, v),)
            return
        if isinstance(v, (Ptr, Fn, PInt)):
            raise Unsupported('pointer store into byte array')
        if n < o.esz and p.sub + n <= o.esz:
            e = bv(self.arr_read(o, p.idx), 8 * o.esz)
            parts = []
            if p.sub + n < o.esz:
                parts.append(z3.Extract(8 * o.esz - 1, 8 * (p.sub + n), e))
            parts.append(bv(v, 8 * n))
            if p.sub:
                parts.append(z3.Extract(8 * p.sub - 1, 0, e))
            o.log = o.log + (('pt', p.idx, z3.simplify(z3.Concat(*parts)) if len(parts) > 1 else parts[0]),)
            return
        if p.sub == 0 and n % o.esz == 0:
            w = 8 * o.esz
            for k in range(n // o.esz):
                x = mask(v >> (w * k), w) if isint(v) else conc(z3.simplify(z3.Extract(w * k + w - 1, w * k, v)))
                o.log = o.log + (('pt', add64(p.idx, k), x),)
            return
        raise Unsupported('misaligned array store')

    # ------------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        g = self.mod.globals.get(name)
        if g is None:
            if name in self.mod.funcs:
                return Fn(name)
            raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.const(st, g[1], ir.PTR)
        oid = self.globals_obj.get(name)
        if oid is None:
            oid = self.globals_obj[name] = next(self.oid)
        if oid not in st.objs:
            kind, ty, init = g
            rt = self.mod.resolve(ty)
            nm = name
            if rt[0] == 'arr' and self.mod.resolve(rt[2])[0] == 'i' and rt[1] > 0:
                esz = self.mod.size(rt[2])
                o = Obj('arr', esz, rt[1], nm)
                if init is None or (init[0] == 'undef'):
                    o.base = self.fresh_arr('g' + nm, esz)
                else:
                    vals = self._const_list(init, rt, esz)
                    o.base = vals
            else:
                o = Obj('cells', 1, self.mod.size(ty) if rt[0] != 'opaque' else None, nm)
                st.objs[oid] = o
                st.owned.add(oid)
                if name in self.global_inits:
                    self.global_inits[name](self, st, oid)
                elif init is not None:
                    self._init_cells(st, o, 0, rt, init)
            o.const = kind == 'constant' or bool(self.frozen_globals and self.frozen_globals.search(name))
            st.objs[oid] = o
            st.owned.add(oid)
        return Ptr(oid, 0, 0)

    def _const_list(self, init, rt, esz):
        if init[0] == 'bytes':
            return list(init[1])
        if init[0] == 'zero':
            return [0] * rt[1]
        out = []
        for et, v in init[1]:
            out.append(mask(v[1], 8 * esz) if v[0] == 'int' else 0)
        return out

    def _init_cells(self, st, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            offs, _ = self.mod.struct_layout(ty)
            for k, f in enumerate(ty[1]):
                self._init_cells(st, o, off + offs[k], f, ('zero',) if v[0] == 'zero' else ('undef',) if v[0] == 'undef' else v[1][k][1])
            return
        if ty[0] == 'arr':
            es = self.mod.size(ty[2])
            for k in range(ty[1]):
                if v[0] == 'bytes':
                    x = ('int', v[1][k])
                elif v[0] == 'zero':
                    x = v
                elif v[0] == 'undef':
                    return
                else:
                    x = v[1][k][1]
                self._init_cells(st, o, off + k * es, ty[2], x)
            return
        if v[0] == 'undef':
            return
        o.cells[off] = (self.mod.size(ty), self.const(st, v, ty))

    def const(self, st, v, ty):
        k = v[0]
        if k == 'int':
            return mask(v[1], ty[1])
        if k == 'null':
            return NULL
        if k == 'zero':
            ty = self.mod.resolve(ty)
            if ty[0] == 'ptr':
                return NULL
            if ty[0] == 'i':
                return 0
            if ty[0] == 'f':
                return z3.FPVal(0.0, self.fsort(ty))
            if ty[0] == 'struct':
                return tuple(self.const(st, v, f) for f in ty[1])
            if ty[0] == 'arr':
                return tuple(self.const(st, v, ty[2]) for _ in range(ty[1]))
        if k == 'undef':
            ty = self.mod.resolve(ty)
            if ty[0] == 'i':
                return self.fresh('undef', ty[1])
            if ty[0] == 'struct':
                return tuple(self.const(st, v, f) for f in ty[1])
            if ty[0] == 'ptr':
                return NULL
            return None
        if k == 'glob':
            return self.global_ptr(st, v[1])
        if k == 'cgep':
            base, ops = v[1], v[2]
            p = self.const(st, ops[0][1], ops[0][0])
            return self.gep(st, base, p, [(t, self.const(st, x, t)) for t, x in ops[1:]])
        if k == 'ccast':
            x = self.const(st, v[3], v[2])
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] == 'inttoptr':
                if isint(x):
                    return Ptr(0, x) if x else NULL
                return x.p
            return x
        if k == 'agg':
            return tuple(self.const(st, x, t) for t, x in v[1])
        if k == 'fp':
            import struct as _s
            if v[1].startswith('0x'):
                d = _s.unpack('>d', bytes.fromhex(v[1][2:].rjust(16, '0')))[0]
            else:
                d = float(v[1])
            return z3.FPVal(d, self.fsort(ty))
        if k == 'cbin':
            a = self.const(st, v[3], v[2]); b = self.const(st, v[4], v[2])
            return self.binop(st, v[1], v[2], a, b)
        raise Unsupported('const %r' % (v,))

    def fsort(self, ty):
        return {'float': z3.Float32(), 'double': z3.Float64()}.get(ty[1]) or z3.Float64()

    def gep(self, st, base, p, idxs):
        """idxs: [(type, value)]"""
        t, v = idxs[0]
        p = self._gadd(st, p, v, t, self.mod.size(base))
        ty = base
        for t, v in idxs[1:]:
            ty = self.mod.resolve(ty)
            if ty[0] == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                p = self.ptr_add(st, p, offs[v], 1)
                ty = ty[1][v]
            else:
                p = self._gadd(st, p, v, t, self.mod.size(ty[2]))
                ty = ty[2]
        return p

    def _gadd(self, st, p, v, t, scale):
        w = t[1]
        if isint(v):
            return self.ptr_add(st, p, sgn(v, w), scale)
        if isinstance(v, PInt):
            raise Unsupported('gep with pointer index')
        if isinstance(v, tuple) and v[0] == 'negp':
            raise Unsupported('gep neg pointer')
        v = v if w == 64 else z3.SignExt(64 - w, v) if w < 64 else z3.Extract(63, 0, v)
        return self.ptr_add(st, p, simp(v), scale)

    # ------------------------------------------------------------------ arithmetic
    def toint(self, st, x, w=64):
        if isinstance(x, PInt):
            a = self.addr(st, x.p)
            return a
        if isinstance(x, (Ptr, Fn)):
            return self.addr(st, x)
        return x

    def binop(self, st, op, ty, a, b, flags=()):
        if ty[0] == 'f':
            return self.fbin(op, a, b)
        w = ty[1]
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj == b.p.obj:
                return sub64(self.byteoff(st, a.p), self.byteoff(st, b.p))
            if op == 'add' and isinstance(a, PInt) and isint(b):
                return PInt(self.ptr_add(st, a.p, sgn(b, 64), 1))
            if op == 'sub' and isinstance(a, PInt) and isint(b):
                if b == 0:
                    return a
                return PInt(self.ptr_add(st, a.p, -sgn(b, 64), 1))
            a, b = self.toint(st, a), self.toint(st, b)
        if w == 1:
            if isint(a) and isint(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            A, B = boolv(a), boolv(b)
            if op == 'and':
                return simp(z3.And(A, B))
            if op == 'or':
                return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if isint(a) and isint(b):
            if op == 'add':
                return mask(a + b, w)
            if op == 'sub':
                return mask(a - b, w)
            if op == 'mul':
                return mask(a * b, w)
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return mask(a << b, w) if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return mask(sgn(a, w) >> min(b, w - 1), w)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.fail(st, 'division by zero')
                    return 0
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return mask(q if op == 'sdiv' else x - q * y, w)
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        else:
            if isint(b) and b == 0:
                self.fail(st, 'division by zero')
                return 0
            if not isint(b):
                self.prove(st, B != 0, 'division by zero')
                st.assume(B != 0)
            if op == 'udiv':
                r = z3.UDiv(A, B)
            elif op == 'urem':
                r = z3.URem(A, B)
            elif op == 'sdiv':
                # exact division by a power-of-two element size of a scaled difference
                r = self.exact_div(A, b, w) if 'exact' in flags and isint(b) else A / B
            elif op == 'srem':
                r = z3.SRem(A, B)
            else:
                raise Unsupported(op)
        return simp(r)

    def exact_div(self, A, b, w):
        """A is a multiple of b: recover the factor syntactically when possible"""
        A = z3.simplify(A)
        f = self._factor(A, b, w)
        if f is not None:
            return f
        return A / z3.BitVecVal(b, w)

    def _factor(self, A, b, w):
        if isinstance(A, z3.BitVecNumRef):
            v = sgn(A.as_long(), w)
            return z3.BitVecVal(v // b, w) if v % b == 0 else None
        k = A.decl().kind()
        if k == z3.Z3_OP_BMUL and A.num_args() == 2 and isinstance(A.arg(0), z3.BitVecNumRef):
            c = sgn(A.arg(0).as_long(), w)
            if c % b == 0:
                return z3.BitVecVal(c // b, w) * A.arg(1)
            return None
        if k == z3.Z3_OP_BADD:
            fs = [self._factor(A.arg(i), b, w) for i in range(A.num_args())]
            if all(f is not None for f in fs):
                r = fs[0]
                for f in fs[1:]:
                    r = r + f
                return r
        if k == z3.Z3_OP_CONCAT and b & (b - 1) == 0:
            sh = b.bit_length() - 1
            last = A.arg(A.num_args() - 1)
            if isinstance(last, z3.BitVecNumRef) and last.as_long() == 0 and last.size() == sh:
                # x << sh with top bits cut: the factor is only known modulo 2^(w-sh)
                rest = [A.arg(i) for i in range(A.num_args() - 1)]
                r = z3.Concat(*rest) if len(rest) > 1 else rest[0]
                return z3.SignExt(sh, r)
        return None

    def fbin(self, op, a, b):
        rm = z3.RNE()
        return {'fadd': lambda: z3.fpAdd(rm, a, b), 'fsub': lambda: z3.fpSub(rm, a, b), 'fmul': lambda: z3.fpMul(rm, a, b),
                'fdiv': lambda: z3.fpDiv(rm, a, b)}[op]()

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, (Ptr, Fn, PInt)) or isinstance(b, (Ptr, Fn, PInt)):
            return self.pcmp(st, pred, a, b)
        w = ty[1] if ty[0] == 'i' else 64
        if w == 1:
            A, B = boolv(a), boolv(b)
            if pred == 'eq':
                return simp(A == B)
            if pred == 'ne':
                return simp(A != B)
            a, b, w = bv(a, 8), bv(b, 8), 8
        if isint(a) and isint(b):
            x, y = (a, b) if pred[0] != 's' else (sgn(a, w), sgn(b, w))
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        A, B = bv(a, w), bv(b, w)
        if self.wide and w == 32 and (self.composite(A) or self.composite(B)):
            sg = pred[0] == 's'
            X, Y = self.widen(st, a, sg, True), self.widen(st, b, sg, True)
            if X is not None and Y is not None:
                if isint(X) and isint(Y):
                    return self.icmp(st, pred, ('i', 64), X, Y)
                A, B = bv(X, 64), bv(Y, 64)
                return keepc({'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                              'ugt': lambda: z3.ULT(B, A), 'uge': lambda: z3.ULE(B, A), 'slt': lambda: A < B, 'sle': lambda: A <= B,
                              'sgt': lambda: B < A, 'sge': lambda: B <= A}[pred]())
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        if plain_cmp(r):
            return r
        return simp(r)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if pred == 'eq':
                return int(eq)
            if pred == 'ne':
                return int(not eq)
            raise Unsupported('fn compare')
        if isint(a):
            a = Ptr(0, a)
        if isint(b):
            b = Ptr(0, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                # pointers into one object compare like their element indexes (exact arithmetic, no wrap-around of the address space)
                x, y = (a.idx, b.idx) if a.sub == b.sub else (self.byteoff(st, a), self.byteoff(st, b))
                if pred in ('eq', 'ne'):
                    return self.icmp(st, pred, ('i', 64), x, y)
                return self.icmp(st, 's' + pred[1:], ('i', 64), x, y)
            if pred in ('eq', 'ne'):
                # distinct live objects (one-past-the-end coincidences are ignored)
                return int(pred == 'ne')
            if a.obj == 0 or b.obj == 0:
                # a null (or small integer) pointer is below every object
                if isint(a.idx) and isint(b.idx) or True:
                    lt = a.obj == 0
                    return int({'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[pred[1:]])
            return self.icmp(st, pred, ('i', 64), self.addr(st, a), self.addr(st, b))
        return self.icmp(st, pred, ('i', 64), self.toint(st, a), self.toint(st, b))

    def cast(self, st, op, fty, v, ty):
        fty, ty = self.mod.resolve(fty), self.mod.resolve(ty)
        if op == 'bitcast' or op == 'addrspacecast':
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj == 0:
                return v.idx if ty[1] == 64 else self.cast(st, 'trunc', ('i', 64), v.idx, ty)
            r = PInt(v)
            if ty[1] != 64:
                return self.cast(st, 'trunc', ('i', 64), self.toint(st, r), ty)
            return r
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if isint(v):
                return Ptr(0, v) if v else NULL
            if self.int_ptr:          # a number kept in a pointer: it may be passed on, not used
                return Ptr(0, bv(v, 64))
            raise Unsupported('inttoptr symbolic')
        if op in ('sitofp', 'uitofp'):
            s = self.fsort(ty)
            x = bv(v, fty[1])
            return z3.fpSignedToFP(z3.RNE(), x, s) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), x, s)
        if op in ('fptosi', 'fptoui'):
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(ty[1]))
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(z3.RNE(), v, self.fsort(ty))
        fw, w = fty[1], ty[1]
        if isinstance(v, PInt):
            v = self.toint(st, v)
        if op == 'trunc':
            if isint(v):
                return mask(v, w)
            r = z3.Extract(w - 1, 0, v)
            if w == 1:
                return simp(r == 1)
            return simp(r)
        if op == 'zext':
            if isint(v):
                return v
            if isinstance(v, z3.BoolRef):
                return bv(v, w)
            if self.wide and w == 64 and fw == 32:
                r = self.widen(st, v, False)
                if r is not None:
                    return r
            return simp(z3.ZeroExt(w - fw, v))
        if op == 'sext':
            if isint(v):
                return mask(sgn(v, fw), w)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
            if self.wide and w == 64 and fw == 32:
                r = self.widen(st, v, True)
                if r is not None:
                    return r
            return simp(z3.SignExt(w - fw, v))
        raise Unsupported(op)

    def composite(self, e):
        return not (z3.is_const(e) or e.decl().kind() == z3.Z3_OP_SELECT)

    def lin32(self, e, acc, c):
        """acc: atom (64-bit term, equal to the 32-bit atom modulo 2^32) -> coefficient; constant under key None"""
        k = e.decl().kind()
        if z3.is_bv_value(e):
            acc[None] = acc.get(None, 0) + c * sgn(e.as_long(), e.size())
            return
        if k == z3.Z3_OP_BADD:
            for x in e.children():
                self.lin32(x, acc, c)
            return
        if k == z3.Z3_OP_BSUB:
            self.lin32(e.arg(0), acc, c)
            for x in e.children()[1:]:
                self.lin32(x, acc, -c)
            return
        if k == z3.Z3_OP_BNEG:
            self.lin32(e.arg(0), acc, -c)
            return
        if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            self.lin32(e.arg(1), acc, c * sgn(e.arg(0).as_long(), e.size()))
            return
        if e.size() == 32 and k == z3.Z3_OP_EXTRACT and e.params() == [31, 0] and e.arg(0).size() == 64:
            self.lin32(e.arg(0), acc, c)
            return
        if e.size() == 64:
            if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.arg(1).size() == 32:
                self.lin32(e.arg(1), acc, c)
                return
            if k == z3.Z3_OP_ZERO_EXT and e.arg(0).size() == 32:
                self.lin32(e.arg(0), acc, c)
                return
            a = e
        else:
            a = simp(z3.ZeroExt(32, e))
        i = a.get_id()
        o = acc.get(i)
        acc[i] = (a, c + (o[1] if o else 0))

    def widen(self, st, v, signed, always=False):
        """a 64-bit value equal to the extension of the 32-bit v, as linear arithmetic on extended atoms; None unless proved"""
        if isint(v):
            return mask(sgn(v, 32), 64) if signed else v
        if not isinstance(v, z3.BitVecRef) or v.size() != 32:
            return None
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return self.widen(st, v.as_long(), signed)
        acc = {}
        self.lin32(v, acc, 1)
        r = z3.BitVecVal(acc.pop(None, 0), 64)
        for a, c in acc.values():
            if c == 0:
                continue
            if abs(c) > 16:
                return None
            r = r + (a if c == 1 else z3.BitVecVal(c, 64) * a)
        r = simp(r)
        plain = z3.SignExt(32, v) if signed else z3.ZeroExt(32, v)
        if isint(r) or r.eq(z3.simplify(plain)):
            return simp(plain) if always else None
        f = r == plain
        t = self.timeout
        self.timeout = min(t, 1500)
        try:
            ok = self.prove(st, f, 'widen', quiet=True)
        finally:
            self.timeout = t
        if ok:
            self.widened += 1
            return r
        return None

    # ------------------------------------------------------------------ execution
    def val(self, st, regs, v, ty):
        if v[0] == 'reg':
            return regs[v[1]]
        return self.const(st, v, ty)

    def run(self, st, name, args):
        """execute a function (mangled or demangled name); returns [(state, retval)]"""
        fn = self.find(name)
        return [(s, r) for s, r in self.call_fn(st, fn, list(args)) if not s.dead]

    def find(self, name):
        if not name.startswith('@'):
            if '@' + name in self.mod.funcs:
                return '@' + name
            if name in self.mod.rdem:
                return self.mod.rdem[name]
            c = [n for n, d in self.mod.dem.items() if d == name]
            if not c:
                raise Unsupported('no function ' + name)
            return c[0]
        return name

    def call_fn(self, st, name, args):
        h = self.contracts.get(name)
        d = self.mod.dem.get(name, name)
        if h is None:
            for rx, hh in self.contract_re:
                if rx.match(d):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, args, d)
            if r is not NotImplemented:
                self.called_contracts.add(d)
                return r
        f = self.mod.funcs.get(name)
        if f is None or not f.defined:
            r = self.builtin(st, name, args)
            if r is not None:
                return r
            raise Unsupported('call to external ' + d)
        b = self.builtin_pre(st, name, d, args)
        if b is not None:
            return b
        self.executed.add(d)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion depth in ' + d)
        try:
            regs = {}
            for (ty, reg, at), a in zip(f.params, args):
                if 'byval' in at:
                    a = self.clone_obj(st, a, at['byval'])
                regs[reg] = a
            frame = {'allocas': []}
            res = self.region(f, [(st, regs, f.order[0], None, 0)], {}, frame, {})
            out = []
            for s, r in res:
                for o in frame['allocas']:
                    if o in s.objs:
                        s.w(o).alive = False
                out.append((s, r))
            return out
        finally:
            self.depth -= 1

    def clone_obj(self, st, p, ty):
        n = self.mod.size(ty)
        oid = self.new_cells(st, n, 'byval')
        self.copy_bytes(st, Ptr(oid, 0), p, n)
        return Ptr(oid, 0)

    def region(self, f, items, stops, frame, iters):
        """run work items (st, regs, block, prev, ip) until return or a stop block.
        stops: {block: list} collecting (st, regs, prev)"""
        work = [tuple(i) + (dict(iters),) if len(i) == 5 else i for i in items]
        rets = []
        loops = f.loops()
        while work:
            st, regs, blk, prev, ip, its = work.pop()
            if st.dead:
                continue
            if ip == 0 and prev is not None and prev != '<loop>':
                if blk in stops and prev in stops[blk][1]:
                    stops[blk][0].append((st, regs, prev))
                    continue
                if blk in loops:
                    inside = prev in loops[blk]
                    if not inside:
                        mode = self.loop_mode if isinstance(self.loop_mode, str) else self.loop_mode(self.mod.dem.get(f.name), blk)
                        if mode in ('summary', 'auto'):
                            r = self.do_loop(f, st, regs, blk, prev, stops, frame, its, mode)
                            if r is not None:
                                rets.extend(r)
                                continue
                        its = dict(its)
                        its[blk] = 0
                    else:
                        its = dict(its)
                        its[blk] = its.get(blk, 0) + 1
                        if its[blk] > self.unroll:
                            if self.feasible(st):
                                self.unwind_fail.append('%s %s' % (self.mod.dem.get(f.name), blk))
                                raise PathLimit('unwinding limit in ' + self.mod.dem.get(f.name, f.name))
                            continue
                    # entering a loop resets the counters of loops nested in it
            insts = f.blocks[blk]
            k = ip
            if k == 0:
                # phis in parallel
                newv = {}
                while k < len(insts) and insts[k].op == 'phi':
                    i = insts[k]
                    for v, l in i.a:
                        if l == prev:
                            newv[i.dest] = self.val(st, regs, v, i.ty)
                            break
                    else:
                        raise Unsupported('phi without predecessor')
                    k += 1
                if newv:
                    regs = dict(regs)
                    regs.update(newv)
            while True:
                i = insts[k]
                op = i.op
                if op == 'ret':
                    rets.append((st, None if i.a is None else self.val(st, regs, i.a, i.ty)))
                    break
                if op == 'br':
                    if i.a[0] is None:
                        nxt = [(st, regs, i.a[1])]
                    else:
                        c = self.val(st, regs, i.a[0], ('i', 1))
                        nxt = self.branch(st, regs, [(c, i.a[1]), (self.bnot(c), i.a[2])])
                    for s, r, b in nxt:
                        work.append((s, r, b, blk, 0, its))
                    break
                if op == 'switch':
                    ty, v, d, cases = i.a
                    x = self.val(st, regs, v, ty)
                    if isinstance(x, PInt):
                        x = self.toint(st, x)
                    opts = []
                    conds = []
                    for cv, l in cases:
                        c = self.icmp(st, 'eq', ty, x, mask(cv[1], ty[1]))
                        opts.append((c, l))
                        conds.append(boolv(c))
                    opts.append((simp(z3.Not(z3.Or(conds))) if conds else 1, d))
                    # merge equal targets
                    byl = {}
                    for c, l in opts:
                        byl.setdefault(l, []).append(c)
                    mo = []
                    for l, cs in byl.items():
                        if any(isint(c) and c for c in cs):
                            mo.append((1, l))
                        else:
                            cs = [c for c in cs if not isint(c)]
                            if cs:
                                mo.append((simp(z3.Or(cs)) if len(cs) > 1 else cs[0], l))
                    for s, r, b in self.branch(st, regs, mo):
                        work.append((s, r, b, blk, 0, its))
                    break
                if op == 'unreachable':
                    st.dead = True
                    break
                if op == 'call' or op == 'invoke':
                    outs = self.do_call(st, regs, i)
                    first = True
                    live = [(s, r) for s, r in outs if not s.dead]
                    if not live:
                        st.dead = True
                        break
                    if len(live) == 1 and op == 'call':
                        st, rv = live[0]
                        if i.dest:
                            regs = dict(regs)
                            regs[i.dest] = rv
                        k += 1
                        continue
                    for s, rv in live:
                        r2 = dict(regs)
                        if i.dest:
                            r2[i.dest] = rv
                        if op == 'invoke':
                            work.append((s, r2, i.a['normal'], blk, 0, its))
                        else:
                            work.append((s, r2, blk, prev, k + 1, its))
                    if len(live) > 1:
                        self.count_paths(len(live) - 1)
                    break
                if op == 'select' and i.ty[0] not in ('i', 'f'):
                    c = self.val(st, regs, i.a[0], ('i', 1))
                    a = self.val(st, regs, i.a[1], i.ty)
                    b = self.val(st, regs, i.a[2], i.ty)
                    if isint(c):
                        regs = dict(regs)
                        regs[i.dest] = a if c else b
                        k += 1
                        continue
                    for s, r, v in self.branch(st, regs, [(c, a), (self.bnot(c), b)]):
                        r = dict(r)
                        r[i.dest] = v
                        work.append((s, r, blk, prev, k + 1, its))
                    break
                v = self.simple(st, regs, i, frame)
                if st.dead:
                    break
                if i.dest:
                    regs = dict(regs) if regs is not None else {}
                    regs[i.dest] = v
                k += 1
        return rets

    def count_paths(self, n):
        self.paths += n
        if self.paths > self.max_paths:
            raise PathLimit('path limit')

    def bnot(self, c):
        if isint(c):
            return 1 - c
        if plain_cmp(c):
            return c.arg(0) if c.decl().kind() == z3.Z3_OP_NOT else z3.Not(c)
        return keepc(z3.Not(c)) if self.wide else simp(z3.Not(c))

    def branch(self, st, regs, opts):
        out = []
        opts = [(c, t) for c, t in opts if not (isint(c) and not c)]
        if len(opts) == 1 and isint(opts[0][0]):
            return [(st, regs, opts[0][1])]
        feas = []
        for c, t in opts:
            if isint(c):
                feas.append((c, t, None))
                continue
            self._lastmodel = None
            if self.feasible(st, c):
                feas.append((c, t, self._lastmodel))
        if not feas:
            st.dead = True
            return []
        if len(feas) == 1:
            c, t, m = feas[0]
            if not isint(c):
                st.assume(c)
            return [(st, regs, t)]
        self.count_paths(len(feas) - 1)
        for n, (c, t, m) in enumerate(feas):
            s = st.fork()
            s.assume(c)
            if s.model is None and m is not None:
                s.model = m
            out.append((s, regs, t))
        return out

    def simple(self, st, regs, i, frame):
        op = i.op
        V = lambda v, ty: self.val(st, regs, v, ty)
        if op in ir.BIN:
            return self.binop(st, op, i.ty, V(i.a[0], i.ty), V(i.a[1], i.ty), i.flags)
        if op in ir.CAST:
            return self.cast(st, op, i.a[0], V(i.a[1], i.a[0]), i.ty)
        if op == 'icmp':
            return self.icmp(st, i.a[0], i.ty, V(i.a[1], i.ty), V(i.a[2], i.ty))
        if op == 'fcmp':
            a, b = V(i.a[1], i.ty), V(i.a[2], i.ty)
            p = i.a[0]
            f = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'ne': z3.fpNEQ}.get(p[1:])
            if f is None:
                raise Unsupported('fcmp ' + p)
            r = f(a, b)
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            return simp(z3.And(r, z3.Not(nan)) if p[0] == 'o' else z3.Or(r, nan))
        if op == 'alloca':
            n = V(i.a[1], i.a[0])
            ty = self.mod.resolve(i.ty)
            if not isint(n):
                raise Unsupported('VLA')
            nm = 'local' + i.dest
            if ty[0] == 'arr' and self.mod.resolve(ty[2])[0] == 'i' and n == 1:
                oid = self.new_arr(st, self.mod.size(ty[2]), ty[1], nm)
            else:
                oid = self.new_cells(st, self.mod.size(ty) * n, nm)
            frame['allocas'].append(oid)
            return Ptr(oid, 0)
        if op == 'load':
            p = V(i.a[0], ir.PTR)
            return self.load(st, p, i.ty)
        if op == 'store':
            p = V(i.a[1], ir.PTR)
            self.store(st, p, V(i.a[0], i.ty), i.ty)
            return None
        if op == 'getelementptr':
            p = V(i.a[0][1], ir.PTR)
            if isinstance(p, PInt):
                p = p.p
            return self.gep(st, i.ty, p, [(t, V(v, t)) for t, v in i.a[1:]])
        if op == 'select':
            c = V(i.a[0], ('i', 1))
            a, b = V(i.a[1], i.ty), V(i.a[2], i.ty)
            if isint(c):
                return a if c else b
            if i.ty[0] == 'f':
                return z3.If(c, a, b)
            if i.ty == ('i', 1):
                return simp(z3.If(c, boolv(a), boolv(b)))
            a, b = self.toint(st, a), self.toint(st, b)
            return simp(z3.If(c, bv(a, i.ty[1]), bv(b, i.ty[1])))
        if op == 'extractvalue':
            v = V(i.a[0], i.ty)
            for k in i.a[1]:
                v = v[k]
            return v
        if op == 'insertvalue':
            v = V(i.a[0], i.ty)
            w = V(i.a[1], i.a[3])

            def ins(v, idx):
                v = list(v)
                v[idx[0]] = w if len(idx) == 1 else ins(v[idx[0]], idx[1:])
                return tuple(v)
            return ins(v, i.a[2])
        if op == 'freeze':
            return V(i.a[0], i.ty)
        if op == 'atomicrmw':
            o, q, v = i.a
            p = V(q, ir.PTR)
            x = V(v, i.ty)
            if isinstance(p, Ptr) and p.obj in self.shared and o in ('add', 'sub') and self.bounds(st, p, 4, 'atomic update'):
                r = self.shared[p.obj](self, st, p, o, i.ty, x)
                if st.dead:
                    return None
                if r is not None:
                    return r
            old = self.load(st, p, i.ty)
            if st.dead:
                return None
            if o == 'xchg':
                new = x
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(st, o, i.ty, old, x)
            else:
                raise Unsupported('atomicrmw ' + o)
            self.store(st, p, new, i.ty)
            return old
        if op == 'cmpxchg':
            q, c, n = i.a
            p = V(q, ir.PTR)
            old = self.load(st, p, i.ty)
            if st.dead:
                return None
            exp, new = V(c, i.ty), V(n, i.ty)
            eq = self.icmp(st, 'eq', i.ty, old, exp)
            if isint(eq):
                if eq:
                    self.store(st, p, new, i.ty)
            else:
                self.store(st, p, z3.If(eq, bv(new, i.ty[1]), bv(old, i.ty[1])), i.ty)
            return (old, eq)
        if op == 'fence':
            return None
        if op == 'fneg':
            return z3.fpNeg(V(i.a[0], i.ty))
        raise Unsupported('instruction ' + i.text)

    def do_call(self, st, regs, i):
        d = i.a
        cal = d['callee']
        args = [None if t == ('metadata',) else self.val(st, regs, v, t) for t, v, at in d['args']]
        if cal[0] == 'glob':
            name = cal[1]
            g = self.mod.globals.get(name)
            if g is not None and g[0] == 'alias':
                name = g[1][1]
        elif cal[0] == 'reg':
            fp = regs[cal[1]]
            if not isinstance(fp, Fn):
                raise Unsupported('indirect call through ' + repr(fp))
            name = fp.name
            g = self.mod.globals.get(name)
        else:
            raise Unsupported('call ' + i.text)
        if name.startswith('@llvm.'):
            return self.intrinsic(st, name, args, i)
        # byval arguments at the call site
        for k, (t, v, at) in enumerate(d['args']):
            if 'byval' in at and not (name in self.mod.funcs and self.mod.funcs[name].defined):
                args[k] = self.clone_obj(st, args[k], at['byval'])
        return self.call_fn(st, name, args)

    # ------------------------------------------------------------------ builtins
    def intrinsic(self, st, name, args, i):
        n = name[6:]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.copy_bytes(st, args[0], args[1], args[2])
            return [(st, None)]
        if n.startswith('memset'):
            self.fill_bytes(st, args[0], args[1], args[2])
            return [(st, None)]
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'donothing', 'prefetch', 'invariant', 'va_')):
            return [(st, None)]
        if n.startswith('expect') :
            return [(st, args[0])]
        if n.startswith('umul.with.overflow'):
            w = int(n.rsplit('i', 1)[1])
            a, b = args
            if isint(a) and isint(b):
                return [(st, (mask(a * b, w), int(a * b >= 1 << w)))]
            A, B = bv(a, w), bv(b, w)
            ov = z3.Not(z3.BVMulNoOverflow(A, B, False))
            ovf = z3.simplify(ov)
            o = 0
            if not z3.is_false(ovf):
                if self.feasible(st, ov):
                    o = ov
            return [(st, (simp(A * B), o))]
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            w = int(n.rsplit('i', 1)[1])
            a, b = bv(args[0], w), bv(args[1], w)
            c = {'umax': z3.UGE, 'umin': z3.ULE, 'smax': lambda x, y: x >= y, 'smin': lambda x, y: x <= y}[n[:4]](a, b)
            return [(st, simp(z3.If(c, a, b)))]
        if n.startswith('abs.'):
            w = int(n.rsplit('i', 1)[1])
            a = bv(args[0], w)
            return [(st, simp(z3.If(a < 0, -a, a)))]
        if n.startswith('trap'):
            self.fail(st, 'trap reached')
            return []
        if n.startswith('stacksave'):
            return [(st, NULL)]
        if n.startswith('stackrestore'):
            return [(st, None)]
        if n.startswith('objectsize'):
            return [(st, mask(-1, 64))]
        raise Unsupported('intrinsic ' + name)

    def snapshot(self, st, p):
        """closure reading element k (relative to p) of the array object as it is now"""
        o = st.objs[p.obj].copy()
        base = p.idx

        def rd(k):
            return self.arr_read(o, add64(base, k))
        return rd

    def copy_bytes(self, st, dst, src, n):
        n = conc(n)
        if isint(n) and n == 0:
            return
        if not isint(n):
            n = simp(n)
        if isint(n):
            if not self.bounds(st, src, n, 'memcpy source') or not self.bounds(st, dst, n, 'memcpy destination'):
                return
            so, do = st.objs[src.obj], st.objs[dst.obj]
            if so.kind == 'cells' and do.kind == 'cells' and isint(src.idx) and isint(dst.idx):
                items = []
                covered = set()
                for a, (s, v) in so.cells.items():
                    if a >= src.idx and a + s <= src.idx + n:
                        items.append((a - src.idx, s, v))
                    elif a < src.idx + n and src.idx < a + s:
                        for k in range(max(a, src.idx), min(a + s, src.idx + n)):
                            items.append((k - src.idx, 1, self._cell_load(st, src.obj, k, 1, ('i', 8))))
                d = st.w(dst.obj)
                for a in list(d.cells):
                    s, v = d.cells[a]
                    if a >= dst.idx and a + s <= dst.idx + n:
                        del d.cells[a]
                for a, s, v in items:
                    self._cell_store(d, dst.idx + a, s, v)
                return
            if n <= 64 or not (so.kind == 'arr' and do.kind == 'arr'):
                es = 1
                if so.kind == 'arr' and do.kind == 'arr' and so.esz == do.esz and n % so.esz == 0 and src.sub == 0 and dst.sub == 0:
                    es = so.esz
                elif so.kind == 'arr' and so.esz > 1 or do.kind == 'arr' and do.esz > 1:
                    es = max(so.esz if so.kind == 'arr' else 1, do.esz if do.kind == 'arr' else 1)
                    if n % es:
                        es = 1
                if n // es <= 64:
                    vals = [self.load(st, self.ptr_add(st, src, k * es, 1), ('i', 8 * es)) for k in range(n // es)]
                    for k, v in enumerate(vals):
                        self.store(st, self.ptr_add(st, dst, k * es, 1), v, ('i', 8 * es))
                    return
        so, do = st.objs.get(src.obj), st.objs.get(dst.obj)
        if so is None or do is None:
            # possibly null with zero length
            z = bv(n, 64) == 0
            self.prove(st, z, 'memcpy with a null pointer has zero length')
            st.assume(z)
            return
        if so.kind != 'arr' or do.kind != 'arr' or so.esz != do.esz or src.sub or dst.sub:
            raise Unsupported('memcpy of symbolic length between unlike objects (%s -> %s)' % (so.name, do.name))
        ne = self.elems(st, n, so.esz)
        for p, o, w in ((src, so, 'source'), (dst, do, 'destination')):
            if not o.alive:
                self.fail(st, 'memcpy %s is freed memory' % w)
                return
            f = z3.Or(bv(ne, 64) == 0, z3.And(z3.ULE(bv(p.idx, 64), bv(o.len, 64)), z3.ULE(bv(ne, 64), bv(o.len, 64) - bv(p.idx, 64))))
            if not self.prove(st, f, 'memcpy %s in bounds of %s' % (w, o.name), terms=[p.idx, add64(p.idx, ne)]):
                st.assume(f)
                if not self.feasible(st):
                    st.dead = True
                    return
        rd = self.snapshot(st, src)
        d = st.w(dst.obj)
        d.log = d.log + (('rng', dst.idx, ne, rd),)

    def elems(self, st, n, esz):
        if esz == 1 or isint(n):
            return n if esz == 1 else n // esz
        f = self._factor(z3.simplify(n), esz, 64)
        if f is not None:
            # the product may have wrapped: the caller relies on it not doing so
            f = simp(f)
            ok = z3.BVMulNoOverflow(bv(f, 64), z3.BitVecVal(esz, 64), False)
            if z3.is_true(z3.simplify(ok)) or not self.feasible(st, z3.Not(ok)):
                return f
        return simp(z3.UDiv(n, z3.BitVecVal(esz, 64)))

    def fill_bytes(self, st, dst, v, n):
        n = conc(n) if isint(n) else simp(n)
        if isint(n) and n == 0:
            return
        o = st.objs.get(dst.obj)
        if o is not None and o.kind == 'arr':
            ne = self.elems(st, n, o.esz)
            es = o.esz

            def val(k):
                if isint(v):
                    r = 0
                    for q in range(es):
                        r = (r << 8) | v
                    return r
                return z3.Concat(*[bv(v, 8)] * es) if es > 1 else v
            f = z3.Or(bv(ne, 64) == 0, z3.And(z3.ULE(bv(dst.idx, 64), bv(o.len, 64)), z3.ULE(bv(ne, 64), bv(o.len, 64) - bv(dst.idx, 64))))
            if not self.prove(st, f, 'memset in bounds of ' + o.name):
                st.assume(f)
            st.w(dst.obj).log = o.log + (('rng', dst.idx, ne, val),)
            return
        if isint(n):
            if not self.bounds(st, dst, n, 'memset'):
                return
            d = st.w(dst.obj)
            for a in list(d.cells):
                s, x = d.cells[a]
                if a >= dst.idx and a + s <= dst.idx + n:
                    del d.cells[a]
            k = 0
            if isint(v) and v == 0:
                while k < n:
                    s = 8 if (dst.idx + k) % 8 == 0 and n - k >= 8 else 1
                    self._cell_store(d, dst.idx + k, s, 0)
                    k += s
            else:
                for k in range(n):
                    self._cell_store(d, dst.idx + k, 1, v)
            return
        raise Unsupported('memset')

    def builtin_pre(self, st, name, dem, args):
        """hooks for defined functions (std:: helpers)"""
        return None

    def builtin(self, st, name, args):
        n = name[1:]
        if n == '__assert_fail':
            try:
                msg = self.cstring(st, args[0])
            except Exception:
                msg = '?'
            self.fail(st, 'assertion holds: ' + msg)
            return []
        if n in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual', 'exit') or n.startswith('_ZSt') and 'throw' in n or n in ('__cxa_throw_bad_array_new_length', '_ZSt17__throw_bad_allocv'):
            self.fail(st, 'call of ' + n)
            return []
        if n in ('_Znwm', 'malloc'):
            sz = conc(args[0])
            if isint(sz):
                oid = self.new_cells(st, sz, 'new', 'new' if n == '_Znwm' else 'malloc')
            else:
                oid = self.new_arr(st, 1, sz, 'malloc', 'malloc')
            return [(st, Ptr(oid, 0))]
        if n == '_Znam':
            sz = conc(args[0])
            es = self.new_elem
            if isint(sz) and (es == 0 or sz % es):
                oid = self.new_cells(st, sz, 'new[]', 'new[]')
                return [(st, Ptr(oid, 0))]
            if isint(sz):
                ln = sz // es
            else:
                ln = self.elems(st, sz, es)
            oid = self.new_arr(st, es, ln, 'new[]', 'new[]')
            return [(st, Ptr(oid, 0))]
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            p = args[0]
            if isnull(p):
                return [(st, None)]
            want = {'_Zdl': 'new', '_Zda': 'new[]', 'free': 'malloc'}[n[:4]]
            o = st.objs.get(p.obj)
            if o is None:
                raise Unsupported('delete of unknown')
            if not o.alive:
                self.fail(st, 'double delete of ' + o.name)
                return []
            if o.heap is None:
                self.fail(st, 'delete of memory that was not allocated (%s)' % o.name)
                return []
            if o.heap != want:
                self.fail(st, 'mismatched delete of %s memory' % o.heap)
                return []
            self.prove(st, z3.And(bv(p.idx, 64) == 0, z3.BoolVal(p.sub == 0)), 'delete of the start of the allocation')
            st.w(p.obj).alive = False
            return [(st, None)]
        if n in ('memcpy', 'memmove'):
            self.copy_bytes(st, args[0], args[1], args[2])
            return [(st, args[0])]
        if n == 'memset':
            self.fill_bytes(st, args[0], mask(args[1], 8) if isint(args[1]) else z3.Extract(7, 0, args[1]), args[2])
            return [(st, args[0])]
        if n == 'memcmp':
            return self.b_memcmp(st, *args)
        if n == 'strlen':
            return self.b_strlen(st, args[0])
        if n in ('strcmp', 'strncmp'):
            return self.b_strcmp(st, *args)
        if n == 'isspace':
            c = args[0]
            if isint(c):
                return [(st, int(c == 32 or 9 <= c <= 13))]
            return [(st, simp(z3.If(z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13))), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))]
        if n == '__cxa_guard_acquire':
            g = self.load(st, args[0], ('i', 8))
            if isint(g):
                return [(st, int(g == 0))]
            return [(st, 0)]
        if n == '__cxa_guard_release':
            self.store(st, args[0], 1, ('i', 8))
            return [(st, None)]
        if n in ('__cxa_atexit',):
            return [(st, 0)]
        if n in ('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fputs', 'fputc'):
            return [(st, self.fresh('io', 32))]
        if n == 'bcmp':
            return self.b_memcmp(st, *args)
        return None

    def cstring(self, st, p):
        out = []
        k = 0
        while True:
            c = self.load(st, self.ptr_add(st, p, k, 1), ('i', 8))
            if not isint(c):
                raise Unsupported('symbolic cstring')
            if c == 0:
                break
            out.append(c)
            k += 1
        return bytes(out).decode('latin1')

    def b_memcmp(self, st, a, b, n):
        n = conc(n)
        if isint(n) and n == 0:
            return [(st, 0)]
        if isint(n) and n <= 16:
            xs = [self.load(st, self.ptr_add(st, a, k, 1), ('i', 8)) for k in range(n)]
            ys = [self.load(st, self.ptr_add(st, b, k, 1), ('i', 8)) for k in range(n)]
            if st.dead:
                return []
            r = z3.BitVecVal(0, 32)
            for x, y in reversed(list(zip(xs, ys))):
                x, y = bv(x, 8), bv(y, 8)
                r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
            return [(st, simp(r))]
        for p, w in ((a, 'first'), (b, 'second')):
            if p.obj == 0:
                self.prove(st, bv(n, 64) == 0, 'memcmp with a null pointer has zero length')
                st.assume(bv(n, 64) == 0)
                if not self.feasible(st):
                    return []
                return [(st, 0)]
            o = st.objs[p.obj]
            if not o.alive:
                self.fail(st, 'memcmp on freed memory')
                return []
            f = z3.Or(bv(n, 64) == 0, z3.And(z3.ULE(bv(p.idx, 64), bv(o.len, 64)), z3.ULE(bv(n, 64), bv(o.len, 64) - bv(p.idx, 64))))
            if not self.prove(st, f, 'memcmp %s operand in bounds of %s' % (w, o.name)):
                st.assume(f)
        ra, rb = self.snapshot(st, a), self.snapshot(st, b)
        out = []
        s1 = st.fork()
        s1.foralls.append(Forall(lambda t: z3.Implies(z3.ULT(bv(t, 64), bv(n, 64)), bv(ra(t), 8) == bv(rb(t), 8)), [0, a.idx, b.idx], 'memcmp eq'))
        if self.feasible(s1):
            out.append((s1, 0))
        s2 = st.fork()
        d = self.fresh('memcmp_diff', 64)
        s2.assume(z3.ULT(d, bv(n, 64)))
        x, y = bv(ra(d), 8), bv(rb(d), 8)
        s2.assume(x != y)
        s2.foralls.append(Forall(lambda t: z3.Implies(z3.ULT(bv(t, 64), d), bv(ra(t), 8) == bv(rb(t), 8)), [0, a.idx, b.idx], 'memcmp prefix'))
        s2.terms.append(d)
        s2.ghost['memcmp_diff'] = d
        if self.feasible(s2):
            out.append((s2, simp(z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))))
        return out

    def b_strlen(self, st, p):
        if p.obj == 0:
            self.fail(st, 'strlen of null')
            return []
        o = st.objs[p.obj]
        if not o.alive:
            self.fail(st, 'strlen of freed memory')
            return []
        if isinstance(o.base, (bytes, list, tuple)) and isint(p.idx):
            return [(st, len(self.cstring(st, p)))]
        g = self.len_of_cstr(st, p)
        if g is not None:
            return [(st, g)]
        raise Unsupported('strlen of unknown string')

    def len_of_cstr(self, st, p):
        f = st.ghost.get(('nul', p.obj))
        if f is None:
            return None
        return sub64(f, p.idx)

    def b_strcmp(self, st, a, b, n=None):
        raise Unsupported('strcmp')

    # ------------------------------------------------------------------ loops (see loops.py)
    def do_loop(self, f, st, regs, blk, prev, stops, frame, its, mode):
        import loops
        return loops.do_loop(self, f, st, regs, blk, prev, stops, frame, its, mode)
