"""Loop rule of the verifier.

A loop is cut at its header.  Loop variables are the header phis plus every memory cell the body modifies.  The invariant
is synthesised, never read off variable names:
  * closed forms x_k = x_0 + c*k (k: ghost iteration counter) for variables with a constant step,
  * per-iteration write summaries: after k iterations A[b+j] = v(j) for j<k, everything else unchanged,
  * "every earlier iteration satisfied the loop's continue condition": forall j<k. C(j),
  * no-wrap / in-bounds candidates and candidates supplied by the contract, filtered (Houdini) to an inductive subset.
Everything assumed about iteration k is proved on entry (k=0) and preserved by one arbitrary iteration.
"""
import z3
import sym
from sym import (Ptr, PInt, Fn, isint, bv, simp, conc, boolv, add64, sub64, mul64, mask, Forall, Unsupported, PathLimit,
                 Obligation, z3)


class LV:
    """a loop variable"""
    __slots__ = ('key', 'kind', 'w', 'obj', 'sub', 'init', 'cur', 'step', 'name')


def free_vars(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


def mkvar(E, key, init, w, name):
    v = LV()
    v.key, v.name, v.init, v.step = key, name, init, None
    if isinstance(init, PInt):
        init = v.init = init.p
    if isinstance(init, Ptr):
        v.kind, v.w, v.obj, v.sub = 'ptr', 64, init.obj, init.sub
    elif isinstance(init, Fn):
        return None
    elif isinstance(init, tuple) or init is None:
        return None
    else:
        v.kind, v.w, v.obj, v.sub = 'int', w, None, 0
    return v


def scalar(v, val):
    """the bit-vector inside a value of loop variable v"""
    if v.kind == 'ptr':
        if isinstance(val, PInt):
            val = val.p
        if not isinstance(val, Ptr) or val.obj != v.obj or val.sub != v.sub:
            return None
        return val.idx
    return val


def wrapv(v, x):
    return Ptr(v.obj, x, v.sub) if v.kind == 'ptr' else x


def fresh(E, v):
    return E.fresh('lv_' + v.name, v.w)


def diff_mem(s0, s1):
    """cells and arrays of objects existing in s0 that differ in s1"""
    cells, arrs = {}, set()
    for oid, o in s0.objs.items():
        n = s1.objs.get(oid)
        if n is o or n is None:
            continue
        if n.alive != o.alive:
            raise Unsupported('object freed inside a loop')
        if o.kind == 'arr':
            if n.log is not o.log or n.base is not o.base:
                if n.log != o.log or n.base is not o.base:
                    arrs.add(oid)
        else:
            for off in set(o.cells) | set(n.cells):
                a, b = o.cells.get(off), n.cells.get(off)
                if a is b:
                    continue
                if a is None:
                    if b[0] and off not in o.cells:
                        cells[(oid, off)] = b
                    continue
                if b is None:
                    cells[(oid, off)] = a
                    continue
                if a[0] == b[0] and same(a[1], b[1]):
                    continue
                cells[(oid, off)] = b
    return cells, arrs


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and a.sub == b.sub and same(a.idx, b.idx)
    if isint(a) and isint(b):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    return False


class View:
    """what a contract's loop_inv hook sees"""

    def __init__(self, E, st, f, vars, k):
        self.E, self.st, self.f, self.k = E, st, f, k
        self.vars = vars

    def val(self, v):
        return v.cur


def do_loop(E, f, st, regs, H, prev, stops, frame, its, mode):
    if mode == 'auto' and E.unroll_first:
        r = try_unroll(E, f, st, regs, H, prev, stops, frame, its)
        if r is not None:
            return r
    n_obl = len(E.obls)
    if mode == 'auto' and not E.unroll_first and not E.no_try:
        # a loop that cannot repeat on this path needs no invariant
        au, E.auto_unroll = E.auto_unroll, 1
        try:
            r = try_unroll(E, f, st, regs, H, prev, stops, frame, its)
        finally:
            E.auto_unroll = au
        if r is not None:
            return r
    try:
        return summarize(E, f, st, regs, H, prev, stops, frame, its)
    except Unsupported as x:
        E.notes.append('loop %s %s: %s' % (E.mod.dem.get(f.name), H, x))
        if mode == 'auto' and not E.unroll_first:
            del E.obls[n_obl:]
            r = try_unroll(E, f, st, regs, H, prev, stops, frame, its)
            if r is not None:
                return r
        if mode == 'auto':
            raise PathLimit('loop in %s could neither be unrolled completely nor given an inductive invariant: %s' % (E.mod.dem.get(f.name), x))
        return None


def try_unroll(E, f, st, regs, H, prev, stops, frame, its):
    """complete unrolling when the loop has a small bound on this path (unwinding assertion: no path goes beyond)"""
    body = f.loops()[H]
    save = (E.obls, E.unroll, E.loop_mode, E.max_paths, E.paths)
    s0 = st.fork()
    E.obls = []
    E.unroll = min(E.unroll, getattr(E, 'auto_unroll', 10))
    om = E.loop_mode
    E.loop_mode = lambda d, b: 'unroll' if (d == E.mod.dem.get(f.name) and b == H) else (om if isinstance(om, str) else om(d, b))
    E.max_paths = E.paths + 400
    nu = len(E.unwind_fail)
    lim = dict(its)
    lim[H] = 0
    exits = {b: ([], body) for x in body for b in f.succs(x) if b not in body}
    st2 = {k: v for k, v in stops.items() if k not in exits}
    st2.pop(H, None)
    st2.update(exits)
    try:
        rets = E.region(f, [(s0, regs, H, prev, 0)], st2, frame, lim)
        obls = E.obls
        E.obls, E.unroll, E.loop_mode, E.max_paths = save[0], save[1], save[2], save[3]
        E.obls.extend(obls)
        items = [(s, r, b, p, 0) for b, (lst, _) in exits.items() for s, r, p in lst]
        # continue outside the loop
        its2 = {k: v for k, v in its.items() if k != H}
        work = []
        for it in items:
            if it[2] in stops and it[3] in stops[it[2]][1]:
                stops[it[2]][0].append((it[0], it[1], it[3]))
            else:
                work.append(it)
        return rets + (E.region(f, work, stops, frame, its2) if work else [])
    except PathLimit:
        if E.deadline:
            E.check_deadline_soft()
        E.obls, E.unroll, E.loop_mode, E.max_paths, E.paths = save
        del E.unwind_fail[nu:]
        return None
    finally:
        E.unroll, E.loop_mode, E.max_paths = save[1], save[2], save[3]


def summarize(E, f, st, regs, H, prev, stops, frame, its):
    body = f.loops()[H]
    insts = f.blocks[H]
    phis = [i for i in insts if i.op == 'phi']
    nphi = len(phis)
    exits = set(b for x in body for b in f.succs(x) if b not in body)
    dem = E.mod.dem.get(f.name, f.name)

    def incoming(i, regs, st, p):
        for v, l in i.a:
            if l == p:
                return E.val(st, regs, v, i.ty)
        raise Unsupported('phi')

    # ---------- loop variables
    vars = []
    for i in phis:
        w = 64 if i.ty[0] != 'i' else i.ty[1]
        v = mkvar(E, ('phi', i.dest), incoming(i, regs, st, prev), w, i.dest.strip('%').replace('.', '_'))
        if v is None:
            raise Unsupported('loop phi of unsupported type')
        vars.append(v)
    mcells, marrs = {}, set()

    def build(base_st, vals, arrmode):
        """state at the header with loop variables set to vals; arrays per arrmode(oid, obj)"""
        s = base_st.fork()
        r = dict(regs)
        for v in vars:
            x = wrapv(v, vals[v.key])
            if v.key[0] == 'phi':
                r[v.key[1]] = x
            else:
                _, oid, off = v.key
                s.w(oid).cells[off] = (v.w // 8 if v.kind == 'int' else 8, x)
        for oid in marrs:
            arrmode(s, oid)
        return s, r

    def iterate(s, r, collect_exits):
        backs = []
        ex = []
        st2 = {H: (backs, body)}
        if collect_exits:
            for b in exits:
                st2[b] = (ex, body)
        its2 = {k: v for k, v in its.items()}
        rets = E.region(f, [(s, r, H, '<loop>', nphi)], st2, frame, its2)
        return backs, ex, rets

    def newval(v, sb, rb, pb):
        if v.key[0] == 'phi':
            i = [x for x in phis if x.dest == v.key[1]][0]
            x = incoming(i, rb, sb, pb)
        else:
            c = sb.objs[v.key[1]].cells.get(v.key[2])
            if c is None:
                raise Unsupported('loop cell split')
            x = c[1]
            if c[0] * 8 != v.w and v.kind == 'int':
                raise Unsupported('loop cell resized')
        y = scalar(v, x)
        if y is None or isinstance(y, (Ptr, PInt, Fn)):
            raise Unsupported('loop variable %s changes object' % v.name)
        return y

    quiet0 = E.quiet
    n_unw = len(E.unwind_fail)

    def regular(s0, backs, vs):
        """during discovery: leave out iterations that free or replace objects (the proof shows that the invariant excludes them)"""
        out = []
        for sb, rb, pb in backs:
            if sb.dead:
                continue
            try:
                diff_mem(s0, sb)
                for v in vs:
                    newval(v, sb, rb, pb)
            except Unsupported:
                continue
            out.append((sb, rb, pb))
        if not out and any(not b[0].dead for b in backs):
            return backs
        return out

    # ---------- discovery 1: modified cells
    for rnd in range(8):
        E.quiet = True
        try:
            vals = {v.key: fresh(E, v) for v in vars}

            def hv(s, oid):
                o = s.w(oid)
                o.base, o.log = E.fresh_arr('loop_' + o.name, o.esz), ()
            s, r = build(st, vals, hv)
            s.model = None
            s0 = s.fork()
            backs, ex, _ = iterate(s, r, True)
        finally:
            E.quiet = quiet0
        backs = regular(s0, backs, vars)
        grew = False
        for sb, rb, pb in backs:
            if sb.dead:
                continue
            cells, arrs = diff_mem(s0, sb)
            for (oid, off), c in cells.items():
                if ('cell', oid, off) in [v.key for v in vars]:
                    continue
                o = st.objs.get(oid)
                if o is None:
                    continue
                ic = o.cells.get(off)
                if ic is None:
                    # uninitialised before the loop (a local of the body): forget it
                    overl = [a for a, (sz, x) in o.cells.items() if a < off + c[0] and off < a + sz]
                    if overl:
                        raise Unsupported('loop splits a cell')
                    if oid in frame['allocas'] or o.name.startswith('local'):
                        mcells.setdefault(('scratch', oid, off), c)
                        continue
                    iv = E.load(st, Ptr(oid, off), ('i', 8 * c[0])) if not isinstance(c[1], Ptr) else None
                    if iv is None:
                        raise Unsupported('loop initialises a pointer cell')
                    ic = (c[0], iv)
                v = mkvar(E, ('cell', oid, off), ic[1], 8 * ic[0], 'm%d_%d' % (oid, off))
                if v is None:
                    raise Unsupported('loop modifies an unsupported cell')
                vars.append(v)
                grew = True
            for oid in arrs:
                if oid in st.objs and oid not in marrs:
                    marrs.add(oid)
                    grew = True
        if not grew:
            break
    else:
        raise Unsupported('loop frame did not stabilise')
    if not any(not sb.dead for sb, _, _ in backs):
        # body never repeats
        pass

    freshnames = set()
    for v in vars:
        x = vals[v.key]
        if not isint(x):
            freshnames |= free_vars(x)

    # ---------- steps
    for v in vars:
        step = 'none'
        for sb, rb, pb in backs:
            y = newval(v, sb, rb, pb)
            x = vals[v.key]
            if v.w == 1:
                d = 0 if same(x, y) else None
            else:
                d = simp(bv(y, v.w) - bv(x, v.w))
                if not isint(d) and (free_vars(d) & freshnames or any(n.split('!')[0].startswith('uninit') for n in free_vars(d))):
                    d = None
            if step == 'none':
                step = d
            elif step is not None and d is not None and not same(step, d):
                step = None
            elif d is None:
                step = None
        v.step = None if step == 'none' else step
        if step == 'none':
            v.step = 0
    k = E.fresh('k', 64)

    def closed(kk):
        out = {}
        for v in vars:
            if v.step is None:
                continue
            i0 = scalar(v, v.init)
            if isint(v.step) and v.step == 0:
                out[v.key] = i0
                continue
            kw = kk if v.w == 64 else (z3.Extract(v.w - 1, 0, bv(kk, 64)) if v.w < 64 else z3.ZeroExt(v.w - 64, bv(kk, 64)))
            out[v.key] = simp(bv(i0, v.w) + (bv(kw, v.w) if isint(v.step) and v.step == 1 else bv(v.step, v.w) * bv(kw, v.w)))
        return out

    nonaff = [v for v in vars if v.step is None]
    cur = closed(k)
    hav = {}
    for v in nonaff:
        cur[v.key] = hav[v.key] = fresh(E, v)
    havnames = set()
    for x in hav.values():
        havnames |= free_vars(x)

    # ---------- discovery 2: array write summaries with arrays read as before the loop
    summ = {}

    def summaries(assumed):
        E.quiet = True
        try:
            s, r = build(st, cur, lambda s, oid: None)
            s.model = None
            for c in assumed:
                s.assume(boolv(c))
            npc = len(s.pc)
            s0 = s.fork()
            backs, ex, _ = iterate(s, r, True)
        finally:
            E.quiet = quiet0
        backs = regular(s0, backs, vars)
        for oid in marrs:
            base = st.objs[oid]
            alts = []
            for sb, rb, pb in backs:
                o = sb.objs[oid]
                if o.base is not base.base or o.log[:len(base.log)] != base.log:
                    alts = None
                    break
                alts.append((sb.pc[npc:], o.log[len(base.log):]))
            if not alts:
                summ[oid] = None
                continue
            nw = len(alts[0][1])
            ws = []
            if not all(len(a[1]) == nw and all(e[0] == 'pt' for e in a[1]) for a in alts):
                summ[oid] = None
                continue
            for q in range(nw):
                ws.append(one_write(E, st, base, alts, q, k, vars, cur, havnames))
            # later iterations must not overwrite what earlier ones wrote, except in the order of the summary (proved with the rest)
            summ[oid] = None if any(x is None for x in ws) else ws

    if marrs:
        summaries([])

    def arr_at(kk):
        def mode(s, oid):
            o = s.w(oid)
            sm = summ.get(oid)
            if sm is None:
                o.base, o.log = E.fresh_arr('loop_' + o.name, o.esz), ()
                return
            for b0, dirn, fv, I in sm:
                if dirn == 1:
                    o.log = o.log + (('rng', b0, kk, fv),)
                else:
                    lo = simp(bv(b0, 64) - bv(kk, 64) + 1)
                    o.log = o.log + (('rng', lo, kk, (lambda fv: lambda d: fv(simp(bv(kk, 64) - 1 - bv(d, 64))))(fv)),)
        return mode

    # ---------- candidate invariants
    cands = []
    for v in vars:
        if v.w == 1:
            continue
        i0 = scalar(v, v.init)
        if v.kind == 'int' and v.step is not None and v.w < 64 and isint(v.step):
            sgnst = sym.sgn(v.step, v.w)
            z = lambda x, v=v: z3.ZeroExt(64 - v.w, bv(x, v.w))
            sx = lambda x, v=v: z3.SignExt(64 - v.w, bv(x, v.w))
            if sgnst > 0:
                cands.append(('nowrap-u ' + v.name, lambda kk, vv, z=z, i0=i0, v=v, c=sgnst:
                              z3.And(z3.ULE(bv(kk, 64), z3.BitVecVal((1 << v.w) - 1, 64)), z(vv[v.key]) == z(i0) + c * bv(kk, 64))))
                cands.append(('nowrap-s ' + v.name, lambda kk, vv, sx=sx, i0=i0, v=v, c=sgnst:
                              z3.And(z3.ULE(bv(kk, 64), z3.BitVecVal((1 << v.w) - 1, 64)), sx(vv[v.key]) == sx(i0) + c * bv(kk, 64))))
            elif sgnst < 0:
                cands.append(('nowrap-u ' + v.name, lambda kk, vv, z=z, i0=i0, v=v, c=-sgnst:
                              z3.And(z3.ULE(bv(kk, 64), z3.BitVecVal((1 << v.w) - 1, 64)), z(vv[v.key]) + c * bv(kk, 64) == z(i0))))
                cands.append(('nowrap-s ' + v.name, lambda kk, vv, sx=sx, i0=i0, v=v, c=-sgnst:
                              z3.And(z3.ULE(bv(kk, 64), z3.BitVecVal((1 << v.w) - 1, 64)), sx(vv[v.key]) + c * bv(kk, 64) == sx(i0))))
        if v.kind == 'ptr' and v.obj in st.objs:
            o = st.objs[v.obj]
            if o.len is not None:
                cands.append(('in-object ' + v.name, lambda kk, vv, o=o, v=v: z3.ULE(bv(vv[v.key], 64), bv(o.len, 64))))
            if v.step is not None and isint(v.step) and abs(sym.sgn(v.step, 64)) > 1:
                cands.append(('bounded ' + v.name, lambda kk, vv: z3.ULE(bv(kk, 64), z3.BitVecVal(1 << 40, 64))))
            cands.append(('moves forward ' + v.name, lambda kk, vv, v=v, i0=i0: bv(vv[v.key], 64) >= bv(i0, 64)))
            cands.append(('moves back ' + v.name, lambda kk, vv, v=v, i0=i0: bv(vv[v.key], 64) <= bv(i0, 64)))
        if v.kind == 'int' and v.w == 64 and isint(v.step) and sym.sgn(v.step, 64) != 0:
            if sym.sgn(v.step, 64) > 0:
                cands.append(('bounded ' + v.name, lambda kk, vv, v=v: z3.ULE(bv(kk, 64), z3.BitVecVal(1 << 40, 64))))
    hook = E.loop_inv
    if hook is not None:
        view = View(E, st, f, vars, k)
        view.cur = cur
        view.init = {v.key: scalar(v, v.init) for v in vars}
        view.regs = regs
        for c in (hook(E, st, view) or []):
            cands.append(c)
    init = {v.key: scalar(v, v.init) for v in vars}
    kept = []
    for c in cands:
        if E.prove(st, boolv(c[1](0, init)), 'init', quiet=True):
            kept.append(c)

    each = []
    if E.loop_each is not None:
        view = View(E, st, f, vars, k)
        view.cur, view.regs = cur, regs
        view.init = init
        each = list(E.loop_each(E, st, view) or [])

    # ---------- Houdini on one arbitrary iteration
    def header_state():
        s, r = build(st, cur, arr_at(k))
        s.model = None
        for c in kept:
            s.assume(boolv(c[1](k, cur)))
        s.terms.append(k)
        s.kterms.append(k)
        return s, r

    Cfact = None
    for rnd in range(12):
        E.quiet = True
        try:
            s, r = header_state()
            if Cfact is not None:
                addC(s, k, Cfact, vars, init)
            npc = len(s.pc)
            backs, ex, _ = iterate(s, r, True)
        finally:
            E.quiet = quiet0
        # the continue condition
        alts = []
        allowed = None
        for sb, rb, pb in backs:
            cs = []
            for c in sb.pc[npc:]:
                fvn = free_vars(c)
                if fvn & havnames or any(born_in_loop(E, n, st, k) for n in fvn):
                    continue
                cs.append(c)
            alts.append(z3.And(cs) if cs else z3.BoolVal(True))
        C = z3.Or(alts) if alts else z3.BoolVal(False)
        Cs = z3.simplify(C)
        if not E.wide:
            C = Cs
        newC = None if z3.is_true(Cs) else C
        drop = []
        live = [(sb, rb, pb) for sb, rb, pb in backs if not sb.dead]
        ekeep = [e for e in each if live and all(E.prove(sb, boolv(e[1](k)), 'each', quiet=True, terms=list(e[2](k))) for sb, _, _ in live)]
        edrop = len(ekeep) != len(each)
        each = ekeep
        if each:
            newC = z3.And([C if newC is not None else z3.BoolVal(True)] + [boolv(e[1](k)) for e in each])
        for c in kept:
            for sb, rb, pb in backs:
                nv = {v.key: newval(v, sb, rb, pb) for v in vars}
                if not E.prove(sb, boolv(c[1](simp(k + 1), nv)), 'step', quiet=True):
                    drop.append(c)
                    break
        firstC = Cfact is None and newC is not None
        Cfact = newC
        kept = [c for c in kept if c not in drop]
        if not drop and not firstC and not edrop:
            break
    else:
        raise Unsupported('loop invariant did not stabilise')

    if marrs and E.wide and kept:
        # again with the invariant, which lets index arithmetic be widened
        old = dict(summ)
        summaries([c[1](k, cur) for c in kept] + ([z3.substitute(Cfact, (k, k))] if Cfact is not None else []))
        for oid in marrs:
            if summ.get(oid) is None:
                summ[oid] = old.get(oid)

    # ---------- the proof proper
    s, r = header_state()
    if Cfact is not None:
        addC(s, k, Cfact, vars, init)
    if not E.feasible(s):
        raise Unsupported('loop invariant is contradictory')
    backs = []
    st2 = dict(stops)
    st2[H] = (backs, body)
    its2 = dict(its)
    s_hdr = s.fork()
    where = E.where
    if E.after_loop is not None:
        exits = {b: ([], body) for x in body for b in f.succs(x) if b not in body and not (b in stops and x in stops[b][1])}
        st2 = {b: v for b, v in st2.items() if b not in exits}
        st2.update(exits)
        rets = E.region(f, [(s, r, H, '<loop>', nphi)], st2, frame, its2)
        work = []
        for b, (lst, _) in exits.items():
            for sx, rx, px in lst:
                if not sx.dead:
                    work.append((sx, leave(E, f, st, sx, rx, body), b, px, 0))
        work = [w for w in work if not w[0].dead]
        later = lambda: E.region(f, work, stops, frame, its2) if work else []
    else:
        rets = E.region(f, [(s, r, H, '<loop>', nphi)], st2, frame, its2)
        later = lambda: []
    for c in kept:
        E.obls.append(Obligation('loop in %s: invariant holds on entry: %s' % (dem, c[0]), 'proved', where=E.where)) if not E.quiet else None
    for sb, rb, pb in backs:
        if sb.dead:
            continue
        nv = {v.key: newval(v, sb, rb, pb) for v in vars}
        nxt = closed(simp(k + 1))
        for v in vars:
            if v.step is not None and v.w > 1:
                if not E.prove(sb, bv(nv[v.key], v.w) == bv(nxt[v.key], v.w), 'closed form', quiet=True):
                    raise Unsupported('closed form of a loop variable is not inductive')
        for e in each:
            if not E.prove(sb, boolv(e[1](k)), 'each', quiet=True, terms=list(e[2](k))):
                raise Unsupported('fact %s not established by every iteration' % e[0])
            if not E.quiet:
                E.obls.append(Obligation('loop in %s: established by every iteration: %s' % (dem, e[0]), 'proved', where=E.where))
        for c in kept:
            if not E.prove(sb, boolv(c[1](simp(k + 1), nv)), 'step', quiet=True):
                raise Unsupported('loop invariant %s not preserved' % c[0])
            if not E.quiet:
                E.obls.append(Obligation('loop in %s: invariant preserved: %s' % (dem, c[0]), 'proved', where=E.where))
        cells, arrs = diff_mem(s_hdr, sb)
        keys = set(v.key for v in vars)
        for (oid, off) in cells:
            if ('cell', oid, off) not in keys and ('scratch', oid, off) not in mcells and oid in st.objs:
                raise Unsupported('loop frame violated')
        for oid in arrs:
            if oid not in st.objs:
                continue
            if oid not in marrs:
                raise Unsupported('loop frame violated')
            sm = summ.get(oid)
            if sm is None:
                continue
            o, oh = sb.objs[oid], s_hdr.objs[oid]
            if o.log[:len(oh.log)] != oh.log or len(o.log) != len(oh.log) + len(sm) or any(e[0] != 'pt' for e in o.log[len(oh.log):]):
                raise Unsupported('loop write summary shape')
            new = o.log[len(oh.log):]
            for q, (b0, dirn, fv, I) in enumerate(sm):
                _, wi, wv = new[q]
                exp = bv(b0, 64) + k if dirn == 1 else bv(b0, 64) - k
                if not E.prove(sb, z3.And(bv(wi, 64) == exp, bv(wv, 8 * o.esz) == bv(fv(k), 8 * o.esz)), 'write summary', quiet=True, terms=[wi]):
                    raise Unsupported('loop write summary is not inductive')
            if len(sm) > 1:
                # several writes per iteration: the summary applies them as one range per write, so no two may touch the same element
                t = E.fresh('t', 64)
                sb2 = sb.fork()
                sb2.assume(z3.ULE(t, k))
                for q1 in range(len(sm)):
                    for q2 in range(len(sm)):
                        if q1 == q2:
                            continue
                        e1 = bv(sm[q1][0], 64) + (k if sm[q1][1] == 1 else -k)
                        e2 = bv(sm[q2][0], 64) + (t if sm[q2][1] == 1 else -t)
                        if not E.prove(sb2, e1 != e2, 'disjoint writes', quiet=True, terms=[t]):
                            raise Unsupported('loop writes overlap')
            if not E.quiet:
                E.obls.append(Obligation('loop in %s: write summary preserved' % dem, 'proved', where=E.where))
    # scratch cells of the body are forgotten after the loop (they are locals of the iteration)
    E.sumloops += 1
    return rets + later()


def uses(f, body):
    """the registers read after the loop"""
    out = set()

    def walk(x):
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif hasattr(x, '__dict__') or hasattr(x, '__slots__'):
            for n in list(getattr(x, '__dict__', {})) + [n for c in type(x).__mro__ for n in getattr(c, '__slots__', ())]:
                if n != 'dest':
                    walk(getattr(x, n, None))
    seen = set(body)
    todo = [b for x in body for b in f.succs(x)]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo += f.succs(b)
        for i in f.blocks[b]:
            walk((i.ty, i.a, i.flags))
    return out


def leave(E, f, before, s, regs, body):
    """the loop is left in state s: values that provably equal one of the contract's terms are replaced by it, and what is known about the
    iteration only is forgotten (both sound: equals for equals, and fewer hypotheses)"""
    targets, facts = E.after_loop(E, s)
    old = set()
    for c in before.pc:
        free_vars(boolv(c), old)
    live = uses(f, body)
    new = set()
    for c in s.pc[len(before.pc):]:
        new |= free_vars(boolv(c)) - old
    for t in targets + facts:
        new -= free_vars(t)
    out, todo = {}, []
    for n, v in regs.items():
        if isinstance(v, z3.ExprRef) and free_vars(v) & new:
            if n in live or n.lstrip('%') in live or ('%' + n) in live:
                todo.append((n, v))
        else:
            out[n] = v
    for oid, o in list(s.objs.items()):          # variables in memory as well
        for off, (sz, v) in list(o.cells.items()):
            if isinstance(v, z3.ExprRef) and free_vars(v) & new:
                todo.append(((oid, off, sz), v))
    sol = E._solver(4000)
    sol.add(*[boolv(c) for c in s.pc])
    m = sol.model() if sol.check() == z3.sat else None
    rest = False
    for n, v in todo:
        r = v
        if m is not None:
            e = m.eval(v, model_completion=True)
            for t in targets:
                if t.sort() == v.sort() and m.eval(t, model_completion=True).eq(e) and E.prove(s, v == t, 'leave', quiet=True):
                    r = t
                    break
        if not isinstance(n, tuple):
            out[n] = r
        elif r is not v:
            s.w(n[0]).cells[n[1]] = (n[2], r)
        if r is v:
            rest = True
    if rest:
        return out
    keep = [c for c in facts if m is None or z3.is_true(m.eval(c, model_completion=True))]
    while keep:                      # a model that falsifies some of them, until none does
        sol.push()
        sol.add(z3.Not(z3.And(*keep)))
        r = sol.check()
        if r == z3.sat:
            m2 = sol.model()
            k2 = [c for c in keep if z3.is_true(m2.eval(c, model_completion=True))]
            sol.pop()
            if len(k2) < len(keep):
                keep = k2
                continue
        else:
            sol.pop()
        if r != z3.unsat:
            keep = [c for c in keep if E.prove(s, c, 'leave', quiet=True)]
        break
    n0 = len(before.pc)
    s.pc = list(s.pc[:n0]) + [c for c in s.pc[n0:] if not (free_vars(boolv(c)) & new)]
    for c in keep:
        s.assume(c)
    s.model = None
    return out


def one_write(E, st, base, alts, q, k, vars, cur, havnames):
    """summary of the q-th write of an iteration: (first index, direction, value as a function of the iteration, index)"""
    I = alts[0][1][q][1]
    if not all(same(a[1][q][1], I) or isint(simp(bv(a[1][q][1], 64) - bv(I, 64))) and simp(bv(a[1][q][1], 64) - bv(I, 64)) == 0 for a in alts):
        return None
    b0 = simp(z3.substitute(bv(I, 64), (k, z3.BitVecVal(0, 64))))
    up = simp(bv(I, 64) - bv(b0, 64) - k)
    dn = simp(bv(I, 64) - bv(b0, 64) + k)
    if isint(up) and up == 0:
        dirn = 1
    elif isint(dn) and dn == 0:
        dirn = -1
    else:
        # narrow counters: decide with the counters assumed not to wrap (the preservation proof does not assume it)
        s = st.fork()
        s.assume(z3.ULE(k, z3.BitVecVal(0x7fffffff, 64)))
        for pcs, log in alts[:1]:
            for c in pcs:
                s.assume(boolv(c))
        for v in vars:
            if v.kind == 'int' and v.step is not None and v.w < 64 and isint(v.step) and v.w > 1:
                sg = sym.sgn(v.step, v.w)
                z = lambda x: z3.ZeroExt(64 - v.w, bv(x, v.w))
                i0 = scalar(v, v.init)
                if sg == 1:
                    s.assume(z(cur[v.key]) == z(i0) + k)
                elif sg == -1:
                    s.assume(z(cur[v.key]) + k == z(i0))
        if E.prove(s, bv(I, 64) == bv(b0, 64) + k, 'x', quiet=True):
            dirn = 1
        elif E.prove(s, bv(I, 64) == bv(b0, 64) - k, 'x', quiet=True):
            dirn = -1
        else:
            return None
    val = alts[-1][1][q][2]
    w = 8 * base.esz
    if isinstance(val, (Ptr, Fn)):
        return None
    val = bv(val, w)
    for pcs, log in reversed(alts[:-1]):
        val = z3.If(z3.And([boolv(c) for c in pcs]) if pcs else z3.BoolVal(True), bv(log[q][2], w), val)
    if free_vars(val) & havnames:
        return None
    return b0, dirn, (lambda val: lambda j: conc(z3.substitute(val, (k, bv(j, 64)))))(val), I


def born_in_loop(E, name, st, k):
    """fresh symbols created after the ghost counter of this loop do not denote iteration-independent values"""
    if '!' not in name:
        return False
    try:
        n = int(name.rsplit('!', 1)[1])
        kn = int(k.decl().name().rsplit('!', 1)[1])
    except ValueError:
        return False
    return n > kn


def addC(s, k, C, vars, init):
    def fn(t):
        return z3.Implies(z3.ULT(bv(t, 64), k), z3.substitute(C, (k, bv(t, 64))))
    los = [0]
    for v in vars:
        if v.step is not None and v.w == 64:
            i0 = init[v.key]
            if not any(sym.isint(x) and sym.isint(i0) and x == i0 for x in los):
                los.append(i0)
    s.foralls.append(Forall(fn, los, 'continue condition'))
    s.assume(z3.Implies(k != 0, z3.substitute(C, (k, k - 1))))
