"""Parser for the textual LLVM 18 IR that clang emits from /repo's sources (x86-64 layout, opaque pointers)."""
import re, subprocess

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<gq>[@%$]"(?:[^"\\]|\\.)*")
 |(?P<id>[@%$][-a-zA-Z$._0-9]+)
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 |(?P<p>[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('tokenize: ' + s[i:i + 60])
        i = m.end()
        out.append(m.group(m.lastgroup))
    return out


def strip_comment(line):
    if ';' not in line:
        return line
    inq = False
    for i, c in enumerate(line):
        if c == '"':
            inq = not inq
        elif c == ';' and not inq:
            return line[:i]
    return line


PTR = ('ptr',)
VOID = ('void',)
PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'returned', 'readonly',
               'readnone', 'writeonly', 'immarg', 'nofree', 'noreturn', 'dead_on_unwind', 'writable', 'allocalign',
               'allocptr', 'nest', 'swiftself', 'captures'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype',
                   'inalloca', 'preallocated', 'memory', 'initializes', 'range', 'nofpclass'}
LINK = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'dso_local', 'unnamed_addr',
        'local_unnamed_addr', 'hidden', 'protected', 'default', 'available_externally', 'common', 'appending',
        'extern_weak', 'dso_preemptable', 'thread_local', 'fastcc', 'ccc', 'coldcc', 'dllimport'}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(self.t)[:300]))

    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.match(r'i\d+$', t):
            r = ('i', int(t[1:]))
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            r = ('f', t)
        elif t in ('label', 'metadata', 'token', 'opaque'):
            r = (t,)
        elif t == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('struct', self._fields('}'), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('struct', self._fields('}'), False)
        elif t[0] == '%':
            r = ('named', t)
        else:
            raise SyntaxError('type? %r in %r' % (t, ' '.join(self.t)[:200]))
        if self.peek() == '(':   # function type
            self.next()
            args = []
            while not self.accept(')'):
                if self.accept('...'):
                    continue
                args.append(self.type())
                self.accept(',')
            r = ('func', r, args)
        return r

    def _fields(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type())
            self.accept(',')
        return tuple(out)

    def skip_attrs(self):
        """parameter attributes; returns the interesting ones"""
        got = {}
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next(); got[t] = True
            elif t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if t in ('byval', 'sret', 'byref', 'elementtype'):
                        got[t] = self.type(); self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            d += (x == '(') - (x == ')')
                else:
                    self.next()
            elif t and t[0] == '#':
                self.next()
            elif t and t[0] == '"' :
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return got

    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('reg', t)
        if t[0] == '@':
            return ('glob', t.strip('"') if False else t)
        if t in ('true', 'false'):
            return ('int', 1 if t == 'true' else 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            return ('bytes', unescape(t[2:-1]))
        if re.match(r'-?\d+$', t):
            return ('int', int(t))
        if re.match(r'-?\d+\.', t) or t.startswith('0x'):
            return ('fp', t)
        if t == '[':
            out = []
            while not self.accept(']'):
                et = self.type(); out.append((et, self.value(et))); self.accept(',')
            return ('agg', out)
        if t == '{':
            out = []
            while not self.accept('}'):
                et = self.type(); out.append((et, self.value(et))); self.accept(',')
            return ('agg', out)
        if t == '<':
            if self.peek() == '{':
                self.next()
                out = []
                while not self.accept('}'):
                    et = self.type(); out.append((et, self.value(et))); self.accept(',')
                self.expect('>')
                return ('agg', out)
            out = []
            while not self.accept('>'):
                et = self.type(); out.append((et, self.value(et))); self.accept(',')
            return ('agg', out)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next(); 
                d = 0
                while True:
                    x = self.next(); d += (x == '(') - (x == ')')
                    if d == 0: break
            self.expect('(')
            base = self.type(); self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                et = self.type(); ops.append((et, self.value(et)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('cgep', base, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type(); v = self.value(st); self.expect('to'); dt = self.type(); self.expect(')')
            return ('ccast', t, st, v, dt)
        if t in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t1 = self.type(); a = self.value(t1); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', t, t1, a, b)
        if t == 'asm':
            return ('asm',)
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return self.value(ty)
        raise SyntaxError('value? %r in %r' % (t, ' '.join(self.t)[:300]))

    def typed(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'text', 'flags')

    def __init__(self, op, dest, ty, a, text, flags=()):
        self.op, self.dest, self.ty, self.a, self.text, self.flags = op, dest, ty, a, text, flags

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, regname, attrs)
        self.ret = VOID
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.vararg = False
        self.defined = False
        self._loops = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [x for x in t.a[1:]]
        if t.op == 'switch':
            return [t.a[2]] + [l for _, l in t.a[3]]
        if t.op == 'invoke':
            return [t.a['normal']]
        return []

    def loops(self):
        """natural loops: header -> set(blocks)"""
        if self._loops is not None:
            return self._loops
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(self.succs(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(x)
                    st.pop()
        entry = self.order[0]
        dfs(entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs = {}, {}, {}
        self.dem = {}        # mangled -> demangled

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            for s in (1, 2, 4, 8, 16):
                if n <= s:
                    return s
            return n
        if k == 'ptr':
            return 8
        if k == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'arr' or k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.struct_layout(t)[1]
        raise KeyError(t)

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] or [1])
        return self.size(t)

    def struct_layout(self, t):
        t = self.resolve(t)
        off, offs = 0, []
        for f in t[1]:
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return offs, off


def parse_module(path):
    m = Module()
    lines = open(path).read().split('\n')
    i = 0
    while i < len(lines):
        line = lines[i]
        if line.startswith('%') and ' = type ' in line:
            name, rest = line.split(' = type ', 1)
            m.types[name] = P(tokenize(strip_comment(rest)), m).type()
        elif line.startswith('@'):
            parse_global(m, strip_comment(line))
        elif line.startswith('declare'):
            parse_decl(m, strip_comment(line))
        elif line.startswith('define'):
            body = []
            hdr = line
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            parse_define(m, hdr, body)
        i += 1
    names = list(m.funcs)
    out = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names), text=True, capture_output=True).stdout.split('\n')
    for n, d in zip(names, out):
        m.dem[n] = d
    m.rdem = {}
    for n, d in m.dem.items():
        m.rdem.setdefault(d, n)
    return m


def parse_global(m, line):
    name, rest = line.split(' = ', 1)
    p = P(tokenize(rest), m)
    ext = False
    while p.peek() in LINK or p.peek() in ('thread_local', 'comdat'):
        if p.peek() == 'external':
            ext = True
        if p.next() == 'thread_local' and p.peek() == '(':
            p.next(); p.next(); p.next()
    if p.peek() in ('alias', 'ifunc'):
        p.next(); p.type(); p.expect(','); ty = p.type(); v = p.value(ty)
        m.globals[name] = ('alias', v)
        return
    kind = p.next()
    if kind not in ('global', 'constant'):
        raise SyntaxError(line)
    ty = p.type()
    init = None
    if not ext and p.peek() not in (',', None):
        init = p.value(ty)
    m.globals[name] = (kind, ty, init)


def parse_sig(p, m):
    while p.peek() in LINK or p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
        if p.peek() in PARAM_ATTRS_ARG or p.peek() in PARAM_ATTRS:
            p.skip_attrs()
        else:
            p.next()
    ret = p.type()
    while p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
        p.skip_attrs()
    name = p.next()
    f = Function(name)
    f.ret = ret
    p.expect('(')
    n = 0
    while not p.accept(')'):
        if p.accept('...'):
            f.vararg = True
            continue
        ty = p.type()
        at = p.skip_attrs()
        reg = None
        if p.peek() and p.peek()[0] == '%':
            reg = p.next()
        else:
            reg = '%' + str(n)
        n += 1
        f.params.append((ty, reg, at))
        p.accept(',')
    return f


def parse_decl(m, line):
    p = P(tokenize(line), m)
    p.expect('declare')
    f = parse_sig(p, m)
    m.funcs.setdefault(f.name, f)


def parse_define(m, hdr, body):
    h = strip_comment(hdr)
    h = h[:h.rindex('{')]
    p = P(tokenize(h), m)
    p.expect('define')
    f = parse_sig(p, m)
    f.defined = True
    m.funcs[f.name] = f
    cur = '%' + str(len(f.params))
    insts = []
    f.order.append(cur)
    f.blocks[cur] = insts
    first = True
    j = 0
    while j < len(body):
        line = body[j]
        j += 1
        if not line.strip():
            continue
        if not line.startswith(' '):
            mm = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', line)
            if not mm:
                if line.startswith(';'):
                    continue
                raise SyntaxError(line)
            lab = '%' + mm.group(1)
            if first and not insts:
                f.order.pop(); f.blocks.pop(cur)
            cur = lab
            insts = []
            f.order.append(cur)
            f.blocks[cur] = insts
            first = False
            continue
        first = False
        s = strip_comment(line).strip()
        if s.startswith('switch') and s.endswith('['):
            while True:
                l2 = strip_comment(body[j]).strip()
                j += 1
                s += ' ' + l2
                if l2.startswith(']'):
                    break
        s = re.sub(r', ![a-zA-Z.]+ !\d+', '', s)
        if s.startswith('call void @llvm.dbg') or s.startswith('#dbg'):
            continue
        insts.append(parse_inst(m, s))
    return f


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
        'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'disjoint', 'nneg'}


def parse_inst(m, s):
    p = P(tokenize(s), m)
    dest = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        dest = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    flags = []
    if op in BIN or op in CAST or op == 'fneg' or op == 'getelementptr':
        while p.peek() in FLAGS:
            flags.append(p.next())
    if op in BIN:
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr(op, dest, ty, (a, b), s, flags)
    if op in CAST:
        ty, v = p.typed(); p.expect('to'); dt = p.type()
        return Instr(op, dest, dt, (ty, v), s)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr(op, dest, ty, (pred, a, b), s)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = ('int', 1); nt = ('i', 32)
        if p.accept(','):
            if p.peek() != 'align':
                nt, n = p.typed()
        return Instr(op, dest, ty, (nt, n), s)
    if op == 'load':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        ty = p.type(); p.expect(','); pt, v = p.typed()
        return Instr(op, dest, ty, (v,), s)
    if op == 'store':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        ty, v = p.typed(); p.expect(','); pt, q = p.typed()
        return Instr(op, dest, ty, (v, q), s)
    if op == 'getelementptr':
        base = p.type()
        ops = []
        while p.accept(','):
            p.accept('inrange')
            ops.append(p.typed())
        return Instr(op, dest, base, ops, s)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, None, (None, p.next()), s)
        ty, c = p.typed(); p.expect(','); p.expect('label'); t = p.next(); p.expect(','); p.expect('label'); e = p.next()
        return Instr('br', None, None, (c, t, e), s)
    if op == 'switch':
        ty, v = p.typed(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, p.next()))
        return Instr('switch', None, ty, (ty, v, d, cases), s)
    if op == 'ret':
        if p.peek() == 'void':
            return Instr('ret', None, VOID, None, s)
        ty, v = p.typed()
        return Instr('ret', None, ty, v, s)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(ty); p.expect(','); l = p.next(); p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return Instr('phi', dest, ty, inc, s)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.typed(); p.expect(','); ty, a = p.typed(); p.expect(','); t2, b = p.typed()
        return Instr(op, dest, ty, (c, a, b), s)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in LINK:
            p.next()
        p.skip_attrs()
        rt = p.type()
        if rt[0] == 'func':
            rt = rt[1]
        p.skip_attrs()
        callee = p.value(PTR)
        if callee == ('asm',):
            return Instr('call', dest, rt, {'callee': ('asm',), 'args': [], 'text': s}, s)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            if ty == ('metadata',):
                args.append((ty, ('undef',), {}))
                while p.peek() not in (',', ')'):
                    p.next()
                p.accept(',')
                continue
            at = p.skip_attrs()
            args.append((ty, p.value(ty), at))
            p.accept(',')
        d = {'callee': callee, 'args': args}
        if op == 'invoke':
            p.skip_attrs(); p.expect('to'); p.expect('label'); d['normal'] = p.next()
        return Instr(op, dest, rt, d, s)
    if op == 'unreachable':
        return Instr(op, None, None, None, s)
    if op == 'extractvalue':
        ty, v = p.typed(); idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, dest, ty, (v, idx), s)
    if op == 'insertvalue':
        ty, v = p.typed(); p.expect(','); t2, w = p.typed(); idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, dest, ty, (v, w, idx, t2), s)
    if op == 'freeze':
        ty, v = p.typed()
        return Instr(op, dest, ty, (v,), s)
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next(); pt, q = p.typed(); p.expect(','); ty, v = p.typed()
        return Instr(op, dest, ty, (o, q, v), s)
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        pt, q = p.typed(); p.expect(','); ty, c = p.typed(); p.expect(','); t2, n = p.typed()
        return Instr(op, dest, ty, (q, c, n), s)
    if op == 'fence':
        return Instr(op, None, None, None, s)
    if op == 'fneg':
        ty, v = p.typed()
        return Instr(op, dest, ty, (v,), s)
    if op in ('resume', 'landingpad', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
        return Instr('unsupported', dest, None, op, s)
    raise SyntaxError('inst? ' + s)
