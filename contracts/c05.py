"""C05: character classification, digit values and case conversion are functions of the character alone.
The static memos are modelled as shared scalars that any other thread may set to any index of the table at any time:
every load gets an unconstrained value of the range, every store must stay in it."""
import re
import z3
from z3 import BitVecVal as V, And, Or, Not, Implies, If, ULE, ULT, UGT, UGE
from runner import Task
from sym import Ptr, bv, State, Unsupported
from c05_tables import UPPER, LOWER, TITLE, NOCASE

REPLAY = 'c05.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']
ASSUMPTIONS = ['the golden Unicode 3 tables in contracts/c05_tables.py are the intended character data',
               'loads and stores of the memo are atomic (std::atomic<int> on this target)']
DIGITS = [0x30, 0x660, 0x6F0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xBE6, 0xC66, 0xCE6, 0xD66, 0xE50, 0xED0, 0xF20, 0x1040, 0x1368, 0x17E0, 0x1810, 0xFF10]


WIN = [0, (1 << 32) - 1]      # window of character values a path is restricted to: ranges outside it are left out of the spec


def rng(ch, a, b):
    if b < WIN[0] or a > WIN[1]:
        return z3.BoolVal(False)
    return ch == a if a == b else And(ULE(V(a, 32), ch), ULE(ch, V(b, 32)))


def spec_map(ch, tab):
    r = ch
    for a, b, d in tab:
        if WIN[0] <= b and a <= WIN[1]:
            r = If(rng(ch, a, b), ch + V(d, 32), r)
    return r


def spec_upper(ch):
    return spec_map(ch, UPPER)


def spec_lower(ch):
    return spec_map(ch, LOWER)


def spec_title(ch):
    r = spec_upper(ch)
    for c, d in TITLE:
        r = If(ch == c, ch + V(d, 32), r)
    return r


DIG_RANGES = []
for _z in DIGITS:
    if _z == 0xAE6:
        DIG_RANGES.append((0xAE7, 0xAEF, 0xAE6))
    elif _z == 0x1368:
        DIG_RANGES.append((0x1369, 0x1371, 0x1368))
    else:
        DIG_RANGES.append((_z, _z + 9, _z))
DIG_RANGES += [(0x3007, 0x3007, 0x3007), (0x3021, 0x3029, 0x3020)]


def spec_digit(ch):
    r = V(-1, 32)
    for a, b, z in DIG_RANGES:
        r = If(rng(ch, a, b), ch - V(z, 32), r)
    return r


def spec_hex(ch):
    return If(rng(ch, 0x41, 0x46), ch - V(0x37, 32), If(rng(ch, 0x61, 0x66), ch - V(0x57, 32), spec_digit(ch)))


def spec_alpha(ch):
    cased = Or([rng(ch, a, b) for a, b, d in UPPER + LOWER])
    return Or([cased] + [rng(ch, c, c) for c in NOCASE])


def spec_white(ch):
    return Or(rng(ch, 0x20, 0x20), rng(ch, 9, 10), ch == 13, ch == 0xA0, rng(ch, 0x2000, 0x200B), rng(ch, 0x2028, 0x2029), ch == 0x3000)


def interval(E, s, ch):
    """bounds of ch implied by the comparisons on this path; the bounds themselves are proved"""
    lo, hi = 0, (1 << 32) - 1
    w = ch.size()

    def atom(f, pos):
        nonlocal lo, hi
        k = f.decl().kind()
        if k == z3.Z3_OP_NOT:
            return atom(f.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
            for c in f.children():
                atom(c, pos)
            return
        if f.num_args() != 2:
            return
        a, b = f.arg(0), f.arg(1)
        ops = {z3.Z3_OP_ULEQ: 'le', z3.Z3_OP_ULT: 'lt', z3.Z3_OP_UGEQ: 'ge', z3.Z3_OP_UGT: 'gt', z3.Z3_OP_EQ: 'eq'}
        if k not in ops:
            return
        o = ops[k]
        if a.eq(ch) and z3.is_bv_value(b):
            c = b.as_long()
        elif b.eq(ch) and z3.is_bv_value(a):
            c, o = a.as_long(), {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt', 'eq': 'eq'}[o]
        else:
            return
        if not pos:
            o = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'eq': None}[o]
        if o == 'le':
            hi = min(hi, c)
        elif o == 'lt':
            hi = min(hi, c - 1)
        elif o == 'ge':
            lo = max(lo, c)
        elif o == 'gt':
            lo = max(lo, c + 1)
        elif o == 'eq':
            lo, hi = max(lo, c), min(hi, c)
    for f in s.pc:
        if E.is_small(f):
            atom(f, True)
    return lo, hi


def shared(E):
    """declare the mutable scalars of the translation unit as shared memos, the data tables as never written"""
    E.frozen_globals = re.compile(r'^@_ZL|masks$')
    txt = {}
    for name, f in E.mod.funcs.items():
        if f.defined:
            txt[name] = f
    arrays = {g: v for g, v in E.mod.globals.items() if v[0] != 'alias' and E.mod.resolve(v[1])[0] == 'arr'}
    for g, v in E.mod.globals.items():
        if v[0] != 'global' or g in arrays or E.mod.size(v[1]) > 8:
            continue
        lens = set()
        for name, f in txt.items():
            body = '\n'.join(i.text for b in f.blocks.values() for i in b)
            if g in body:
                for a, av in arrays.items():
                    if re.search(re.escape(a) + r'\b', body) and av[2] is not None and E.mod.size(E.mod.resolve(av[1])[2]) > 1:
                        lens.add(E.mod.resolve(av[1])[1])
        if len(lens) != 1:
            raise Unsupported('cannot tell which table the static %s indexes' % g)
        E.global_inits[g] = (lambda N: lambda E, st, oid: E.volatile.__setitem__(oid, (0, N)))(lens.pop())


def map_contract(spec):
    def h(E, st, args, dem):
        return [(st, spec(bv(args[0], 32)))]
    return h


def ask(E, fn, spec, what, contracts=()):
    shared(E)
    ch = z3.BitVec('ch', 32)
    E.inputs = {'ch': ch}
    for name, sp in contracts:
        E.contracts[E.find(name)] = map_contract(sp)
    st = State()
    n = 0
    for s, r in E.run(st, fn, [ch]):
        n += 1
        lo, hi = interval(E, s, ch)
        if (lo, hi) != (0, (1 << 32) - 1):
            E.prove(s, And(ULE(V(lo, 32), ch), ULE(ch, V(hi, 32))), 'case window')
        WIN[:] = [lo, hi]
        e = spec(ch)
        WIN[:] = [0, (1 << 32) - 1]
        if z3.is_bool(e):
            rr = z3.BoolVal(bool(r)) if isinstance(r, int) else r if z3.is_bool(r) else bv(r, 32) != 0
            E.prove(s, rr == e, what)
        else:
            E.prove(s, bv(r, 32) == e, what)
    E.prove(State(), z3.BoolVal(n >= 1), 'vacuity: %s returns' % fn)


U, L, T, D = 'UCS4ToUpper(char32_t)', 'UCS4ToLower(char32_t)', 'UCS4ToTitle(char32_t)', 'UCS4Digit(char32_t)'
A = 'UCS4IsAlphabetic(char32_t)'


def mk(fn, spec, what, contracts=()):
    return lambda E: ask(E, fn, spec, what, contracts)


def tasks(tier):
    o = {'unroll': 600, 'loop_mode': 'unroll', 'max_paths': 60000, 'small': 100}
    t = lambda name, fn, spec, what, c=(): Task(name, 'char', mk(fn, spec, what, c), opts=dict(o), timeout=200)
    return [
        t('UCS4ToUpper', U, spec_upper, 'UCS4ToUpper gives the upper-case form, or the character itself'),
        t('UCS4ToLower', L, spec_lower, 'UCS4ToLower gives the lower-case form, or the character itself'),
        t('UCS4ToTitle', T, spec_title, 'UCS4ToTitle gives the title-case form, else the upper-case form', [(U, spec_upper)]),
        t('UCS4Digit', D, spec_digit, 'UCS4Digit gives the digit value, -1 if the character is no digit'),
        t('UCS4HexDigit', 'UCS4HexDigit(char32_t)', spec_hex, 'UCS4HexDigit gives the hexadecimal digit value or -1', [(D, spec_digit)]),
        t('UCS4IsDecimal', 'UCS4IsDecimal(char32_t)', lambda c: spec_digit(c) != V(-1, 32), 'UCS4IsDecimal exactly for digits', [(D, spec_digit)]),
        t('UCS4IsAlphabetic', A, spec_alpha, 'UCS4IsAlphabetic exactly for letters', [(U, spec_upper), (L, spec_lower)]),
        t('ASCIIDigit', 'ASCIIDigit(char32_t)', lambda c: If(rng(c, 0x30, 0x39), c - 0x30, V(-1, 32)), 'ASCIIDigit'),
        t('UCS4IsWhite', 'UCS4IsWhite(char32_t)', spec_white, 'UCS4IsWhite'),
        t('UCS4IsASCII', 'UCS4IsASCII(char32_t)', lambda c: ULT(c, V(0x80, 32)), 'UCS4IsASCII'),
        t('UCS4IsASCIIPrintable', 'UCS4IsASCIIPrintable(char32_t)', lambda c: rng(c, 0x20, 0x7E), 'UCS4IsASCIIPrintable'),
        t('UCS4IsLatin1', 'UCS4IsLatin1(char32_t)', lambda c: ULT(c, V(0x100, 32)), 'UCS4IsLatin1'),
        t('UCS4IsUnicode', 'UCS4IsUnicode(char32_t)', lambda c: ULT(c, V(0x110000, 32)), 'UCS4IsUnicode'),
        t('UCS4IsUTF16', 'UCS4IsUTF16(char32_t)', lambda c: ULT(c, V(0x10000, 32)), 'UCS4IsUTF16'),
        t('isalpha', 'isalpha(char32_t)', spec_alpha, 'isalpha', [(A, spec_alpha)]),
        t('isdigit', 'isdigit(char32_t)', lambda c: spec_digit(c) != V(-1, 32), 'isdigit', [(D, spec_digit)]),
        t('isalnum', 'isalnum(char32_t)', lambda c: Or(spec_alpha(c), spec_digit(c) != V(-1, 32)), 'isalnum', [(A, spec_alpha), (D, spec_digit)]),
        t('toupper', 'toupper(char32_t)', spec_upper, 'toupper', [(U, spec_upper)]),
        t('tolower', 'tolower(char32_t)', spec_lower, 'tolower', [(L, spec_lower)]),
        t('isspace', 'isspace(char32_t)', spec_white, 'isspace'),
    ]


def hint(t, n, inp):
    return 'ch %d' % inp['ch'] if inp and 'ch' in inp else None
