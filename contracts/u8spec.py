"""Spec functions for UTF-8 as the library documents it (1..6 bytes, full 32 bits), written from the property statements."""
import z3
from z3 import BitVecVal as V, If, And, Or, Not, ULT, ULE, UGE, UGT, Extract, ZeroExt, LShR


def b8(x):
    return V(x, 8) if isinstance(x, int) else x


def b32(x):
    return V(x, 32) if isinstance(x, int) else x


def illegal(ch):
    """the marker values: 0x800000xx stands for the undecodable byte xx; 0xFFFFFFFF is UCS4_NONE"""
    return Or((ch & V(0xFFFFFF00, 32)) == V(0x80000000, 32), ch == V(0xFFFFFFFF, 32))


def enclen(ch):
    """bytes needed for a character"""
    return If(illegal(ch), V(1, 32), If(ULT(ch, V(0x80, 32)), V(1, 32), If(ULT(ch, V(0x800, 32)), V(2, 32),
           If(ULT(ch, V(0x10000, 32)), V(3, 32), If(ULT(ch, V(0x200000, 32)), V(4, 32),
           If(ULT(ch, V(0x4000000, 32)), V(5, 32), V(6, 32)))))))


LEAD = {2: 0xC0, 3: 0xE0, 4: 0xF0, 5: 0xF8, 6: 0xFC}
LMASK = {2: 0x1F, 3: 0x0F, 4: 0x07, 5: 0x03, 6: 0x03}


def encbyte(ch, n, k):
    """k-th byte of the n-byte encoding of ch"""
    if n == 1:
        return Extract(7, 0, ch)
    sh = 6 * (n - 1 - k)
    if k == 0:
        return V(LEAD[n], 8) | (Extract(7, 0, LShR(ch, V(sh, 32))) & V(LMASK[n], 8))
    return V(0x80, 8) | (Extract(7, 0, LShR(ch, V(sh, 32))) & V(0x3F, 8))


def is1st(b):
    b = b8(b)
    return (b & V(0xC0, 8)) != V(0x80, 8)


def leadlen(b):
    """length announced by a first byte; 0: a continuation byte, not a first byte"""
    b = b8(b)
    return If(ULT(b, V(0x80, 8)), V(1, 32), If(ULT(b, V(0xC0, 8)), V(0, 32), If(ULT(b, V(0xE0, 8)), V(2, 32),
           If(ULT(b, V(0xF0, 8)), V(3, 32), If(ULT(b, V(0xF8, 8)), V(4, 32), If(ULT(b, V(0xFC, 8)), V(5, 32), V(6, 32)))))))


def declen(bs):
    """bytes consumed when decoding at bs[0] (bs: 6 byte expressions); 1 if malformed"""
    L = leadlen(bs[0])
    r = V(1, 32)
    for n in range(2, 7):
        ok = And([Not(is1st(b)) for b in bs[1:n]])
        r = If(And(L == n, ok), V(n, 32), r)
    return r


def decval(bs):
    """the character decoded at bs[0]: the payload, or 0x800000xx for an undecodable byte xx"""
    L = leadlen(bs[0])
    z = lambda b, m: ZeroExt(24, b8(b) & V(m, 8))
    r = V(0x80000000, 32) | ZeroExt(24, b8(bs[0]))
    r = If(L == 1, ZeroExt(24, b8(bs[0])), r)
    for n in range(2, 7):
        ok = And([Not(is1st(b)) for b in bs[1:n]])
        v = z(bs[0], LMASK[n])
        for b in bs[1:n]:
            v = (v << 6) | z(b, 0x3F)
        r = If(And(L == n, ok), v, r)
    return r
