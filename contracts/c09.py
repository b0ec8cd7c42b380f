"""C09: array slices behave as immutable-value sequences: every operation gives the sequence the model gives."""
from runner import Task
import arr

REPLAY = 'c09.cpp'
ASSUMPTIONS = ['operator new does not fail', 'elements are plain values (verified for int)', 'at most 2^26 elements', 'fewer than 2^28 users of a body', 'the element argument is not inside the array changed']


def mk(seq, own):
    ops = arr.Ops(seq, own)
    ts = arr.body_tasks(Task)
    for name, scens, fn, kw in ops.ops:
        for sc in scens:
            ts.append(Task('%s (%s)' % (name, sc), 'array', (lambda fn, name, sc: lambda E: ops.run(E, name, sc, fn))(fn, name, sc), **kw))
    return ts


def tasks(tier):
    return mk(True, False)


def hint(t, n, inp):
    g = lambda k, d=0: inp.get(k) if isinstance(inp.get(k), int) else d
    out = []
    for cap in (5, 9, 17, 33):
        la = min(g('n_a'), cap)
        off = min(g('off_a'), 8)
        bl = la + off + (0 if g('blen_a') == g('n_a') + g('off_a') else 2)
        p = g('pos', g('at', g('i', g('k'))))
        q = g('len', g('al'))
        out.append('%d %d %d %d %d %d %u %u %d' % (la, off, bl, int(g('rc_a') > 1), int(inp.get('kind_a') == 'static'), min(g('n_b'), cap), p % 64, q % 64, g('e') % 5))
    return out
