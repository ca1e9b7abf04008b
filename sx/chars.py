"""Which characters a predicate in the source singles out: constant propagation
through its MIR for every ASCII character, every character that Unicode calls
white space, and a few others."""
from val import *
from core import *

XML_WS = (9, 10, 13, 32)
UNICODE_WS = (9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680) + tuple(range(0x2000, 0x200B)) + (0x2028, 0x2029, 0x202F, 0x205F, 0x3000)
ASCII_WS = (9, 10, 12, 13, 32)
SAMPLE = tuple(range(128)) + tuple(sorted(c for c in UNICODE_WS if c > 127)) + (0xE9, 0x180E, 0x200B, 0x2060, 0xFEFF, 0x4E00, 0x1F600)
BYTES = tuple(range(256))


def char_model(pred):
    def m(e, s, c, v, *rest):
        for _ in range(2):
            if v[0] == 'p':
                v = e.get(s, v[1], v[2])
        if v[0] == 'm' and isinstance(v[1], tuple) and v[1][0] == 'char':
            return B(pred(v[1][1]))
        if v[0] == 'i' and not v[2]:
            return B(pred(v[1]))
        return None
    return m


PREDICATES = {
    'is_whitespace': lambda n: n in UNICODE_WS,
    'is_ascii_whitespace': lambda n: n in ASCII_WS,
    'is_ascii_control': lambda n: n < 32 or n == 127,
    'is_control': lambda n: n < 32 or 127 <= n < 160,
    'is_ascii': lambda n: n < 128,
    'is_ascii_digit': lambda n: 48 <= n < 58,
}
MODELS = {'%s::%s' % (t, k): char_model(p) for k, p in PREDICATES.items() for t in ('char', 'u8')}


def run(e, s0, fn, args, limit=3000):
    """The results of a function without effects, for the given arguments."""
    s = s0.copy()
    s.fr = ()
    s.fn = fn
    s.bb = s.i = 0
    s.unit = None
    for k in [k for k in s.ob if isinstance(k[0], int)]:
        s.ob[('x',) + k] = s.ob.pop(k)

    def moved(v):
        if v[0] == 'p' and isinstance(v[1][0], int):
            return ('p', ('x',) + v[1], v[2])
        if v[0] == 'a':
            return ('a', v[1], tuple([moved(x) for x in v[2]]))
        return v
    for k in list(s.ob):
        s.ob[k] = moved(s.ob[k])
    for i, a in enumerate(args):
        s.ob[(0, i + 1)] = moved(a)
    saved = e.unroll, e.recursive
    e.unroll, e.recursive = 100, set()
    try:
        return steps(e, s, limit)
    finally:
        e.unroll, e.recursive = saved


def steps(e, s, limit):
    tainted = s.taint
    todo, out = [s], []
    while todo:
        limit -= 1
        if limit < 0:
            raise Undecided('a predicate takes too long')
        s = todo.pop()
        if s.retv is not None:
            if s.taint and not tainted:
                raise Undecided('a predicate is not understood')
            out.append(s.retv)
            continue
        before = len(e.undecided)
        todo.extend(e.step_block(s))
        if len(e.undecided) > before:
            raise Undecided('a predicate is not understood')
    return out


def holds(e, s, f, fargs, kind='char', chars=SAMPLE):
    """The characters for which `f(fargs..., char)` is true."""
    out = []
    for n in chars:
        r = run(e, s, f, fargs + [('m', ('char', n)) if kind == 'char' else I(n)])
        if len(r) != 1 or r[0] not in (TRUE, FALSE):
            raise Undecided('a predicate is not understood')
        if r[0] == TRUE:
            out.append(n)
    return tuple(out)


def pattern(e, s, v, t):
    """The characters that a `str` pattern matches."""
    for _ in range(3):
        if t['kind'] == 'ref' and v[0] == 'p':
            v = e.get(s, v[1], v[2])
            t = e.ty(t['elem'])
    if v[0] == 'q':
        l = elems(v)
        if l is not None and all(x[0] == 'm' and x[1][0] == 'char' for x in l):
            return tuple(sorted({x[1][1] for x in l}))
    if v[0] == 'm' and isinstance(v[1], tuple) and v[1][0] == 'char':
        return (v[1][1],)
    if t['kind'] == 'closure':
        f = e.p.fns[t['fn']]
        env = s.heap(v) if e.ty(f.locals[1])['kind'] == 'ref' else v
        return holds(e, s, f, [env])
    if v[0] == 'f':
        f = e.p.fns[v[1]]
        name = f.key.split('::')[-1]
        if f.body is None and f.key.startswith('char::') and name in PREDICATES:
            return tuple(n for n in SAMPLE if PREDICATES[name](n))
        if f.body is not None:
            return holds(e, s, f, [])
    raise Undecided('a pattern is not understood')

