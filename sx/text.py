"""Text types: the built-in ones (P22) and the derived ones (P13, P07). Every
root parses or writes an arbitrary value of one type; what is returned on each
path is compared with the declared behaviour."""
from val import *
from core import *
from models import STD, display, str_ty, as_text
import chars
import join
from corpus_text import TYPES
from join import Solver
from de import contains

MODELS = dict(STD)
MODELS.update(chars.MODELS)
MODES = ('Preserve', 'Replace', 'Collapse')
NUMBERS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128', 'f32', 'f64')


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def calls(s):
    return [(op[1], args[2], r) for _, _, (op, args, r) in s.mon['calls'][2]]


def record(e, s, op, args, ty):
    """The result of a deterministic call, remembered for the rules."""
    for o, a, r in calls(s):
        if o == op and a == args:
            return r
    r = e.fresh(s, ty)
    done = s.mon['calls'][2]
    s.mon['calls'] = ('a', len(done) + 1, done + (tup(M(op), tup(*args), r),))
    return r


# -- trimming ------------------------------------------------------------------------

def trimmed(e, s, t, cs, side):
    for op, args, r in calls(s):
        if op == 'trim' and r == t and args[1] == M(cs):
            if args[2] == M('both') or args[2] == M(side):
                return t
            t, side = args[0], 'both'
            break
    c = text_const(t)
    if c is not None:
        w = ''.join(map(chr, cs))
        return txt(c.strip(w) if side == 'both' else c.lstrip(w) if side == 'start' else c.rstrip(w))
    return record(e, s, 'trim', (t, M(cs), M(side)), str_ty(e))


SIDES = {'trim': 'both', 'trim_start': 'start', 'trim_left': 'start', 'trim_end': 'end', 'trim_right': 'end'}


@model(*['str::trim' + x + y for x in ('', '_start', '_end') for y in ('', '_matches')], 'str::trim_left', 'str::trim_right')
def trim(e, s, c, v, *pat):
    op = c.fn.key.split('::')[1].replace('_matches', '')
    cs = chars.pattern(e, s, pat[0], c.aty(1)) if pat else chars.UNICODE_WS
    return trimmed(e, s, as_text(e, s, v, c.t['atys'][0]), cs, SIDES[op])


@model('str::trim_ascii', 'str::trim_ascii_start', 'str::trim_ascii_end')
def trim_ascii(e, s, c, v):
    op = c.fn.key.split('::')[1].replace('_ascii', '')
    return trimmed(e, s, as_text(e, s, v, c.t['atys'][0]), chars.ASCII_WS, SIDES[op])


@model('array:Index:index')
def array_full(e, s, c, v, i):
    return v if c.aty(1)['name'].endswith('RangeFull') else None


# -- parsing and writing ----------------------------------------------------------------

def parsed(e, s, ty, t, dty):
    return record(e, s, 'from_str:' + ty, (t,), dty)


def from_str(e, s, c, v):
    ty = c.fn.key.split(':')[0]
    return parsed(e, s, ty, as_text(e, s, v, c.t['atys'][0]), c.dty())


for n in NUMBERS + ('bool', 'char'):
    MODELS[n + ':FromStr:from_str'] = from_str


@model(*[n + '::from_str_radix' for n in NUMBERS])
def from_radix(e, s, c, v, r):
    if r == I(10):
        return parsed(e, s, c.fn.key.split(':')[0], as_text(e, s, v, c.t['atys'][0]), c.dty())
    return record(e, s, 'radix', (as_text(e, s, v, c.t['atys'][0]), r), c.dty())


@model('str::parse')
def str_parse(e, s, c, v):
    t = c.dty()
    return parsed(e, s, e.ty(t['args'][0])['name'], as_text(e, s, v, c.t['atys'][0]), t)


def to_string(e, s, c, v):
    return shown(e, s, v, c.t['atys'][0])


def shown(e, s, v, ty):
    t = e.ty(ty)
    while t['kind'] == 'ref' and v[0] != 't':
        v = e.get(s, v[1], v[2]) if v[0] == 'p' else v
        t = e.ty(t['elem'])
    if v[0] == 'b':
        return txt('true' if v[1] else 'false')
    return display(e, s, v, t['id'], 'display')


for n in NUMBERS + ('bool', 'char') + tuple(TYPES):
    MODELS[n + ':ToString:to_string'] = to_string


@model('de::normalize')
def normalize(e, s, c, t, mode):
    n = e.pick(s, mode, c.aty(1))
    name = c.aty(1)['variants'][n]['name']
    return normalized(e, s, t, name)


def normalized(e, s, t, mode):
    """`t` normalised; what this does is P07's other half."""
    if mode == 'Preserve':
        return t
    for op, args, r in calls(s):
        if op == 'normalize' and r == t and (args[1] == M(mode) or args[1] == M('Collapse')):
            return t
    return record(e, s, 'normalize', (t, M(mode)), str_ty(e))


@model('de::union_error', 'de::no_such_variant')
def an_error(e, s, c, *a):
    return s.y()


@model('Box:From:from')
def boxed_error(e, s, c, v):
    return v


def opaque_parse(e, s, c, v):
    return record(e, s, 'parse:' + c.fn.key[-1].upper(), (as_text(e, s, v, c.t['atys'][0]),), c.dty())


def opaque_write(e, s, c, v):
    return record(e, s, 'write:' + c.fn.key[-1].upper(), (e.snapshot(s, v),), c.dty())


for n in 'abcdefghijklmnopq':
    MODELS['ext:any_parse_' + n] = opaque_parse
    MODELS['ext:any_write_' + n] = opaque_write


@model('ext:any_from_str')
def any_from_str(e, s, c, v):
    return record(e, s, 'from_str', (as_text(e, s, v, c.t['atys'][0]),), c.dty())


# -- rules ---------------------------------------------------------------------------------

def differ(s, a, b):
    """Are two texts known to differ?"""
    if text_const(b) == '':
        a, b = b, a
    if text_const(a) == '':
        return s.fact('empty', b) == FALSE
    return s.fact('eq', a, b) == FALSE


def memo(s, op, *args):
    for o, a, r in calls(s):
        if o == op and a == args:
            return r
    return None


class Wrong(Exception):
    def __init__(self, why, *also):
        Exception.__init__(self, why)
        self.also = also


def result(e, s):
    r = s.retv
    if r[0] != 'a':
        raise Undecided('result is not known')
    return r[1] == 0, r[2][0] if r[2] else UNDEF


def restriction(e, s, d, t):
    good, v = result(e, s)
    texts = [(n, x) for n, x, k in d[2] if k != 'unknown']
    unknown = [n for n, x, k in d[2] if k == 'unknown']
    if not good or unknown and v[0] == 'a' and d[2][v[1]][2] == 'unknown':
        for n, x in texts:
            if not differ(s, t, txt(x)):
                raise Wrong('the text %r, which is declared for %s, %s' % (x, n, 'goes to the unknown variant' if good else 'is rejected'))
        if not good:
            if unknown:
                raise Wrong('a text is rejected although there is an unknown variant')
        elif v[2][0] != t:
            raise Wrong('the unknown variant holds something other than the text')
        return
    if v[0] != 'a':
        raise Undecided('variant is not known')
    n, x, k = d[2][v[1]]
    if text_const(t) != x:
        raise Wrong('%s is yielded for a text other than %r' % (n, x))


def union(e, s, d, t):
    good, v = result(e, s)
    for i, (n, ty, _) in enumerate(d[2]):
        r = memo(s, 'parse:' + ty, t)
        if r is None or r[0] != 'a':
            raise Wrong('variant %s is not tried, or its outcome is not looked at' % n)
        if r[1] == 0:
            if not good:
                raise Wrong('the union fails although variant %s parses' % n)
            if v[0] != 'a' or v[1] != i or v[2][0] != r[2][0]:
                raise Wrong('the union does not yield what its first variant that parses, %s, yields' % n)
            return
    if good:
        raise Wrong('the union succeeds although no variant parses')


def std(e, s, d, t):
    r = memo(s, 'from_str', t)
    if r is None:
        raise Wrong('FromStr is not used on the text')
    delegated(e, s, r, wrap=lambda v: ('a', 0, (v,)))


def delegated(e, s, r, wrap=lambda v: v):
    """The result is that of the type's own parser."""
    if r == s.retv:
        return
    good, v = result(e, s)
    if r[0] == 'a' and r[1] == 1 and good:
        raise Wrong("the error of the type's parser is dropped", 'P02')
    if r[0] != 'a' or (r[1] == 0) != good:
        raise Wrong("the result is not that of the type's parser")
    if good and v != wrap(r[2][0]):
        raise Wrong("the value is not the one that the type's parser yields")
    if not good and not contains(e.snapshot(s, v), r[2][0]):
        raise Wrong("the error of the type's parser is lost", 'P03')


def parse_derived(e, s, name):
    d = TYPES[name]
    rule = {'restriction': restriction, 'union': union, 'std': std}[d[0]]
    arg = s.mon['arg']
    want = (d[1] or 'preserve').capitalize()
    try:
        rule(e, s, d, mode_text(s, arg, want))
        return
    except Wrong as w:
        why, also = str(w), w.also
    for m in MODES:
        try:
            if m != want:
                rule(e, s, d, mode_text(s, arg, m))
                why = 'the text is normalised in mode %s instead of %s' % (m, want)
                also = ()
                e.report(('P07', 'mode', d[0], m, want), s, '%s: %s' % (name, why))
        except Wrong:
            pass
    for p in ('P13',) + also:
        e.report((p, d[0], why), s, '%s: %s' % (name, why))


def mode_text(s, arg, mode):
    if mode == 'Preserve':
        return arg
    r = memo(s, 'normalize', arg, M(mode))
    if r is None:
        raise Wrong('the text is not normalised')
    return r


def write_derived(e, s, name):
    d = TYPES[name]
    good, v = result_text(e, s)
    x = s.mon['value']
    if d[0] == 'std':
        want = shown(e, s, x, e.root_arg)
    else:
        if x[0] != 'a':
            raise Undecided('variant is not known')
        n, t, k = d[2][x[1]]
        if d[0] == 'union':
            r = memo(s, 'write:' + t, ('a', '&', (x[2][0],)))
            if r is None or not (r == s.retv or r[0] == 'a' and r[1] == (0 if good else 1) and contains(v, r[2][0])):
                for p in ('P13', 'P15') if r is not None and r[0] == 'a' and r[1] == 1 else ('P13',):
                    e.report((p, 'write', name), s, '%s: what is written is not what the current variant writes' % name)
            return
        want = x[2][0] if k == 'unknown' else txt(t)
    if not good or v != want:
        e.report(('P13', 'write', name), s, '%s: a value is not written as its text' % name)


def result_text(e, s):
    r = s.retv
    if r[0] == 'a':
        return r[1] == 0, r[2][0]
    return None, r


def parse_builtin(e, s, name):
    try:
        builtin(e, s, name)
    except Wrong as w:
        for p in ('P22',) + w.also:
            e.report((p, 'parse', str(w)), s, '%s: %s' % (name, w))


BOOLS = {'true': TRUE, '1': TRUE, 'false': FALSE, '0': FALSE}


def builtin(e, s, name):
    arg = s.mon['arg']
    if name == 'string':
        good, v = result(e, s)
        if not good or v != arg:
            raise Wrong('a string is not read unchanged')
        return
    t = memo(s, 'trim', arg, M(chars.XML_WS), M('both'))
    if t is None:
        raise Wrong('not exactly the XML white space is removed from both ends')
    if name == 'bool':
        good, v = result(e, s)
        if not good:
            for x in BOOLS:
                if not differ(s, t, txt(x)):
                    raise Wrong('the boolean %s is rejected' % x)
        elif BOOLS.get(text_const(t)) != v:
            raise Wrong('a boolean other than true, 1, false, 0 is accepted, or with a wrong meaning')
        return
    r = memo(s, 'from_str:' + name, t)
    if r is None:
        raise Wrong("the type's own parser is not used on the trimmed text")
    delegated(e, s, r)


def write_builtin(e, s, name):
    good, v = result_text(e, s)
    x = s.mon['value']
    want = x if x[0] == 't' else shown(e, s, x, e.root_arg)
    if not good or v != want:
        e.report(('P22', 'write'), s, '%s: a value is not written in its standard form' % name)


def analyse(prog, max_time=700, found=None):
    e = Engine(prog, MODELS, max_states=400000, max_time=max_time)
    e.hook_found = found
    e.hook_panic = on_panic
    res = {}
    sol = Solver(e)
    try:
        for r in sorted(prog.roots):
            kind, _, name = r[5:].partition('_')
            if r == 'root_normalize':
                res[r] = preserve(e, sol, prog.fns[prog.roots[r]])
            if kind not in ('parse', 'write'):
                continue
            fn = prog.fns[prog.roots[r]]
            res[r] = one(e, sol, fn, kind, name)
    except Budget as b:
        e.undecide('gave up: %s' % b)
    except Found:
        e.stopped = True
    return e, sol, res


def on_panic(e, s, what):
    kind, _, name = s.mon['root'][1][5:].partition('_')
    for p in ('P13' if name.upper() in TYPES else 'P22',) + (('P19',) if kind == 'parse' else ()):
        e.report((p, 'panic', s.mon['root'][1]), s, '%s panics: %s' % (s.mon['root'][1], what))


def preserve(e, sol, fn):
    """The body of `normalize` itself, in preserve mode."""
    def init(s):
        t = e.ty(fn.locals[2])
        n = [v['name'] for v in t['variants']].index('Preserve')
        s.ob[(0, 2)] = ('a', n, ())
        s.mon['arg'] = s.ob[(0, 1)]
        s.mon['calls'] = UNIT
    n = 0
    was = MODELS.pop('de::normalize')
    try:
        for s in sol.root(fn, None, {'calls': UNIT, 'root': M(fn.key[4:])}, init):
            n += 1
            if s.retv != s.mon['arg']:
                e.report(('P07', 'preserve'), s, 'normalize changes a text in preserve mode')
    except Undecided as u:
        e.undecide('%s in %s' % (u, fn.name))
    finally:
        MODELS['de::normalize'] = was
    return {'paths': n}


def one(e, sol, fn, kind, name):
    derived = name.upper() in TYPES
    if kind == 'parse':
        check = (lambda s: parse_derived(e, s, name.upper())) if derived else (lambda s: parse_builtin(e, s, name))

        def init(s):
            s.mon['arg'] = s.ob[(0, 1)]
    else:
        e.root_arg = e.ty(fn.locals[1])['elem']
        check = (lambda s: write_derived(e, s, name.upper())) if derived else (lambda s: write_builtin(e, s, name))

        def init(s):
            v = e.fresh(s, e.root_arg)
            if derived and len(TYPES[name.upper()][2] or '') == 1:
                v = e.expand(s, v, e.ty(e.root_arg), 0)
            if e.ty(e.root_arg)['kind'] == 'ref':
                s.mon['value'] = v
                s.ob[(0, 1)] = s.heap(v)
                return
            s.mon['value'] = v
            s.ob[(0, 1)] = v if v[0] == 't' and False else s.heap(v)
    n = 0
    for s in sol.root(fn, None, {'calls': UNIT, 'root': M(fn.key[4:])}, init):
        n += 1
        try:
            check(s)
        except Undecided as u:
            e.undecide('%s at the end of %s' % (u, fn.name), s)
    return {'paths': n}


if __name__ == '__main__':
    import sys
    import time
    from prog import Prog
    from ser import dump
    t0 = time.time()
    e, sol, res = analyse(Prog(sys.argv[1]))
    dump(e, sol, res, t0)
