"""Names (P06): what comparing, ordering, hashing and copying two arbitrary
names comes to, as a function of how their namespaces and local names compare."""
from val import *
from core import *
from models import STD, as_text, load, text_arg, LESS, EQUAL, GREATER
import chars
import derived
import itertools
import join
from join import Solver

MODELS = dict(STD)
OPS = ('eq', 'ne', 'cmp', 'partial', 'lt', 'le', 'gt', 'ge', 'clone')
KINDS = ('ref', 'owned')
SIGNS = 'LEG'
FLIP = {'L': 'G', 'G': 'L', 'E': 'E'}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


@model('str::eq_ignore_ascii_case')
def text_test(e, s, c, a, b):
    x, y = text_arg(e, s, a, c.t['atys'][0]), text_arg(e, s, b, c.t['atys'][1])
    if x == y:
        return TRUE
    p, q = text_const(x), text_const(y)
    if p is not None and q is not None:
        return B(p.lower() == q.lower())
    if e.truth(s, e.pure(s, c.fn.key, [x, y], 'bool', False)):
        return TRUE
    e.text_eq(s, x, y)
    if s.fact('eq', x, y) == TRUE:
        raise Infeasible()
    return FALSE


@model('str:Hash:hash', 'String:Hash:hash', 'ref:Hash:hash')
def hash_text(e, s, c, v, h):
    return hashed(s, as_text(e, s, v, c.t['atys'][0]))


@model('ext:obs_int', 'ext:obs_bytes', 'ext:obs_str')
def hash_other(e, s, c, v):
    return hashed(s, e.snapshot(s, v))


@model('slice::binary_search')
def binary_search(e, s, c, p, x):
    """Right if the slice is in the order of its type."""
    q, key = load(e, s, p, c.t['atys'][0]), load(e, s, x, c.t['atys'][1])
    t = e.ty(e.ty(c.t['atys'][1])['elem'])
    fns = [f for f in e.p.by_key.get(head(t) + ':Ord:cmp', ()) if f.body is not None]
    if q[0] != 'q' or elems(q) is None or len(fns) != 1:
        raise Undecided('binary search')
    return searched(e, s, [derived.order(e, s, fns[0], a, key) for a in elems(q)])


def searched(e, s, signs):
    if signs != sorted(signs):
        raise Undecided('binary search in something unsorted')
    return ok(I(signs.index(0))) if 0 in signs else err(I(len([x for x in signs if x < 0])))


def hashed(s, v):
    done = s.mon['hash'][2]
    s.mon['hash'] = ('a', len(done) + 1, done + (v,))
    return UNIT


# -- rules -----------------------------------------------------------------------------------


def signs(s, x, y):
    """How `x` may compare with `y` in this state."""
    if x == y:
        return 'E'
    a, b = text_const(x), text_const(y)
    if a is not None and b is not None:
        return 'L' if a.encode() < b.encode() else 'G'
    for p, q, flip in ((x, y, False), (y, x, True)):
        k = s.memo.get(('cmp', (p, q)))
        if k is not None:
            r = 'L' if k == LESS else 'G'
            return FLIP[r] if flip else r
    if s.fact('eq', x, y) == FALSE or '' in (a, b) and s.fact('empty', y if a == '' else x) == FALSE:
        return 'LG'
    return SIGNS


def lexicographic():
    """The orders that only depend on how the parts compare."""
    for first, f, g in itertools.product((0, 1), (False, True), (False, True)):
        def order(p, first=first, f=f, g=g):
            a, b = p[first], p[1 - first]
            if a != 'E':
                return FLIP[a] if f else a
            return FLIP[b] if g else b
        yield {p: order(p) for p in itertools.product(SIGNS, SIGNS)}


def answer(op, r):
    if op == 'partial':
        if r[0] != 'a' or r[1] != 1:
            return None
        r = r[2][0]
    if op in ('cmp', 'partial'):
        return {LESS: 'L', EQUAL: 'E', GREATER: 'G'}.get(r)
    return {TRUE: True, FALSE: False}.get(r)


def expected(op, order, p):
    o = order[p]
    return {'eq': p == ('E', 'E'), 'ne': p != ('E', 'E'), 'cmp': o, 'partial': o, 'lt': o == 'L', 'le': o != 'G', 'gt': o == 'G', 'ge': o != 'L'}[op]


def judge(e, kind, tables):
    """The operations of one type, as tables from how the parts compare to results."""
    orders = list(lexicographic())
    words = {'L': 'before', 'E': 'equal', 'G': 'after'}

    def wrong(op, p, got):
        e.findings[('P06', kind, op)] = {'message': '%s of %s names says %s when its namespace is %s the other and its local name %s' % (
            op, kind, got, words[p[0]], words[p[1]]), 'trace': [], 'where': ()}

    for op in ('eq', 'ne'):
        for p, got in sorted(tables[op].items()):
            bad = [g for g in got if g != expected(op, orders[0], p)]
            if bad:
                wrong(op, p, bad[0])
    t = tables['cmp']
    for p, got in sorted(t.items()):
        bad = [g for g in got if (g == 'E') != (p == ('E', 'E'))]
        if bad:
            wrong('cmp', p, words.get(bad[0], bad[0]))
            return
    if any(len(got) != 1 for got in t.values()):
        e.undecide('the order of %s names does not only depend on how their parts compare' % kind)
        return
    fit = [o for o in orders if all(t[p] == {o[p]} for p in t)]
    if not fit:
        p = [p for p in sorted(t) if t[p] == t[tuple(FLIP[x] for x in p)]] or sorted(t)
        wrong('cmp', p[0], words[list(t[p[0]])[0]])
        return
    for op in ('partial', 'lt', 'le', 'gt', 'ge'):
        for p, got in sorted(tables[op].items()):
            bad = [g for g in got if g != expected(op, fit[0], p)]
            if bad:
                wrong(op, p, words.get(bad[0], bad[0]))


# -- looking names up ------------------------------------------------------------------------

TABLES = {
    0: (), 1: (('', 'b'),), 2: (('', 'b'), ('u', 'b')), 3: (('', 'b'), ('', 'd'), ('u', 'b')),
    4: (('u', 'b'), ('u', 'd'), ('v', 'b'), ('v', 'd')),
    5: (('', 'bb'), ('', 'd'), ('u', 'b'), ('u', 'd'), ('v', 'b')),
    7: (('', 'b'), ('', 'd'), ('u', 'b'), ('u', 'bb'), ('u', 'd'), ('v', 'b'), ('v', 'd')),
}
ASKED = list(itertools.product(('', 'a', 'u', 'U', 'ub', 'v', 'w'), ('a', 'b', 'B', 'ba', 'bb', 'c', 'd', 'e')))


def lookups(e, fn, table, pair):
    t = e.ty(e.ty(fn.locals[1])['elem'])
    fs = [f for f, _ in t['variants'][0]['fields']]
    if sorted(fs) != ['local_name', 'namespace']:
        raise Undecided('names have parts %s' % ', '.join(fs))
    want = table.index(pair) if pair in table else None
    s = e.start(fn, None, {})
    rs = chars.run(e, s, fn, [s.heap(('a', 0, tuple([txt(pair[0] if f == 'namespace' else pair[1]) for f in fs])))])
    for r in rs:
        if r[0] != 'a' or r[1] == 1 and r[2][0][0] != 'i':
            raise Undecided('result of %s' % fn.name)
        if (r[1] == 0) != (want is None) or r[1] == 1 and r[2][0] != I(want):
            e.findings[('P06', 'lookup', fn.name)] = {'where': fn.name, 'trace': [], 'message': '{%s}%s is taken for %s in %s' % (pair + (
                'no name' if r[1] == 0 else 'number %s' % r[2][0][1], ' '.join('{%s}%s' % x for x in table)))}
    return len(rs)


# -- running ---------------------------------------------------------------------------------


def name(e, s, ty):
    t = e.ty(ty)
    fs = [f for f, _ in t['variants'][0]['fields']]
    if sorted(fs) != ['local_name', 'namespace']:
        raise Undecided('names have parts %s' % ', '.join(fs))
    d = {f: s.text() for f in fs}
    return ('a', 0, tuple([d[f] for f in fs])), tup(d['namespace'], d['local_name'])


def one(e, fn, op, table):
    sol = Solver(e)
    nargs = fn.nargs

    def init(s):
        for i in range(nargs):
            v, parts = name(e, s, e.ty(fn.locals[i + 1])['elem'])
            s.ob[(0, i + 1)] = s.heap(v)
            s.mon['ab'[i]] = parts
    mon = {'a': UNIT, 'b': UNIT, 'hash': UNIT}
    n = 0
    for s in sol.root(fn, None, mon, init):
        if s.taint:
            e.undecide('would be a finding, but behind unmodelled code: %s' % fn.name)
            continue
        n += 1
        r = s.retv
        (ns, local) = s.mon['a'][2]
        if op == 'clone':
            t = e.ty(fn.locals[0])
            want = tuple([{'namespace': ns, 'local_name': local}[f] for f, _ in t['variants'][0]['fields']])
            if r[0] != 'a' or r[2] != want:
                e.report(('P06', 'clone', fn.name), s, 'a clone of a name differs from it')
        elif op == 'hash':
            for v in s.mon['hash'][2]:
                if v not in (ns, local) and (v[0] == 'p' or set(syms(v, set())) - set(syms(ns, set())) - set(syms(local, set()))):
                    e.undecide('something else is hashed in %s' % fn.name)
        else:
            g = answer(op, r)
            if g is None:
                if op == 'partial' and r == NONE:
                    g = 'None'
                elif r[0] == 'y':
                    e.undecide('result of %s' % fn.name)
                    continue
                else:
                    e.undecide('result of %s' % fn.name)
                    continue
            for p in itertools.product(*[signs(s, x, y) for x, y in zip(s.mon['a'][2], s.mon['b'][2])]):
                table.setdefault(p, set()).add(g)
    return sol, n


def analyse(prog, max_time=300, found=None):
    e = Engine(prog, MODELS, max_states=100000, max_time=max_time)
    e.hook_panic = lambda e, s, what: e.report(('P06', 'panic'), s, 'comparing names panics: %s' % what)
    join.WATCHED = e.strict = set()
    res = {}
    sol = None
    for kind in KINDS:
        tables = {}
        for op in OPS + (('hash',) if kind == 'ref' else ()):
            r = 'root_%s_%s' % (op, kind)
            t = tables.setdefault(op, {})
            try:
                sol, n = one(e, prog.fns[prog.roots[r]], op, t)
                res[r] = {'paths': n}
            except (Undecided, Budget) as x:
                e.undecide('%s in %s' % (x, r))
        if not e.undecided:
            judge(e, kind, tables)
    for k, table in TABLES.items():
        r = 'root_find_%s' % k
        try:
            res[r] = {'paths': sum(lookups(e, prog.fns[prog.roots[r]], table, pair) for pair in ASKED)}
        except (Undecided, Budget) as x:
            e.undecide('%s in %s' % (x, r))
    return e, sol or Solver(e), res


if __name__ == '__main__':
    import sys
    from prog import Prog
    e, sol, res = analyse(Prog(sys.argv[1]))
    print(res, {str(k): 1 for k in e.unknown})
    for k, f in e.findings.items():
        print('FINDING', k, f['message'])
    for k in e.undecided:
        print('UNDECIDED', k)
