"""Derived writers (P11, P12): the expansion of derive(Serialize) for a corpus of
declarations, on an arbitrary value. What is written is compared with the value
and the declaration."""
from val import *
from core import *
from models import STD, as_text, load, target
import join
import parallel
import corpus_xml as corpus
import derived
from corpus_xml import OPAQUE
from derived import slices, NONEV, Wrong, ident, show, wrap_of, name_value
from join import Solver
from de import contains

MODELS = dict(STD)
TYPES = dict(corpus.TYPES, **corpus.TEXT_TYPES)
ROOT = M('root')


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# -- where things are ----------------------------------------------------------------------


class Leaf:
    def __init__(self, q, n, part, at, ty, ety):
        self.q, self.n, self.part, self.at, self.ty = q, n, part, at, ty
        self.wrap, self.base = wrap_of(part.ty) if part.ty else ('unit', None)
        self.enum = ety


def layout(e, n, ty, q='', at=()):
    """Every part of a type, in the order it has to be written, flattened ones in place."""
    t = e.ty(ty)
    d = TYPES[n]
    if d.kind == 'enum':
        for i, p in enumerate(d.parts):
            v = t['variants'][i]
            if v['name'] != ident(p):
                raise Undecided('variant %s' % v['name'])
            yield Leaf(q + '.' + ident(p), n, p, at + (0,), v['fields'][0][1] if v['fields'] else None, (at, ty, i))
        return
    fs = t['variants'][0]['fields']
    for kind in 'eaft':
        for i, p in enumerate(d.parts):
            if p.kind != kind:
                continue
            x = q + '.' + ident(p)
            if kind == 'f' and p.ty in TYPES:
                yield from layout(e, p.ty, fs[i][1], x, at + (i,))
            else:
                yield Leaf(x, n, p, at + (i,), fs[i][1], None)


def source(e, s, p):
    """(leaf, index) of what `p` points to."""
    root = s.mon['v']
    if p[0] == 'p' and p[1] != root[1]:
        # An element of a part of a list.
        x = e.get(s, p[1], p[2])
        for l in e.layout:
            if l.wrap == 'vec' and x[0] in ('y', 'a') and x[2:] != ((),):
                at = index_of(e, s, root[1], l.at, x)
                if at is not None:
                    return l, at
    if p[0] != 'p' or p[1] != root[1]:
        raise Undecided('something that is not part of the value is written')
    best = None
    for l in e.layout:
        n = len(l.at)
        if p[2][:n] != l.at or l.enum and e.pick(s, e.get(s, root[1], l.enum[0]), l.enum[1]) != l.enum[2]:
            continue
        rest = p[2][n:]
        if l.wrap in ('one', 'unit') and rest == () or l.wrap == 'opt' and rest == (0,):
            best = l, I(0)
        elif l.wrap == 'vec' and len(rest) == 1 and not isinstance(rest[0], int):
            best = l, rest[0][1]
    if best is None:
        raise Undecided('something that is not part of the value is written')
    return best


def index_of(e, s, key, path, x):
    try:
        q = e.get(s, key, path)
    except Undecided:
        return None
    at = I(0)
    for g in q[1] if q[0] == 'q' else ():
        if g == ('e', x):
            return at
        at = ladd(at, I(1) if g[0] == 'e' else g[2])
    return None


def leaf(e, q):
    return [l for l in e.layout if l.q == q][0]


# -- what is called ---------------------------------------------------------------------------


def may_fail(s, v=UNIT):
    b = s.copy()
    x = b.y()
    if b.mon['err'] == NONEV:
        b.mon['err'] = x
    return [(s, ok(v)), (b, err(x))]


def went_on(s):
    return s.mon['err'] != NONEV


def event(s, *entry):
    entry = tup(*[M(x) if isinstance(x, str) else x for x in entry])
    done = s.mon['tr'][2]
    s.mon['tr'] = ('a', len(done) + 1, done + (entry,))


def handle(e, s, p, c):
    for _ in range(3):
        if p[0] == 'p':
            p = e.get(s, p[1], p[2])
    if p[0] == 'a' and p[1] in ('Bld', 'Wr'):
        return p[2][0]
    raise Undecided('builder or writer is not known')


def is_open(s, h):
    return s.mon['open'] != NONEV and s.mon['open'][2][1] == h


def stage(s):
    return s.mon['open'][2][0][1] if s.mon['open'] != NONEV else None


def opened(s, **k):
    f = ('stage', 'id', 'ns', 'local', 'src')
    v = s.mon['open'][2]
    s.mon['open'] = tup(*[k.get(n, x) for n, x in zip(f, v)])


def wrong(e, s, why):
    if went_on(s):
        return
    e.report(('P11', s.mon['type'][1], why), s, '%s: %s' % (s.mon['type'][1], why))


@model('ElementBuilder::namespace')
def namespace(e, s, c, b, prefix, url):
    if handle(e, s, b, c) != ROOT:
        raise Undecided('namespace of a child')
    event(s, 'ns', as_text(e, s, prefix, c.t['atys'][1]), as_text(e, s, url, c.t['atys'][2]))
    return UNIT


def parts_of(e, v, ty):
    t = e.ty(ty)
    if v[0] != 'a':
        raise Undecided('name is not known')
    d = {f: x for (f, _), x in zip(t['variants'][0]['fields'], v[2])}
    return d['namespace'], d['local_name']


@model('ElementBuilder::attribute')
def attribute(e, s, c, b, name, value):
    if handle(e, s, b, c) != ROOT:
        raise Undecided('attribute of a child')
    ns, local = parts_of(e, name, c.t['atys'][1])
    event(s, 'attr', ns, local, as_text(e, s, value, c.t['atys'][2]))
    return may_fail(s)


@model('ElementWriter::element')
def element(e, s, c, w, name):
    if handle(e, s, w, c) != ROOT:
        raise Undecided('element of a child')
    ns, local = parts_of(e, name, c.t['atys'][1])
    s.note('element {%s}%s' % (show(ns), show(local)))
    if s.mon['open'] != NONEV and not went_on(s):
        raise Undecided('two elements at once')
    y = s.y()
    s.mon['open'] = tup(M('built'), y, ns, local, NONEV)
    return ('a', 'Bld', (y,))


def no_text(s, x):
    return x != NONEV and (text_const(x[2][0]) == '' or s.fact('empty', x[2][0]) == TRUE)


def use(e, s, l, i):
    """The content of the open element is that of leaf `l`."""
    src = tup(M(l.q), i)
    if s.mon['open'][2][4] == NONEV:
        opened(s, src=src)
    elif s.mon['open'][2][4] != src:
        wrong(e, s, 'element %s has the content of several fields' % show(s.mon['open'][2][3]))


@model('ext:el_attributes')
def el_attributes(e, s, c, v, b):
    h = handle(e, s, b, c)
    l, i = source(e, s, v)
    if not is_open(s, h) or stage(s) != 'built':
        wrong(e, s, 'attributes of %s go to another element' % l.q)
    else:
        opened(s, stage=M('attrs'))
        use(e, s, l, i)
    return may_fail(s)


@model('ElementBuilder::start')
def start(e, s, c, b):
    h = handle(e, s, b, c)
    if not is_open(s, h):
        raise Undecided('another builder is started')
    opened(s, stage=M('started' if stage(s) == 'attrs' else 'bare'))
    return may_fail(s, ('a', 'Wr', (h,)))


@model('ext:el_children')
def el_children(e, s, c, v, w):
    h = handle(e, s, w, c)
    l, i = source(e, s, v)
    if not is_open(s, h) or stage(s) not in ('started', 'bare'):
        wrong(e, s, 'children of %s go to another element' % l.q)
    else:
        if stage(s) == 'bare':
            wrong(e, s, 'attributes of %s are not written' % l.q)
        opened(s, stage=M('full'))
        use(e, s, l, i)
    return may_fail(s)


@model('ext:at_text')
def at_text(e, s, c, v):
    l, i = source(e, s, v)
    t = s.text()
    r = may_fail(s, t)
    s.mon['x:' + l.q] = tup(t, i)
    return r


@model('ElementWriter::text')
def text_node(e, s, c, w, t):
    h = handle(e, s, w, c)
    t = as_text(e, s, t, c.t['atys'][1])
    hit = [(k[2:], v[2][1]) for k, v in s.mon.items() if k[:2] == 'x:' and v != NONEV and v[2][0] == t]
    if h == ROOT:
        ls = [l for q, _ in hit for l in [leaf(e, q)] if not l.enum and l.part.kind == 't']
        if not ls:
            wrong(e, s, 'a text that is not that of the text field is written')
        else:
            step(e, s, ls[0].q, I(0))
    elif is_open(s, h) and stage(s) in ('bare', 'started') and hit:
        opened(s, stage=M('full'))
        use(e, s, leaf(e, hit[0][0]), hit[0][1])
    elif text_const(t) != '':
        wrong(e, s, 'an unknown text is written')
    return may_fail(s)


@model('ElementWriter::finish')
def finish(e, s, c, w):
    h = handle(e, s, w, c)
    if not is_open(s, h):
        raise Undecided('another writer is finished')
    _, _, ns, local, src = s.mon['open'][2]
    if src == NONEV and stage(s) == 'bare':
        # An empty text need not be written.
        for k in sorted(s.mon):
            if k[:2] == 'x:' and no_text(s, s.mon[k]) and s.mon[k][2][1] == s.mon['n:' + k[2:]]:
                l = leaf(e, k[2:])
                if (l.enum or l.part.kind == 'e') and current(e, s, l) and text_const(local) == corpus.name(TYPES[l.n], l.part)[1]:
                    src = tup(M(l.q), s.mon[k][2][1])
                    opened(s, stage=M('full'))
    if src == NONEV:
        units = [l for l in e.layout if l.wrap == 'unit' and e.pick(s, e.get(s, s.mon['v'][1], l.enum[0]), l.enum[1]) == l.enum[2]]
        if not units:
            wrong(e, s, 'an empty element %s is written' % show(local))
            q = None
        else:
            q, i = units[0].q, I(0)
    else:
        q, i = src[2][0][1], src[2][1]
        if stage(s) != 'full':
            wrong(e, s, 'the content of %s is not written' % q)
    if q is not None:
        named(e, s, q, 'element', ns, local)
        step(e, s, q, i)
    s.mon['open'] = NONEV
    return may_fail(s)


def named(e, s, q, kind, ns, local):
    l = leaf(e, q)
    got = kind, text_const(ns), text_const(local)
    if None in got:
        raise Undecided('name of %s is not known' % q)
    if not went_on(s):
        e.written.setdefault(q, set()).add(got)
    if got[1:] != corpus.name(TYPES[l.n], l.part):
        wrong(e, s, '%s is written as {%s}%s' % (q, got[1], got[2]))


def abandon(e, s, p, v, t):
    if v[0] == 'a' and v[1] in ('Bld', 'Wr') and v[2][0] != ROOT:
        if not is_open(s, v[2][0]):
            return None
        wrong(e, s, 'element %s is abandoned' % show(s.mon['open'][2][3]))
        s.mon['open'] = NONEV
    e.put(s, p[1], p[2], UNDEF)
    return None


MODELS['drop:ElementBuilder'] = MODELS['drop:ElementWriter'] = abandon


def step(e, s, q, i):
    """Part `q` (or its `i`th element) was written among the children."""
    if went_on(s):
        return
    order = [l.q for l in e.order]
    at = s.mon['at'][1]
    if q not in order:
        wrong(e, s, '%s is written as a child' % q)
        return
    if order.index(q) < at:
        wrong(e, s, '%s is written after %s' % (q, order[at]))
    s.mon['at'] = M(max(at, order.index(q)))
    l = leaf(e, q)
    n = s.mon['n:' + q]
    if l.wrap == 'vec':
        r = e.equal(s, n, i)
        if r not in (TRUE, FALSE):
            r = B(e.truth(s, r))
        if r == FALSE:
            wrong(e, s, 'the elements of %s are not written in order' % q)
    elif n != I(0):
        wrong(e, s, '%s is written twice' % q)
    s.mon['n:' + q] = ladd(n, I(1))
    if l.wrap == 'vec':
        # Kept so that a join knows that there are no more than that.
        s.mon['left:' + q] = lsub(held(e, s, l), ladd(n, I(1)))


def flat_children(e, s, c, v, w):
    if handle(e, s, w, c) != ROOT:
        raise Undecided('flattened field in a child')
    step(e, s, source(e, s, v)[0].q, I(0))
    return may_fail(s)


def flat_attributes(e, s, c, v, b):
    if handle(e, s, b, c) != ROOT:
        raise Undecided('flattened field in a child')
    event(s, 'flat', source(e, s, v)[0].q)
    return may_fail(s)


for _n in OPAQUE:
    MODELS['ext:%s_wchildren' % _n.lower()] = flat_children
    MODELS['ext:%s_wattributes' % _n.lower()] = flat_attributes


@model('ElementWriter:Drop:drop', 'ElementBuilder:Drop:drop')
def nothing(e, s, c, *a):
    return UNIT


def an_error(e, s, c, *a):
    return s.y()


# -- rules -----------------------------------------------------------------------------------


def current(e, s, l):
    """Is the variant that `l` belongs to the one the value has?"""
    return not l.enum or e.pick(s, e.get(s, s.mon['v'][1], l.enum[0]), l.enum[1]) == l.enum[2]


def held(e, s, l):
    """How many a leaf holds."""
    if l.wrap in ('one', 'unit'):
        return I(1)
    v = e.get(s, s.mon['v'][1], l.at)
    if l.wrap == 'opt':
        return I(e.pick(s, v, l.ty))
    return qlen(v)


def children(e, s):
    for l in e.order:
        n = held(e, s, l) if current(e, s, l) else I(0)
        if not l.enum and l.part.kind == 't' and s.mon['n:' + l.q] == I(0) and no_text(s, s.mon['x:' + l.q]):
            continue
        r = e.equal(s, n, s.mon['n:' + l.q])
        if r not in (TRUE, FALSE):
            r = B(e.truth(s, r))
        if r == FALSE:
            raise Wrong('P11', '%s is not written as often as it is there' % l.q)


def attributes(e, s, n, q, tr):
    """Consumes what `n` at `q` has to write from `tr`."""
    d = TYPES[n]
    ns = corpus.namespaces(d)
    seen = []
    while tr and tr[0][0] == 'ns':
        p = show(tr[0][1]), show(tr[0][2])
        if p[0] in seen or ns.get(p[0]) != p[1]:
            break
        seen.append(p[0])
        tr.pop(0)
    if len(seen) < len(ns):
        raise Wrong('P11', 'namespace %s of %s is not declared first' % (', '.join(sorted(set(ns) - set(seen))), n + q))
    if d.kind == 'enum':
        return
    own = {q + '.' + ident(p): p for p in d.parts if p.kind == 'a'}
    seen = []
    while tr and tr[0][0] == 'attr':
        t = tr[0][3]
        hit = [k for k in own if k not in seen and s.mon['x:' + k] != NONEV and s.mon['x:' + k][2][0] == t]
        if not hit:
            break
        named(e, s, hit[0], 'attribute', tr[0][1], tr[0][2])
        seen.append(hit[0])
        tr.pop(0)
    for k in own:
        want = held(e, s, leaf(e, k))
        if want != I(1 if k in seen else 0):
            raise Wrong('P11', 'attribute %s is not written exactly if it is there' % k)
    for p in d.parts:
        if p.kind == 'f':
            k = q + '.' + ident(p)
            if p.ty in TYPES:
                attributes(e, s, p.ty, k, tr)
            elif not tr or tr[0] != ['flat', k]:
                raise Wrong('P11', 'the attributes of %s are not written in their place' % k)
            else:
                tr.pop(0)


def final(e, s):
    n = s.mon['type'][1]
    r = s.mon['ret']
    kind = s.mon['kind'][1]
    if kind == 'name':
        ns, local = parts_of(e, r, e.root_fn.locals[0])
        if (text_const(ns), text_const(local)) != corpus.root_name(n):
            raise Wrong('P11', 'the root element is {%s}%s' % (show(ns), show(local)))
        return
    if r[0] != 'a':
        raise Undecided('result is not known')
    x = s.mon['err']
    skipped = kind == 'wchild' and any(l.enum and l.part.skip and current(e, s, l) for l in e.layout)
    if r[1] == 1:
        if x != NONEV:
            if not contains(e.snapshot(s, r[2][0]), x):
                raise Wrong(('P11', 'P15'), 'an error is replaced')
        elif not skipped:
            raise Wrong('P11', 'writing fails for no reason')
        return
    if x != NONEV:
        raise Wrong(('P11', 'P15'), 'writing succeeds after an error')
    if skipped:
        raise Wrong('P11', 'a skipped variant is written')
    if s.mon['open'] != NONEV:
        raise Wrong('P11', 'an element is not finished')
    if kind == 'wchild':
        children(e, s)
        return
    tr = [[y[1] if y[0] == 'm' else y for y in z[2]] for z in s.mon['tr'][2]]
    attributes(e, s, n, '', tr)
    if tr:
        y = tr[0]
        raise Wrong('P11', '%s %s is out of place' % (y[0], y[1] if isinstance(y[1], str) else show(y[2] if y[0] == 'attr' else y[1])))


def on_panic(e, s, what):
    n = s.mon['type'][1]
    e.report(('P11', 'panic', n), s, '%s: writing panics: %s' % (n, what))


# -- running ---------------------------------------------------------------------------------

KINDS = ('wattr', 'wchild', 'name')


def analyse(prog, max_time=700, found=None, only=None):
    for n in only or TYPES:
        for k in KINDS:
            if 'root_%s_%s' % (k, n) not in prog.roots:
                raise Undecided('no root_%s_%s' % (k, n))
    return parallel.run([lambda n=n: writes(prog, n, max_time, found) for n in only or TYPES], found is not None)


def writes(prog, n, max_time, found):
    e = Engine(prog, MODELS, max_states=400000, max_time=max_time)
    e.hook_found = found
    e.hook_panic = on_panic
    e.written = {}
    res = {}
    sol = None
    try:
        for k in KINDS:
            name = 'root_%s_%s' % (k, n)
            out = {}
            for names in slices(n) if k != 'name' else [None]:
                sol, r = one(e, prog.fns[prog.roots[name]], n, k, names)
                out.update({x: out.get(x, 0) + c for x, c in r.items()})
            res[name] = out
        res['root_name_' + n]['names'] = {q: sorted(x) for q, x in e.written.items()}
    except Budget as b:
        e.undecide('gave up: %s' % b)
    except Found:
        e.stopped = True
    return e, sol or Solver(e), res


def one(e, fn, n, kind, only=None):
    sol = Solver(e)
    sol.cap = 6000
    e.root_fn = fn
    e.strict = set()
    join.WATCHED = e.strict
    join.PIVOT = True
    e.layout = list(layout(e, n, e.ty(fn.locals[1])['elem']))
    e.order = [l for l in e.layout if l.enum or l.part.kind != 'a']
    mon = {'type': M(n), 'kind': M(kind), 'err': NONEV, 'tr': UNIT, 'open': NONEV, 'at': M(0), 'v': NONEV}
    for l in e.layout:
        mon['n:' + l.q] = I(0)
        if l.base == 'At':
            mon['x:' + l.q] = NONEV

    def init(s):
        v = e.fresh(s, e.ty(fn.locals[1])['elem'])
        if only is not None:
            # The other parts are not there.
            t = e.ty(e.ty(fn.locals[1])['elem'])
            fs = {ident(p): p for p in TYPES[n].parts}
            v = ('a', 0, tuple([e.fresh(s, ft) if corpus.name(TYPES[n], fs[f])[1] in only else ('q', ()) if wrap_of(fs[f].ty)[0] == 'vec' else NONE
                                for f, ft in t['variants'][0]['fields']]))
        s.ob[(0, 1)] = s.mon['v'] = s.heap(v)
        if kind != 'name':
            s.ob[(0, 2)] = s.heap(('a', 'Bld' if kind == 'wattr' else 'Wr', (ROOT,)))
    out = {}
    try:
        todo = list(sol.root(fn, None, mon, init))
        while todo:
            s = todo.pop()
            s.mon.setdefault('ret', s.retv)
            try:
                final(e, s)
            except Fork as f:
                todo += f.states
                continue
            except Infeasible:
                continue
            except Wrong as w:
                w.report(e, s, n)
            except Undecided as u:
                e.undecide('%s at the end of %s' % (u, fn.name), s)
            k = 'Ok' if kind == 'name' or s.mon['ret'][1] == 0 else 'Err'
            out[k] = out.get(k, 0) + 1
    except Undecided as u:
        e.undecide('%s in %s' % (u, fn.name))
    return sol, out


if __name__ == '__main__':
    import sys
    import time
    from prog import Prog
    t0 = time.time()
    e, sol, res = analyse(Prog(sys.argv[1]), only=[x for x in sys.argv[2:] if x != '-v'])
    for k in sorted(res) if '-v' in sys.argv else ():
        print(k, res[k])
    print(len(res), 'roots; states', e.nstates, 'steps', e.nsteps, '%.1fs' % (time.time() - t0))
    print('unknown', {str(k): v for k, v in e.unknown.items()})
    for k, f in e.findings.items():
        print('FINDING', k, f['message'])
        if '-v' in sys.argv:
            print('\n'.join('     ' + x for x in f['trace'][-40:]))
    for k, t in e.undecided.items():
        print('UNDECIDED', k)
        if '-v' in sys.argv:
            print('\n'.join('     ' + x for x in t[-25:]))
