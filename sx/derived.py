"""Derived readers (P08-P10, P24): the expansion of derive(Deserialize) for a
corpus of declarations, driven by every sequence of attributes, elements and
character data. What each event does is compared with the declaration."""
from val import *
from core import *
from models import STD, as_text, load, target, str_ty
import chars
import join
import parallel
import corpus_xml as corpus
from corpus_xml import TYPES, OPAQUE
from join import Solver
from de import contains

MODELS = dict(STD)
MORE = {}               # type -> names that matter besides the declared ones
NONEV = M('none')


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# -- leaves ------------------------------------------------------------------------------


def wrap_of(ty):
    """('one' | 'opt' | 'vec', base type)"""
    if ty.startswith('Option<'):
        return 'opt', ty[7:-1]
    if ty.startswith('Vec<'):
        return 'vec', ty[4:-1]
    return 'one', ty


def ident(p):
    return p.ident[2:] if p.ident.startswith('r#') else p.ident


def leaves(n, path=''):
    """(path, part, type it is in) of everything in a type that takes content."""
    t = TYPES[n]
    for p in t.parts:
        q = path + '.' + ident(p)
        if t.kind == 'enum':
            if not p.skip and p.ty:
                yield q, p, n
        elif p.kind == 'f' and p.ty in TYPES:
            yield from leaves(p.ty, q)
        elif p.kind in 'ea':
            yield q, p, n


def enums(n, path=''):
    t = TYPES[n]
    if t.kind == 'enum':
        yield path, n
        return
    for p in t.parts:
        if p.kind == 'f' and p.ty in TYPES:
            yield from enums(p.ty, path + '.' + ident(p))


def opaques(n):
    for p in TYPES[n].parts:
        if p.ty in OPAQUE:
            yield p.ty
        elif TYPES[n].kind == 'struct' and p.ty in TYPES:
            yield from opaques(p.ty)


# -- the document --------------------------------------------------------------------------


@model('ext:nd')
def nd(e, s, c):
    b = s.copy()
    return [(s, FALSE), (b, TRUE)]


def name_value(e, t, ns, local):
    return ('a', 0, tuple([{'local_name': local, 'namespace': ns}[f] for f, _ in t['variants'][0]['fields']]))


def names(e, s):
    """Every name, up to what the type declares."""
    out = []
    for ns in sorted(e.nss) + [None]:
        for local in sorted(e.locals) + [None]:
            x = s.copy()
            out.append((x, x.text() if ns is None else txt(ns), x.text() if local is None else txt(local)))
    return out


def event(s, kind, ns, local, content):
    s.note('%s {%s}%s' % (kind, show(ns), show(local)))
    if s.mon['err'] != NONEV:
        return
    s.mon['ev'] = tup(M(kind), ns, local, content)
    s.mon['tr'] = UNIT


def show(t):
    c = text_const(t)
    return '?' if c is None else c


@model('ext:any_attribute')
def any_attribute(e, s, c):
    out = []
    t = e.ty(c.dty()['elems'][0])
    for x, ns, local in names(e, s):
        for x, value in either_text(x):
            event(x, 'attribute', ns, local, value)
            out.append((x, tup(name_value(e, t, ns, local), value)))
    return out


def either_text(s):
    b = s.copy()
    return (s, s.text()), (b, txt(''))


def a_reader(e, s, t, ns, local):
    """An element reader: its fields hold anything, its name is at the end."""
    return ('a', 'R', tuple([e.fresh(s, f) for _, f in t['variants'][0]['fields']]) + (ns, local, s.y()))


@model('ext:any_child')
def any_child(e, s, c):
    out = []
    for x, ns, local in names(e, s):
        r = a_reader(e, x, c.dty(), ns, local)
        event(x, 'element', ns, local, r)
        out.append((x, r))
    return out


@model('ext:any_characters')
def any_characters(e, s, c):
    out = []
    for x, v in either_text(s):
        event(x, 'characters', txt(''), txt(''), v)
        out.append((x, tup(v, e.fresh(x, c.dty()['elems'][1]))))
    return out


@model('ext:any_end')
def any_end(e, s, c):
    b = s.copy()
    err_ = b.y()
    b.mon['err'] = err_
    b.mon['ev'] = s.mon['ev'] = NONEV
    b.mon['tr'] = s.mon['tr'] = UNIT
    return [(s, ok(e.fresh(s, c.dty()['args'][0]))), (b, err(err_))]


def reader(e, s, v):
    for _ in range(2):
        if v[0] == 'p':
            v = e.get(s, v[1], v[2])
    if v[0] == 'a' and v[1] == 'R':
        return v
    raise Undecided('reader is not known')


@model('ElementReader::expanded_name')
def expanded_name(e, s, c, p):
    r = reader(e, s, p)
    return name_value(e, c.dty(), r[2][-3], r[2][-2])


@model('ElementReader::name')
def xml_name(e, s, c, p):
    r = reader(e, s, p)
    fs = {f: t for f, t in c.dty()['variants'][0]['fields']}
    ns = NONE if r[2][-3] == txt('') else some(r[2][-3])
    d = {'local_name': r[2][-2], 'namespace': ns, 'prefix': e.fresh(s, fs['prefix'])}
    return ('a', 0, tuple([d[f] for f, _ in c.dty()['variants'][0]['fields']]))


@model('ElementReader::read_to')
def read_to(e, s, c, r, v):
    if r != s.mon['root']:
        raise Undecided('another reader is read')
    if s.mon['read'] == TRUE:
        raise Undecided('read twice')
    s.mon['read'] = TRUE
    return Redirect(e.p.fns[e.p.roots['root_aux_read_to']], [v])


@model('ElementReader::read_string')
def read_string(e, s, c, r):
    b = s.copy()
    v, x = s.text(), b.y()
    trace(s, 'string', r, ok(v))
    trace(b, 'string', r, err(x))
    return [(s, ok(v)), (b, err(x))]


@model('drop:ElementReader')
def drop_reader(e, s, p, v, t):
    e.put(s, p[1], p[2], UNDEF)
    return None


@model('VisitorError::missing_element', 'VisitorError::missing_attribute', 'VisitorError::duplicate_attribute',
       'VisitorError::duplicate_element', 'VisitorError::unexpected_element', 'VisitorError::cant_be_empty', 'de::cant_be_empty')
def an_error(e, s, c, *a):
    return s.y()


# -- opaque types ----------------------------------------------------------------------------


def trace(s, *entry):
    if s.mon['err'] != NONEV and s.mon['drive'] == TRUE:
        return
    entry = tuple([M(x) if isinstance(x, str) else x for x in entry])
    done = s.mon['tr'][2]
    s.mon['tr'] = ('a', len(done) + 1, done + (tup(*entry),))


def entries(s):
    return [[x[1] if x[0] == 'm' else x for x in t[2]] for t in s.mon['tr'][2]]


def outcome(s, what, content, good):
    b = s.copy()
    v, x = good(s), b.y()
    trace(s, what, content, ok(v))
    trace(b, what, content, err(x))
    return [(s, ok(v)), (b, err(x))]


@model('ext:any_el')
def any_el(e, s, c, r):
    t = c.dty()['args'][0]
    return outcome(s, 'el', r, lambda s: e.fresh(s, t))


@model('ext:any_at')
def any_at(e, s, c, v):
    t = c.dty()['args'][0]
    v = as_text(e, s, v, c.t['atys'][0])
    return outcome(s, 'at', v, lambda s: e.fresh(s, t))


@model('ext:any_el_default', 'ext:any_at_default')
def any_default(e, s, c):
    v = e.fresh(s, c.dty()['id'])
    trace(s, 'default', v)
    return v


def default_of(e, s, c):
    v = e.fresh(s, c.dty()['id'])
    s.mon['dflt'] = v
    return v


for _n in TYPES:
    MODELS['ext:any_default_' + _n] = default_of


def offered(what):
    def m(e, s, c, *a):
        content = a[-1] if what == 'element' else as_text(e, s, a[0] if what == 'characters' else a[1], c.t['atys'][0 if what == 'characters' else 1])
        n = c.fn.key[4:].split('_')[0].capitalize()
        take, fail = s.copy(), s.copy()
        x = fail.y()
        if what == 'attribute':
            nm = load(e, s, a[0], c.t['atys'][0])
            t = e.ty(e.ty(c.t['atys'][0])['elem'])
            ev = s.mon['ev']
            if ev != NONEV and name_value(e, t, ev[2][1], ev[2][2]) != nm:
                e.report(('P24', 'name'), s, 'an attribute is offered to a flattened field under another name')
        trace(s, 'offer', n, content, M('pass'))
        trace(take, 'offer', n, content, M('take'))
        trace(fail, 'offer', n, content, x)
        return [(s, ok(some(content))), (take, ok(NONE)), (fail, err(x))]
    return m


def finalize(e, s, c):
    n = c.fn.key[4:].split('_')[0].capitalize()
    t = c.dty()['args'][0]
    b = s.copy()
    x = b.y()
    b.mon['err'] = x
    v = e.fresh(s, t)
    s.mon['o:' + n] = v
    return [(s, ok(v)), (b, err(x))]


for _n in OPAQUE:
    for _k in ('element', 'attribute', 'characters'):
        MODELS['ext:%s_%s' % (_n.lower(), _k)] = offered(_k)
    MODELS['ext:%s_finalize' % _n.lower()] = finalize


# -- lookup ---------------------------------------------------------------------------------


@model('de::find')
def find(e, s, c, name, table):
    """Run without joins, since the table is a constant."""
    if c.fn.body is None:
        return None
    rs = sorted(set(chars.run(e, s, c.fn, [name, table])), key=repr)
    return [(s.copy(), r) for r in rs]


@model('slice::binary_search')
def binary_search(e, s, c, p, x):
    """Right if the slice is sorted, which is checked entry by entry."""
    q = load(e, s, p, c.t['atys'][0]) if p[0] == 'p' else p
    key = load(e, s, x, c.t['atys'][1])
    el = deref(e, deref(e, c.aty(0)))
    t = e.ty(c.t['atys'][1])
    t = e.ty(t['elem'])
    if q[0] != 'q' or elems(q) is None or t['kind'] != 'adt' or key[0] != 'a':
        return None
    xs = elems(q)
    fns = [f for f in e.p.by_key.get(head(t) + ':Ord:cmp', ()) if f.body is not None]
    if len(fns) != 1:
        raise Undecided('no order for a binary search')
    for a, b in zip(xs, xs[1:]):
        if order(e, s, fns[0], a, b) >= 0:
            e.report(('P10', 'unsorted', s.mon['type'][1]), s, 'the names that are searched are not in order: %s, %s' % (shown(a), shown(b)))
    for i, a in enumerate(xs):
        r = e.equal(s, a, key)
        if r not in (TRUE, FALSE):
            r = B(e.truth(s, r))
        if r == TRUE:
            return ok(I(i))
    return err(('i', 0, ((s.nat(), 1),)))


def deref(e, t):
    return e.ty(t['elem']) if t.get('elem') is not None else t


def shown(v):
    return '/'.join(show(x) for x in v[2])


def order(e, s, fn, a, b):
    r = chars.run(e, s, fn, [s.heap(a), s.heap(b)])
    if len(r) != 1 or r[0][0] != 'a':
        raise Undecided('order of names')
    return r[0][1] - 1


# -- rules -----------------------------------------------------------------------------------


class Wrong(Exception):
    def __init__(self, prop, why):
        Exception.__init__(self, why)
        self.props = prop if isinstance(prop, tuple) else (prop,)

    def report(self, e, s, n):
        for p in self.props:
            e.report((p, n, str(self)), s, '%s: %s' % (n, self))


PASS, TAKE, ANY_ERR, EITHER = 'pass', 'take', 'error', 'either'


class Event:
    """Follows an event through the declaration, consuming what was observed."""

    def __init__(self, e, s):
        self.e = e
        self.s = s
        self.kind, self.ns, self.local, self.content = s.mon['ev'][2]
        self.kind = self.kind[1]
        self.tr = entries(s)
        self.at = 0
        self.props = 'P08'
        self.taken = False
        self.updates = {}

    def named(self, t, p):
        ns, local = corpus.name(t, p)
        return self.kind != 'characters' and text_const(self.ns) == ns and text_const(self.local) == local

    def next(self):
        return self.tr[self.at] if self.at < len(self.tr) else None

    def of(self, n, path):
        if n in OPAQUE:
            return self.opaque(n)
        t = TYPES[n]
        if t.kind == 'enum':
            return self.enum(t, path)
        want = {'attribute': 'a', 'element': 'e'}.get(self.kind)
        for p in t.parts:
            if p.kind == want and self.named(t, p):
                return self.take(p, path + '.' + ident(p))
        for p in t.parts:
            if p.kind == 'f':
                r = self.of(p.ty, path + '.' + ident(p))
                if r != PASS:
                    return r
        return PASS

    def opaque(self, n):
        x = self.next()
        if x is None or x[0] != 'offer':
            raise Wrong('P24', 'flattened field %s is not offered %s that nothing before it took' % (n, article(self.kind)))
        if x[1] != n:
            raise Wrong('P24', 'flattened fields are not asked in order: %s before %s' % (x[1], n))
        if x[2] != self.content:
            raise Wrong('P24', 'a flattened field is offered something other than the %s' % self.kind)
        self.at += 1
        r = x[3]
        return PASS if r == 'pass' else TAKE if r == 'take' else ('err', r)

    def enum(self, t, path):
        if self.kind != 'element':
            return PASS
        hit = [p for p in t.parts if not p.skip and self.named(t, p)]
        cur = self.s.mon['v:' + path][1]
        if not hit:
            return PASS
        p = hit[0]
        if cur is None:
            self.updates['v:' + path] = M(p.ident)
        elif cur != p.ident:
            self.props = 'P10'
            return ANY_ERR
        self.props = 'P08', 'P10'
        if not p.ty:
            return TAKE if cur is None else EITHER
        return self.take(p, path + '.' + ident(p))

    def take(self, p, path):
        w, base = wrap_of(p.ty)
        seq = self.s.mon['f:' + path]
        if w != 'vec' and seq != ('q', ()):
            while self.next() is not None and self.next()[0] in ('el', 'at', 'string'):
                self.at += 1
            return ANY_ERR
        x = self.next()
        what = '%s %s' % (self.kind, show(self.local))
        if x is None:
            # What is taken without being read may have been wrong.
            raise Wrong(('P10', 'P02') if self.taken else 'P10', '%s does not reach its field' % what)
        if base == 'At' and self.kind == 'element':
            if x[0] != 'string' or x[1] != self.content:
                raise Wrong(('P10', 'P05'), '%s is not read by its field' % what)
            self.at += 1
            if x[2][1] == 1:
                return 'err', x[2][2][0]
            content = x[2][2][0]
            x = self.next()
        else:
            content = self.content
        if x is None or x[0] != base.lower() or x[1] != content:
            props = ('P10', 'P05') if base == 'At' and self.kind == 'element' else 'P10'
            raise Wrong(props, '%s does not reach its field with its content' % what)
        self.at += 1
        if x[2][1] == 1:
            return 'err', x[2][2][0]
        self.updates['f:' + path] = ('q', seq[1] + (('e', x[2][2][0]),))
        return TAKE


def article(kind):
    return {'attribute': 'an attribute', 'element': 'an element', 'characters': 'character data'}[kind]


def observe(e, s, r):
    """`r` is what the visitor answered."""
    n = s.mon['type'][1]
    if s.mon['drive'] == TRUE and s.mon['err'] != NONEV:
        return
    ev = Event(e, s)
    if r[0] != 'a' or r[1] == 0 and r[2][0][0] != 'a':
        raise Undecided('answer is not known')
    ev.taken = r[1] == 0 and r[2][0][1] == 0
    deviates(e, s, ev, n, r)
    try:
        want = ev.of(n, '')
        rest = ev.tr[ev.at:]
        name = '%s %s' % (ev.kind, show(ev.local))
        if any(x[0] == 'offer' for x in rest):
            raise Wrong('P24', '%s is offered to a flattened field although something before took it or failed' % name)
        if rest:
            raise Wrong('P10', '%s is read by something it does not belong to' % name)
        good = r[1] == 0
        passed = good and r[2][0][1] == 1
        if want == EITHER:
            want = ANY_ERR if not good else TAKE
        if want == ANY_ERR:
            if good:
                raise Wrong(ev.props, 'a further %s is accepted' % name)
        elif isinstance(want, tuple):
            if good:
                raise Wrong(('P10', 'P02'), 'an error of reading %s is lost' % name)
            if not contains(e.snapshot(s, r[2][0]), want[1]):
                raise Wrong(('P10', 'P03'), 'the error of reading %s is replaced' % name)
        elif not good:
            raise Wrong('P10' if want == PASS else 'P08', '%s fails for no reason' % name)
        elif want == PASS:
            if not passed:
                raise Wrong('P24', '%s that nothing takes is not handed back' % name)
            if r[2][0][2][0] != ev.content:
                raise Wrong('P24', '%s is handed back changed' % name)
        elif passed:
            raise Wrong('P24', '%s is handed back although it was taken' % name)
        if good:
            s.mon.update(ev.updates)
        else:
            s.mon['err'] = r[2][0]
    except Wrong as w:
        w.report(e, s, n)
        if r[1] == 1:
            s.mon['err'] = r[2][0]
    s.mon['ev'] = NONEV
    s.mon['tr'] = UNIT
    if s.mon['drive'] == TRUE and s.mon['err'] != NONEV:
        # Someone goes on after an error: all that matters is initialisation.
        s.mon['err'] = M('some')
        for k in s.mon:
            if k[:2] in ('f:', 'v:', 'o:'):
                s.mon[k] = NONEV


@model('ext:ev_attribute', 'ext:ev_element', 'ext:ev_characters')
def ev_done(e, s, c, p):
    v = load(e, s, p, c.t['atys'][0])
    t = e.ty(e.ty(c.t['atys'][0])['elem'])
    n = e.pick(s, v, t)
    if n == 0:
        e.pick(s, load(e, s, p, c.t['atys'][0])[2][0], t['args'][0])
    observe(e, s, load(e, s, p, c.t['atys'][0]))
    return UNIT


def final(e, s):
    n = s.mon['type'][1]
    r = s.mon['ret']
    if r[0] != 'a':
        raise Undecided('result is not known')
    if s.mon['drive'] == TRUE and s.mon['err'] == M('some'):
        if r[1] == 0:
            check_init(e, n, '', r[2][0], e.ty(e.root_fn.locals[0])['args'][0])
        return
    missing = list(absent(s, n, ''))
    if s.mon['dflt'] != NONEV and missing == [n]:
        if r[1] == 0 and r[2][0] != s.mon['dflt']:
            check_init(e, n, '', r[2][0], e.ty(e.root_fn.locals[0])['args'][0])
            raise Wrong('P08', 'an absent enum is not the default')
        return
    if r[1] == 1:
        x = s.mon['err']
        if x != NONEV:
            if not contains(e.snapshot(s, r[2][0]), x):
                raise Wrong(('P10', 'P03'), 'an error is replaced')
        elif not missing:
            raise Wrong('P08', 'reading fails although nothing is missing')
        return
    if s.mon['err'] != NONEV:
        raise Wrong(('P10', 'P02'), 'reading succeeds after an error')
    if s.mon['read'] != TRUE:
        raise Wrong('P10', 'reading succeeds although nothing was read')
    check_value(e, s, n, '', r[2][0], e.ty(e.root_fn.locals[0])['args'][0], [x[1] for x in entries(s) if x[0] == 'default'])
    if missing:
        raise Wrong('P08', 'reading succeeds without %s' % missing[0])


def absent(s, n, path):
    """What has to be there and is not."""
    t = TYPES[n]
    if t.kind == 'enum':
        if s.mon['v:' + path][1] is None:
            yield n + path
        return
    for p in t.parts:
        q = path + '.' + ident(p)
        if p.kind == 'f' and p.ty in TYPES:
            yield from absent(s, p.ty, q)
        elif p.kind in 'ea' and wrap_of(p.ty)[0] == 'one' and not p.default and s.mon['f:' + q] == ('q', ()):
            yield q


def undef(v):
    return v == UNDEF or v[0] == 'a' and any(undef(x) for x in v[2])


def check_value(e, s, n, path, v, ty, defaults):
    t = e.ty(ty)
    d = TYPES[n]
    if d.kind == 'enum':
        if v == UNDEF:
            if any(x['fields'] or x['name'] for x in t['variants']) and len(d.parts) > 1:
                raise Wrong('P09', '%s is not initialised' % (n + path))
            return
        i = e.pick(s, v, t)
        cur = s.mon['v:' + path][1]
        name = t['variants'][i]['name']
        if cur is None or name != ident(V_(cur)):
            raise Wrong('P10', 'the value is variant %s, but the element was that of %s' % (name, cur))
        p = [p for p in d.parts if p.ident == cur][0]
        if p.ty:
            check_leaf(e, s, p, path + '.' + ident(p), v[2][0], t['variants'][i]['fields'][0][1], [])
        return
    if v[0] == 'y':
        raise Wrong('P10', '%s is not made from what was read' % (n + path))
    for (fname, ft), x in zip(t['variants'][0]['fields'], v[2] if v[0] == 'a' and v[2] else [UNDEF] * len(d.parts)):
        p = [p for p in d.parts if ident(p) == fname.replace('r#', '')][0]
        q = path + '.' + ident(p)
        if x == UNDEF:
            raise Wrong('P09', 'field %s is not initialised' % q)
        if p.kind == 'f' and p.ty in TYPES:
            check_value(e, s, p.ty, q, x, ft, defaults)
        elif p.kind == 'f':
            if x != s.mon['o:' + p.ty]:
                raise Wrong('P10', 'field %s is not what its own visitor yields' % q)
        else:
            check_leaf(e, s, p, q, x, ft, defaults)


def check_init(e, n, path, v, ty):
    """Every part of a value is initialised."""
    if v[0] == 'y':
        return
    t = e.ty(ty)
    d = TYPES[n]
    if d.kind == 'enum':
        if v == UNDEF and any(x['fields'] or x['name'] for x in t['variants']) and len(d.parts) > 1 or v != UNDEF and undef(v):
            raise Wrong('P09', '%s is not initialised' % (n + path))
        return
    for (fname, ft), x in zip(t['variants'][0]['fields'], v[2] if v[0] == 'a' and v[2] else [UNDEF] * len(d.parts)):
        p = [p for p in d.parts if ident(p) == fname.replace('r#', '')][0]
        q = path + '.' + ident(p)
        if undef(x) and p.ty not in TYPES:
            raise Wrong('P09', 'field %s is not initialised' % q)
        if p.ty in TYPES:
            check_init(e, p.ty, q, x, ft)


def V_(i):
    return corpus.v(i)


def check_leaf(e, s, p, q, x, ty, defaults):
    if undef(x):
        raise Wrong('P09', 'field %s is not initialised' % q)
    w, base = wrap_of(p.ty)
    seq = s.mon['f:' + q]
    if getattr(p, 'default', False) and seq == ('q', ()):
        if w == 'one' and x not in defaults:
            raise Wrong('P08', 'field %s is absent, but not the default' % q)
        if w == 'one':
            return
    if w == 'one':
        if seq != ('q', ()) and x != seq[1][0][1]:
            raise Wrong('P10', 'field %s is not what was read for it' % q)
    elif w == 'opt':
        i = e.pick(s, x, ty)
        if seq == ('q', ()):
            if i != 0:
                raise Wrong('P08', 'field %s is absent, but not None' % q)
        elif i != 1 or x[2][0] != seq[1][0][1]:
            raise Wrong('P10', 'field %s is not what was read for it' % q)
    else:
        r = TRUE if x == seq else e.equal(s, x, seq)
        if r != TRUE:
            raise Wrong('P08', 'list %s is not what was read for it, in order' % q)


def our(e, s):
    return s.fn.krate in ('static_xml', e.p.crate)


def on_init(e, s, old):
    if our(e, s) and some_init(old):
        e.report(('P09', 'overwritten', s.mon['type'][1]), s, '%s: something initialised is overwritten without being dropped' % s.mon['type'][1])


def some_init(v):
    return v[0] == 'a' and (not v[2] or any(some_init(x) for x in v[2])) or v[0] not in ('a', '!')


def on_uninit(e, s, v, t):
    if our(e, s) and not t['zst'] and undef(v):
        e.report(('P09', 'uninitialised', s.mon['type'][1]), s, '%s: something uninitialised is used' % s.mon['type'][1])


def on_panic(e, s, what):
    if s.mon['drive'] == TRUE and s.mon['err'] != NONEV:
        return
    n = s.mon['type'][1]
    for p in 'P10', 'P19':
        e.report((p, 'panic', n), s, '%s: reading panics: %s' % (n, what))


# -- names (P12) -----------------------------------------------------------------------------


def claim(ev, n, path=''):
    """The part that is declared to take this event."""
    if n in OPAQUE:
        return None
    t = TYPES[n]
    want = {'attribute': 'a', 'element': 'e'}.get(ev.kind)
    for p in t.parts:
        if (not p.skip and want == 'e' if t.kind == 'enum' else p.kind == want) and ev.named(t, p):
            return path + '.' + ident(p)
    for p in t.parts:
        if t.kind != 'enum' and p.kind == 'f':
            q = claim(ev, p.ty, path + '.' + ident(p))
            if q:
                return q
    return None


def deviates(e, s, ev, n, r):
    """Notes a name that is taken or handed back unlike declared."""
    if ev.kind == 'characters' or r[1] != 0 or s.mon['pr'] != NONEV:
        return
    q = claim(ev, n)
    took = [x for x in ev.tr if x[0] == 'offer' and x[3] == 'take']
    name = (ev.kind, show(ev.ns), show(ev.local))
    if r[2][0][1] == 1 and q:
        e.rejected.add((q, name))
    elif r[2][0][1] == 0 and not q and not took:
        vs = [x[2][2][0] for x in ev.tr if x[0] in ('el', 'at') and x[2][1] == 0]
        s.mon['pr'] = tup(M(name), vs[-1] if vs else UNIT)


def values(e, s, n, path, v, ty):
    """What each part of a value holds."""
    t = e.ty(ty)
    if v[0] == 'y':
        e.pick(s, v, t)
    d = TYPES[n]
    if v[0] != 'a':
        return
    if d.kind == 'enum':
        name = t['variants'][v[1]]['name']
        for p in d.parts:
            if ident(p) == name:
                yield path + '.' + name, path, p, v[2][0] if v[2] else UNIT
        return
    for (fname, ft), x in zip(t['variants'][0]['fields'], v[2]):
        for p in d.parts:
            if ident(p) == fname.replace('r#', '') and p.kind in 'aef':
                q = path + '.' + ident(p)
                if p.kind == 'f' and p.ty in TYPES:
                    yield from values(e, s, p.ty, q, x, ft)
                elif p.kind != 'f':
                    yield q, None, p, x


def holds(v, x):
    return v == x or v[0] == 'a' and any(holds(y, x) for y in v[2]) or v[0] == 'q' and any(g[0] == 'e' and holds(g[1], x) for g in v[1])


def names_read(e, s):
    """The value is not as declared: which names lead where?"""
    n, r = s.mon['type'][1], s.mon['ret']
    if r[0] != 'a' or r[1] != 0:
        return
    parts = dict((q, p) for q, p, _ in leaves(n))
    for q, enum, p, v in list(values(e, s, n, '', r[2][0], e.ty(e.root_fn.locals[0])['args'][0])):
        if s.mon['pr'] != NONEV:
            name, x = s.mon['pr'][2]
            if x != UNIT and holds(v, x) or x == UNIT and enum is not None and s.mon['v:' + enum] == M(None):
                e.extra.add((q, name[1]))
        for k, seq in s.mon.items():
            if k[:2] == 'f:' and k[2:] != q and seq[0] == 'q' and any(g[0] == 'e' and holds(v, g[1]) for g in seq[1]):
                name = declared(n, k[2:])
                if name:
                    e.extra.add((q, name))
                    e.rejected.add((k[2:], name))
        if enum is not None and s.mon['v:' + enum][1] not in (None, p.ident):
            k = enum + '.' + ident(V_(s.mon['v:' + enum][1]))
            name = declared(n, k)
            if k != q and name:
                e.extra.add((q, name))
                e.rejected.add((k, name))


def declared(n, q):
    """(kind, namespace, local name) of the part at `q`."""
    at = q.split('.')[1:]
    while True:
        t = TYPES.get(n) or corpus.TEXT_TYPES[n]
        p = next((p for p in t.parts if ident(p) == at[0]), None)
        if p is None:
            return None
        if len(at) == 1:
            return ('attribute' if t.kind == 'struct' and p.kind == 'a' else 'element',) + corpus.name(t, p)
        n, at = p.ty, at[1:]


# -- running ---------------------------------------------------------------------------------


def analyse(prog, max_time=700, found=None, only=None):
    """Every type, both ways of reading it."""
    for n in only or TYPES:
        for k in 'read', 'drive':
            if 'root_%s_%s' % (k, n) not in prog.roots:
                raise Undecided('no root_%s_%s' % (k, n))
    return parallel.run([lambda n=n: reads(prog, n, max_time, found) for n in only or TYPES], found is not None)


def reads(prog, n, max_time, found):
    e = Engine(prog, MODELS, max_states=400000, max_time=max_time)
    e.hook_found = found
    e.hook_init = on_init
    e.hook_uninit = on_uninit
    e.hook_panic = on_panic
    e.unroll = 6
    e.extra, e.rejected = set(), set()
    res = {}
    sol = None
    try:
        for k in 'read', 'drive':
            name = 'root_%s_%s' % (k, n)
            out = {}
            for names in slices(n):
                sol, r = one(e, prog.fns[prog.roots[name]], n, names)
                out.update({x: out.get(x, 0) + c for x, c in r.items()})
            res[name] = out
            res[name]['names'] = sorted(e.extra), sorted(e.rejected)
    except Budget as b:
        e.undecide('gave up: %s' % b)
    except Found:
        e.stopped = True
    return e, sol or Solver(e), res


def slices(n):
    k = corpus.SLICED.get(n)
    if k is None:
        return [None]
    xs = sorted(corpus.universe(n)[1])
    return [set(xs[i::(len(xs) + k - 1) // k]) for i in range((len(xs) + k - 1) // k)]


def one(e, fn, n, only=None):
    sol = Solver(e)
    sol.cap = 6000
    e.root_fn = fn
    e.nss, e.locals = corpus.universe(n)
    e.nss = e.nss | {''} | {x for _, x, _ in MORE.get(n, ())}
    e.locals = e.locals | {x for _, _, x in MORE.get(n, ())}
    e.strict = set(map(txt, e.nss | e.locals))
    join.WATCHED = e.strict
    if only is not None:
        e.locals = only
    mon = {'type': M(n), 'ev': NONEV, 'tr': UNIT, 'err': NONEV, 'root': NONEV, 'dflt': NONEV, 'pr': NONEV}
    drive = fn.key.startswith('ext:root_drive')
    mon['drive'] = mon['read'] = TRUE if drive else FALSE
    for q, p, _ in leaves(n):
        mon['f:' + q] = ('q', ())
    for q, _ in enums(n):
        mon['v:' + q] = M(None)
    for o in opaques(n):
        mon['o:' + o] = NONEV

    def init(s):
        if drive:
            return
        r = a_reader(e, s, e.ty(fn.locals[1]), s.text(), s.text())
        s.ob[(0, 1)] = r
        s.mon['root'] = r
    out = {}
    try:
        todo = list(sol.root(fn, None, mon, init))
        while todo:
            s = todo.pop()
            s.mon.setdefault('ret', s.retv)
            try:
                final(e, s)
            except Fork as f:
                todo += f.states
                continue
            except Infeasible:
                continue
            except Wrong as w:
                w.report(e, s, n)
                try:
                    names_read(e, s)
                except (Fork, Infeasible, Undecided):
                    pass
            except Undecided as u:
                e.undecide('%s at the end of %s' % (u, fn.name), s)
            k = 'Err' if s.mon['ret'][1] == 1 else 'Ok'
            out[k] = out.get(k, 0) + 1
    except Undecided as u:
        e.undecide('%s in %s' % (u, fn.name))
    return sol, out


if __name__ == '__main__':
    import sys
    import time
    from prog import Prog
    t0 = time.time()
    e, sol, res = analyse(Prog(sys.argv[1]), only=[x for x in sys.argv[2:] if x != '-v'])
    print(res, 'states', e.nstates, 'steps', e.nsteps, '%.1fs' % (time.time() - t0))
    print('unknown', {str(k): v for k, v in e.unknown.items()})
    for k, f in e.findings.items():
        print('FINDING', k, f['message'])
        if '-v' in sys.argv:
            print('\n'.join('     ' + x for x in f['trace'][-40:]))
    for k, t in e.undecided.items():
        print('UNDECIDED', k)
        if '-v' in sys.argv:
            print('\n'.join('     ' + x for x in t[-25:]))
