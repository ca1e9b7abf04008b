"""The writing side: model of the XML emitter, observers, and the rules for
P14, P15, P18 and P23 (every operation of any client), P16 (two watched
attribute names) and P17 (a watched prefix and a watched namespace)."""
import os
from val import *
from core import *
from models import STD, load, target, as_text, as_seq, elem_ty, deref_ty, display
import maps                                             # noqa: F401
import join
import parallel
from join import Solver
from de import Names, contains

MODELS = dict(STD)
XML_NS = 'http://www.w3.org/XML/1998/namespace'


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def names(e):
    n = getattr(e, 'names', None)
    if n is None:
        n = e.names = Names(e)
    return n


NONEV = M(0)


MONITORS = {
    # P14: which elements are open; the sink never fails.
    'P14': {
        'depth': I(0),          # open elements
        'root': M('no'),        # whether the root was started / finished
        'bad': FALSE,           # an element was abandoned
        'last': M('none'),      # the last event
    },
    # P15: errors.
    'P15': {
        'sink': M('ok'),
        'first': NONEV,         # message of the sink's first error
        'news': FALSE,          # not reported yet
        'pend': NONEV,          # an error the client returned
    },
    # P18: names that could not be written; the sink never fails.
    'P18': {
        'refused': FALSE,
        'sink': M('ok'),
        'pend': FALSE,          # the client has returned an error
    },
    # P23: settings and content; the sink never fails.
    'P23': {
        'indent': FALSE, 'decl': TRUE,
        'want': NONEV,          # text to be written
        'got': txt(''),
        'doc': NONEV,           # what has been written
    },
}


def field(e, s, v, t, name):
    """A field of a struct of the XML library."""
    t = e.ty(t) if isinstance(t, int) else t
    if v[0] == 'y':
        e.expand(s, v, t, None)
        raise Fork([s])
    for (f, ft), x in zip(t['variants'][v[1] if isinstance(v[1], int) else 0]['fields'], v[2]):
        if f == name:
            return x, ft
    raise Undecided('no field %s' % name)


def reports(e, s, t, want):
    """Whether an error text tells `want`."""
    if t == want or want[0] != 't' or t[0] != 't':
        return t == want
    if want[1] and all(any(p == q or isinstance(p, str) and isinstance(q, str) and p in q for q in t[1]) for p in want[1]):
        return True
    return e.text_eq(s, t, want) == TRUE


def error_text(e, s, v, t):
    """The text of a ser::Error behind references."""
    t = e.ty(t) if isinstance(t, int) else t
    n = 0
    while t['kind'] in ('ref', 'ptr') and n < 4:
        v = load(e, s, v, t)
        t = deref_ty(e, t)
        n += 1
    if v[0] == 'y' and t['kind'] == 'adt':
        e.expand(s, v, t, None)
        raise Fork([s])
    if v[0] == 'a':
        x = v[2][0]
        return as_text(e, s, x) if x[0] in 'tp' else x
    return v


# -- the emitter ---------------------------------------------------------------

def check_config(e, s, v, t, msg):
    if e.mode != 'P23':
        return
    for name, want in (('perform_indent', s.mon['indent']), ('write_document_declaration', s.mon['decl']), ('perform_escaping', TRUE)):
        x, _ = field(e, s, v, t, name)
        if e.equal(s, x, want) == FALSE:
            e.report(('P23', 'emitter configuration ' + name), s, 'the emitter is not given the setting of %s that was asked for' % name)


@model('EventWriter::new_with_config')
def writer_new(e, s, c, sink, cfg):
    check_config(e, s, cfg, c.aty(1), 'given')
    return new_writer(e, s, sink)


@model('EventWriter::new')
def writer_new_default(e, s, c, sink):
    if e.mode == 'P23' and s.mon['indent'] != FALSE or e.mode == 'P23' and s.mon['decl'] != TRUE:
        e.report(('P23', 'emitter configuration'), s, "the emitter is not given the caller's settings")
    return new_writer(e, s, sink)


def new_writer(e, s, sink):
    doc = s.y()
    if e.mode == 'P23':
        s.mon['doc'] = doc
    if sink[0] == 'p':
        e.put(s, sink[1], sink[2], doc)
    elif sink[0] == 'q':
        sink = doc
    return ('a', 'EvW', (sink,))


@model('EventWriter::into_inner')
def writer_inner(e, s, c, w):
    if w[0] == 'a' and w[1] == 'EvW':
        return w[2][0]
    return None


@model('EventWriter::inner_mut')
def writer_inner_mut(e, s, c, w):
    e.report(('P23', 'inner_mut'), s, "the emitter's sink is accessed directly")
    return None


def drop_nothing(e, s, p, v, t):
    return None


MODELS['drop:EventWriter'] = drop_nothing


@model('String::from_utf8', 'str::from_utf8', 'String::from_utf8_unchecked', 'String::from_utf8_lossy', 'str::from_utf8_unchecked')
def from_utf8(e, s, c, v):
    x = v
    if x[0] == 'p':
        x = e.get(s, x[1], x[2])
    if s.mon.get('doc') not in (None, NONEV) and x != s.mon['doc'] and x[0] != 'y':
        e.report(('P23', 'returned text'), s, 'the text returned is not what was written')
    k = c.fn.key
    r = s.text()
    if 'lossy' in k:
        return ('a', 1, (r,))
    return ok(r) if 'unchecked' not in k else r


@model('EventWriter::write')
def writer_write(e, s, c, p, ev):
    t = c.aty(1)
    i = ev_kind(e, s, ev, t)
    if i is None:
        raise Undecided('event of type %s' % t['name'])
    kind, fs = i
    return e.ser_event(e, s, c, kind, fs)


EVENTS = ('StartElement', 'EndElement', 'Characters', 'CData', 'Comment', 'ProcessingInstruction', 'StartDocument')


def ev_kind(e, s, ev, t):
    n = names(e)
    if t['kind'] == 'str' or t['kind'] == 'ref' and e.ty(t['elem'])['kind'] == 'str':
        return 'Characters', {'text': as_text(e, s, ev, t)}
    if t['kind'] != 'adt':
        return None
    if t['path'].endswith('XmlEvent'):
        i = e.pick(s, ev, t)
        v = t['variants'][i]
        if v['name'] == 'Characters':
            return 'Characters', {'text': as_text(e, s, ev[2][0], v['fields'][0][1])}
        return v['name'], {f: (x, ft) for (f, ft), x in zip(v['fields'], ev[2])}
    if t['path'].endswith('EndElementBuilder'):
        return 'EndElement', {}
    if t['path'].endswith('StartElementBuilder'):
        v, fs = ev, {f[0]: f[1] for f in t['variants'][0]['fields']}
        if v[0] == 'a':
            return 'StartElement', {f: (x, ft) for (f, ft), x in zip(t['variants'][0]['fields'], v[2])}
    return None


def elements(e, s, fs):
    """(name, attributes) of a start event as values."""
    return fs['name'], fs['attributes'], fs.get('namespace')


def structure(e, s, kind, fs):
    """What every event has to obey."""
    if e.mode == 'P14':
        if kind == 'StartElement':
            if s.mon['root'][1] == 'done':
                e.report(('P14', 'second root'), s, 'an element is started after the root was finished')
            s.mon['depth'] = ladd(s.mon['depth'], I(1))
            s.mon['root'] = M('open') if s.mon['root'][1] == 'no' else s.mon['root']
        elif kind == 'EndElement':
            if e.cmp(s, s.mon['depth'], I(0)) <= 0:
                e.report(('P14', 'end without start'), s, 'an element is finished that was not started')
                raise Infeasible()
            d = lsub(s.mon['depth'], I(1))
            done = e.cmp(s, d, I(0)) == 0
            s.mon['depth'] = d
            if done:
                s.mon['root'] = M('done')
        elif kind == 'Characters':
            if s.mon['root'][1] != 'open':
                e.report(('P14', 'text outside'), s, 'text is written outside of the root element')
        s.mon['last'] = M(kind)
    elif e.mode == 'P23':
        if kind == 'Characters':
            if s.mon['want'] == NONEV:
                e.report(('P23', 'text'), s, 'text is written that the caller did not ask for')
            else:
                s.mon['got'] = cat(s.mon['got'], fs['text'])
        elif kind not in ('StartElement', 'EndElement'):
            e.report(('P23', 'event ' + kind), s, 'content is written as %s' % kind)


def settle(e, s, what):
    """Text that was to be written must have been."""
    if e.mode != 'P23':
        return
    w = s.mon['want']
    if w == NONEV:
        return
    if e.text_eq(s, s.mon['got'], w) == FALSE:
        e.report(('P23', 'text content'), s, 'the text written is not that given by %s' % what)
    drop_want(e, s)


def drop_want(e, s):
    if e.mode == 'P23':
        s.mon['want'] = NONEV
        s.mon['got'] = txt('')


def coarse_event(e, s, c, kind, fs):
    if e.mode == 'P15':
        if s.mon['sink'][1] == 'err':
            e.report(('P15', 'write after error'), s, 'something is written after the sink failed')
            raise Infeasible()
        x = s.copy()
        x.note('event %s' % kind)
        y = s.copy()
        y.note('event %s: the sink fails' % kind)
        y.mon['sink'] = M('err')
        y.mon['news'] = TRUE
        rt = c.dty()
        et = rt['variants'][1]['fields'][0][1]
        v = e.fresh(y, et)
        y.mon['first'] = display(e, y, v, et, 'display')
        return [(x, ok(UNIT)), (y, err(v))]
    if kind == 'EndElement':
        if e.mode == 'P14':
            e.cmp(s, s.mon['depth'], I(0))
            e.cmp(s, s.mon['depth'], I(1))
        settle(e, s, 'a value')
    structure(e, s, kind, fs)
    s.note('event %s' % kind)
    return ok(UNIT)


@model('EmitterError:ToString:to_string')
def emitter_text(e, s, c, p):
    return display(e, s, p, c.t['atys'][0], 'display')


@model('Error:ToString:to_string')
def error_to_string(e, s, c, p):
    t = deref_ty(e, c.t['atys'][0])
    if t['krate'] != 'static_xml':
        return display(e, s, p, c.t['atys'][0], 'display')
    fn = own_display(e, t)
    if fn is None:
        return display(e, s, p, c.t['atys'][0], 'display')
    return show(e, s, c, fn, p)


def own_display(e, t):
    return getattr(e, 'error_display', None)


def show(e, s, c, fn, p):
    """Runs a Display impl and returns what it wrote."""
    if fn in e.recursive or any(f[0] is fn for f in s.fr):
        return display(e, s, p, c.t['atys'][0], 'display')
    s.mon['out'] = txt('')
    return Enter(fn, [p, s.heap(M('formatter'))], 'shown')


def shown(e, s, v, t):
    x = s.mon.pop('out')
    if v[0] == 'a' and v[1] == 0:
        return e.finish_call(s, t, x)
    raise Infeasible()


Engine.posts['shown'] = shown


# -- the client -------------------------------------------------------------------

@model('ext:nd')
def nd(e, s, c):
    return [(s.copy(), TRUE), (s.copy(), FALSE)]


@model('ext:any_name', 'ext:any_text', 'ext:any_vals')
def any_val(e, s, c):
    return e.fresh(s, c.t['dty'])


@model('str::starts_with')
def starts_with(e, s, c, a, b):
    r = STD['str::starts_with'](e, s, c, a, b)
    if getattr(e, 'assume_prefix', True) and b == txt('xml'):
        # Documented precondition of `namespace`.
        return FALSE
    return r


@model('ext:raise')
def raise_(e, s, c):
    t = s.text()
    if e.mode == 'P15':
        s.mon['pend'] = t
    elif e.mode == 'P18':
        s.mon['pend'] = TRUE
    s.note('the client fails')
    return ('a', 0, (t,))


@model('ext:obs_to_text', 'ext:obs_text')
def obs_text(e, s, c, p):
    if e.mode == 'P23':
        s.mon['want'] = as_text(e, s, p, c.t['atys'][0])
        s.mon['got'] = txt('')
    return UNIT


@model('ext:obs_ok')
def obs_ok(e, s, c):
    if e.mode == 'P15' and s.mon['pend'] != NONEV:
        e.report(('P15', 'error dropped'), s, "an error that a type's own code returned is not passed on")
        s.mon['pend'] = NONEV
    return UNIT


@model('ext:obs_err', 'ext:obs_err_start', 'ext:obs_err_attribute')
def obs_err(e, s, c, p):
    if e.mode == 'P15':
        t = error_text(e, s, p, c.t['atys'][0])
        if s.mon['pend'] != NONEV:
            if not reports(e, s, t, s.mon['pend']):
                e.report(('P15', 'error replaced'), s, "another error is returned than the one a type's own code returned")
        elif s.mon['news'] == TRUE and not reports(e, s, t, s.mon['first']):
            e.report(('P15', 'sink error replaced'), s, "the sink fails, but another error is reported")
        s.mon['news'] = FALSE
        s.mon['pend'] = t
    elif e.mode == 'P18':
        if s.mon['pend'] == FALSE and c.fn.key != 'ext:obs_err_attribute':
            s.mon['refused'] = TRUE
        s.mon['pend'] = TRUE
    drop_want(e, s)
    return UNIT


@model('ext:obs_written')
def obs_written(e, s, c, p):
    t = deref_ty(e, c.t['atys'][0])
    v = load(e, s, p, c.t['atys'][0])
    i = e.pick(s, v, t)
    if t['variants'][i]['name'] == 'Ok':
        if e.mode == 'P15':
            if s.mon['sink'][1] == 'err':
                e.report(('P15', 'success after error'), s, 'an operation succeeds although the sink has failed')
            elif s.mon['pend'] != NONEV:
                e.report(('P15', 'error dropped'), s, "an error that a type's own code returned is not passed on")
        settle(e, s, 'the caller')
    elif e.mode == 'P15' and s.mon['first'] != NONEV and s.mon['pend'] == NONEV:
        if not reports(e, s, error_text(e, s, v[2][0], t['variants'][i]['fields'][0][1]), s.mon['first']):
            e.report(('P15', 'another error than the first'), s, "after the sink failed, another error than its first one is reported")
    drop_want(e, s)
    return UNIT


@model('ext:obs_discard')
def obs_discard(e, s, c):
    s.note('the client discards the error')
    if e.mode == 'P15':
        s.mon['pend'] = NONEV
    elif e.mode == 'P18':
        s.mon['pend'] = FALSE
    return UNIT


@model('ext:obs_abandon')
def obs_abandon(e, s, c):
    if e.mode == 'P14':
        s.mon['bad'] = TRUE
    return UNIT


@model('ext:obs_depth')
def obs_depth(e, s, c):
    if e.mode != 'P14':
        return UNIT
    s.mon['last'] = M('none')
    return ('a', 0, (s.mon['depth'],))


def ghost(v):
    if v[0] != 'a':
        raise Undecided('unknown ghost')
    return v[2][0]


@model('ext:obs_started')
def obs_started(e, s, c, g):
    if e.mode == 'P15' and s.mon['sink'][1] == 'err':
        e.report(('P15', 'success after error'), s, 'an element is started although the sink has failed')
    if e.mode != 'P14' or s.mon['bad'] == TRUE:
        return UNIT
    if e.cmp(s, s.mon['depth'], ladd(ghost(g), I(1))) != 0:
        e.report(('P14', 'start'), s, "starting an element succeeds without the start tag being written")
    return UNIT


@model('ext:obs_finished')
def obs_finished(e, s, c, g):
    if e.mode == 'P14' and s.mon['bad'] != TRUE and e.cmp(s, s.mon['depth'], ghost(g)) != 0:
        e.report(('P14', 'finish'), s, "finishing an element succeeds without the end tag being written")
    return UNIT


@model('ext:obs_field')
def obs_field(e, s, c, g, nothing, exactly):
    if e.mode == 'P23':
        settle(e, s, 'a value')
    if e.mode != 'P14' or s.mon['bad'] == TRUE:
        return UNIT
    if e.cmp(s, s.mon['depth'], ghost(g)) != 0:
        e.report(('P14', 'field depth'), s, "writing a field leaves elements open or closes its parent's")
    if nothing == TRUE:
        if s.mon['last'][1] != 'none':
            e.report(('P14', 'absent field'), s, 'an absent field is written')
    elif exactly == TRUE and s.mon['last'][1] != 'EndElement':
        e.report(('P14', 'field'), s, 'writing a field succeeds without writing its element')
    return UNIT


@model('ext:obs_raw')
def obs_raw(e, s, c):
    e.report(('P23', 'raw write'), s, 'the sink is written to directly')
    return UNIT


def raw_write(old):
    def f(e, s, c, p, *a):
        if s.mon.get('doc') not in (None, NONEV) and s.fn.krate == 'static_xml':
            e.report(('P23', 'raw write'), s, 'the sink is written to directly')
        return old(e, s, c, p, *a) if old else None
    return f


for _n in ('Vec:Write:write', 'Vec:Write:write_all', ':Write:write_fmt', ':Write:write_all', 'Vec:Write:write_fmt'):
    MODELS[_n] = raw_write(STD.get(_n))


@model('ext:obs_indent')
def obs_indent(e, s, c, x):
    if e.mode == 'P23':
        s.mon['indent'] = x
    return UNIT


@model('ext:obs_declaration')
def obs_declaration(e, s, c, x):
    if e.mode == 'P23':
        s.mon['decl'] = x
    return UNIT


# -- P16: two watched attribute names ------------------------------------------------

def watches(consts):
    def has(v):
        k = v[0]
        if k == 't':
            return v in consts
        if k == 'a':
            return any(has(x) for x in v[2])
        if k == 'q':
            return any(g[0] == 'e' and has(g[1]) for g in v[1])
        return False
    return has


def start_attributes(e, s, fs):
    """The attributes of a start event: the sequence's segments and the type."""
    v, ft = fs['attributes']
    t = e.ty(ft)
    if t['kind'] == 'adt' and t['path'].split('::')[-1] == 'Cow' and v[0] == 'a':
        v = as_seq(e, s, v[2][0], t['variants'][v[1]]['fields'][0][1])
    else:
        v = as_seq(e, s, v, ft)
    while t['kind'] in ('ref', 'ptr'):
        t = e.ty(t['elem'])
    if t['kind'] == 'adt' and t['path'].split('::')[-1] == 'Cow':
        t = e.ty(t['args'][0])
    return v[1], elem_ty(e, t)


def attribute_parts(e, s, v, t):
    """(prefix or NONE, local name, value) of an attribute."""
    n, nt = field(e, s, v, t, 'name')
    x, xt = field(e, s, v, t, 'value')
    p, l = name_parts(e, s, n, nt)
    return p, l, as_text(e, s, x, xt)


def name_parts(e, s, n, nt):
    l, lt = field(e, s, n, nt, 'local_name')
    p, pt = field(e, s, n, nt, 'prefix')
    pt = e.ty(pt)
    i = e.pick(s, p, pt)
    p = txt('') if pt['variants'][i]['name'] == 'None' else as_text(e, s, p[2][0], pt['variants'][i]['fields'][0][1])
    return p, as_text(e, s, l, lt)


def name_struct(e, local, ns):
    t = names(e).get('ExpandedNameRef', 'static_xml')
    d = {'local_name': txt(local), 'namespace': txt(ns)}
    return ('a', 0, tuple([d[f] for f, _ in t['variants'][0]['fields']]))


def name_local(e, w):
    t = names(e).get('ExpandedNameRef', 'static_xml')
    return [x for (f, _), x in zip(t['variants'][0]['fields'], w[2]) if f == 'local_name'][0]


@model('ext:any_attribute')
def any_attribute(e, s, c):
    t = c.dty()
    x = s.copy()
    return [(s.copy(), w) for w in e.wnames] + [(x, ('a', 0, tuple([e.fresh(x, f) for f in e.field_types(t, None)])))]


def watched_name(e, s, p, ty):
    v = load(e, s, p, ty)
    for i, w in enumerate(e.wnames):
        if v == w:
            return 'AB'[i]
    return None


@model('ext:any_value')
def any_value(e, s, c, p):
    return s.text()


@model('ext:obs_element')
def obs_element(e, s, c):
    no_attributes(s)
    return UNIT


def no_attributes(s):
    s.mon['added'] = M('')
    s.mon['A'] = s.mon['B'] = txt('')


@model('ext:obs_added')
def obs_added(e, s, c, p, v, good):
    w = watched_name(e, s, p, c.t['atys'][0])
    if good == TRUE and w is not None and w in s.mon['added'][1]:
        e.report(('P16', 'duplicate accepted'), s, 'a second attribute of the same expanded name is accepted')
        raise Infeasible()
    if good != TRUE and w is None:
        raise Infeasible()          # it may be one of the others added before
    if good != TRUE and w not in s.mon['added'][1]:
        e.report(('P16', 'refused'), s, 'an attribute is refused although there is none of its name yet')
        raise Infeasible()
    if good == TRUE and w is not None:
        s.mon['added'] = M(s.mon['added'][1] + w)
        s.mon[w] = as_text(e, s, v, c.t['atys'][1])
    s.note('attribute %s %s' % (w or 'other', 'added' if good == TRUE else 'refused'))
    return UNIT


def attribute_event(e, s, c, kind, fs):
    s.note('event %s' % kind)
    if kind != 'StartElement':
        return ok(UNIT)
    got = ''
    segs, at = start_attributes(e, s, fs)
    for g in segs:
        if g[0] != 'e':
            continue
        p, l, v = attribute_parts(e, s, g[1], at)
        if l not in (txt('LA'), txt('LB')):
            continue
        for w in s.mon['added'][1]:
            if w not in got and v == s.mon[w] and l == name_local(e, e.wnames['AB'.index(w)]):
                got += w
                break
        else:
            e.report(('P16', 'another value'), s, 'an attribute is written with a value that is not its own')
            raise Infeasible()
    if got != s.mon['added'][1]:
        e.report(('P16', 'attributes written'), s, 'the attributes written are not those that were added, once each, in order (added %s, written %s)' % (
            s.mon['added'][1], got))
    no_attributes(s)
    return ok(UNIT)


ATTRIBUTE_MODES = ((('LA', 'NA'), ('LA', 'NB')), (('LA', 'NA'), ('LB', 'NA')), (('LA', ''), ('LA', 'NB')))


def attributes_run(prog, max_time, found, mode):
    a, b = ATTRIBUTE_MODES[mode]
    e = engine(prog, max_time, found)
    e.mode = 'P16'
    e.iter_copy = 'always'
    e.new_names = e.any_maps = True
    e.wnames = (name_struct(e, *a), name_struct(e, *b))
    consts = {txt(x) for x in ('LA', 'LB', 'NA', 'NB')}
    e.strict = consts
    e.ser_event = attribute_event
    join.EQUAL_SEQS = False
    join.WATCHED = consts
    join.PINNED = watches(consts)
    summarise(e, prog)
    sol, res = run_roots(e, prog, ('root_attributes',), {'added': M(''), 'A': txt(''), 'B': txt('')}, lambda e, s, fn: None)
    return e, sol, res


# -- P17: what prefixes stand for ----------------------------------------------------

ANY_P, ANY_U = txt('P*'), txt('U*')
EMPTY = txt('')


def name_texts(e):
    """The texts that unknown texts are never equal to."""
    return e.strict


def split_texts(e, s, first):
    """States with a text each: `first`, the empty one if it is told apart, any other."""
    out = [(s.copy(), first)]
    if EMPTY in e.strict and first != EMPTY:
        out.append((s.copy(), EMPTY))
    x = s.copy()
    out.append((x, x.text()))
    return out


def names_value(e, s, t, vt, key):
    if maps.is_ns(t):
        # That other prefixes than the watched one are not for no namespace or the
        # XML namespace is what the rules show for any prefix.
        return [(x, v) for x, v in split_texts(e, s, e.url) if v != txt(XML_NS) and (v != EMPTY or key in (None, EMPTY))]
    ty = e.ty(vt) if vt is not None else None
    if ty is None or ty['kind'] != 'adt' or ty['akind'] != 'struct':
        x = s.copy()
        return [(x, e.fresh(x, vt))]
    out = [(s.copy(), ())]
    for f in e.field_types(ty, None):
        ft = e.ty(f)
        if ft['kind'] == 'ref' and e.ty(ft['elem'])['kind'] == 'str':
            out = [(y, v + (z,)) for x, v in out for y, z in split_texts(e, x, e.prefix)]
        else:
            out = [(x, v + (e.fresh(x, f),)) for x, v in out]
    return [(x, ('a', 0, v)) for x, v in out]


def names_key(e, s, t):
    if not maps.is_ns(t):
        x = s.copy()
        return [(x, maps.fresh_key(e, x, t))]
    return [(x, k) for x, k in split_texts(e, s, e.prefix) if k not in e.wprefixes]


def in_names(f):
    def g(e, s, c):
        if e.prefix is None:
            return any_val(e, s, c)
        return f(e, s, c)
    return g


@model('ext:any_prefix')
@in_names
def names_prefix(e, s, c):
    return split_texts(e, s, e.prefix)


@model('ext:any_url')
@in_names
def names_url(e, s, c):
    return split_texts(e, s, e.url)


def a_name(e, s, t, local, ns):
    return ('a', 0, tuple([{'local_name': local, 'namespace': ns}[f] for f, _ in t['variants'][0]['fields']]))


def new_element(s, el):
    s.mon['el'] = B(el)
    s.mon['la'] = FALSE
    if 'decl' in s.mon:
        s.mon['decl'] = s.mon['used'] = FALSE


@model('ext:any_element')
def any_element(e, s, c):
    out = []
    for x, u in split_texts(e, s, e.url):
        if u != e.url and e.only:
            continue
        new_element(x, u == e.url)
        x.note('element in %s' % (show_text(u),))
        out.append((x, a_name(e, x, c.dty(), x.text(), u)))
    return out


def show_text(t):
    return text_const(t) if text_const(t) is not None else 'another'


@model('ext:any_attribute_name')
def any_attribute_name(e, s, c):
    out = []
    for x, u in split_texts(e, s, e.url):
        l = x.text()
        if u == e.url:
            if x.mon['la'] == TRUE:
                continue
            x.mon['la'] = TRUE
            l = txt('LA')
            x.note('the attribute')
            if e.only and x.mon['decl'] != TRUE and x.mon['sc'][1] != 'U' and u != txt(XML_NS):
                x.mon['used'] = TRUE        # its namespace is to be declared first
        elif e.only or (e.prefix, e.url) == (ANY_P, ANY_U):
            continue        # other attributes make no difference to this one, and cost much
        out.append((x, a_name(e, x, c.dty(), l, u)))
    return out


@model('ext:obs_namespace')
def obs_namespace(e, s, c, p, u):
    p, u = as_text(e, s, p, c.t['atys'][0]), as_text(e, s, u, c.t['atys'][1])
    s.note('namespace %s = %s' % (show_text(p), show_text(u)))
    if e.only and u == e.url:
        s.mon['decl'] = TRUE
    elif e.only and p == e.prefix and e.url == EMPTY:
        s.mon['used'] = TRUE
    return UNIT


@model('ext:obs_scope')
def obs_scope(e, s, c):
    return ('a', 0, (s.mon['sc'],))


@model('ext:obs_scope_restored')
def obs_scope_restored(e, s, c, g):
    s.mon['sc'] = ghost(g)
    new_element(s, False)
    return UNIT


@model('ext:obs_open')
def obs_open(e, s, c, p):
    new_element(s, False)
    k, path = target(e, s, p, c.t['atys'][0])
    t = e.ty(c.t['atys'][0])
    e.put(s, k, path, forget_urls(e, s, e.get(s, k, path), e.ty(t['elem'])))
    return UNIT


def forget_urls(e, s, v, t):
    """Forgets what maps keyed by namespace hold."""
    if v[0] != 'a' or t['kind'] != 'adt':
        return v
    if v[1] == 'wmap':
        if maps.is_ns(t) or maps.val_ty(e, t) is None:
            return v
        return ('a', 'wmap', v[2][:1] + tuple([x if x == NONE else some(e.fresh(s, maps.val_ty(e, t), True)) for x in v[2][1:]]))
    if not isinstance(v[1], int) or maps.map_ty(e, t) is not None:
        return v
    fs = t['variants'][v[1]]['fields']
    if len(fs) != len(v[2]):
        return v
    return ('a', v[1], tuple([forget_urls(e, s, x, e.ty(f[1])) for x, f in zip(v[2], fs)]))


@model('ext:obs_refused')
def obs_refused(e, s, c):
    sc = s.mon['sc'][1]
    if e.only and sc != 'off' and s.mon['used'] == FALSE and (
            s.mon['decl'] == TRUE or sc == 'U' or e.url == txt(XML_NS)):
        e.report(('P17', 'refused'), s, 'an element is refused although its namespaces are declared')
    raise Infeasible()


def generated(e, s, t):
    """A text that is made up as a prefix."""
    k = s.memo.get(('gen', (t,)))
    if k is not None:
        return k
    out = []
    for v in (e.prefix, None):
        if v == EMPTY:
            continue
        x = s.copy()
        if v is None:
            v = x.text()
            x.learn('empty', (v,), FALSE)
        x.memo[('gen', (t,))] = v
        out.append(x)
    raise Fork(out)


_format = STD['fmt::format']


@model('fmt::format')
def names_format(e, s, c, a):
    r = _format(e, s, c, a)
    if e.prefix is None or s.fn.krate != 'static_xml' or r is None:
        return r
    return generated(e, s, as_text(e, s, r, c.t['dty']))


def names_event(e, s, c, kind, fs):
    s.note('event %s' % kind)
    if kind != 'StartElement' or s.mon['sc'][1] == 'off':
        return ok(UNIT)
    m = fs['namespace'][0]
    while m[0] == 'p':
        m = e.get(s, m[1], m[2])
    if m[0] == 'a' and m[1] != 'wmap':
        m = m[2][0]
        while m[0] == 'p':
            m = e.get(s, m[1], m[2])
    if m[0] != 'a' or m[1] != 'wmap':
        raise Undecided('mappings of a start event')
    if m[2][1] != NONE:
        raise Undecided('mappings are given to the emitter')
    n, nt = fs['name']
    np, _ = name_parts(e, s, n, e.ty(nt))
    decls, las = [], []
    segs, at = start_attributes(e, s, fs)
    for g in segs:
        if g[0] != 'e':
            continue
        p, l, v = attribute_parts(e, s, g[1], at)
        if e.prefix == EMPTY:
            if e.text_eq(s, p, EMPTY) == TRUE and e.text_eq(s, l, txt('xmlns')) == TRUE:
                decls.append(v)
                continue
        elif e.text_eq(s, p, txt('xmlns')) == TRUE:
            if e.text_eq(s, l, e.prefix) == TRUE:
                decls.append(v)
            continue
        if l == txt('LA'):
            las.append(p)
    if len(decls) > 1:
        e.report(('P17', 'two mappings'), s, 'a prefix is declared twice on an element')
        raise Infeasible()
    if decls:
        v = decls[0]
        if v == EMPTY and e.prefix != EMPTY:
            e.report(('P17', 'prefix for none'), s, 'a prefix is declared for no namespace')
            raise Infeasible()
        if v == txt(XML_NS):
            e.report(('P17', 'XML namespace'), s, 'a prefix other than xml is declared for the XML namespace')
            raise Infeasible()
        s.mon['sc'] = M('U' if v == e.url and v != EMPTY else 'none' if v == EMPTY else 'other')
        s.note('declares the prefix for %s' % show_text(v))
    if s.mon['el'] == TRUE:
        check_name(e, s, np, True, 'element')
    if len(las) != (1 if s.mon['la'] == TRUE else 0):
        e.report(('P17', 'attribute'), s, 'the attribute is written %d times' % len(las))
        raise Infeasible()
    for p in las:
        check_name(e, s, p, False, 'attribute')
    return ok(UNIT)


def check_name(e, s, p, element, what):
    """Whether prefix `p` stands for the watched namespace."""
    sc = s.mon['sc'][1]

    def bad(key, msg):
        for prop in ('P17', 'P18') if key == 'default' or key[:5] == 'scope' else ('P17',):
            e.report((prop, key, what), s, '%s: the %s' % (msg, what))
        raise Infeasible()
    if e.url == EMPTY:
        if p != EMPTY:
            bad('prefixed', 'a name in no namespace has a prefix')
        if element and e.prefix == EMPTY and sc != 'none':
            bad('default', 'a name in no namespace is written where a default namespace applies')
        return
    if e.url == txt(XML_NS):
        if p != txt('xml'):
            bad('xml', 'a name in the XML namespace does not have the prefix xml')
        return
    if not element and p == EMPTY:
        bad('unprefixed', 'a namespaced name has no prefix')
    if p == e.prefix and sc != 'U':
        bad('scope ' + sc, 'a name has a prefix that stands for another namespace (or none)')


def names_pinned(e):
    t = names(e).get('Name', 'xml')
    fs = [f for f, _ in t['variants'][0]['fields']]
    il, ip = fs.index('local_name'), fs.index('prefix')
    consts = {txt('LA')} | ({e.prefix} if e.prefix != EMPTY else set())
    inside = watches(consts)

    def default(v):
        k = v[0]
        if k == 'a':
            if len(v[2]) == len(fs) and v[2][il] == txt('xmlns') and v[2][ip] == NONE:
                return True
            return any(default(x) for x in v[2])
        if k == 'q':
            return any(g[0] == 'e' and default(g[1]) for g in v[1])
        return False
    return lambda v: inside(v) or e.prefix == EMPTY and default(v)


# Prefix, namespace, and whether the client uses no names but in that namespace.
NAME_MODES = [(p, u, False) for u in (ANY_U, EMPTY, txt(XML_NS)) for p in (ANY_P, EMPTY)] + [
    (ANY_P, ANY_U, True), (EMPTY, ANY_U, True), (ANY_P, txt(XML_NS), True)]


def names_run(prog, max_time, found, mode):
    p, u, only = NAME_MODES[mode]
    e = engine(prog, max_time, found)
    e.mode = 'P17'
    e.iter_copy = 'always'
    e.new_names = e.any_maps = True
    e.prefix, e.url, e.only = p, u, only
    e.wtexts, e.wprefixes = (u,), (p,) + ((EMPTY,) if u == EMPTY != p else ())
    e.strict = {p, u, txt('LA'), txt('xml'), txt('xmlns'), txt(XML_NS)}
    if only:
        e.strict.add(EMPTY)
    e.any_value, e.any_key = names_value, names_key
    e.ser_event = names_event
    e.hook_panic = None
    join.EQUAL_SEQS = False
    join.WATCHED = set(e.strict)
    join.PINNED = names_pinned(e)
    summarise(e, prog)
    for f in prog.fns:
        if f.key in ('ext:name_children', 'ext:name_attributes') and f.body is not None:
            e.recursive.add(f)
    mon = {'sc': M('none'), 'el': FALSE, 'la': FALSE}
    if only:
        mon.update(decl=FALSE, used=FALSE)
    sol, res = run_roots(e, prog, ('root_names',), mon, lambda e, s, fn: None)
    return e, sol, res


# -- running -----------------------------------------------------------------------

def panic_hook(e, s, what):
    if s.fn.krate.startswith('fx_') or s.fn.krate == 'fx_ser':
        return
    e.report(('P18', what, short(s.fn.name)), s, 'may panic: %s' % what)


def check_final(e, s, fn):
    t = e.ty(fn.locals[0])
    s.fn = fn
    v = s.retv
    i = v[1]
    if t['variants'][i]['name'] == 'Ok':
        if e.mode == 'P14':
            if s.mon['root'][1] != 'done':
                e.report(('P14', 'root ' + s.mon['root'][1]), s, 'serialization succeeds although the root element was not finished')
            elif e.cmp(s, s.mon['depth'], I(0)) != 0:
                e.report(('P14', 'open'), s, 'serialization succeeds although elements are still open')
            if s.mon['bad'] == TRUE:
                e.report(('P14', 'abandoned'), s, 'serialization succeeds although an element was abandoned')
        elif e.mode == 'P15':
            if s.mon['sink'][1] != 'ok':
                e.report(('P15', 'sink error lost'), s, 'serialization succeeds although the sink failed')
            if s.mon['pend'] != NONEV:
                e.report(('P15', 'error lost'), s, "serialization succeeds although a type's own code failed")
        elif e.mode == 'P18':
            if s.mon['refused'] == TRUE:
                e.report(('P18', 'refused'), s, 'serialization succeeds although a name could not be written')
        elif s.mon.get('want', NONEV) != NONEV:
            settle(e, s, 'a value')
    elif e.mode == 'P15':
        tt = error_text(e, s, v[2][0], t['variants'][i]['fields'][0][1])
        if s.mon['pend'] != NONEV:
            if not reports(e, s, tt, s.mon['pend']):
                e.report(('P15', 'final error replaced'), s, "another error is returned than the one a type's own code returned")
        elif s.mon['first'] != NONEV:
            if not reports(e, s, tt, s.mon['first']):
                e.report(('P15', 'final error is not the first'), s, "another error is returned than the sink's first")


def split_final(e, s, fn, check):
    todo = [s]
    s.ob[('r', 0)] = s.retv
    while todo:
        x = todo.pop()
        x.retv = x.ob[('r', 0)]
        try:
            check(e, x.copy_final() if hasattr(x, 'copy_final') else x, fn)
        except Fork as f:
            todo.extend(f.states)
        except Infeasible:
            pass
        except Undecided as u:
            e.undecide('%s at the end' % u, x)


class Result:
    pass


def engine(prog, max_time, found):
    e = Engine(prog, MODELS, max_states=600000, max_time=max_time)
    e.hook_panic = panic_hook
    e.hook_found = found
    e.prefix = None
    for f in prog.fns:
        if f.key == 'Error:Display:fmt' and f.krate == 'static_xml' and f.body is not None:
            e.error_display = f
        if f.key == 'ext:mapping':
            e.mapping = f.id
    return e


SUMMARISED = ('ext:attributes', 'ext:element', 'ElementBuilder::start', 'ElementWriter::element')


def summarise(e, prog):
    """Functions that are analysed once for all their callers."""
    for f in prog.fns:
        if f.key in SUMMARISED and f.body is not None:
            e.recursive.add(f)


def run_roots(e, prog, roots, mon, check, setup=None):
    sol = Solver(e)
    res = {}
    try:
        for r in roots:
            fn = prog.fns[prog.roots[r]]
            kinds = {}
            finals = sol.root(fn, None, mon)
            for s in finals:
                k = e.ty(fn.locals[0])['variants'][s.retv[1]]['name'] if s.retv[0] == 'a' else '?'
                kinds[k] = kinds.get(k, 0) + 1
                split_final(e, s, fn, check)
            res[r] = kinds
    except Budget as b:
        e.undecide('gave up: %s' % b)
    except Found:
        e.stopped = True
    return sol, res


def coarse(prog, mode, max_time=700, found=None):
    e = engine(prog, max_time, found)
    e.mode = mode
    e.iter_copy = True
    e.new_names = True
    e.any_maps = True
    e.ser_event = coarse_event
    join.EQUAL_SEQS = False
    summarise(e, prog)
    roots = ('root_to', 'root_to_string') if mode == 'P23' else ('root_to',)
    sol, res = run_roots(e, prog, roots, MONITORS[mode], check_final)
    return e, sol, res


def analyse(prog, prop, max_time=700, found=None):
    prop, _, mode = prop.partition('.')
    if prop == 'P16':
        return together([lambda i=i: attributes_run(prog, max_time, found, i) for i in range(len(ATTRIBUTE_MODES))], found, mode)
    if prop == 'P17':
        return together([lambda i=i: names_run(prog, max_time, found, i) for i in range(len(NAME_MODES))], found, mode,
                        skip=() if os.environ.get('VERIF_TIER') == 'thorough' else (0,))
    if prop == 'P18' and not mode:
        jobs = [lambda i=i: names_run(prog, max_time, found, i) for i in range(1, 6)]
        return parallel.run([lambda: coarse(prog, prop, max_time, found)] + jobs, found is not None)
    return coarse(prog, prop, max_time, found)


def together(jobs, found, only, skip=()):
    if only:
        return jobs[int(only)]()
    return parallel.run([j for n, j in enumerate(jobs) if n not in skip], found is not None)


def dump(e, sol, res, t0):
    import sys
    import time
    print(res, 'states', e.nstates, 'steps', e.nsteps, sol.stats, '%.1fs' % (time.time() - t0))
    print('unknown', e.unknown)
    for k, v in e.findings.items():
        print('FINDING', k, v['message'])
        if '-v' in sys.argv:
            print('   ', '\n    '.join(v['trace'][-40:]))
            print('   at', v['where'])
    for k, v in e.undecided.items():
        print('UNDECIDED', k)
        if '-v' in sys.argv:
            print('   ', '\n    '.join(v[-12:]))


if __name__ == '__main__':
    import sys
    import time
    from prog import Prog
    which = [a for a in sys.argv[2:] if a != '-v'] or ['P14', 'P15', 'P18', 'P23']
    for w in which:
        t0 = time.time()
        e, sol, res = analyse(Prog(sys.argv[1]), w)
        dump(e, sol, res, t0)
