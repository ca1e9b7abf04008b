"""The reading side: model of the XML parser, observers, and the rules for
P01-P05 and P19."""
from val import *
from core import *
from models import STD, load, target, as_text, elem_ty, deref_ty
from join import Solver

MODELS = dict(STD)
XML_NS = 'http://www.w3.org/XML/1998/namespace'


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class Names:
    """The types the observers have to know about."""

    def __init__(self, e):
        self.e = e
        by = {}
        for t in e.p.types:
            if t['kind'] == 'adt':
                by.setdefault(t['path'].split('::')[-1], []).append(t)
        self.by = by

    def get(self, name, crate=None):
        for t in self.by.get(name, ()):
            if crate is None or t['krate'] == crate:
                return t
        return None

    def fields(self, t, variant=0):
        return {f[0]: i for i, f in enumerate(t['variants'][variant]['fields'])}

    def variant(self, t, name):
        for i, v in enumerate(t['variants']):
            if v['name'] == name:
                return i
        raise Undecided('no variant %s' % name)


def init_mon():
    return {
        'ph': M('start'),           # where the parser is
        'gs': ('q', ()),            # open elements, as StackElements
        'pos': M(0),                # the parser's position
        'junk': FALSE,              # content outside the root
        'last': M('none'),          # the last event
        'lname': M(0), 'ltext': M(0),
        'lvl': I(0),                # depth of the element it belongs to
        'taken': TRUE,              # whether its reader has seen it
        'mode': M('none'), 'act': I(0),     # the innermost active read
        'at': ('q', ()),            # attributes still to be delivered
        'lat': ('q', ()),           # attributes of the last start tag
        'acc': txt(''), 'kid': FALSE,
        'pend': FALSE,              # an error has to be returned
        'cause': M('none'), 'cst': ('q', ()), 'cpos': M(0), 'cval': M(0), 'cdeep': FALSE,
    }


def mon_reset_last(s):
    s.mon['last'] = M('none')
    s.mon['lname'] = M(0)
    s.mon['ltext'] = M(0)
    s.mon['lvl'] = I(0)
    s.mon['taken'] = TRUE
    s.mon['lat'] = ('q', ())


def set_cause(s, kind, stack, pos, val, deep=False):
    s.mon['pend'] = TRUE
    s.mon['cause'] = M(kind)
    s.mon['cst'] = stack
    s.mon['cpos'] = pos
    s.mon['cval'] = val
    s.mon['cdeep'] = B(deep)


def clear_cause(s):
    s.mon['pend'] = FALSE
    s.mon['cause'] = M('none')
    s.mon['cst'] = ('q', ())
    s.mon['cpos'] = M(0)
    s.mon['cval'] = M(0)
    s.mon['cdeep'] = FALSE


def names(e):
    n = getattr(e, 'names', None)
    if n is None:
        n = e.names = Names(e)
        se = n.get('StackElement', 'static_xml')
        if se is None or {f[0] for f in se['variants'][0]['fields']} != {'name', 'pos'}:
            raise Undecided('StackElement is not {name, pos}')
        n.se = n.fields(se)
        n.on = n.fields(n.get('OwnedName', 'xml'))
    return n


def stack_element(e, name, pos):
    n = names(e)
    v = [None, None]
    v[n.se['name']] = name
    v[n.se['pos']] = pos
    return ('a', 0, tuple(v))


def top_element(e, s, gs, d):
    n = names(e)
    t = n.get('StackElement', 'static_xml')
    v = e.seq_get(s, gs, lsub(d, I(1)), None, t['id'])
    if v[0] == 'y':
        e.expand(s, v, t, None)
        raise Fork([s])
    return v


def site(s, what):
    """Identifies a finding: the rule and the function it was noticed in."""
    return (what, short_fn(s))


def short_fn(s):
    return short(s.fn.name) if s.fn is not None else '-'


def is_direct(e, s):
    """Whether the last event belongs to the innermost active read."""
    if s.mon['mode'][1] == 'none' or s.mon['last'][1] == 'none':
        return False
    return e.cmp(s, s.mon['lvl'], s.mon['act']) == 0


def check_taken(e, s):
    """Before the next event (or at the end of a read): the last event of the
    element being read must have reached its reader."""
    if s.mon['mode'][1] == 'vis':
        if s.mon['last'][1] != 'none' and s.mon['taken'] == FALSE and is_direct(e, s):
            e.report(('P04', 'lost ' + s.mon['last'][1]), s,
                     '%s of the element being read is never given to its visitor' % s.mon['last'][1])
            s.mon['taken'] = TRUE
        if qlen(s.mon['at']) != I(0):
            if e.cmp(s, qlen(s.mon['at']), I(0)) > 0:
                e.report(('P04', 'lost attribute'), s, "an attribute of the element being read is never given to its visitor")
                s.mon['at'] = ('q', ())


def check_pend(e, s, where):
    if s.mon['pend'] == TRUE:
        k = s.mon['cause'][1]
        e.report(('P02', '%s error dropped before %s' % (k, where)), s,
                 'an error (%s) was met, but reading goes on (%s)' % (k, where))
        clear_cause(s)


# -- the parser ----------------------------------------------------------------

@model('EventReader::new')
def reader_new(e, s, c, src):
    return M('parser')


@model('EventReader::new_with_config')
def reader_new_config(e, s, c, src, cfg):
    if cfg[0] == 'a':
        t = c.aty(1)
        if t['kind'] == 'adt' and t['path'].endswith('ParserConfig'):
            f = {x[0]: v for x, v in zip(t['variants'][0]['fields'], cfg[2])}
            for name, prop, msg in (('trim_whitespace', 'P05', 'the parser is told to drop white space'),
                                    ('ignore_end_of_stream', 'P01', 'the parser is told to ignore the end of the input'),
                                    ('skip_errors', 'P02', 'the parser is told to ignore errors'),
                                    ('replace_unknown_entity_references', 'P02', 'the parser is told to replace unknown entities')):
                if name in f and f[name] != FALSE:
                    e.report((prop, 'parser configuration ' + name), s, msg)
            return M('parser')
    return M('parser')


@model('ParserConfig:Default:default')
def config_default(e, s, c):
    t = c.dty()
    on = {'coalesce_characters', 'ignore_root_level_whitespace'}
    out = []
    for f, ft in t['variants'][0]['fields']:
        out.append(B(f in on) if e.ty(ft)['kind'] == 'bool' else e.fresh(s, ft))
    return ('a', 0, tuple(out))


MODELS['ParserConfig::new'] = config_default


@model('EventReader:Position:position')
def reader_position(e, s, c, p):
    if s.mon['pos'] == M(0):
        s.mon['pos'] = s.y()
    return s.mon['pos']


@model('Error:Position:position')
def error_position(e, s, c, p):
    v = load(e, s, p, c.t['atys'][0])
    t = deref_ty(e, c.t['atys'][0])
    if t['krate'] != 'xml':
        return None
    if v[0] == 'a':
        return v[2][names(e).fields(t)['pos']]
    return e.pure(s, 'error position', (v,), c.t['dty'], False)


@model('Error::kind', 'Error::msg')
def error_kind(e, s, c, p, *more):
    if c.fn.key != 'Error::kind':
        return None
    t = deref_ty(e, c.t['atys'][0])
    if t['krate'] != 'xml':
        return None
    k, path = target(e, s, p, c.t['atys'][0])
    v = e.get(s, k, path)
    if v[0] == 'y':
        e.expand(s, v, t, None)
    return ('p', k, path + (names(e).fields(t)['kind'],))


def event(e, kind, fields):
    n = names(e)
    t = n.get('XmlEvent', 'xml')
    vi = n.variant(t, kind)
    fs = t['variants'][vi]['fields']
    return ('a', vi, tuple([fields[f[0]] for f in fs]))


@model('EventReader::next')
def reader_next(e, s, c, p):
    n = names(e)
    t = n.get('XmlEvent', 'xml')
    ev = [v for v in t['variants']]
    ph = s.mon['ph'][1]
    check_taken(e, s)
    check_pend(e, s, 'next event')
    out = []

    def emit(kind, ph2, fields=None, lvl=None):
        x = s.copy()
        x.note('event %s' % kind)
        x.mon['ph'] = M(ph2)
        x.mon['pos'] = x.y()
        mon_reset_last(x)
        vi = n.variant(t, kind)
        vals = []
        for f, ft in t['variants'][vi]['fields']:
            vals.append(fields(x)[f] if fields is not None and f in FIELDS else e.fresh(x, ft))
        x.mon['lvl'] = I(0)
        return x, ('a', vi, tuple(vals)), t['variants'][vi]['fields']

    def done(x, v):
        out.append((x, ok(v)))

    def plain(kind, ph2, junk=False):
        x, v, _ = emit(kind, ph2)
        if junk:
            x.mon['junk'] = TRUE
        done(x, v)

    def error():
        x = s.copy()
        x.note('event error')
        et = n.get('Error', 'xml')
        ft = n.fields(et)
        v = [None] * len(et['variants'][0]['fields'])
        for i, (f, fty) in enumerate(et['variants'][0]['fields']):
            v[i] = e.fresh(x, fty)
        x.mon['ph'] = M('err')
        mon_reset_last(x)
        x.mon['pos'] = x.y()
        v = ('a', 0, tuple(v))
        # The error's value is known to the observers by its kind.
        set_cause(x, 'xml', x.mon['gs'], v[2][ft['pos']], v[2][ft['kind']])
        out.append((x, err(v)))

    def characters(kind):
        x, v, fs = emit(kind, 'in')
        x.mon['last'] = M('characters')
        x.mon['ltext'] = v[2][0]
        x.mon['lvl'] = qlen(x.mon['gs'])
        x.mon['taken'] = FALSE
        if x.mon['mode'][1] == 'str':
            # Belongs to the text being read?
            if e.cmp(x, x.mon['lvl'], x.mon['act']) == 0:
                x.mon['acc'] = cat(x.mon['acc'], v[2][0])
                x.mon['taken'] = TRUE
        done(x, v)

    def start(junk=False):
        x, v, fs = emit('StartElement', 'in')
        f = {a[0]: i for i, a in enumerate(fs)}
        name = v[2][f['name']]
        x.mon['lvl'] = qlen(x.mon['gs'])
        x.mon['gs'] = ('q', x.mon['gs'][1] + (('e', stack_element(e, name, x.mon['pos'])),))
        x.mon['last'] = M('element')
        x.mon['taken'] = FALSE
        x.mon['lat'] = v[2][f['attributes']]
        if junk:
            x.mon['junk'] = TRUE
        if x.mon['mode'][1] == 'str':
            x.mon['kid'] = TRUE
        done(x, v)

    def end():
        gs = s.mon['gs']
        d = qlen(gs)
        top = top_element(e, s, gs, d)
        rest, _ = e.seq_cut(s, gs, lsub(d, I(1)))
        root = e.cmp(s, d, I(1)) == 0
        x, v, fs = emit('EndElement', 'epilog' if root else 'in')
        x.mon['gs'] = rest
        x.mon['last'] = M('end')
        x.mon['lname'] = top[2][n.se['name']]
        x.mon['lvl'] = d
        x.mon['taken'] = FALSE
        done(x, ('a', v[1], (top[2][n.se['name']],)))

    if ph == 'in':
        # Splits cases, so before anything else.
        end()
        if s.mon['mode'][1] == 'str':
            e.cmp(s, qlen(s.mon['gs']), s.mon['act'])
    if ph == 'start':
        plain('StartDocument', 'prolog')
        error()
    elif ph == 'prolog':
        plain('Comment', 'prolog')
        plain('ProcessingInstruction', 'prolog')
        plain('Whitespace', 'prolog', True)
        start()
        error()
    elif ph == 'in':
        start()
        for k in ('Characters', 'CData', 'Whitespace'):
            characters(k)
        plain('Comment', 'in')
        plain('ProcessingInstruction', 'in')
        error()
    elif ph == 'epilog':
        plain('EndDocument', 'end')
        plain('Comment', 'epilog')
        plain('ProcessingInstruction', 'epilog')
        plain('Whitespace', 'epilog', True)
        plain('Characters', 'epilog', True)
        error()
        if e.cmp(s, qlen(s.mon['gs']), I(0)) == 0:
            start(True)
    elif ph == 'end':
        plain('EndDocument', 'end')
    elif ph == 'err':
        error()
    else:
        raise Undecided('parser phase')
    return out


FIELDS = set()


# -- the client's observers -------------------------------------------------------

@model('ext:nd')
def nd(e, s, c):
    out = []
    for v in (TRUE, FALSE):
        x = s.copy()
        out.append((x, v))
    return out


@model('ext:any_val', 'ext:any_bool')
def any_val(e, s, c):
    return e.fresh(s, c.t['dty'])


GHOST = {'depth': 0, 'attrs': 1, 'stack': 2, 'pos': 3}


def ghost(e, s, g):
    v = e.get(s, g[1], g[2]) if g[0] == 'p' else g
    if v[0] == 'y':
        # A token from an unknown caller: an open element.
        raise Undecided('unknown token')
    return v[2]


def text_of(v):
    return v


def same_name(e, s, owned, local, ns):
    """Compares an OwnedName's expanded name with texts."""


def opt_text(e, s, v, t):
    """'' for None."""
    i = e.pick(s, v, t)
    return txt('') if i == 0 else as_text(e, s, v[2][0])


def owned_fields(e, s, name):
    n = names(e)
    t = n.get('OwnedName', 'xml')
    if name[0] == 'y':
        e.expand(s, name, t, None)
        raise Fork([s])
    ot = e.ty(t['variants'][0]['fields'][n.on['namespace']][1])
    return name[2][n.on['local_name']], name[2][n.on['namespace']], name[2][n.on['prefix']], ot


@model('ext:obs_reader')
def obs_reader(e, s, c, name, depth):
    n = names(e)
    gs = s.mon['gs']
    d = qlen(gs)
    check_pend(e, s, 'a reader is created')
    if s.mon['last'][1] != 'element':
        e.report(('P04', 'reader without element'), s, 'a reader is handed out for something else than the element just started')
        raise Infeasible()
    top = top_element(e, s, gs, d)
    gn = top[2][n.se['name']]
    l, ns, px, ot = owned_fields(e, s, gn)
    nt = n.get('Name', 'xml')
    nf = n.fields(nt)
    if name[0] == 'y':
        e.expand(s, name, nt, None)
        raise Fork([s])
    if e.text_eq(s, as_text(e, s, name[2][nf['local_name']]), l) == FALSE or \
            e.text_eq(s, opt_text(e, s, name[2][nf['namespace']], ot), opt_text(e, s, ns, ot)) == FALSE:
        e.report(('P04', 'reader name'), s, "a reader's name is not that of its element")
    if e.cmp(s, depth, d) != 0:
        e.report(('P04', 'reader depth'), s, "a reader's depth is not that of its element")
    s.mon['taken'] = TRUE
    attrs = s.mon['lat']
    s.mon['lat'] = ('q', ())
    return ('a', 0, (d, attrs, gs, top[2][n.se['pos']]))


NAMED = 'the expanded name reported for %s is not that of the document (%s)'


def expanded(e, s, c, i, name, full):
    """Whether the expanded name in the i-th argument is that of a name of the document: (local name, namespace)."""
    l, ns, px, ot = owned_fields(e, s, full)
    v = load(e, s, name, c.t['atys'][i])
    ef = names(e).fields(deref_ty(e, c.t['atys'][i]))
    local = e.text_eq(s, as_text(e, s, v[2][ef['local_name']]), l) == TRUE
    got = as_text(e, s, v[2][ef['namespace']])
    # xml-rs does not know the prefix xml.
    known = e.pick(s, ns, ot) == 1
    if not known and is_xml(e, s, px, ot):
        return local, e.text_eq(s, got, txt(XML_NS)) == TRUE
    if e.text_eq(s, got, opt_text(e, s, ns, ot)) == TRUE:
        return local, True
    return local, known and is_xml(e, s, px, ot) and e.text_eq(s, got, txt(XML_NS)) == TRUE


def is_xml(e, s, px, ot):
    return e.text_eq(s, opt_text(e, s, px, ot), txt('xml')) == TRUE


@model('ext:obs_expanded')
def obs_expanded(e, s, c, g, name):
    n = names(e)
    gs = s.mon['gs']
    top = top_element(e, s, gs, qlen(gs))
    local, space = expanded(e, s, c, 1, name, top[2][n.se['name']])
    if not local or not space:
        e.report(('P06', 'element name'), s, NAMED % ('an element', 'local name' if not local else 'namespace'))
    return UNIT


def begin(e, s, g, mode):
    v = ghost(e, s, g)
    prev = ('a', 0, (s.mon['mode'], s.mon['act']))
    s.mon['mode'] = M(mode)
    s.mon['act'] = v[0]
    s.mon['at'] = v[1] if mode == 'vis' else ('q', ())
    s.mon['acc'] = txt('')
    s.mon['kid'] = FALSE
    s.mon['last'] = M('none')
    s.mon['taken'] = TRUE
    return prev


@model('ext:obs_begin')
def obs_begin(e, s, c, g):
    return begin(e, s, g, 'vis')


@model('ext:obs_begin_string')
def obs_begin_string(e, s, c, g):
    return begin(e, s, g, 'str')


@model('ext:obs_finish')
def obs_finish(e, s, c, p):
    if p[0] == 'y':
        raise Undecided('unknown token')
    s.mon['mode'], s.mon['act'] = p[2]
    s.mon['at'] = ('q', ())
    s.mon['acc'] = txt('')
    s.mon['kid'] = FALSE
    mon_reset_last(s)
    return UNIT


@model('ext:obs_attribute')
def obs_attribute(e, s, c, name, value):
    check_pend(e, s, 'an attribute is given to a visitor')
    n = names(e)
    at = s.mon['at']
    if s.mon['mode'][1] != 'vis' or e.cmp(s, qlen(at), I(0)) == 0:
        e.report(('P04', 'attribute'), s, 'a visitor is given an attribute its element does not have (or has been given already)')
        return UNIT
    t = n.get('OwnedAttribute', 'xml')
    f = n.fields(t)
    a = e.seq_get(s, at, I(0), None, t['id'])
    if a[0] == 'y':
        e.expand(s, a, t, None)
        raise Fork([s])
    l, ns, px, ot = owned_fields(e, s, a[2][f['name']])
    same = e.text_eq(s, as_text(e, s, load(e, s, value, c.t['atys'][1])), a[2][f['value']]) == TRUE
    local, space = expanded(e, s, c, 0, name, a[2][f['name']])
    if same and not (local and space):
        e.report(('P06', 'attribute name'), s, NAMED % ('an attribute', 'local name' if not local else 'namespace'))
    same = same and local and space
    if not same:
        e.report(('P04', 'attribute content'), s, 'a visitor is given another attribute than the next one of its element')
    _, rest = e.seq_cut(s, at, I(1))
    s.mon['at'] = rest
    return UNIT


def direct(e, s, kind, what):
    """The visitor is given an event: it must be its own, and the last one."""
    check_pend(e, s, '%s is given to a visitor' % what)
    good = s.mon['mode'][1] == 'vis' and s.mon['last'][1] == kind and s.mon['taken'] == FALSE and is_direct(e, s)
    if good and e.cmp(s, qlen(s.mon['at']), I(0)) > 0:
        e.report(('P04', 'attributes late'), s, 'content is given to a visitor before all attributes')
        s.mon['at'] = ('q', ())
    if not good:
        e.report(('P04', 'wrong ' + kind), s, 'a visitor is given %s that does not belong to its element (or twice)' % what)
    return good


@model('ext:obs_element')
def obs_element(e, s, c):
    direct(e, s, 'element', 'an element')
    s.mon['taken'] = TRUE
    return UNIT


@model('ext:obs_element_done')
def obs_element_done(e, s, c):
    # While a child is being read nothing else is; what follows belongs to the parent again.
    mon_reset_last(s)
    return UNIT


@model('ext:obs_characters')
def obs_characters(e, s, c, v, pos):
    if direct(e, s, 'characters', 'character data'):
        if e.text_eq(s, load(e, s, v, c.t['atys'][0]), s.mon['ltext']) == FALSE:
            e.report(('P04', 'character content'), s, 'a visitor is given other character data than its element has')
            return UNIT
        if e.equal(s, pos, s.mon['pos']) == FALSE:
            e.report(('P03', 'character position'), s, 'character data is given with another position')
    s.mon['taken'] = TRUE
    return UNIT


@model('ext:obs_end')
def obs_end(e, s, c, name, pos):
    n = names(e)
    check_pend(e, s, 'a read succeeds')
    if s.mon['mode'][1] == 'vis':
        good = s.mon['last'][1] == 'end' and is_direct(e, s)
        if not good:
            e.report(('P04', 'end'), s, "a read ends elsewhere than at its element's end tag")
        else:
            s.mon['taken'] = TRUE
            v = load(e, s, name, c.t['atys'][0])
            if e.equal(s, v, s.mon['lname']) == FALSE:
                e.report(('P04', 'end name'), s, "a read returns another element's name")
        check_taken(e, s)
    return UNIT


@model('ext:obs_text')
def obs_text(e, s, c, p):
    check_pend(e, s, 'a text is returned')
    v = load(e, s, p, c.t['atys'][0])
    good = s.mon['last'][1] == 'end' and e.cmp(s, s.mon['lvl'], s.mon['act']) == 0
    if s.mon['kid'] == TRUE:
        e.report(('P05', 'child'), s, 'an element with a child element is read as text')
    elif not good:
        e.report(('P05', 'end'), s, "reading a text ends elsewhere than at its element's end tag")
    elif e.text_eq(s, v, s.mon['acc']) == FALSE:
        e.report(('P05', 'text'), s, "the text returned is not the element's character data: %s / %s" % (v, s.mon['acc']))
    s.mon['taken'] = TRUE
    return UNIT


@model('ext:obs_decline')
def obs_decline(e, s, c):
    return UNIT


@model('ext:obs_discard')
def obs_discard(e, s, c):
    s.note('the client discards the error')
    clear_cause(s)
    return UNIT


def raised(e, s, c, kind, stack, pos, deep):
    v = s.y()
    if s.mon['pend'] == TRUE:
        check_pend(e, s, 'an error is raised')
    set_cause(s, kind, stack, pos, v, deep)
    s.note('%s raises an error' % kind)
    return v


@model('ext:raise_attribute')
def raise_attribute(e, s, c, g):
    g = ghost(e, s, g)
    return raised(e, s, c, 'attribute', g[2], g[3], False)


@model('ext:raise_characters')
def raise_characters(e, s, c, g, pos):
    g = ghost(e, s, g)
    return raised(e, s, c, 'characters', g[2], s.mon['pos'], False)


@model('ext:raise_client')
def raise_client(e, s, c, g):
    g = ghost(e, s, g)
    # The root element's own errors have no position of their own.
    if e.cmp(s, g[0], I(1)) == 0:
        return raised(e, s, c, 'root', g[2], M('any'), True)
    return raised(e, s, c, 'element', g[2], g[3], True)


# -- errors -------------------------------------------------------------------------

def find_field(e, s, v, t, pred, depth=0):
    """Values of all components that satisfy `pred(type)`."""
    out = []
    if depth > 6:
        return out
    t = e.ty(t) if isinstance(t, int) else t
    if pred(t):
        return [v]
    if t['kind'] == 'adt' and (t['path'] in POINTER_ADTS or t['box']):
        if v[0] == 'p':
            return find_field(e, s, e.get(s, v[1], v[2]), t['args'][0], pred, depth + 1)
        return out
    if t['kind'] in ('ref', 'ptr') and v[0] == 'p':
        return find_field(e, s, e.get(s, v[1], v[2]), t['elem'], pred, depth + 1)
    if v[0] == 'y' and t['kind'] == 'adt' and t['akind'] == 'struct' and t['krate'] == 'static_xml':
        v = e.expand(s, v, t, None)
    if v[0] == 'a':
        fts = e.field_types(t, v[1]) if not isinstance(v[1], str) else None
        for x, ft in zip(v[2], fts or ()):
            out += find_field(e, s, x, ft, pred, depth + 1)
    return out


def contains(v, w):
    if v == w:
        return True
    if v[0] == 'a':
        return any(contains(x, w) for x in v[2])
    if v[0] == 'd':
        return contains(v[1], w)
    if v[0] == 'q':
        return any(g[0] == 'e' and contains(g[1], w) for g in v[1])
    return False


def check_error(e, s, v, t, where):
    """An error is returned: does it tell what happened?"""
    se = names(e).get('StackElement', 'static_xml')
    stacks = find_field(e, s, v, t, lambda x: x['kind'] == 'adt' and x['path'] in SEQ_ADTS and x['args'][0] == se['id'])
    poss = find_field(e, s, v, t, lambda x: x['kind'] == 'adt' and x['path'].endswith('TextPosition') and
                      x['variants'][0]['name'] == 'TextPosition')
    if s.mon['pend'] != TRUE:
        # An error the library itself raises.
        if len(stacks) == 1 and stacks[0][0] == 'q' and poss:
            want = s.mon['gs']
            if s.mon['last'][1] == 'element' or s.mon['junk'] == TRUE:
                # The element the error is about may be left out.
                if e.cmp(s, qlen(stacks[0]), qlen(want)) < 0:
                    want, _ = e.seq_cut(s, want, lsub(qlen(want), I(1)))
            stack_check(e, s, stacks[0], want, True, 'library', where)
            if s.mon['ph'][1] in ('in', 'epilog', 'prolog', 'end') and s.mon['last'][1] != 'none' or s.mon['ph'][1] != 'in':
                if not any(e.equal(s, p, s.mon['pos']) == TRUE for p in poss):
                    e.report(('P03', 'library position'), s, "an error's position is not that of the event it is about")
        else:
            e.undecide('an error whose context was not found', s)
        return
    kind = s.mon['cause'][1]
    xml = [p for p in poss]
    if len(stacks) != 1 or stacks[0][0] != 'q':
        e.undecide('an error whose context was not found', s)
        return
    stack_check(e, s, stacks[0], s.mon['cst'], s.mon['cdeep'] == TRUE, kind, where)
    if s.mon['cpos'] != M('any') and poss:
        # The context's own position is the last component found; an XML
        # error brings another one with it.
        own = own_position(e, s, v, t)
        if own is None:
            e.undecide('an error whose position was not found', s)
        elif e.equal(s, own, s.mon['cpos']) == FALSE:
            e.report(('P03', '%s position' % kind), s, 'the error of a bad %s carries another position' % kind)
    if not contains(e.snapshot(s, v), s.mon['cval']):
        e.report(('P03', '%s cause' % kind), s, 'an error (%s) is returned without its cause' % kind)


def own_position(e, s, v, t, depth=0):
    """The position field of the struct that also holds the stack."""
    t = e.ty(t) if isinstance(t, int) else t
    if depth > 6:
        return None
    if t['kind'] == 'adt' and (t['path'] in POINTER_ADTS or t['box']) and v[0] == 'p':
        return own_position(e, s, e.get(s, v[1], v[2]), t['args'][0], depth + 1)
    if v[0] == 'a' and t['kind'] == 'adt' and not isinstance(v[1], str):
        fs = t['variants'][v[1]]['fields']
        tys = [e.ty(f[1]) for f in fs]
        if any(x['kind'] == 'adt' and x['path'] in SEQ_ADTS for x in tys):
            for x, f in zip(v[2], tys):
                if f['kind'] == 'adt' and f['path'].endswith('TextPosition'):
                    return x
        for x, f in zip(v[2], tys):
            r = own_position(e, s, x, f, depth + 1)
            if r is not None:
                return r
    return None


def stack_check(e, s, have, want, deep, kind, where):
    if have == want:
        return
    n, m = qlen(have), qlen(want)
    c = e.cmp(s, n, m)
    if c < 0 or (c > 0 and not deep):
        e.report(('P03', '%s stack depth' % kind), s, 'the error of a bad %s carries a stack that is too %s' % (
            kind, 'short' if c < 0 else 'long'))
        return
    a, _ = e.seq_cut(s, have, m)
    if a == want:
        return
    if e.equal(s, a, want) == FALSE:
        e.report(('P03', '%s stack' % kind), s, 'the error of a bad %s carries another stack' % kind)


@model('ext:obs_error')
def obs_error(e, s, c, p):
    t = deref_ty(e, c.t['atys'][0])
    v = load(e, s, p, c.t['atys'][0])
    n = names(e)
    i = e.pick(s, v, t)
    if t['variants'][i]['name'] != 'Propagate':
        if s.mon['pend'] == TRUE:
            e.report(('P03', 'unwrapped error'), s, 'a read returns an error without its context')
            return UNIT
        return UNIT
    check_error(e, s, v[2][0], t['variants'][i]['fields'][0][1], 'read')
    return UNIT


# -- running ---------------------------------------------------------------------------

def panic_hook(e, s, what):
    if s.fn.krate.startswith('fx_'):
        return
    e.report(('P19', what, short_fn(s)), s, 'may panic: %s' % what)


def check_final(e, s, fn):
    t = e.ty(fn.locals[0])
    v = s.retv
    s.fn = fn
    i = v[1]
    if t['variants'][i]['name'] == 'Ok':
        check_pend(e, s, 'the document is returned')
        if s.mon['ph'][1] != 'end':
            e.report(('P01', 'phase ' + s.mon['ph'][1]), s, 'reading succeeds before the end of the document (parser: %s)' % s.mon['ph'][1])
        if s.mon['junk'] != FALSE:
            e.report(('P01', 'junk'), s, 'reading succeeds although there is content outside the root element')
    else:
        ft = t['variants'][i]['fields'][0][1]
        s.ob[('r', 0)] = v
        todo = [s]
        while todo:
            x = todo.pop()
            try:
                check_error(e, x, x.ob[('r', 0)][2][0], ft, 'root')
            except Fork as f:
                todo.extend(f.states)
            except Infeasible:
                pass
            except Undecided as u:
                e.undecide('%s when reading ends' % u, x)


def recursion(e, prog):
    """Cycles of library functions among the calls that were analysed."""
    g = {}
    for a, _, b in e.calls:
        fa, fb = prog.fns[a], prog.fns[b]
        if fa.krate.startswith('fx_') or fb.krate.startswith('fx_'):
            continue
        g.setdefault(a, set()).add(b)
    for a in sorted(g):
        if prog.fns[a].krate not in ('static_xml', 'static_xml_derive'):
            continue
        seen = set()
        todo = list(g[a])
        while todo:
            b = todo.pop()
            if b == a:
                key = ('P19', 'recursion', short(prog.fns[a].name))
                e.findings.setdefault(key, {'message': 'needs stack space in proportion to the input: %s calls itself' % short(prog.fns[a].name),
                                            'trace': [], 'where': []})
                break
            if b in seen:
                continue
            seen.add(b)
            todo.extend(g.get(b, ()))


def analyse(prog, max_time=700, found=None):
    e = Engine(prog, MODELS, max_states=400000, max_time=max_time)
    e.hook_panic = panic_hook
    e.hook_found = found
    sol = Solver(e)
    results = {}
    try:
        for r in sorted(prog.roots):
            if not r.startswith('root_read') and not r.startswith('root_from_str'):
                continue
            fn = prog.fns[prog.roots[r]]
            finals = sol.root(fn, None, init_mon())
            kinds = {}
            for s in finals:
                k = e.ty(fn.locals[0])['variants'][s.retv[1]]['name'] if s.retv[0] == 'a' else '?'
                kinds[k] = kinds.get(k, 0) + 1
                check_final(e, s, fn)
            results[r] = kinds
    except Budget as b:
        e.undecide('gave up: %s' % b)
    except Found:
        pass
    recursion(e, prog)
    return e, sol, results


if __name__ == '__main__':
    import sys
    import time
    from prog import Prog
    t0 = time.time()
    e, sol, res = analyse(Prog(sys.argv[1]))
    print(res, 'states', e.nstates, 'steps', e.nsteps, sol.stats, '%.1fs' % (time.time() - t0))
    print('unknown', e.unknown)
    for k, v in e.findings.items():
        print('FINDING', k, v['message'])
        if '-v' in sys.argv:
            print('   ', '\n    '.join(v['trace'][-40:]))
            print('   at', v['where'])
    for k, v in e.undecided.items():
        print('UNDECIDED', k)
        if '-v' in sys.argv:
            print('   ', '\n    '.join(v[-12:]))
