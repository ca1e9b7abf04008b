"""The derived element types that are analysed (P08-P12, P24): what is declared,
and from that the Rust declaration (fixtures/xml) and the expected names."""
from collections import namedtuple

XML_NS = 'http://www.w3.org/XML/1998/namespace'

# kind: e(lement), a(ttribute), f(latten), t(ext)
F = namedtuple('F', 'ident ty kind default rename prefix')
V = namedtuple('V', 'ident ty rename prefix skip')
T = namedtuple('T', 'kind parts ns default_ns rename prefix')


def f(ident, ty, kind='e', default=False, rename=None, prefix=None):
    return F(ident, ty, kind, default, rename, prefix)


def at(ident, ty='At', **k):
    return f(ident, ty, 'a', **k)


def flat(ident, ty):
    return f(ident, ty, 'f')


def v(ident, ty=None, rename=None, prefix=None, skip=False):
    return V(ident, ty, rename, prefix, skip)


def struct(*fields, ns=None, default_ns=None, rename=None, prefix=None):
    return T('struct', fields, ns or {}, default_ns, rename, prefix)


def enum(*variants, ns=None, default_ns=None, rename=None, prefix=None):
    return T('enum', variants, ns or {}, default_ns, rename, prefix)


OPAQUE = ('Fl1', 'Fl2', 'Fl3')
PQ = {'p': 'urn:p', 'q': 'urn:q'}

TYPES = {
    # How often.
    'X1': struct(f('b', 'El'), f('a', 'Option<El>'), f('c', 'Vec<El>')),
    'X2': struct(at('y'), at('z', 'Option<At>'), at('x', default=True)),
    'X3': struct(f('one', 'El', default=True), f('list', 'Vec<El>', default=True), f('maybe', 'Option<El>', default=True)),
    'X4': struct(f('t', 'At'), f('s', 'Option<At>'), f('u', 'Vec<At>'), at('t2', rename='t')),
    'X5': struct(at('k', 'Option<At>', default=True), f('k2', 'El', rename='k')),
    # Names.
    'N1': struct(f('a', 'Option<El>', prefix='q'), f('b', 'Option<El>', rename='a', prefix='p'), f('c', 'Option<El>', rename='a'),
                 f('d', 'Option<El>', prefix='p'), ns=PQ, prefix='q', rename='root'),
    'N2': struct(f('r#type', 'El', prefix=''), f('r#fn', 'Option<El>'), at('r#match', prefix='p'), at('r#in', 'Option<At>'), ns=PQ,
                 default_ns='urn:d', prefix=''),
    'N3': struct(f('ab', 'Option<El>'), f('a', 'Option<El>'), f('x', 'Vec<El>', rename='a-b'), f('upper', 'Option<El>', rename='A')),
    'N4': struct(at('c', 'Option<At>', prefix='p'), at('c2', 'Option<At>', rename='c', prefix='q'), at('c3', 'Option<At>', rename='c'),
                 at('lang', 'Option<At>', prefix='xml'), ns=PQ),
    'N5': struct(f('z', 'Option<El>', prefix='z'), f('a', 'Option<El>', prefix='b'), f('y', 'Option<El>', prefix='a'),
                 ns={'z': 'urn:a', 'b': 'urn:z', 'a': ''}),
    'N6': struct(f('solo', 'El', prefix=''), default_ns='urn:d', rename='r#odd name'),
    'N7': struct(),
    'N8': struct(f('e0', 'Vec<El>', rename='m'), at('a0', 'Option<At>', rename='m'), f('f_present', 'Option<El>'), f('f', 'El')),
    'N10': struct(at('plain', prefix=''), at('other', 'Option<At>', prefix='p'), at('bare', 'Option<At>'), f('plain_', 'Option<El>', rename='plain'),
                  f('other_', 'Option<El>', rename='other', prefix=''), ns={'p': 'urn:p'}, default_ns='urn:d'),
    'N11': struct(*([f('f%d' % i, ('Option<El>', 'Vec<El>')[i % 2], rename='%s%d' % ('cab'[i % 3], i)) for i in range(14)]
                    + [at('g%d' % i, 'Option<At>', rename='%s%d' % ('tsu'[i % 3], i)) for i in range(12)])),
    # Enums.
    'E1': enum(v('Two', 'Vec<El>'), v('One', 'El'), v('Unit'), v('Opt', 'Option<El>'), v('Gone', 'El', skip=True)),
    'E2': enum(v('A', 'El', prefix='q'), v('B', 'El', rename='A', prefix='p'), v('C', 'Vec<El>', rename='A'), v('D', prefix='', rename='A'),
               ns=PQ, default_ns='urn:d', rename='e', prefix='p'),
    'E3': enum(v('Z'), v('A'), v('r#M'), v('Hidden', skip=True)),
    'E4': enum(v('Only', 'At')),
    'E5': enum(v('B', 'Vec<At>', rename='b'), v('Aa', 'Option<At>', rename='aa'), v('A', rename='a'), v('Ab', 'El', rename='a.b')),
    'E6': enum(*[v('V%d' % i, 'El' if i % 3 else 'Vec<El>', rename='%s%d' % ('zyx'[i % 3], i), prefix='pq'[i % 2]) for i in range(9)], ns=PQ),
    'E7': enum(*[v('V%d' % i, ('El', 'Vec<El>', None, 'Option<El>')[i % 4], rename='%s%d' % ('nkm'[i % 3], i)) for i in range(18)]),
    # Flattened fields.
    'G1': struct(f('own', 'El'), flat('x', 'X1')),
    'G2': struct(f('a', 'Vec<El>'), flat('x', 'X1'), at('y')),
    'G3': struct(flat('e', 'E1'), f('own', 'Option<El>')),
    'G4': struct(flat('f1', 'Fl1'), f('own', 'El'), flat('f2', 'Fl2'), at('own_a', 'Option<At>')),
    'G5': struct(flat('e', 'E3'), flat('f1', 'Fl1'), flat('x', 'X5')),
    'G6': struct(flat('f3', 'Fl3'), flat('g', 'G7'), flat('f1', 'Fl1')),
    'G7': struct(f('m', 'El'), flat('f2', 'Fl2')),
    'G8': struct(flat('e', 'E4'), flat('d', 'E3')),
    'G9': struct(flat('r#use', 'N3'), f('a', 'El', prefix='p'), ns=PQ),
}
# Too large for all names at once: so many at a time.
SLICED = {'N11': 2}
# Only written.
TEXT_TYPES = {
    'W1': struct(f('t', 'At', 't'), f('a', 'El'), at('b')),
    'W2': struct(f('a', 'Option<El>'), f('t', 'At', 't'), flat('x', 'X5'), f('z', 'Vec<El>'), ns=PQ, default_ns='urn:d'),
}


def namespaces(t):
    m = dict(t.ns)
    if t.default_ns is not None:
        m[''] = t.default_ns
    return m


def name(t, part):
    """The expanded name (namespace, local) that is declared for a field, a variant or (with its own name as ident) a type."""
    local = part.rename if part.rename is not None else part.ident[2:] if part.ident.startswith('r#') else part.ident
    if part.prefix is None:
        return '', local
    m = namespaces(t)
    return (XML_NS if part.prefix == 'xml' else m.get(part.prefix, '')), local


def root_name(n):
    t = (TYPES.get(n) or TEXT_TYPES[n])
    return name(t, F(n, None, None, False, t.rename, t.prefix))


def universe(n):
    """Every namespace and local name that matters to the type."""
    t = TYPES.get(n) or TEXT_TYPES[n]
    nss, locs = set(), set()
    for p in t.parts:
        if p.ty in TYPES:
            a, b = universe(p.ty)
            nss |= a
            locs |= b
        elif t.kind == 'enum' and not p.skip or t.kind == 'struct' and p.kind in 'ea':
            x, y = name(t, p)
            nss.add(x)
            locs.add(y)
    return nss, locs


# -- Rust ---------------------------------------------------------------------------------


def lit(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def attrs(xs, indent=''):
    return '%s#[static_xml(%s)]\n' % (indent, ', '.join(xs)) if xs else ''


def declare(n, t, traits='Deserialize, Serialize'):
    o = '#[derive(%s)]\n' % traits
    xs = ['namespace = %s' % lit('%s: %s' % (p, u)) for p, u in t.ns.items()]
    if t.default_ns is not None:
        xs.append('default_namespace = %s' % lit(t.default_ns))
    if t.rename is not None:
        xs.append('rename = %s' % lit(t.rename))
    if t.prefix is not None:
        xs.append('prefix = %s' % lit(t.prefix))
    o += attrs(xs)
    o += 'pub %s %s {\n' % (t.kind, n)
    for p in t.parts:
        xs = []
        if t.kind == 'struct':
            xs += {'e': [], 'a': ['attribute'], 'f': ['flatten'], 't': ['text']}[p.kind]
            if p.default:
                xs.append('default')
        elif p.skip:
            xs.append('skip')
        if t.kind == 'enum' or p.kind != 'f':
            if p.rename is not None:
                xs.append('rename = %s' % lit(p.rename))
            if p.prefix is not None:
                xs.append('prefix = %s' % lit(p.prefix))
        o += attrs(xs, '    ')
        if t.kind == 'struct':
            o += '    pub %s: %s,\n' % (p.ident, p.ty)
        else:
            o += '    %s%s,\n' % (p.ident, '(%s)' % p.ty if p.ty else '')
    return o + '}\n'
