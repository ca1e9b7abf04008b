"""Misuses of the derives in many contexts (P20): each case is a declaration
with and without the offending part."""
import itertools


def decl(derive, attrs, kind, body):
    a = ''.join('#[static_xml(%s)]\n' % x for x in attrs)
    return '#[derive(static_xml_derive::%s)]\n%s%s' % (derive, a, kind % body)


STRUCT = 'struct A {\n%s\n}'
ENUM = 'enum A {\n%s\n}'
NS = [('foo', 'http://foo.example/'), ('bar', 'http://bar.example/'), ('baz', 'urn:baz')]


def nss(n, default):
    out = ['namespace = "%s: %s"' % x for x in NS[:n]]
    if default == 1:
        out.append('default_namespace = "http://default.example/"')
    if default == 2:
        out.append('namespace = "http://default.example/"')
    return out


def contexts(full):
    yield 0, 0, 0, 0
    yield 2, 1, 1, 2
    if full:
        yield 1, 0, 0, 2
        yield 3, 0, 2, 2
        yield 1, 2, 1, 1


def at(pos, items, x):
    return '\n'.join(items[:pos] + [x] + items[pos:])


def cases():
    """(name, bad, good)"""
    for derive in ('Deserialize', 'Serialize'):
        others = ['#[static_xml(attribute)] p: u32,', '#[static_xml(rename = "Q")] q: Option<String>,']
        for n, d, pos, extra in contexts(True):
            c = '%s n%d d%d %d/%d: ' % (derive, n, d, pos, extra)
            cont = nss(n, d)

            def field(name, bad, good, cont=cont, contb=None):
                return (c + name, decl(derive, contb or cont, STRUCT, at(pos, others[:extra], bad)),
                        decl(derive, cont, STRUCT, at(pos, others[:extra], good)))
            ok = 'x: String,'
            for a in ('nope', 'nope = "x"', 'nope()', 'skip', 'attributes', 'attr', 'unknown', 'mode = "std"',
                      'namespace = "foo: http://foo.example/"', 'default_namespace = "http://x"', 'whitespace = "collapse"',
                      'attribute, flatten', 'attribute, text', 'flatten, text', 'default, flatten', 'attribute, flatten, text',
                      'rename', 'rename = 3', 'prefix', 'prefix = 1', 'attribute = "x"', 'flatten = "x"', 'default = "x"',
                      '"attribute"', 'prefix = "nope"', 'attribute, prefix = "nope"', 'prefix = "nope", rename = "y"',
                      'rename = "y", prefix = "nope"', 'prefix = "Foo"', 'prefix = "foo:"', 'prefix = "fo"'):
                yield field('field ' + a, '#[static_xml(%s)] x: String,' % a, ok)
            for a, b in (('attribute', 'flatten'), ('attribute', 'text'), ('text', 'flatten'), ('flatten', 'default')):
                yield field('fields %s %s' % (a, b), '#[static_xml(%s)] #[static_xml(%s)] x: String,' % (a, b), ok)
            if n:
                for p in ('foo', 'xml', ''):
                    yield field('prefix twice ' + p, '#[static_xml(prefix = "foo", prefix = "%s")] x: String,' % p,
                                '#[static_xml(prefix = "foo")] x: String,')
                    yield field('prefix twice, attribute ' + p,
                                '#[static_xml(attribute, prefix = "foo")] #[static_xml(prefix = "%s")] x: String,' % p,
                                '#[static_xml(attribute, prefix = "foo")] x: String,')
            if derive == 'Serialize':
                for k, more in enumerate(('', 'y: u32,', '#[static_xml(attribute)] y: u32,')):
                    good = '#[static_xml(text)] x: String,\n' + more
                    yield field('two texts %d' % k, good + '\n#[static_xml(text)] z: String,', good)
            for a in ('nope', 'nope = "x"', 'nope()', 'skip', 'attribute', 'flatten', 'text', 'rename', 'mode = "std"', 'whitespace = "collapse"',
                      'prefix = "nope"', 'prefix = 1', 'namespace', 'namespace = 1', 'default_namespace', 'default_namespace = 1',
                      'namespaces = "a: b"', '"x"'):
                yield field('container ' + a, ok, ok, contb=cont + [a])
                yield field('container first ' + a, ok, ok, contb=[a] + cont)
            for i in range(n):
                p, u = NS[i]
                for v in ('http://other.example/', u + 'x', u[:-1], u.upper(), u + '/', '', 'u'):
                    yield field('mapped twice %s %s' % (p, v), ok, ok, contb=cont + ['namespace = "%s: %s"' % (p, v)])
                    yield field('mapped twice first %s %s' % (p, v), ok, ok, contb=['namespace = "%s: %s"' % (p, v)] + cont)
            if d:
                for v in ('http://other.example/', 'http://default.example', 'http://default.example/x', ''):
                    for k in ('namespace', 'default_namespace'):
                        yield field('default twice %s %s' % (k, v), ok, ok, contb=cont + ['%s = "%s"' % (k, v)])
        # shapes
        for k in (1, 2, 3):
            yield ('%s tuple %d' % (derive, k), decl(derive, [], 'struct A(%s);', ', '.join(['u32'] * k)),
                   decl(derive, [], STRUCT, 'a: u32,'))
        vs = ['P(u32),', '#[static_xml(rename = "Q")] Q(String),']
        for n, d, pos, extra in contexts(False):
            c = '%s enum n%d d%d %d/%d: ' % (derive, n, d, pos, extra)
            cont = nss(n, d)

            def variant(name, bad, good='X(u32),', cont=cont, contb=None):
                return (c + name, decl(derive, contb or cont, ENUM, at(pos, vs[:extra], bad)),
                        decl(derive, cont, ENUM, at(pos, vs[:extra], good)))
            for b in ('X(u32, u32),', 'X { a: u32 },', 'X(),', 'X {},', 'X { a: u32, b: u32 },'):
                yield variant('variant ' + b, b)
            for a in ('nope', 'nope = "x"', 'attribute', 'flatten', 'text', 'default', 'unknown', 'rename', 'rename = 1', 'prefix = "nope"',
                      'prefix = 2', 'prefix = "nope", rename = "y"', 'skip = "x"', 'namespace = "foo: http://foo.example/"'):
                yield variant('variant ' + a, '#[static_xml(%s)] X(u32),' % a)
            if n:
                yield variant('variant prefix twice', '#[static_xml(prefix = "foo", prefix = "foo")] X(u32),')
            for a in ('nope', 'mode = "restriction"', 'prefix = "nope"'):
                yield variant('container ' + a, 'X(u32),', contb=cont + [a])
            for i in range(n):
                yield variant('mapped twice', 'X(u32),', contb=cont + ['namespace = "%s: http://other.example/"' % NS[i][0]])
    for derive in ('ParseText', 'ToText'):
        vs = ['P,', '#[static_xml(rename = "q q")] Q,', '#[static_xml(unknown)] U(String),']
        for extra, pos in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 2), (3, 0), (3, 1), (3, 3)):
            c = '%s %d/%d: ' % (derive, pos, extra)
            for m, cont in (('', ['mode = "restriction"']), (' ws', ['mode = "restriction", whitespace = "collapse"']),
                            (' ws2', ['whitespace = "preserve"', 'mode = "restriction"'])):
                def variant(name, bad, good='X,', contb=None):
                    return (c + name + m, decl(derive, contb or cont, ENUM, at(pos, vs[:extra], bad)),
                            decl(derive, cont, ENUM, at(pos, vs[:extra], good)))
                for b in ('X(u32),', 'X(String),', 'X { a: u32 },', 'X(u32, u32),', 'X(),', 'X {},'):
                    yield variant('known ' + b, b)
                    yield variant('known renamed ' + b, '#[static_xml(rename = "y")] ' + b)
                for b in ('X,', 'X(String, String),', 'X {},', 'X(),'):
                    yield variant('unknown ' + b, '#[static_xml(unknown)] ' + b)
                for a in ('unknown, rename = "y"', 'rename = "y", unknown'):
                    yield variant('variant ' + a, '#[static_xml(%s)] X(String),' % a)
                    yield variant('variant unit ' + a, '#[static_xml(%s)] X,' % a)
                for a in ('nope', 'nope = "x"', 'skip', 'attribute', 'rename', 'rename = 1', 'prefix = "foo"', 'unknown = "x"', 'mode = "std"'):
                    yield variant('variant ' + a, '#[static_xml(%s)] X,' % a)
                yield (c + 'two unknown' + m, decl(derive, cont, ENUM, '\n'.join(vs[:2] + ['#[static_xml(unknown)] X(String),'] + vs[2:] )),
                       decl(derive, cont, ENUM, '\n'.join(vs)))
                for a in ('mode = "restriction"', 'mode = "std"', 'nope', 'rename = "x"', 'whitespace = "Collapse"', 'whitespace = "none"',
                          'whitespace = 1', 'whitespace', 'namespace = "foo: bar"', '"x"'):
                    yield variant('container ' + a, 'X,', contb=cont + [a])
        us = ['P(u32),', 'Q(String),']
        for extra, pos in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)):
            for b in ('X,', 'X(u32, u32),', 'X { a: u32 },', 'X(),', '#[static_xml(rename = "y")] X(u32),', '#[static_xml(unknown)] X(String),',
                      '#[static_xml(nope)] X(u32),'):
                yield ('%s union %d/%d %s' % (derive, pos, extra, b), decl(derive, ['mode = "union"'], ENUM, at(pos, us[:extra], b)),
                       decl(derive, ['mode = "union"'], ENUM, at(pos, us[:extra], 'X(u32),')))
        for cont in ([], ['whitespace = "collapse"'], ['mode = "Restriction"'], ['mode = ""'], ['mode = "other"'], ['mode'], ['mode = 1'],
                     ['mode("restriction")']):
            yield ('%s mode %s' % (derive, cont), decl(derive, cont, ENUM, 'A, B,'), decl(derive, ['mode = "restriction"'], ENUM, 'A, B,'))
        for k in ('restriction', 'union'):
            yield ('%s %s struct' % (derive, k), decl(derive, ['mode = "%s"' % k], 'struct %s;', 'A'),
                   decl(derive, ['mode = "restriction"'], ENUM, 'A, B,'))


if __name__ == '__main__':
    import sys
    l = list(cases())
    print(len(l), len({(b, g) for _, b, g in l}))
