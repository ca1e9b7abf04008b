"""How code classifies the bytes and characters that it looks at (P07): from every
place that loads one, each possible value is propagated through the control flow
as far as that value decides it. Values that lead to different effects are told
apart there."""
from chars import XML_WS, UNICODE_WS, ASCII_WS, PREDICATES, SAMPLE
from core import Undecided

BYTES = tuple(range(256))
LIMIT = 400
SPLITTERS = {'split_whitespace': UNICODE_WS, 'split_ascii_whitespace': ASCII_WS, 'trim': UNICODE_WS, 'trim_start': UNICODE_WS,
             'trim_end': UNICODE_WS, 'trim_left': UNICODE_WS, 'trim_right': UNICODE_WS, 'trim_ascii': ASCII_WS,
             'trim_ascii_start': ASCII_WS, 'trim_ascii_end': ASCII_WS}
WRITERS = ('push', 'push_str', 'insert', 'insert_str', 'fill', 'resize', 'replace', 'replacen', 'join', 'replace_range', 'extend_from_slice')
COMPARE = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b,
           'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
TRAIT = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}


def is_char(t):
    return t['kind'] == 'char' or t['kind'] in ('uint', 'int') and t.get('name') == 'u8'


def code(t):
    return t['kind'] in ('char', 'uint', 'int', 'bool')


def reachable(prog, fn):
    """Everything that can be called from `fn`, closures it mentions included."""
    seen, todo = {}, [fn]
    while todo:
        f = todo.pop()
        if f.id in seen or f.body is None:
            continue
        seen[f.id] = f
        for l in f.locals:
            t = prog.ty(l)
            if t['kind'] in ('closure', 'fndef') and t.get('fn') is not None:
                todo.append(prog.fns[t['fn']])
        for b in f.blocks:
            c = b['t'].get('call')
            if c is None:
                continue
            if 'fn' in c:
                todo.append(prog.fns[c['fn']])
            for a in b['t']['args']:
                if 'k' in a:
                    t = prog.ty(a['ty'])
                    if t['kind'] in ('closure', 'fndef') and t.get('fn') is not None:
                        todo.append(prog.fns[t['fn']])
    return list(seen.values())


class Walk:
    """Follows one value; unknown values are None."""

    def __init__(self, prog):
        self.p = prog
        self.frames = []
        self.events = []
        self.steps = 0
        self.opaque = False     # did it go into something that is not understood?

    def place(self, p):
        v = self.frames[-1].get(p[0])
        for e in p[1:]:
            if v is None:
                return None
            if e == '*':
                if v[0] != 'r':
                    return None
                v = v[1]
            elif e[0] == 'f' and v[0] == 't' and e[1] < len(v[1]):
                v = v[1][e[1]]
            else:
                return None
        return v

    def operand(self, o):
        if 'k' in o:
            return self.const(o['k'], self.p.ty(o['ty']) if o.get('ty') is not None else None)
        return self.place(o.get('c') or o.get('m'))

    def const(self, k, t):
        if 'i' in k and t is not None and code(t):
            return ('n', k['i'])
        if 'ref' in k:
            v = self.const(k['ref'], self.p.ty(k['ity']))
            return ('r', v) if v is not None else None
        if 'bytes' in k:
            return ('t', tuple([('n', x) for x in k['bytes']]))
        if 'arr' in k and t is not None:
            xs = tuple([self.const(x, self.p.ty(t['elem'])) for x in k['arr']])
            return ('t', xs) if all(x is not None for x in xs) else None
        if 'str' in k:
            return ('t', tuple([('n', b) for b in k['str'].encode()]))
        return None

    def rvalue(self, r):
        if 'use' in r:
            return self.operand(r['use'])
        if 'ref' in r:
            v = self.place(r['ref'])
            return ('r', v) if v is not None else None
        if 'agg' in r:
            if r['k'] in ('tuple', 'closure', 'array'):
                return ('t', tuple([self.operand(o) for o in r['agg']]))
            return None
        if 'bin' in r:
            a, b = self.operand(r['a']), self.operand(r['b'])
            op = r['bin']
            if a is not None and b is not None and a[0] == b[0] == 'n':
                if op in COMPARE:
                    return ('n', int(COMPARE[op](a[1], b[1])))
                if op == 'BitOr':
                    return ('n', a[1] | b[1])
                if op == 'BitAnd':
                    return ('n', a[1] & b[1])
                if op == 'Sub' and self.p.ty(r['oty'])['kind'] == 'uint':
                    return ('n', (a[1] - b[1]) % (1 << self.p.ty(r['oty'])['bits']))
            if op == 'BitAnd' and ('n', 0) in (a, b):
                return ('n', 0)
            return None
        if 'un' in r:
            v = self.operand(r['a'])
            if v is not None and v[0] == 'n' and r['un'] == 'Not':
                return ('n', 1 - v[1]) if v[1] in (0, 1) else None
            return None
        if 'cast' in r:
            v = self.operand(r['op'])
            t = self.p.ty(r['to'])
            if v is not None and v[0] == 'n' and t['kind'] in ('char', 'uint', 'int') and v[1] < 1 << t.get('bits', 32):
                return v
            return v if v is not None and v[0] in ('r', 't') and 'vt' not in r else None
        return None

    def call(self, t):
        """The result, 'enter' or None if unknown."""
        c = t['call']
        args = [self.operand(a) for a in t['args']]
        if 'fn' not in c:
            return None, args
        f = self.p.fns[c['fn']]
        name = f.key.replace(':', ' ').split()[-1]

        def num(v):
            while v is not None and v[0] == 'r':
                v = v[1]
            return v[1] if v is not None and v[0] == 'n' else None
        if name in PREDICATES and args and num(args[0]) is not None:
            return ('n', int(PREDICATES[name](num(args[0])))), args
        if name in TRAIT and len(args) == 2 and num(args[0]) is not None and num(args[1]) is not None:
            return ('n', int(COMPARE[TRAIT[name]](num(args[0]), num(args[1])))), args
        if name in ('from', 'into', 'clone', 'deref', 'borrow') and len(args) == 1 and num(args[0]) is not None and not f.krate.startswith('static_xml'):
            return ('n', num(args[0])), args
        if name == 'contains' and len(args) == 2 and num(args[1]) is not None:
            v = args[0]
            while v is not None and v[0] == 'r':
                v = v[1]
            if v is not None and v[0] == 't' and all(x is not None and x[0] == 'n' for x in v[1]):
                return ('n', int(any(x[1] == num(args[1]) for x in v[1]))), args
        if f.body is not None and f.krate.startswith('static_xml') and len(self.frames) < 6 and any(has_number(a) for a in args):
            return ('enter', f), args
        if any(has_number(a) for a in args) and name not in WRITERS:
            self.opaque = True
        return None, args

    def run(self, f, bb, i, env):
        """Where the value leads from statement `i` of block `bb`."""
        self.frames = [env]
        stack = [(f, None)]
        while True:
            self.steps += 1
            f = stack[-1][0]
            b = f.blocks[bb]
            for st in b['s'][i:]:
                if 'dead' in st:
                    self.frames[-1].pop(st['dead'], None)
                    continue
                if 'sd' in st:
                    continue
                v = self.rvalue(st['r'])
                p = st['p']
                if len(p) == 1:
                    self.set(p[0], v)
                elif '*' in p:
                    self.events.append(('store', f.id, bb, st.get('sp')))
                else:
                    self.frames[-1].pop(p[0], None)
            i = 0
            t = b['t']
            if self.steps > LIMIT:
                raise Undecided('a classification takes too long')
            if 'goto' in t:
                bb = t['goto']
                if not stack[-1][1] and bb in f.heads and len(stack) == 1:
                    return self.stop(f, bb)
                continue
            if 'switch' in t:
                v = self.operand(t['switch'])
                if v is None or v[0] != 'n':
                    return self.stop(f, bb)
                bb = dict(t['targets']).get(v[1], t['otherwise'])
                continue
            if 'assert' in t:
                v = self.operand(t['assert'])
                bb = t['target']
                continue
            if 'drop' in t:
                bb = t['target']
                continue
            if 'ret' in t:
                v = self.frames[-1].get(0)
                if len(stack) == 1:
                    self.events.append(('ret', v if v is None or v[0] == 'n' and v[1] in (0, 1) else 'value'))
                    return self.stop(f, bb)
                stack.pop()
                self.frames.pop()
                f, at = stack[-1][0], None
                bb = stack[-1][1]
                stack[-1] = (f, None)
                t = f.blocks[bb]['t']
                self.put_result(t, v)
                bb = t['target']
                continue
            if 'call' in t:
                r, args = self.call(t)
                if r is not None and r[0] == 'enter':
                    g = r[1]
                    self.p.flow(g)
                    stack[-1] = (f, bb)
                    stack.append((g, None))
                    env = {}
                    if g.kind == 'closure' and len(args) == 2 and args[1] is not None and args[1][0] == 't' and g.nargs == 1 + len(args[1][1]):
                        args = [args[0]] + list(args[1][1])
                    for k, a in enumerate(args):
                        if a is not None:
                            env[k + 1] = a
                    self.frames.append(env)
                    bb = 0
                    continue
                if r is None:
                    self.events.append(('call', f.id, bb, t.get('sp')))
                self.put_result(t, r)
                if t.get('target') is None:
                    return self.stop(f, bb)
                bb = t['target']
                continue
            return self.stop(f, bb)

    def set(self, l, v):
        if v is None:
            self.frames[-1].pop(l, None)
        else:
            self.frames[-1][l] = v

    def put_result(self, t, v):
        if len(t['dest']) == 1:
            self.set(t['dest'][0], v)

    def stop(self, f, bb):
        bools = tuple(sorted((l, v) for l, v in self.frames[-1].items() if self.p.ty(f.locals[l])['kind'] == 'bool' and (
            l in f.taken or l in f.live[bb])))
        return (f.id, bb, len(self.frames), bools, tuple(self.events))


def has_number(v):
    return v is not None and (v[0] == 'n' or v[0] == 'r' and has_number(v[1]) or v[0] == 't' and any(has_number(x) for x in v[1]))


def loads(prog, f):
    """Where a byte or character comes into a local of `f`: (block, statement, local)."""
    for l in range(1, f.nargs + 1):
        if is_char(prog.ty(f.locals[l])):
            yield 0, 0, l
    for bb, b in enumerate(f.blocks):
        for i, st in enumerate(b['s']):
            if 'r' not in st or 'use' not in st['r'] or len(st['p']) != 1 or not is_char(prog.ty(st['ty'])):
                continue
            p = st['r']['use'].get('c') or st['r']['use'].get('m')
            if p is not None and any(e == '*' or e[0] in ('f', 'i') for e in p[1:]):
                yield bb, i + 1, st['p'][0]


class Report:
    def __init__(self):
        self.findings = {}
        self.undecided = {}
        self.sites = []
        self.stores = 0
        self.functions = []


def show(c):
    return repr(chr(c)) if 32 < c < 127 else '0x%02X' % c if c < 256 else 'U+%04X' % c


def where(f, sp):
    return '%s at %s' % (f.name, sp)


def report(rep, key, f, sp, msg):
    rep.findings.setdefault(('P07',) + key, {'message': '%s (%s)' % (msg, where(f, sp))})


def classify(prog, fn):
    rep = Report()
    separated = set()
    complete = True
    for f in reachable(prog, fn):
        if not f.krate.startswith('static_xml'):
            continue
        prog.flow(f)
        rep.functions.append(f.name)
        for bb, i, l in loads(prog, f):
            t = prog.ty(f.locals[l])
            sp = (f.blocks[bb]['s'][i - 1] if i else f.blocks[bb]['t']).get('sp')
            sample = SAMPLE if t['kind'] == 'char' else BYTES
            classes = {}
            try:
                for n in sample:
                    env = {l: ('n', n)}
                    w = Walk(prog)
                    classes.setdefault(w.run(f, bb, i, env), []).append(n)
                    complete &= not w.opaque
            except Undecided as u:
                rep.undecided['%s in %s' % (u, f.name)] = 1
                complete = False
                continue
            other = [c for c in classes.values() if any(n not in XML_WS for n in c)]
            rep.sites.append('%s: %s' % (where(f, sp), [[show(n) for n in c][:6] for c in classes.values()]))
            if len(other) > 1:
                odd = min(other, key=len)
                report(rep, ('class', show(odd[0])), f, sp, '%s is treated differently from other characters that are not white space' % (
                    ', '.join(show(n) for n in odd[:4] if n not in XML_WS)))
            separated |= {n for n in XML_WS if not any(n in c for c in other)}
        for bb, b in enumerate(f.blocks):
            if b.get('cleanup'):
                continue
            for st in b['s']:
                if 'r' in st and len(st['p']) > 1 and any(e == '*' or e[0] == 'i' for e in st['p'][1:]) and is_char(prog.ty(st['ty'])):
                    rep.stores += 1
                    o = st['r'].get('use')
                    if o is None:
                        rep.undecided['a computed byte is stored in %s' % f.name] = 1
                    elif 'k' in o and o['k'].get('i') != 32:
                        report(rep, ('store', str(o['k'].get('i'))), f, st.get('sp'), 'a byte other than a space is written')
            t = b['t']
            c = t.get('call')
            if c is None or 'fn' not in c:
                continue
            g = prog.fns[c['fn']]
            name = g.key.replace(':', ' ').split()[-1]
            if name in SPLITTERS and g.key.split(':')[0] in ('str', 'slice'):
                bad = [n for n in SPLITTERS[name] if n not in XML_WS]
                report(rep, ('class', name), f, t.get('sp'), '%s treats %s as white space' % (name, ', '.join(map(show, bad[:4]))))
                separated |= set(XML_WS)
                continue
            if g.krate.startswith('static_xml'):
                continue
            if name in WRITERS:
                rep.stores += 1
                for a in t['args'][1:]:
                    if 'k' not in a:
                        continue
                    at = prog.ty(a['ty'])
                    if is_char(at) and a['k'].get('i') != 32 or 'str' in a['k'] and a['k']['str'].strip(' '):
                        report(rep, ('store', name), f, t.get('sp'), 'a character other than a space is written')
            if name in ('eq', 'ne') and len(t['args']) == 2:
                at = prog.ty(t['atys'][0])
                while at['kind'] == 'ref':
                    at = prog.ty(at['elem'])
                if is_char(at):
                    complete = False        # compared behind a reference
            if any(prog.ty(a)['kind'] in ('char', 'array') or prog.ty(a)['kind'] == 'ref' and prog.ty(prog.ty(a)['elem'])['kind'] in ('array',)
                   for a in t['atys'][1:]) and g.key.startswith('str::'):
                complete = False            # a pattern
    if complete and rep.sites:
        for n in XML_WS:
            if n not in separated:
                rep.findings.setdefault(('P07', 'missing', show(n)), {'message': '%s is not treated as white space (%s)' % (show(n), fn.name)})
    elif not complete:
        rep.undecided['not every classification in %s is understood' % fn.name] = 1
    return rep


if __name__ == '__main__':
    import sys
    from prog import Prog
    prog = Prog(sys.argv[1])
    r = classify(prog, prog.by_key['de::normalize'][0])
    print(r.sites, r.stores, r.functions)
    print(r.findings)
    print(r.undecided)
