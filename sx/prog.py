"""The exported program: types, functions, control flow facts."""
import json
import re


def head(t):
    """Short name of a type's head constructor."""
    k = t['kind']
    if k == 'adt':
        return t['path'].split('::')[-1]
    if k in ('uint', 'int', 'float', 'other'):
        return t['name']
    return k


class Fn:
    __slots__ = ('id', 'd', 'key', 'name', 'body', 'nargs', 'locals', 'blocks', 'heads', 'merges',
                 'live', 'taken', 'ret', 'krate', 'kind', 'spread')

    def __repr__(self):
        return self.name


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.vtables = d['vtables']
        self.roots = dict(d['roots'])
        self.fns = []
        for f in d['fns']:
            self.fns.append(self.fn(f))
        self.ids = {}
        for i, t in enumerate(self.types):
            t['id'] = i
            self.ids.setdefault(t['name'], i)
        self.by_key = {}
        for f in self.fns:
            self.by_key.setdefault(f.key, []).append(f)

    def fn(self, d):
        f = Fn()
        f.id = d['id']
        f.d = d
        f.name = d['name']
        f.krate = d['krate']
        f.kind = d['kind']
        f.ret = d.get('ret')
        f.key = self.key(d)
        b = d.get('body')
        f.body = b
        if b is not None:
            f.nargs = b['nargs']
            f.spread = b['spread']
            f.locals = [l[0] for l in b['locals']]
            f.blocks = b['blocks']
            f.heads = None
        return f

    def flow(self, f):
        if f.heads is None:
            self.cfg(f)

    def key(self, d):
        it = d.get('item')
        k = d['kind']
        if k in ('drop_glue', 'closure', 'closure_once', 'fn_ptr_shim', 'clone_shim', 'reify', 'shim'):
            if k == 'fn_ptr_shim' or k == 'closure_once':
                return k
            return k
        if d['foreign'] or (d['krate'] == self.crate and it and '::' not in d['path']):
            return 'ext:' + it
        tr = d.get('impl_trait') or d.get('trait')
        if 'self_ty' in d:
            h = head(self.types[d['self_ty']])
            if d.get('impl_trait'):
                return '%s:%s:%s' % (h, tr.split('::')[-1], it)
            return '%s::%s' % (h, it)
        if d.get('trait'):
            return ':%s:%s' % (tr.split('::')[-1], it)
        p = re.sub(r'<[^<>]*>', '', d['path'])
        p = [x for x in p.split('::') if x]
        return '::'.join(p[-2:])

    def ty(self, i):
        return self.types[i]

    # -- control flow ------------------------------------------------------
    def succ(self, t):
        if 'goto' in t:
            return [t['goto']]
        if 'switch' in t:
            return [b for _, b in t['targets']] + [t['otherwise']]
        if 'drop' in t or 'call' in t or 'assert' in t:
            return [] if t.get('target') is None else [t['target']]
        return []

    def cfg(self, f):
        n = len(f.blocks)
        succ = [self.succ(b['t']) for b in f.blocks]
        heads = set()
        preds = [0] * n
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                preds[s] += 1
                if color[s] == 1:
                    heads.add(s)
                elif color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
        f.heads = heads
        f.merges = {b for b in range(n) if preds[b] > 1}
        # Liveness of locals whose address is never taken.
        taken = set()
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]

        for i in range(n):
            if not color[i]:
                continue
            u, d = use[i], de[i]

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_use(p):
                rd(p[0])
                for e in p[1:]:
                    if e[0] == 'i':
                        rd(e[1])

            def op(o):
                p = o.get('c') or o.get('m')
                if p is not None:
                    place_use(p)

            def asg(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    place_use(p)

            for s in f.blocks[i]['s']:
                if 'dead' in s:
                    d.add(s['dead'])
                    continue
                if 'sd' in s:
                    place_use(s['p'])
                    continue
                r = s['r']
                for k in ('use', 'repeat', 'op', 'a', 'b'):
                    if k in r and isinstance(r[k], dict):
                        op(r[k])
                if 'agg' in r:
                    for o in r['agg']:
                        op(o)
                if 'ref' in r:
                    place_use(r['ref'])
                    if '*' not in r['ref']:
                        taken.add(r['ref'][0])
                if 'discr' in r:
                    place_use(r['discr'])
                asg(s['p'])
            t = f.blocks[i]['t']
            if 'switch' in t:
                op(t['switch'])
            if 'assert' in t:
                op(t['assert'])
            if 'drop' in t:
                place_use(t['drop'])
                if '*' not in t['drop']:
                    taken.add(t['drop'][0])
            if 'call' in t:
                if 'fptr' in t['call']:
                    op(t['call']['fptr'])
                for a in t['args']:
                    op(a)
                # The destination is written on return.
                if len(t['dest']) == 1:
                    d.add(t['dest'][0])
                else:
                    place_use(t['dest'])
            if 'ret' in t:
                rd(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succ[i]:
                    out |= live[s]
                new = use[i] | (out - de[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        f.live = live
        f.taken = taken
