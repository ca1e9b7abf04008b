"""Canonical states, joins by anti-unification, and the fixpoint driver."""
import time
from fractions import Fraction

from val import *
from core import *


def okey(k):
    return (str(k[0]), repr(k[1]))


# -- canonical form ----------------------------------------------------------

def clean(e, s):
    """Forgets locals that are never read again."""
    frames = [(f[0], f[1], True) for f in s.fr] + [(s.fn, s.bb, False)]
    dead = []
    for k in s.ob:
        if isinstance(k[0], int):
            fn, bb, inner = frames[k[0]]
            l = k[1]
            e.p.flow(fn)
            if l in fn.taken:
                continue
            if inner:
                t = fn.blocks[bb]['t']
                tg = t.get('target')
                live = fn.live[tg] if tg is not None else ()
                if l in live and not (len(t.get('dest', ())) == 1 and t['dest'][0] == l):
                    continue
                # Still needed to write the result through it.
                if len(t.get('dest', ())) > 1 and any(x == l for x in [t['dest'][0]]):
                    continue
                dead.append(k)
            elif s.i == 0 and l not in fn.live[bb]:
                dead.append(k)
    for k in dead:
        del s.ob[k]


def roots(s):
    ks = [k for k in s.ob if k[0] != 'h']
    ks.sort(key=lambda k: (0, k[0], k[1]) if isinstance(k[0], int) else (1, str(k[0]), k[1]))
    return ks


def visit(v, ptr, sy):
    """Calls `ptr(obj)` and `sy(sym)` in a fixed order."""
    k = v[0]
    if k == 'i':
        for x, _ in v[2]:
            sy(x)
    elif k == 'y':
        sy(v[1])
    elif k == 'a':
        for x in v[2]:
            visit(x, ptr, sy)
    elif k == 't':
        for p in v[1]:
            if not isinstance(p, str):
                sy(p[1])
    elif k == 'p':
        ptr(v[1])
        for x in v[2]:
            if not isinstance(x, int):
                visit(x[1], ptr, sy)
    elif k == 'd':
        visit(v[1], ptr, sy)
    elif k == 'q':
        for g in v[1]:
            if g[0] == 'e':
                visit(g[1], ptr, sy)
            else:
                sy(g[1])
                visit(g[2], ptr, sy)


INFO = {}


def info(v):
    """The symbols and objects in `v`, in a fixed order. Values are shared by
    many states, so this is remembered by identity."""
    k = id(v)
    x = INFO.get(k)
    if x is not None and x[0] is v:
        return x[1]
    seen = {}

    def note(y):
        seen[y] = None
    visit(v, note, note)
    r = tuple(seen)
    if len(INFO) > 100000:
        INFO.clear()
    INFO[k] = (v, r)
    return r


def remap(v, om, sm):
    """Renames objects and symbols."""
    k = v[0]
    if k == 'i':
        if not v[2]:
            return v
        return ('i', v[1], tuple(sorted((sm[x], c) for x, c in v[2])))
    if k == 'y':
        return ('y', sm[v[1]])
    if k == 'a':
        return ('a', v[1], tuple([remap(x, om, sm) for x in v[2]]))
    if k == 't':
        return ('t', tuple([p if isinstance(p, str) else ('y', sm[p[1]]) for p in v[1]]))
    if k == 'p':
        return ('p', om.get(v[1], v[1]), tuple([x if isinstance(x, int) else ('i', remap(x[1], om, sm)) for x in v[2]]))
    if k == 'd':
        return ('d', remap(v[1], om, sm), v[2])
    if k == 'q':
        return ('q', tuple([('e', remap(g[1], om, sm)) if g[0] == 'e' else ('g', sm[g[1]], remap(g[2], om, sm)) for g in v[1]]))
    return v


def canon(e, s):
    """Brings `s` into a canonical form (in place)."""
    clean(e, s)
    om = {}
    sm = {}
    order = []

    def visit(v):
        for x in info(v):
            if isinstance(x, int):
                if x not in sm:
                    sm[x] = (len(sm) + 1) * 2 + (x & 1)
            elif x[0] == 'h' and x not in om:
                om[x] = ('h', len(om))
                order.append(x)

    for v in s.ent:
        visit(v)
    for k in sorted(s.mon):
        visit(s.mon[k])
    for k in roots(s):
        visit(s.ob[k])
    if s.retv is not None:
        visit(s.retv)
    i = 0
    while i < len(order):
        v = s.ob.get(order[i])
        if v is not None:
            visit(v)
        i += 1
    moved = {x for x, y in sm.items() if x != y}
    moved.update([x for x, y in om.items() if x != y])

    def renamed(v):
        return v if moved.isdisjoint(info(v)) else remap(v, om, sm)

    ob = {}
    for k, v in s.ob.items():
        if k[0] == 'h':
            if k not in om:
                continue
            ob[om[k]] = renamed(v)
        else:
            ob[k] = renamed(v)
    s.ob = ob
    s.mon = {k: renamed(v) for k, v in s.mon.items()}
    s.ent = tuple([renamed(v) for v in s.ent])
    if s.retv is not None:
        s.retv = renamed(s.retv)
    memo = {}
    # Facts may mention results that nothing else does.
    for (op, args), r in s.memo.items():
        if not all([x in sm or not isinstance(x, int) and (x[0] != 'h' or x in om) for a in args for x in info(a)]):
            continue
        if not all([x in sm for x in info(r) if isinstance(x, int)]):
            continue
        a2 = tuple([renamed(a) for a in args])
        if op in SYMMETRIC and repr(a2[1]) < repr(a2[0]):
            a2 = (a2[1], a2[0])
        memo[(op, a2)] = renamed(r)
    s.memo = memo
    s.n = (len(sm) + len(om)) * 2 + 4
    return s


def frozen(s):
    return (tuple(sorted(s.ob.items(), key=lambda x: okey(x[0]))), tuple(sorted(s.mon.items())), frozenset(s.memo.items()),
            s.ent, s.retv, s.taint)


def point(s):
    return (tuple([(f[0].id, f[1]) + f[2:] for f in s.fr]), s.fn.id, s.bb, s.i)


# -- shapes -------------------------------------------------------------------

def has_ptr(v):
    return bool(ptrs(v, []))


ATOMIC_A = {'Iter'}

# Texts that joins keep apart, and what makes an element of a sequence one
# that joins must not merge into a gap.
EQUAL_SEQS = True
PIVOT = False
WATCHED = set()
PINNED = None


def pinned(v):
    return PINNED is not None and PINNED(v)


def shape(v):
    k = v[0]
    if k == 'i':
        return 'i'
    if k == 't':
        return v if v in WATCHED else 't'
    if k == 'y':
        return 'y' if not v[1] & 1 else 'Y'
    if k == 'a':
        if v[1] in ATOMIC_A:
            return v
        return ('a', v[1], tuple([shape(x) for x in v[2]]))
    if k == 'p':
        return ('p', v[1], tuple([x if isinstance(x, int) else ('i', None if x[1][2] else x[1][1]) for x in v[2]]))
    if k == 'd':
        return ('d', shape(v[1]), v[2])
    if k == 'q':
        if has_ptr(v) or any(g[0] == 'e' and g[1][0] == 'f' for g in v[1]):
            return ('q', tuple([shape(g[1]) if g[0] == 'e' else 'g' for g in v[1]]))
        if PINNED is not None:
            return ('q', tuple([shape(g[1]) for g in v[1] if g[0] == 'e' and PINNED(g[1])]))
        return 'q'
    return v


def skeleton(s):
    return (tuple(sorted([(k, shape(v)) for k, v in s.ob.items()], key=lambda x: okey(x[0]))),
            tuple(sorted((k, shape(v)) for k, v in s.mon.items())),
            tuple([shape(v) for v in s.ent]), shape(s.retv) if s.retv is not None else None, s.taint, equal_seqs(s))


def equal_seqs(s):
    """Which sequences are the same: a relation that joins must not lose."""
    if not EQUAL_SEQS:
        return ()
    found = []

    def walk(v):
        k = v[0]
        if k == 'q':
            if v[1]:
                found.append(v)
            for g in v[1]:
                if g[0] == 'e':
                    walk(g[1])
        elif k == 'a':
            for x in v[2]:
                walk(x)

    for k in sorted(s.mon):
        walk(s.mon[k])
    for k in sorted(s.ob, key=okey):
        walk(s.ob[k])
    cls = {}
    out = []
    for v in found:
        out.append(cls.setdefault(v, len(cls)))
    return tuple(out)


# -- anti-unification -----------------------------------------------------------

class NoJoin(Exception):
    pass


def combination(v, basis):
    """Integer coefficients that make `v` of `basis`, if there are any."""
    if not basis:
        return None
    dims = sorted({d for b in basis for d in b} | set(v), key=repr)
    n = len(basis)
    rows = [[Fraction(b.get(d, 0)) for b in basis] + [Fraction(v.get(d, 0))] for d in dims]
    piv = []
    r = 0
    for c in range(n):
        for i in range(r, len(rows)):
            if rows[i][c]:
                break
        else:
            return None     # the basis is independent, so this cannot be
        rows[r], rows[i] = rows[i], rows[r]
        f = rows[r][c]
        rows[r] = [x / f for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        piv.append(r)
        r += 1
    if any(rows[i][n] for i in range(r, len(rows))):
        return None
    co = [rows[i][n] for i in range(n)]
    if any(x.denominator != 1 for x in co):
        return None
    return [int(x) for x in co]


class AU:
    """Least general generalisation of two states of the same shape."""

    def __init__(self, a, b, suffix=False):
        self.a = a
        self.b = b
        self.suffix = suffix
        self.pairs = {}         # (kind, x, y) -> symbol
        self.n = 2
        self.lins = []          # first pass: all pairs of linear terms
        self.first = True
        self.shared = []        # joined sequences: (left, right, result)
        self.texts = []         # joined texts: (left, right, result)
        self.pin_a = {}         # pinned symbol of a -> of b
        self.pins = set()
        self.cls = {}           # class of linear pairs -> [symbol, k of a, lower bound]
        self.back = {}          # new symbol -> value on the side of a

    def sym(self, taint=False):
        self.n += 2
        return self.n | 1 if taint else self.n

    def pair(self, kind, x, y, taint=False):
        k = (kind, x, y)
        s = self.pairs.get(k)
        if s is None:
            s = self.pairs[k] = self.sym(taint)
            self.back[s] = (kind, x)
        return s

    # -- integers
    def residual(self, x, y):
        """Takes the pinned symbols, which are the same on both sides, out."""
        dx, dy = dict(x[2]), dict(y[2])
        common = {}
        for s, c in list(dx.items()):
            t = self.pin_a.get(s)
            if t is not None and dy.get(t) == c:
                del dx[s], dy[t]
                common[s] = c
        return lin(x[1], dx), lin(y[1], dy), common

    def lint(self, x, y):
        if self.first:
            self.lins.append((x, y))
            return x
        rx, ry, common = self.residual(x, y)
        out = ('i', 0, ())
        for s, c in common.items():
            out = ladd(out, ('i', 0, ((self.pair('n', s, self.pin_a[s]), c),)))
        if not rx[2] and not ry[2] and rx[1] == ry[1]:
            return ladd(out, I(rx[1]))
        key = (rx[2], ry[2], ry[1] - rx[1])
        k = rx[1]
        for c, u, kmin, lb in self.cls[key]:
            out = ladd(out, lsym(u), c)
            k -= c * (kmin - lb)
        return ladd(out, I(k))

    def solve_lins(self):
        groups = {}
        for x, y in self.lins:
            rx, ry, common = self.residual(x, y)
            if not rx[2] and not ry[2] and rx[1] == ry[1]:
                continue
            key = (rx[2], ry[2], ry[1] - rx[1])
            groups.setdefault(key, []).append((rx[1], ry[1]))
        basis = []              # (vector, (symbol, value on the left, lower bound), key)
        vs = []
        redo = False
        for key, l in sorted(groups.items(), key=lambda kv: len(kv[0][0]) + len(kv[0][1])):
            kx, ky = min(l)
            lbs = []
            for terms, k in ((key[0], kx), (key[1], ky)):
                lbs.append(k if k >= 0 and all(c > 0 for _, c in terms) else 0)
            lb = min(lbs)
            v = {('x', s): c for s, c in key[0]}
            v.update({('y', s): c for s, c in key[1]})
            if key[2]:
                v['d'] = key[2]
            co = combination(v, [b[0] for b in basis])
            if co is not None:
                if PIVOT and lb == 0 and sum(c for c in co if c > 0) == 1 and min(co) < 0:
                    # What is subtracted is added to this instead, which is natural then.
                    j = co.index(1)
                    if all(c in (-1, 0, 1) for c in co) and self.cls[basis[j][2]] == [(1,) + basis[j][1]]:
                        u = self.sym()
                        basis[j] = (v, (u, kx, lb), key)
                        self.back[u] = ('n', lin(kx - lb, dict(key[0])))
                        vs.append((key, v))
                        redo = True
                        continue
                vs.append((key, v))
                self.cls[key] = [(c, ) + b[1] for c, b in zip(co, basis) if c]
                continue
            u = self.sym()
            basis.append((v, (u, kx, lb), key))
            vs.append((key, v))
            self.cls[key] = [(1, u, kx, lb)]
            self.back[u] = ('n', lin(kx - lb, dict(key[0])))
        if redo:
            for key, v in vs:
                self.cls[key] = [(c,) + b[1] for c, b in zip(combination(v, [b[0] for b in basis]), basis) if c]

    # -- everything
    def val(self, x, y):
        k = x[0]
        if k != y[0]:
            raise NoJoin()
        if k == 'i':
            if not x[2] and x == y:
                return x
            return self.lint(x, y)
        if k == 'y':
            return ('y', self.pair('y', x[1], y[1], bool((x[1] | y[1]) & 1)))
        if k == 't':
            if self.first or (x == y and all(isinstance(p, str) for p in x[1])):
                return self.plain(x, y)
            # Texts that extend ones seen before, at either end, still do.
            best = None
            for p, q, r in self.texts if len(x[1]) != 1 or len(y[1]) != 1 else ():
                n, m = len(p), len(q)
                if best is not None and n + m <= best[0] + best[1]:
                    continue
                i, j = len(x[1]) - n, len(y[1]) - m
                if i < 0 or j < 0:
                    continue
                if x[1][:n] == p and y[1][:m] == q:
                    best = (n, m, r, False, ('t', x[1][n:]), ('t', y[1][m:]))
                elif x[1][i:] == p and y[1][j:] == q:
                    best = (n, m, r, True, ('t', x[1][:i]), ('t', y[1][:j]))
            if best is not None:
                n, m, r, end, rx, ry = best
                if not rx[1] and not ry[1]:
                    return r
                z = self.val(rx, ry)
                z = text(list(z[1] + r[1] if end else r[1] + z[1]))
                self.texts.append((x[1], y[1], z))
                return z
            z = self.plain(x, y)
            if not self.first:
                self.texts.append((x[1], y[1], z))
            return z
        if k == 'a':
            if x[1] != y[1] or len(x[2]) != len(y[2]):
                raise NoJoin()
            return ('a', x[1], tuple([self.val(p, q) for p, q in zip(x[2], y[2])]))
        return self.other(x, y)

    def plain(self, x, y):
        if x == y and all(isinstance(p, str) for p in x[1]):
            return x
        tn = tainted(x) or tainted(y)
        # Common structure is kept.
        if len(x[1]) == len(y[1]) and len(x[1]) > 1 and all(
                isinstance(p, str) == isinstance(q, str) and (not isinstance(p, str) or p == q) for p, q in zip(x[1], y[1])):
            out = []
            for p, q in zip(x[1], y[1]):
                if isinstance(p, str):
                    out.append(p)
                else:
                    out.append(('y', self.pair('t', ('t', (p,)), ('t', (q,)), tn)))
            return text(out)
        return ('t', (('y', self.pair('t', x, y, tn)),))

    def other(self, x, y):
        k = x[0]
        if k == 'p':
            if x[1] != y[1] or len(x[2]) != len(y[2]):
                raise NoJoin()
            path = []
            for p, q in zip(x[2], y[2]):
                if isinstance(p, int) or isinstance(q, int):
                    if p != q:
                        raise NoJoin()
                    path.append(p)
                else:
                    path.append(('i', self.val(p[1], q[1])))
            return ('p', x[1], tuple(path))
        if k == 'd':
            if x[2] != y[2]:
                raise NoJoin()
            return ('d', self.val(x[1], y[1]), x[2])
        if k == 'q':
            return self.seqs(x, y)
        if x != y:
            raise NoJoin()
        return x

    def gap(self, xs, ys):
        """A gap that stands for `xs` on one side and `ys` on the other."""
        xs, ys = tuple(xs), tuple(ys)
        if not xs and not ys:
            return []
        if len(xs) == 1 and len(ys) == 1 and xs[0][0] == ys[0][0] == 'g':
            s = self.pair('g', xs, ys, bool((xs[0][1] | ys[0][1]) & 1))
        else:
            s = self.pair('g', xs, ys)
        return [('g', s, self.lint(qlen(('q', xs)), qlen(('q', ys))))]

    def same(self, p, q):
        return shape(p) == shape(q)

    def seqs(self, x, y):
        # Sequences that extend ones seen before, at either end, still do.
        best = None
        for p, q, r in self.shared:
            n, m = len(p), len(q)
            rank = (n + m, bool(n and m))
            if best is not None and rank <= best[0]:
                continue
            if x[1][:n] == p and y[1][:m] == q:
                best = (rank, n, m, r, False)
            elif x[1][len(x[1]) - n:] == p and y[1][len(y[1]) - m:] == q and n <= len(x[1]) and m <= len(y[1]):
                best = (rank, n, m, r, True)
        if best is not None:
            _, n, m, r, end = best
            if n == len(x[1]) and m == len(y[1]):
                return ('q', r)
            if end:
                out = seq(list(self.seqs2(x[1][:len(x[1]) - n], y[1][:len(y[1]) - m])[1]) + list(r))
            else:
                out = seq(list(r) + list(self.seqs2(x[1][n:], y[1][m:])[1]))
            self.shared.append((x[1], y[1], out[1]))
            return out
        out = self.seqs2(x[1], y[1])
        if not has_ptr(x):
            self.shared.append((x[1], y[1], out[1]))
        return out

    def seqs2(self, x, y):
        if PINNED is not None:
            px = [i for i, g in enumerate(x) if g[0] == 'e' and PINNED(g[1])]
            py = [i for i, g in enumerate(y) if g[0] == 'e' and PINNED(g[1])]
            if px or py:
                if len(px) != len(py):
                    raise NoJoin()
                out = []
                a = b = 0
                for i, j in zip(px, py):
                    out += self.seqs2(x[a:i], y[b:j])[1]
                    out.append(('e', self.val(x[i][1], y[j][1])))
                    a, b = i + 1, j + 1
                out += self.seqs2(x[a:], y[b:])[1]
                return seq(out)
        xs, ys = list(x), list(y)
        if self.suffix:
            post = []
            while xs and ys and xs[-1][0] == 'e' and ys[-1][0] == 'e' and self.same(xs[-1][1], ys[-1][1]):
                post.append(('e', self.val(xs.pop()[1], ys.pop()[1])))
            post.reverse()
            return seq(self.gap(xs, ys) + post)
        pre = []
        while xs and ys:
            a, b = xs[0], ys[0]
            if a[0] == 'e' and b[0] == 'e' and self.same(a[1], b[1]):
                pre.append(('e', self.val(a[1], b[1])))
            elif a[0] == 'g' and b[0] == 'g' and self.pin_a.get(a[1]) == b[1]:
                pre += self.gap([a], [b])
            elif a[0] == 'g' and b[0] == 'g' and len(xs) == 1 and len(ys) == 1:
                pre += self.gap([a], [b])
            elif a[0] == 'g' and b[0] == 'g' and len(xs) > 1 and len(ys) > 1:
                pre += self.gap([a], [b])
            else:
                break
            xs.pop(0)
            ys.pop(0)
        return seq(pre + self.gap(xs, ys))

    def run(self):
        a, b = self.a, self.b
        # Symbols of the entry state that are still unconstrained are the
        # fixed points of the generalisation.
        for x, y in zip(a.ent, b.ent):
            self.pin(x, y)
        # Shorter sequences first, as longer ones may extend them.
        pairs = self.seq_pairs()
        for x, y in pairs:
            self.seqs(x, y)
        self.collect()
        self.first = False
        self.shared = []
        self.solve_lins()
        for x, y in self.text_pairs():
            self.val(x, y)
        for x, y in pairs:
            self.seqs(x, y)
        return self.collect()

    def text_pairs(self):
        """Texts that lengthen on one side only: shorter ones first."""
        a, b = self.a, self.b
        out = {}

        def walk(x, y):
            k = x[0]
            if k != y[0]:
                return
            if k == 'a' and len(x[2]) == len(y[2]):
                for p, q in zip(x[2], y[2]):
                    walk(p, q)
            elif k == 'd':
                walk(x[1], y[1])
            elif k == 't' and (x[1] or y[1]) and not (x == y and all(isinstance(p, str) for p in x[1])):
                out[x, y] = len(x[1]) + len(y[1])
        for k in sorted(a.mon):
            if k in b.mon:
                walk(a.mon[k], b.mon[k])
        for k in sorted(a.ob, key=okey):
            if k in b.ob:
                walk(a.ob[k], b.ob[k])
        if a.retv is not None and b.retv is not None:
            walk(a.retv, b.retv)
        if len(out) < 2 or all(len(p[0][1]) == len(p[1][1]) == 1 for p in out):
            return []
        return sorted(out, key=lambda p: out[p])

    def seq_pairs(self):
        a, b = self.a, self.b
        out = {}

        def walk(x, y):
            k = x[0]
            if k != y[0]:
                return
            if k == 'a' and len(x[2]) == len(y[2]):
                for p, q in zip(x[2], y[2]):
                    walk(p, q)
            elif k == 'd':
                walk(x[1], y[1])
            elif k == 'q' and (x[1] or y[1]) and not has_ptr(x):
                out[x, y] = len(x[1]) + len(y[1])

        for x, y in zip(a.ent, b.ent):
            walk(x, y)
        for k in sorted(a.mon):
            if k in b.mon:
                walk(a.mon[k], b.mon[k])
        for k in sorted(a.ob, key=okey):
            if k in b.ob:
                walk(a.ob[k], b.ob[k])
        if a.retv is not None and b.retv is not None:
            walk(a.retv, b.retv)
        if len(out) < 2:
            return []
        return sorted(out, key=lambda p: out[p])

    def pin(self, x, y):
        if x[0] != y[0]:
            return
        if x[0] == 'i' and x[1] == 0 and y[1] == 0 and len(x[2]) == len(y[2]) == 1 and x[2][0][1] == y[2][0][1] == 1:
            self.pin_a.setdefault(x[2][0][0], y[2][0][0])
        elif x[0] == 'q' and len(x[1]) == len(y[1]) == 1 and x[1][0][0] == y[1][0][0] == 'g':
            self.pin_a.setdefault(x[1][0][1], y[1][0][1])

    def collect(self):
        a, b = self.a, self.b
        s = a.copy()
        s.ent = tuple([self.val(x, y) for x, y in zip(a.ent, b.ent)])
        if set(a.mon) != set(b.mon) or set(a.ob) != set(b.ob):
            raise NoJoin()
        s.mon = {k: self.val(a.mon[k], b.mon[k]) for k in sorted(a.mon)}
        s.ob = {k: self.val(a.ob[k], b.ob[k]) for k in sorted(a.ob, key=okey)}
        s.retv = self.val(a.retv, b.retv) if a.retv is not None else None
        if self.first:
            return s
        s.taint = a.taint
        s.memo = {}
        n0 = self.n
        for (op, args), r in a.memo.items():
            for (op2, args2), r2 in b.memo.items():
                if op != op2 or len(args) != len(args2):
                    continue
                try:
                    sa = tuple([self.known(x, y) for x, y in zip(args, args2)])
                    sr = self.known(r, r2)
                except NoJoin:
                    continue
                if op in SYMMETRIC and repr(sa[1]) < repr(sa[0]):
                    sa = (sa[1], sa[0])
                s.memo[(op, sa)] = sr
                break
        self.lost = len(a.memo) - len(s.memo)
        s.n = self.n + 2
        return s

    def known(self, x, y):
        """Like `val`, but only over pairs that already have a symbol."""
        k = x[0]
        if k != y[0]:
            raise NoJoin()
        if k == 'i':
            if not x[2] and x == y:
                return x
            rx, ry, common = self.residual(x, y)
            if any(('n', s, self.pin_a[s]) not in self.pairs for s in common):
                raise NoJoin()
            if (rx[2] or ry[2] or rx[1] != ry[1]) and (rx[2], ry[2], ry[1] - rx[1]) not in self.cls:
                raise NoJoin()
            return self.lint(x, y)
        if k == 'y':
            if ('y', x[1], y[1]) not in self.pairs:
                raise NoJoin()
            return self.val(x, y)
        if k == 't':
            if x == y and all(isinstance(p, str) for p in x[1]):
                return x
            if ('t', x, y) in self.pairs:
                return self.val(x, y)
            raise NoJoin()
        if k == 'a':
            if x[1] != y[1] or len(x[2]) != len(y[2]):
                raise NoJoin()
            return ('a', x[1], tuple([self.known(p, q) for p, q in zip(x[2], y[2])]))
        if k == 'q':
            if len(x[1]) != len(y[1]):
                raise NoJoin()
            out = []
            for p, q in zip(x[1], y[1]):
                if p[0] != q[0]:
                    raise NoJoin()
                if p[0] == 'e':
                    out.append(('e', self.known(p[1], q[1])))
                elif ('g', (p,), (q,)) in self.pairs:
                    out += self.gap([p], [q])
                else:
                    raise NoJoin()
            return ('q', tuple(out))
        if k in ('p', 'd'):
            if x != y:
                raise NoJoin()
            if has_ptr(x):
                return x
        if x != y:
            raise NoJoin()
        return x

    def covered(self):
        """Whether the result says no more than `a` (up to renaming)."""
        if self.lost:
            return False
        seen = {}
        for s, (kind, x) in self.back.items():
            if kind == 'n':
                if isinstance(x, int):
                    x = lsym(x)
                if x[1] != 0 or len(x[2]) != 1 or x[2][0][1] != 1:
                    return False
                b = ('n', x[2][0][0])
            elif kind == 'y':
                b = ('y', x)
            elif kind == 't':
                if len(x[1]) != 1 or isinstance(x[1][0], str):
                    return False
                b = ('t', x[1][0][1])
            else:
                if len(x) != 1 or x[0][0] != 'g':
                    return False
                b = ('g', x[0][1])
            if b in seen:
                return False
            seen[b] = s
        return True


def join(a, b, suffix=False):
    """(joined, covered)"""
    au = AU(a, b, suffix)
    r = au.run()
    return r, au.covered()


# -- the driver ---------------------------------------------------------------

class Solver:
    """Explores a root function and the recursive functions below it."""

    def __init__(self, e):
        self.e = e
        self.units = {}
        self.cap = 400
        self.nexits = []
        self.stats = {'joins': 0, 'dedup': 0, 'unit_restarts': 0, 'applications': 0}

    def root(self, fn, args=None, mon=None, init=None):
        """All final states of `fn`."""
        while True:
            try:
                return self.attempt(fn, args, mon or {}, init)
            except NewUnit as n:
                self.e.recursive.add(n.fn)
                for u in list(self.units):
                    del self.units[u]

    def attempt(self, fn, args, mon, init):
        e = self.e
        e.solver = self
        s = e.start(fn, args, mon)
        if init is not None:
            init(s)
        self.rootu = Unit(fn)
        self.work = []
        self.seen = set()
        self.heads = {}
        self.finals = []
        self.push(s, None)
        while self.work:
            s = self.work.pop()
            self.run(s)
        return self.finals

    def push(self, s, u):
        s.unit = u
        self.work.append(s)

    def live(self, s):
        u = s.unit
        return u is None or u[0].gen == u[1]

    def run(self, s):
        e = self.e
        while True:
            if not self.live(s):
                return
            if s.fn is None:
                return
            unit = s.unit
            e.forked = False
            try:
                r = e.step_block(s)
            except AtUnit as a:
                self.enter_unit(a.state, a.t, a.fn, a.args)
                return
            out = []
            for x in r:
                x.unit = unit
                if x.retv is not None:
                    self.exit(x)
                    continue
                if x.i == 0 and not e.forked and not self.arrive(x):
                    continue
                out.append(x)
            if len(out) != 1:
                e.nstates += len(out)
                if e.nstates > e.max_states:
                    raise Budget('states')
                self.work.extend(out)
                return
            s = out[0]

    def arrive(self, s):
        """Called at the start of a block; false if there is nothing new."""
        e = self.e
        fn = s.fn
        e.p.flow(fn)
        head = s.bb in fn.heads
        if not head and s.bb not in fn.merges:
            return True
        canon(e, s)
        key = (point(s), s.unit)
        if not head:
            h = hash((key, frozen(s)))
            if h in self.seen:
                self.stats['dedup'] += 1
                return False
            self.seen.add(h)
            return True
        sk = skeleton(s)
        tab = self.heads.setdefault(key, {})
        old = tab.get(sk)
        if old is None:
            if len(tab) > self.cap:
                raise Budget('shapes at a loop head in %s' % short(fn.name))
            tab[sk] = s.copy()
            return True
        r, cov = join(old, s)
        self.stats['joins'] += 1
        if cov:
            return False
        r.tr = s.tr
        r.unit = s.unit
        canon(e, r)
        sk2 = skeleton(r)
        if sk2 != sk:
            tab.setdefault(sk2, r.copy())
        tab[sk] = r.copy()
        s.ob, s.mon, s.memo, s.n, s.ent = r.ob, r.mon, r.memo, r.n, r.ent
        return True

    # -- recursive functions -------------------------------------------------
    def exit(self, s):
        u = s.unit
        if u is None:
            self.finals.append(s)
            return
        unit = u[0]
        s.fn = None
        s.fr = ()
        for k in [k for k in s.ob if isinstance(k[0], int)]:
            del s.ob[k]
        s.fn = unit.fn
        s.bb = 0
        s.i = 1
        canon(self.e, s)
        sk = skeleton(s)
        for x in unit.exits:
            if x[0] == sk:
                r, cov = join(x[1], s)
                if cov:
                    return
                r.tr = s.tr
                canon(self.e, r)
                x[1] = r
                break
        else:
            if len(unit.exits) > self.cap:
                raise Budget('exits of %s' % short(unit.fn.name))
            unit.exits.append([sk, s])
            x = unit.exits[-1]
        for c in list(unit.callers.values()):
            self.apply(unit, x[1], *c)

    def enter_unit(self, s, t, fn, args):
        """A call of a recursive function: joins the call's state into the
        function's entry and resumes with its known exits."""
        e = self.e
        caller = s.unit
        s = s.copy()
        s.unit = caller
        clean_args = args
        proj, omap = self.project(s, args, fn)
        key = (fn, skeleton(proj))
        u = self.units.get(key)
        if u is None:
            u = self.units[key] = Unit(fn)
            u.gen = 0
            u.callers = {}
            u.entry = proj
            self.stats.setdefault('units', 0)
            self.stats['units'] += 1
            if self.stats['units'] > 200:
                raise Budget('shapes of recursive calls')
            self.launch(u)
        else:
            r, cov = join(u.entry, proj, True)
            if not cov:
                self.canon_entry(r)
                u.entry = r
                u.gen += 1
                u.exits = []
                self.stats['unit_restarts'] += 1
                self.launch(u)
        for i, a in enumerate(args):
            s.ob[('z', i)] = a
        ck = (point(s), s.unit and (id(s.unit[0]), s.unit[1]), frozen(canon_call(e, s)))
        self.dead_callers(u)
        if ck in u.callers:
            return
        u.callers[ck] = (s, t, args, proj, omap)
        for x in list(u.exits):
            self.apply(u, x[1], *u.callers[ck])

    def dead_callers(self, u):
        for k in [k for k, c in u.callers.items() if not self.live(c[0])]:
            del u.callers[k]

    def project(self, s, args, fn):
        """The part of the state that the callee can see."""
        e = self.e
        p = s.copy()
        p.unit = None
        om = {}
        order = []

        def ptr(o):
            if o[0] != 'c' and o not in om:
                om[o] = ('u', len(order))
                order.append(o)

        def nothing(_):
            pass

        for a in args:
            visit(a, ptr, nothing)
        for k in sorted(s.mon):
            visit(s.mon[k], ptr, nothing)
        i = 0
        while i < len(order):
            v = s.ob.get(order[i])
            if v is not None:
                visit(v, ptr, nothing)
            i += 1
        sm = Ident()
        p.ob = {}
        for o in order:
            if o in s.ob:
                p.ob[om[o]] = remap(s.ob[o], om, sm)
        for i, a in enumerate(args):
            p.ob[(0, i + 1)] = remap(a, om, sm)
        p.mon = {k: remap(v, om, sm) for k, v in s.mon.items()}
        p.memo = dict(s.memo)
        p.ent = ()
        p.fr = ()
        p.fn = fn
        p.bb = 0
        p.i = 0
        p.retv = None
        self.canon_entry(p)
        return p, order

    def canon_entry(self, p):
        # Arguments are all live at the entry.
        sm = {}

        def sy(x):
            if x not in sm:
                sm[x] = (len(sm) + 1) * 2 + (x & 1)

        ks = sorted(p.ob, key=lambda k: (0, k[1]) if isinstance(k[0], int) else (1, k[1]))
        for k in ks:
            visit(p.ob[k], lambda o: None, sy)
        for k in sorted(p.mon):
            visit(p.mon[k], lambda o: None, sy)
        p.ob = {k: remap(p.ob[k], {}, sm) for k in ks}
        p.mon = {k: remap(v, {}, sm) for k, v in p.mon.items()}
        memo = {}
        for (op, args), r in p.memo.items():
            vs = set()
            for a in args:
                syms(a, vs)
            syms(r, vs)
            pp = []
            for a in args:
                ptrs(a, pp)
            if pp or not all(x in sm for x in vs):
                continue
            a2 = tuple([remap(a, {}, sm) for a in args])
            if op in SYMMETRIC and repr(a2[1]) < repr(a2[0]):
                a2 = (a2[1], a2[0])
            memo[(op, a2)] = remap(r, {}, sm)
        p.memo = memo
        p.n = len(sm) * 2 + 4

    def launch(self, u):
        s = u.entry.copy()
        # Remember the entry symbols, to relate exits to them.
        out = []
        seen = set()

        def walk(v):
            k = v[0]
            if k == 'i':
                for x, _ in v[2]:
                    if x not in seen:
                        seen.add(x)
                        out.append(lsym(x))
            elif k == 'y':
                if v[1] not in seen:
                    seen.add(v[1])
                    out.append(v)
            elif k == 't':
                for p in v[1]:
                    if not isinstance(p, str) and p[1] not in seen:
                        seen.add(p[1])
                        out.append(('t', (p,)))
            elif k == 'a':
                for x in v[2]:
                    walk(x)
            elif k == 'p':
                for x in v[2]:
                    if not isinstance(x, int):
                        walk(x[1])
            elif k == 'd':
                walk(v[1])
            elif k == 'q':
                for g in v[1]:
                    if g[0] == 'e':
                        walk(g[1])
                    else:
                        if g[1] not in seen:
                            seen.add(g[1])
                            out.append(('q', (g,)))
                        walk(g[2])

        ks = sorted(s.ob, key=lambda k: (0, k[1]) if isinstance(k[0], int) else (1, k[1]))
        for k in ks:
            walk(s.ob[k])
        for k in sorted(s.mon):
            walk(s.mon[k])
        u.pattern = tuple(out)
        s.ent = tuple(out)
        self.push(s, (u, u.gen))

    def apply(self, u, x, s, t, args, proj, order):
        """Resumes a call with one exit of the function."""
        if not self.live(s):
            return
        self.stats['applications'] += 1
        todo = [s]
        n = 0
        while todo:
            n += 1
            if n > 200:
                raise Budget('case splits at a recursive call')
            c = todo.pop().copy()
            c.unit = s.unit
            cargs = None
            try:
                self.apply_one(u, x, c, t, order)
            except Fork as f:
                for y in f.states:
                    y.unit = s.unit
                    todo.append(y)
                continue
            except Infeasible:
                continue
            except Undecided as ex:
                self.e.undecide('%s at a recursive call in %s' % (ex, short(s.fn.name)), s)
                continue
            if c.i == 0 and not self.arrive(c):
                continue
            self.e.nstates += 1
            if self.e.nstates > self.e.max_states:
                raise Budget('states')
            self.work.append(c)

    def apply_one(self, u, x, c, t, order):
        e = self.e
        # The caller's values of the entry pattern.
        argv = []
        while ('z', len(argv)) in c.ob:
            argv.append(c.ob[('z', len(argv))])
        om = {o: ('u', i) for i, o in enumerate(order)}
        sm = Ident()
        theta = {}      # entry pattern symbol -> caller's value
        m = Match(e, c, theta)
        ent = u.entry
        for i, a in enumerate(argv):
            if (0, i + 1) in ent.ob:
                m.match(ent.ob[(0, i + 1)], remap(a, om, sm))
        for i, o in enumerate(order):
            if ('u', i) in ent.ob:
                m.match(ent.ob[('u', i)], remap(c.ob[o], om, sm))
        for k in ent.mon:
            m.match(ent.mon[k], remap(c.mon[k], om, sm))
        m.finish()
        # Rename the exit's symbols apart.
        off = c.n + 2 + (c.n & 1)
        off += off & 1
        sh = Shift(off)
        heap = {}

        def ptr(o):
            if o[0] == 'h' and o not in heap:
                heap[o] = ('h', ('x', off + len(heap)))

        back = {('u', i): o for i, o in enumerate(order)}
        xs = x
        allv = list(xs.ob.values()) + list(xs.mon.values()) + ([xs.retv] if xs.retv is not None else [])
        for v in allv:
            visit(v, ptr, lambda _: None)
        for o in list(xs.ob):
            if o[0] == 'h':
                ptr(o)
        heap = {k: ('h', off + 2 * (i + 1) + xs.n + 10) for i, k in enumerate(heap)}
        c.n = off + xs.n + 10 + 2 * len(heap) + 4
        full = dict(back)
        full.update(heap)
        # Unify the exit's view of the entry symbols with the caller's.
        # The exit's symbols are solved first; facts about the caller's
        # symbols then follow from `subst`.
        pend = []
        for pv, xv in zip(u.pattern, xs.ent):
            actual = m.value(pv)
            if actual is None:
                continue
            pend.append((remap(xv, full, sh), remap(actual, back, sm)))
        new_ob = {}
        for o, v in xs.ob.items():
            new_ob[full.get(o, o)] = remap(v, full, sh)
        new_mon = {k: remap(v, full, sh) for k, v in xs.mon.items()}
        retv = remap(xs.retv, full, sh)
        facts = []
        for (op, a), r in xs.memo.items():
            facts.append(((op, tuple([remap(z, full, sh) for z in a])), remap(r, full, sh)))
        # Put the callee's result next to the caller's state, then unify.
        z = Joint(e, c, off)
        z.vals = {'ob': new_ob, 'mon': new_mon, 'ret': retv, 'facts': facts}
        z.unify(pend)
        tr = c.tr
        for o, v in z.vals['ob'].items():
            c.ob[o] = v
        c.mon.update(z.vals['mon'])
        for (op, a), r in z.vals['facts']:
            if op in SYMMETRIC and repr(a[1]) < repr(a[0]):
                a = (a[1], a[0])
            k = fact_eval(op, a)
            if k is not None:
                if k != r and k[0] == 'b' and r[0] == 'b':
                    raise Infeasible()
                continue
            o = c.memo.get((op, a))
            if o is not None and o != r and o[0] == 'b' and r[0] == 'b':
                raise Infeasible()
            c.memo[(op, a)] = r
        if xs.taint:
            c.taint = True
        c.note('= %s' % short(u.fn.name))
        c.tr = (c.tr, '  ... ' + str(last_note(xs)))
        for i in range(len(argv)):
            del c.ob[('z', i)]
        e.do_moves(c, t)
        q = e.finish_call(c, t, z.vals['ret'])
        if q is not None and not q:
            raise Infeasible()


def last_note(s):
    return s.tr[1] if s.tr else ''


def canon_call(e, s):
    c = s.copy()
    c.i = 1
    canon(e, c)
    return c


class Ident(dict):
    def __missing__(self, k):
        return k


class Shift(dict):
    def __init__(self, off):
        self.off = off

    def __missing__(self, k):
        return k + self.off


class Match:
    """Matches an entry pattern (which generalises the call's state)."""

    def __init__(self, e, c, theta):
        self.e = e
        self.c = c
        self.t = theta
        self.lins = []

    def match(self, p, v):
        k = p[0]
        if k == 'y':
            o = self.t.setdefault(('y', p[1]), v)
            return
        if k != v[0]:
            raise Undecided('a recursive call does not match its summary (%s/%s)' % (k, v[0]))
        if k == 'i':
            self.lins.append((p, v))
        elif k == 't':
            if len(p[1]) == 1 and not isinstance(p[1][0], str):
                self.t.setdefault(('t', p[1][0][1]), v)
            elif len(p[1]) == len(v[1]):
                for a, b in zip(p[1], v[1]):
                    if not isinstance(a, str):
                        self.t.setdefault(('t', a[1]), ('t', (b,)) if not isinstance(b, str) else txt(b))
        elif k == 'a':
            for a, b in zip(p[2], v[2]):
                self.match(a, b)
        elif k == 'p':
            for a, b in zip(p[2], v[2]):
                if not isinstance(a, int):
                    self.match(a[1], b[1])
        elif k == 'd':
            self.match(p[1], v[1])
        elif k == 'q':
            ps, vs = list(p[1]), list(v[1])
            if PINNED is not None:
                i = [n for n, g in enumerate(ps) if g[0] == 'e' and PINNED(g[1])]
                j = [n for n, g in enumerate(vs) if g[0] == 'e' and PINNED(g[1])]
                if i and len(i) == len(j):
                    a = b = 0
                    for m, n in zip(i, j):
                        self.match(('q', tuple(ps[a:m])), ('q', tuple(vs[b:n])))
                        self.match(ps[m][1], vs[n][1])
                        a, b = m + 1, n + 1
                    return self.match(('q', tuple(ps[a:])), ('q', tuple(vs[b:])))
            while ps and vs and ps[0][0] == 'e' and vs[0][0] == 'e':
                self.match(ps.pop(0)[1], vs.pop(0)[1])
            while ps and vs and ps[-1][0] == 'e' and vs[-1][0] == 'e':
                self.match(ps.pop()[1], vs.pop()[1])
            gs = [g for g in ps if g[0] == 'g']
            if len(ps) == 1 and gs:
                self.t.setdefault(('g', ps[0][1]), ('q', tuple(vs)))
                self.lins.append((ps[0][2], qlen(('q', tuple(vs)))))
            elif len(ps) == len(vs):
                for a, b in zip(ps, vs):
                    if a[0] == 'e' and b[0] == 'e':
                        self.match(a[1], b[1])
                    elif a[0] == 'g':
                        self.t.setdefault(('g', a[1]), ('q', (b,)))
                        self.lins.append((a[2], qlen(('q', (b,)))))
            elif ps:
                raise Undecided('a sequence at a recursive call does not match its summary')

    def finish(self):
        ch = True
        left = self.lins
        while ch and left:
            ch = False
            nxt = []
            for p, v in left:
                d = v
                unknown = []
                for s, c in p[2]:
                    x = self.t.get(('n', s))
                    if x is None:
                        unknown.append((s, c))
                    else:
                        d = ladd(d, x, -c)
                d = ladd(d, I(p[1]), -1)
                if not unknown:
                    continue
                if len(unknown) == 1 and unknown[0][1] == 1:
                    self.t[('n', unknown[0][0])] = d
                    ch = True
                else:
                    nxt.append((p, v))
            left = nxt

    def value(self, pv):
        k = pv[0]
        if k == 'i':
            return self.t.get(('n', pv[2][0][0]))
        if k == 'y':
            return self.t.get(('y', pv[1]))
        if k == 't':
            return self.t.get(('t', pv[1][0][1]))
        if k == 'q':
            return self.t.get(('g', pv[1][0][1]))


class Joint:
    """Unification of an exit's view of its entry with the caller's state.
    Symbols >= off belong to the exit."""

    def __init__(self, e, c, off):
        self.e = e
        self.c = c
        self.off = off
        self.vals = None

    def bind(self, m):
        v = self.vals
        v['ob'] = {k: sub(x, m) for k, x in v['ob'].items()}
        v['mon'] = {k: sub(x, m) for k, x in v['mon'].items()}
        v['ret'] = sub(v['ret'], m)
        v['facts'] = [((op, tuple([sub(z, m) for z in a])), sub(r, m)) for (op, a), r in v['facts']]
        self.pend = [(sub(a, m), sub(b, m)) for a, b in self.pend]

    def mine(self, s):
        return s > self.off

    def refine(self, m):
        """Refines the caller's state."""
        self.c.subst(m)
        self.bind(m)

    def unify(self, pend):
        # Integers first: they determine where sequences are cut.
        self.pend = [p for p in pend if p[0][0] == 'i'] + [p for p in pend if p[0][0] != 'i']
        n = 0
        while self.pend:
            n += 1
            if n > 4000:
                raise Undecided('unification at a recursive call')
            a, b = self.pend.pop(0)
            self.one(a, b)

    def one(self, a, b):
        if a == b:
            return
        ka, kb = a[0], b[0]
        if ka == 'y':
            if self.mine(a[1]):
                self.bind({a[1]: b})
                return
            if kb == 'y' and self.mine(b[1]):
                self.bind({b[1]: a})
                return
            self.refine({a[1]: b})
            return
        if kb == 'y':
            if self.mine(b[1]):
                self.bind({b[1]: a})
            else:
                # The callee has looked inside; so does the caller now.
                self.refine({b[1]: a})
            return
        if ka != kb:
            raise Undecided('unification of %s with %s' % (ka, kb))
        if ka == 'i':
            d = lsub(a, b)
            sg = lsign(d)
            if sg in (1, -1):
                raise Infeasible()
            for s, c in d[2]:
                if self.mine(s) and c in (1, -1):
                    rest = lsub(d, ('i', 0, ((s, c),)))
                    e = rest if c == -1 else lsub(I(0), rest)
                    if e[1] >= 0 and all(k > 0 for _, k in e[2]):
                        self.bind({s: e})
                        return
                    sign = lsign(e)
                    if sign == -1:
                        raise Infeasible()
                    if all(not self.mine(x) for x, _ in e[2]):
                        # Natural only in some of the caller's cases.
                        self.e.split_sign(self.c, e)
            if sg == 0:
                return
            if all(not self.mine(x) for x, _ in d[2]):
                if self.e.eq_int(self.c, a, b) == FALSE:
                    raise Infeasible()
                return
            for s, c in d[2]:
                if c in (1, -1):
                    rest = lsub(d, ('i', 0, ((s, c),)))
                    e = rest if c == -1 else lsub(I(0), rest)
                    if e[1] >= 0 and all(k > 0 for _, k in e[2]):
                        (self.bind if self.mine(s) else self.refine)({s: e})
                        return
            raise Undecided('integers at a recursive call')
        if ka == 't':
            for p, o in ((a, b), (b, a)):
                if len(p[1]) == 1 and not isinstance(p[1][0], str) and self.mine(p[1][0][1]):
                    self.bind({p[1][0][1]: o})
                    return
            for p, o in ((a, b), (b, a)):
                if len(p[1]) == 1 and not isinstance(p[1][0], str):
                    self.refine({p[1][0][1]: o})
                    return
            x, y = text_const(a), text_const(b)
            if x is not None and y is not None:
                raise Infeasible()
            return
        if ka == 'a':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                raise Infeasible()
            self.pend = list(zip(a[2], b[2])) + self.pend
            return
        if ka == 'q':
            return self.seqs(list(a[1]), list(b[1]))
        if ka in ('p', 'd'):
            if ka == 'p' and a[1] == b[1] and len(a[2]) == len(b[2]):
                for p, q in zip(a[2], b[2]):
                    if isinstance(p, int):
                        if p != q:
                            raise Infeasible()
                    else:
                        self.pend.append((p[1], q[1]))
                return
            if ka == 'p':
                # The callee has followed a pointer the caller knows as another object.
                raise Undecided('pointers at a recursive call')
        raise Infeasible()

    def seqs(self, xs, ys):
        la, lb = qlen(('q', tuple(xs))), qlen(('q', tuple(ys)))
        if la != lb:
            d = lsub(la, lb)
            if lsign(d) in (1, -1):
                raise Infeasible()
            self.pend = [(la, lb), (('q', tuple(xs)), ('q', tuple(ys)))] + self.pend
            if getattr(self, 'last', None) == (la, lb):
                raise Undecided('sequence lengths at a recursive call')
            self.last = (la, lb)
            return
        while xs and ys:
            a, b = xs[0], ys[0]
            if a == b:
                xs.pop(0)
                ys.pop(0)
                continue
            if a[0] == 'e' and b[0] == 'e':
                xs.pop(0)
                ys.pop(0)
                self.pend.append((a[1], b[1]))
                continue
            if a[0] == 'g' and b[0] == 'g' and a[2] == b[2]:
                xs.pop(0)
                ys.pop(0)
                m = {a[1]: ('q', (b,))} if self.mine(a[1]) else {b[1]: ('q', (a,))}
                self.pend.append((('q', tuple(xs)), ('q', tuple(ys))))
                if self.mine(list(m)[0]):
                    self.bind(m)
                else:
                    self.refine(m)
                return
            # A gap of the exit takes up as much of the other side as is as long.
            for p, q, sw in ((xs, ys, False), (ys, xs, True)):
                if p[0][0] == 'g' and self.mine(p[0][1]):
                    take = self.take(q, p[0][2])
                    if take is not None:
                        g = p.pop(0)
                        t = q[:take]
                        del q[:take]
                        self.pend.append((('q', tuple(xs)), ('q', tuple(ys))))
                        self.bind({g[1]: ('q', tuple(t))})
                        return
            for p, q in ((xs, ys), (ys, xs)):
                if p[0][0] == 'g' and not self.mine(p[0][1]):
                    take = self.take(q, p[0][2])
                    if take is not None:
                        g = p.pop(0)
                        t = q[:take]
                        del q[:take]
                        self.pend.append((('q', tuple(xs)), ('q', tuple(ys))))
                        self.refine({g[1]: ('q', tuple(t))})
                        return
            if xs[-1][0] == 'e' and ys[-1][0] == 'e':
                self.pend.append((xs.pop()[1], ys.pop()[1]))
                continue
            if a[0] == 'g' and b[0] == 'g':
                d = lsub(a[2], b[2])
                sg = lsign(d)
                big, small = (xs, ys) if sg in (1, '>=') else (ys, xs) if sg in (-1, '<=') else (None, None)
                if big is not None:
                    g, h = big[0], small[0]
                    rest = lsub(g[2], h[2])
                    n = self.fresh()
                    m = {g[1]: ('q', (h, ('g', n, rest)))}
                    self.pend.append((('q', tuple(xs)), ('q', tuple(ys))))
                    (self.bind if self.mine(g[1]) else self.refine)(m)
                    return
            if a[0] == 'g' and b[0] == 'e' or a[0] == 'e' and b[0] == 'g':
                g, q = (xs, ys) if a[0] == 'g' else (ys, xs)
                c = self.e.cmp(self.c, g[0][2], I(0)) if not any(self.mine(s) for s, _ in g[0][2][2]) else None
                if c == 0:
                    g.pop(0)
                    continue
                if c is not None and c > 0:
                    gg = g[0]
                    rest = lsub(gg[2], I(1))
                    n = self.fresh()
                    m = {gg[1]: seq([q[0], ('g', n, rest)])}
                    self.pend.append((('q', tuple(xs)), ('q', tuple(ys))))
                    (self.bind if self.mine(gg[1]) else self.refine)(m)
                    return
            raise Undecided('sequences at a recursive call')
        for p in (xs, ys):
            for g in p:
                if g[0] == 'e':
                    raise Infeasible()
                self.pend.append((g[2], I(0)))

    def fresh(self):
        self.c.n += 2
        return self.c.n - (self.c.n & 1)

    def take(self, q, n):
        """How many leading segments have the total length `n`."""
        tot = I(0)
        for i in range(len(q) + 1):
            if tot == n:
                return i
            if i < len(q):
                tot = ladd(tot, I(1) if q[i][0] == 'e' else q[i][2])
        return None


class AtUnit(Exception):
    def __init__(self, state, t, fn, args):
        self.state = state
        self.t = t
        self.fn = fn
        self.args = args


def call_unit(self, s, t, fn, args):
    raise AtUnit(s, t, fn, args)


Engine.call_unit = call_unit
