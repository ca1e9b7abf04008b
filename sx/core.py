"""Abstract interpreter over the exported MIR.

Values are Herbrand terms with linear integer terms, texts as concatenations,
and sequences as runs of known elements and unknown gaps (val.py).  A state is
a set of abstract objects plus the analysis' own ghost values.  Case splits
refine by substitution only, so no constraint solver is involved.  Loops and
recursive functions are solved by joining states of the same shape
(anti-unification, join.py) until a fixpoint is reached.
"""
import time

from val import *
from prog import head


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Found(Exception):
    """Stops an analysis at the finding that was looked for."""


class Budget(Exception):
    pass


class State:
    __slots__ = ('fr', 'fn', 'bb', 'i', 'ob', 'mon', 'memo', 'n', 'tr', 'ent', 'taint', 'unit', 'retv')

    def copy(self):
        s = State()
        s.fr = self.fr
        s.fn = self.fn
        s.bb = self.bb
        s.i = self.i
        s.ob = dict(self.ob)
        s.mon = dict(self.mon)
        s.memo = dict(self.memo)
        s.n = self.n
        s.tr = self.tr
        s.ent = self.ent
        s.taint = self.taint
        s.unit = self.unit
        s.retv = None
        return s

    def note(self, text):
        self.tr = (self.tr, text)

    def trace(self, n=80):
        out = []
        t = self.tr
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    # -- symbols -----------------------------------------------------------
    def sym(self, taint=False):
        self.n += 2
        return self.n | 1 if taint else self.n

    def nat(self):
        return lsym(self.sym())

    def y(self, taint=False):
        return ('y', self.sym(taint))

    def text(self, taint=False):
        return ('t', (('y', self.sym(taint)),))

    def gap(self):
        return ('q', (('g', self.sym(), self.nat()),))

    def heap(self, v):
        self.n += 2
        k = ('h', self.n)
        self.ob[k] = v
        return ('p', k, ())

    # -- substitution ------------------------------------------------------
    def subst(self, m):
        if not m:
            return
        todo = m
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 30:
                raise Undecided('facts do not settle')
            m = todo
            todo = {}
            for k, v in self.ob.items():
                w = sub(v, m)
                if w is not v:
                    self.ob[k] = w
            for k, v in self.mon.items():
                w = sub(v, m)
                if w is not v:
                    self.mon[k] = w
            if self.ent:
                self.ent = tuple([sub(v, m) for v in self.ent])
            if self.memo:
                new = {}
                ch = False
                for (op, args), r in self.memo.items():
                    a2 = tuple([sub(a, m) for a in args])
                    r2 = sub(r, m)
                    if a2 == args and r2 is r:
                        self.fact_put(new, op, args, r, todo)
                        continue
                    ch = True
                    if op in SYMMETRIC and repr(a2[1]) < repr(a2[0]):
                        a2 = (a2[1], a2[0])
                    known = fact_eval(op, a2)
                    if known is not None:
                        if known != r2:
                            self.unify_fact(known, r2, todo)
                        continue
                    self.fact_put(new, op, a2, r2, todo)
                if ch:
                    self.memo = new
            for k in todo:
                if sub(('y', k), todo) == ('y', k):
                    raise Infeasible()

    def fact_put(self, d, op, args, r, todo):
        k = (op, args)
        o = d.get(k)
        if o is None:
            d[k] = r
        elif o != r:
            self.unify_fact(o, r, todo)

    def unify_fact(self, a, b, todo):
        """Two results of the same pure operation have to be equal."""
        if a == b:
            return
        ka, kb = a[0], b[0]
        if ka == 'y':
            todo.setdefault(a[1], b)
            return
        if kb == 'y':
            todo.setdefault(b[1], a)
            return
        if ka == 'b' and kb == 'b':
            raise Infeasible()
        if ka == 'i' and kb == 'i':
            d = lsub(a, b)
            sg = lsign(d)
            if sg in (1, -1):
                raise Infeasible()
            for s, c in d[2]:
                if c in (1, -1):
                    rest = lsub(d, ('i', 0, ((s, c),)))
                    e = rest if c == -1 else lsub(I(0), rest)
                    if e[1] >= 0 and all(c > 0 for _, c in e[2]):
                        todo.setdefault(s, e)
                        return
            return
        if ka == 't' and kb == 't':
            if len(a[1]) == 1 and not isinstance(a[1][0], str):
                todo.setdefault(a[1][0][1], b)
                return
            if len(b[1]) == 1 and not isinstance(b[1][0], str):
                todo.setdefault(b[1][0][1], a)
                return
            if all(isinstance(p, str) for p in a[1] + b[1]):
                raise Infeasible()
            return
        if ka == 'a' and kb == 'a':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                raise Infeasible()
            for x, y in zip(a[2], b[2]):
                self.unify_fact(x, y, todo)
            return

    def fact(self, op, *args):
        if op in SYMMETRIC and repr(args[1]) < repr(args[0]):
            args = (args[1], args[0])
        k = fact_eval(op, args)
        if k is not None:
            return k
        return self.memo.get((op, args))

    def learn(self, op, args, v):
        if op in SYMMETRIC and repr(args[1]) < repr(args[0]):
            args = (args[1], args[0])
        self.memo[(op, tuple(args))] = v

    # -- places ------------------------------------------------------------
    def base(self):
        return len(self.fr)


SYMMETRIC = {'eq'}


def text_const(t):
    """The text's content if it is fully known."""
    p = t[1]
    if not p:
        return ''
    if len(p) == 1 and isinstance(p[0], str):
        return p[0]
    return None


def fact_eval(op, args):
    """Value of a pure predicate if its arguments determine it."""
    if op == 'eq':
        a, b = args
        if a == b:
            return TRUE
        return None if eq_known(a, b) is None else B(eq_known(a, b))
    if op == 'empty':
        t = args[0]
        if t[0] != 't':
            return None
        if not t[1]:
            return TRUE
        for p in t[1]:
            if isinstance(p, str):
                return FALSE
        return None
    return None


def eq_known(a, b):
    if a == b:
        return True
    ka, kb = a[0], b[0]
    if ka != kb:
        return None
    if ka == 'i':
        d = lsub(a, b)
        s = lsign(d)
        if s == 0:
            return True
        if s in (1, -1):
            return False
        return None
    if ka == 'b':
        return False
    if ka == 't':
        x, y = text_const(a), text_const(b)
        if x is not None and y is not None:
            return x == y
        return None
    if ka == 'a':
        if a[1] != b[1]:
            return False
        r = True
        for x, y in zip(a[2], b[2]):
            k = eq_known(x, y)
            if k is False:
                return False
            if k is None:
                r = None
        return r
    if ka == 'm' or ka == 'f':
        return a == b
    return None


def tainted(v):
    return any(s & 1 for s in syms(v, set()))


# Structs that are nothing but their content.
TRANSPARENT = {'MaybeUninit', 'ManuallyDrop', 'NonNull', 'Unique', 'MaybeDangling', 'UnsafeCell', 'Pin'}
TEXT_ADTS = {'alloc::string::String', 'std::string::String'}
SEQ_ADTS = {'alloc::vec::Vec', 'std::vec::Vec', 'std::collections::VecDeque'}
POINTER_ADTS = {'alloc::boxed::Box', 'std::boxed::Box', 'alloc::sync::Arc', 'std::sync::Arc', 'std::rc::Rc', 'alloc::rc::Rc'}


class Unit:
    """A function analysed on its own because it is recursive."""

    def __init__(self, fn):
        self.fn = fn
        self.entry = None       # (state, object keys)
        self.exits = []         # list of [skeleton, exit state]
        self.callers = []       # (state, arguments) waiting at a call site
        self.seen = set()


BEYOND = 1 << 40        # no count gets this far


def large(d):
    """Whether `d` compares a symbol with a constant too large to get at by counting."""
    return len(d[2]) == 1 and abs(d[2][0][1]) == 1 and abs(d[1]) > 3


class Engine:
    def __init__(self, prog, models, max_states=60000, max_time=600):
        self.p = prog
        self.models = models
        self.max_states = max_states
        self.max_time = max_time
        self.t0 = time.time()
        self.nstates = 0
        self.nsteps = 0
        self.undecided = {}
        self.mixed = False
        self.findings = {}
        self.visited = set()
        self.calls = set()
        self.unknown = {}
        self.acting = {}
        self.consts = {}
        self.const_cache = {}
        self.recursive = set()
        self.unroll = 0             # how deep recursion is followed before it is summarised
        self.skip_log = set()
        self.hook_panic = None
        self.hook_found = None
        self.inlined = set()
        self.no_merge = set()
        self.iter_copy = False      # iterators over unknown sequences yield copies
        self.any_maps = False       # maps may hold anything from the start
        self.wtexts = ()            # watched keys of maps
        self.wnames = ()
        self.wprefixes = None       # the same for maps of xml-rs, if they differ
        self.any_value = None       # what unwatched keys may hold
        self.any_key = None
        self.new_names = False      # no two unwatched names are the same
        self.mapping = None
        self.hook_init = None       # something is written without dropping what was there
        self.hook_uninit = None     # something is used as initialised
        self.strict = ()            # texts that no unknown text equals

    # -- reporting ---------------------------------------------------------
    def undecide(self, what, s=None):
        if what not in self.undecided:
            self.undecided[what] = s.trace(25) if s is not None else []
        if ' at a recursive call in ' in what and not self.mixed:
            # The states that meet at this call differ in ways that have no
            # summary: what follows from it may not be possible.
            self.mixed = True
            for k, f in self.findings.items():
                self.undecided['would be a finding, but behind a recursion without a summary: %s' % (k,)] = f['trace']
            self.findings.clear()

    def report(self, key, s, msg):
        """A possible violation. Not believed if unmodelled code is involved."""
        if s.taint or self.mixed:
            self.undecide('would be a finding, but behind %s: %s' % ('unmodelled code' if s.taint else 'a recursion without a summary', key), s)
            return
        if key not in self.findings:
            self.findings[key] = {'message': msg, 'trace': s.trace(), 'where': self.where(s)}
            if self.hook_found is not None:
                self.hook_found(key)

    def where(self, s):
        out = []
        for fn, bb, *_ in list(s.fr) + [(s.fn, s.bb)]:
            t = fn.blocks[bb]['t'] if fn is not None and fn.body else {}
            out.append('%s @ %s' % (fn.name, t.get('sp', '?')))
        return out

    # -- types -------------------------------------------------------------
    def ty(self, i):
        return self.p.types[i]

    def transparent(self, t):
        return t['kind'] == 'adt' and (t['akind'] == 'union' or t['path'].split('::')[-1] in TRANSPARENT)

    def fresh(self, s, t, taint=False):
        """An arbitrary value of type `t`."""
        t = self.ty(t) if isinstance(t, int) else t
        k = t['kind']
        if k == 'uint':
            return ('i', 0, ((s.sym(taint), 1),))
        if k == 'str':
            return s.text(taint)
        if k == 'ref' and self.ty(t['elem'])['kind'] == 'str':
            return s.text(taint)
        if k == 'slice':
            return ('q', (('g', s.sym(taint), s.nat()),))
        if k == 'array':
            return ('q', (('g', s.sym(taint), I(t['len'] or 0)),)) if t['len'] is not None else s.gap()
        if k == 'adt':
            if t['path'] in TEXT_ADTS:
                return s.text(taint)
            if t['path'] in SEQ_ADTS:
                return ('q', (('g', s.sym(taint), s.nat()),))
            if self.transparent(t) and t['args']:
                return self.fresh(s, t['args'][0], taint)
            if t['zst'] and t['akind'] == 'struct' and not t['variants'][0]['fields']:
                return UNIT
            return s.y(taint)
        if k == 'tuple' and not t['elems']:
            return UNIT
        if k == 'fndef':
            return ('f', t['fn']) if 'fn' in t else s.y(taint)
        if k == 'never':
            raise Infeasible()
        return s.y(taint)

    def uninhabited(self, t, depth=0):
        t = self.ty(t) if isinstance(t, int) else t
        if t['kind'] == 'never':
            return True
        if depth > 3:
            return False
        if t['kind'] == 'tuple':
            return any(self.uninhabited(e, depth + 1) for e in t['elems'])
        if t['kind'] == 'adt' and t['akind'] == 'enum':
            return all(any(self.uninhabited(f[1], depth + 1) for f in v['fields']) for v in t['variants'])
        if t['kind'] == 'adt' and t['akind'] == 'struct':
            return any(self.uninhabited(f[1], depth + 1) for f in t['variants'][0]['fields'])
        return False

    def field_types(self, t, variant):
        k = t['kind']
        if k == 'adt':
            vs = t['variants']
            if variant is None:
                variant = 0
            return [f[1] for f in vs[variant]['fields']]
        if k in ('tuple', 'closure'):
            return t['elems']
        return None

    def expand(self, s, symv, t, variant):
        """Replaces an unknown struct / tuple / variant by its fields."""
        fts = self.field_types(t, variant)
        if fts is None:
            raise Undecided('cannot expand a value of type %s' % t['name'])
        taint = bool(symv[1] & 1)
        v = ('a', variant or 0, tuple([self.fresh(s, f, taint) for f in fts]))
        s.subst({symv[1]: v})
        return v

    # -- objects -----------------------------------------------------------
    def obj(self, s, key):
        if key[0] == 'c':
            return self.consts[key]
        v = s.ob.get(key)
        if v is None:
            return UNDEF
        return v

    def get(self, s, key, path, et=None):
        v = self.obj(s, key)
        for j, st in enumerate(path):
            if isinstance(st, int):
                if v[0] != 'a':
                    if v[0] == '!':
                        return UNDEF
                    raise Undecided('field of %s' % (v[0],))
                v = v[2][st] if st < len(v[2]) else UNDEF
            else:
                if v[0] != 'q':
                    raise Undecided('index into %s' % (v[0],))
                v = self.seq_get(s, v, st[1], (key, path[:j]), et if j == len(path) - 1 else None)
        return v

    def put(self, s, key, path, val):
        if key[0] == 'c':
            raise Undecided('write to a constant')
        if not path:
            s.ob[key] = val
            return
        s.ob[key] = self.put_in(s, self.obj(s, key), path, val)

    def put_in(self, s, v, path, val):
        if not path:
            return val
        st = path[0]
        if isinstance(st, int):
            if v[0] == '!':
                v = ('a', 0, ())
            if v[0] != 'a':
                raise Undecided('write to a field of %s' % (v[0],))
            f = v[2]
            if st >= len(f):
                f = f + (UNDEF,) * (st + 1 - len(f))
            return ('a', v[1], f[:st] + (self.put_in(s, f[st], path[1:], val),) + f[st + 1:])
        if v[0] != 'q':
            raise Undecided('write to an element of %s' % (v[0],))
        pos = I(0)
        segs = v[1]
        for i, g in enumerate(segs):
            d = lsub(st[1], pos)
            if g[0] == 'e':
                if d == I(0):
                    return ('q', segs[:i] + (('e', self.put_in(s, g[1], path[1:], val)),) + segs[i + 1:])
                pos = ladd(pos, I(1))
            else:
                pos = ladd(pos, g[2])
        raise Undecided('write at an unknown index')

    def natural(self, s, q):
        """No part of a sequence has a negative length."""
        for g in q[1]:
            if g[0] == 'g' and lsign(g[2]) not in (0, 1, '>=') and self.cmp(s, g[2], I(0)) < 0:
                raise Infeasible()

    def seq_get(self, s, q, idx, loc=None, et=None):
        """Element `idx` of a sequence; the index has been checked."""
        self.natural(s, q)
        pos = I(0)
        for n, g in enumerate(q[1]):
            d = lsub(idx, pos)
            if g[0] == 'e':
                c = self.cmp(s, d, I(0))
                if c == 0:
                    return g[1]
                pos = ladd(pos, I(1))
            else:
                c = self.cmp(s, d, g[2])
                if c < 0:
                    # Split the gap around the element.
                    x = self.fresh(s, et, bool(g[1] & 1)) if et is not None else s.y(bool(g[1] & 1))
                    rest = lsub(lsub(g[2], d), I(1))
                    if not (rest[1] >= 0 and all(c > 0 for _, c in rest[2])):
                        # Make the remainder a natural number of its own first.
                        self.cmp_split(s, d, g[2])
                    self.split_gap(s, g, d, x)
                    raise Fork([s])
                pos = ladd(pos, g[2])
        raise Undecided('index beyond the end')

    def split_gap(self, s, g, d, x):
        taint = bool(g[1] & 1)
        rest = lsub(lsub(g[2], d), I(1))
        segs = []
        if d != I(0):
            segs.append(('g', s.sym(taint), d))
        segs.append(('e', x))
        if rest != I(0):
            segs.append(('g', s.sym(taint), rest))
        s.subst({g[1]: ('q', tuple(segs))})

    # -- linear terms ------------------------------------------------------
    def cmp(self, s, a, b):
        """Compares two naturals: -1, 0 or 1. Splits cases if need be."""
        d = lsub(a, b)
        sg = lsign(d)
        if sg in (-1, 0, 1):
            return sg
        if large(d):
            # Below, at or above a large constant, and known to be.
            y, c = d[2][0]
            v = -d[1] * c
            if s.fact('lt', lsym(y), I(v)) == TRUE:
                return -c
            s.taint = s.taint or bool(y & 1)
            out = [s.copy()]
            out[0].learn('lt', (lsym(y), I(v)), TRUE)
            for w in (I(v), None):
                t = s.copy()
                try:
                    t.subst({y: w or ladd(t.nat(), I(v + 1))})
                except Infeasible:
                    continue
                t.taint = t.taint or v > BEYOND
                out.append(t)
            raise Fork(out)
        self.split_sign(s, d)

    def cmp_split(self, s, a, b):
        self.split_sign(s, lsub(a, b))

    def split_sign(self, s, d):
        """Case split that makes progress in determining the sign of `d`."""
        pos = [(y, c) for y, c in d[2] if c > 0]
        neg = [(y, c) for y, c in d[2] if c < 0]
        out = []

        odd = any(y & 1 for y, _ in d[2])

        def case(m):
            t = s.copy()
            t.taint = t.taint or odd
            try:
                t.subst(m)
            except Infeasible:
                return
            out.append(t)

        if pos and neg:
            # Compare two symbols.
            a, b = pos[0][0], neg[0][0]
            t = s.copy()
            z = t.sym()
            case({a: ladd(lsym(b), lsym(z))})
            s2 = s.copy()
            z2 = s2.sym()
            case({b: ladd(ladd(lsym(a), lsym(z2)), I(1))})
            for t in out:
                t.n += 4
            raise Fork(out)
        y, c = (pos or neg)[0]
        z = s.n + 2 + (y & 1)
        case({y: I(0)})
        case({y: ladd(lsym(z), I(1))})
        for t in out:
            t.n += 4
        raise Fork(out)

    def eq_int(self, s, a, b):
        d = lsub(a, b)
        sg = lsign(d)
        if sg == 0:
            return TRUE
        if sg in (1, -1):
            return FALSE
        if len(d[2]) == 1 and abs(d[2][0][1]) == 1 and abs(d[1]) > 3:
            # Against a large constant: equal, or known not to be.
            y, c = d[2][0]
            v = -d[1] * c
            if v < 0:
                return FALSE
            k = s.fact('eq', lsym(y), I(v))
            if k is not None:
                return k
            s.taint = s.taint or bool(y & 1)
            t = s.copy()
            out = []
            t.learn('eq', (lsym(y), I(v)), FALSE)
            out.append(t)
            t = s.copy()
            try:
                t.subst({y: I(v)})
                t.taint = t.taint or v > BEYOND
                out.append(t)
            except Infeasible:
                pass
            raise Fork(out)
        self.split_sign(s, d)

    def lt_int(self, s, a, b):
        d = lsub(a, b)
        sg = lsign(d)
        if sg in (-1,):
            return TRUE
        if sg in (0, 1, '>='):
            return FALSE
        if large(d):
            y, c = d[2][0]
            v = -d[1] if c == 1 else d[1] + 1
            k = s.fact('lt', lsym(y), I(v))
            if k is not None:
                return k if c == 1 else B(k == FALSE)
            s.taint = s.taint or bool(y & 1)
            out = [s.copy()]
            out[0].learn('lt', (lsym(y), I(v)), TRUE)
            t = s.copy()
            try:
                t.subst({y: ladd(t.nat(), I(v))})
                t.taint = t.taint or v > BEYOND
                out.append(t)
            except Infeasible:
                pass
            raise Fork(out)
        self.split_sign(s, d)

    # -- texts -------------------------------------------------------------
    def text_empty(self, s, t):
        k = fact_eval('empty', (t,))
        if k is not None:
            return k
        if self.strict and txt('') in self.strict:
            return FALSE
        for p in t[1]:
            one = ('t', (p,))
            k = s.fact('empty', one)
            if k is None:
                a = s.copy()
                b = s.copy()
                if p[1] & 1:
                    a.taint = b.taint = True
                b.learn('empty', (one,), FALSE)
                out = [b]
                try:
                    a.subst({p[1]: txt('')})
                    out.append(a)
                except Infeasible:
                    pass
                raise Fork(out)
            if k == FALSE:
                return FALSE
        return TRUE

    def text_eq(self, s, a, b):
        if a == b:
            return TRUE
        x, y = text_const(a), text_const(b)
        if x is not None and y is not None:
            return B(x == y)
        if self.strict and (a in self.strict or b in self.strict):
            return FALSE        # unknown texts are none of the watched ones
        # Common prefixes and suffixes don't matter.
        pa, pb = list(a[1]), list(b[1])
        while pa and pb:
            if pa[0] == pb[0]:
                pa.pop(0)
                pb.pop(0)
                continue
            if isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return FALSE
                pa[0], pb[0] = pa[0][n:], pb[0][n:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
                continue
            break
        while pa and pb:
            if pa[-1] == pb[-1]:
                pa.pop()
                pb.pop()
                continue
            if isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if pa[-1][-n:] != pb[-1][-n:]:
                    return FALSE
                pa[-1], pb[-1] = pa[-1][:-n], pb[-1][:-n]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
                continue
            break
        a, b = ('t', tuple(pa)), ('t', tuple(pb))
        if not pa:
            return self.text_empty(s, b)
        if not pb:
            return self.text_empty(s, a)
        k = s.fact('eq', a, b)
        if k is not None:
            return k
        if text_const(a) is not None:
            a, b = b, a
        no = s.copy()
        no.learn('eq', (a, b), FALSE)
        out = [no]
        yes = s.copy()
        if tainted(a) or tainted(b):
            yes.taint = no.taint = True
        try:
            if len(a[1]) == 1 and ('y', a[1][0][1]) not in b[1]:
                # A clean symbol replaces a tainted one.
                if len(b[1]) == 1 and not isinstance(b[1][0], str) and a[1][0][1] % 2 == 0 and b[1][0][1] % 2:
                    a, b = b, a
                yes.subst({a[1][0][1]: b})
                out.append(yes)
            elif len(b[1]) == 1 and not isinstance(b[1][0], str) and b[1][0] not in a[1]:
                yes.subst({b[1][0][1]: a})
                out.append(yes)
            else:
                yes.learn('eq', (a, b), TRUE)
                out.append(yes)
        except Infeasible:
            pass
        raise Fork(out)

    def truth(self, s, v):
        """Decides a boolean, splitting cases."""
        if v[0] == 'b':
            return v[1]
        if v[0] == 'i' and not v[2]:
            return 1 if v[1] else 0
        if v[0] != 'y':
            raise Undecided('boolean %s' % (v[0],))
        out = []
        for x in (TRUE, FALSE):
            t = s.copy()
            if v[1] & 1:
                t.taint = True
            try:
                t.subst({v[1]: x})
                out.append(t)
            except Infeasible:
                pass
        raise Fork(out)

    def pick(self, s, v, t):
        """The variant of an enum value; splits cases if it is unknown."""
        t = self.ty(t) if isinstance(t, int) else t
        if v[0] == 'a':
            return v[1]
        if v[0] == '!':
            able = [i for i, var in enumerate(t['variants']) if not any(self.uninhabited(f[1]) for f in var['fields'])]
            if len(able) == 1 and not t['variants'][able[0]]['fields']:
                return able[0]      # has no representation
            raise Undecided('variant of an uninitialised value of type %s' % t['name'])
        if v[0] != 'y':
            raise Undecided('variant of %s' % (v[0],))
        out = []
        for i, var in enumerate(t['variants']):
            if any(self.uninhabited(f[1]) for f in var['fields']):
                continue
            n = s.copy()
            if v[1] & 1:
                n.taint = True
            fs = tuple([self.fresh(n, f[1], bool(v[1] & 1)) for f in var['fields']])
            try:
                n.subst({v[1]: ('a', i, fs)})
                out.append(n)
            except Infeasible:
                pass
        raise Fork(out)

    # -- places ------------------------------------------------------------
    def lv(self, s, place, base=None, fn=None, write=False):
        """Location of a place: (key, path, type) or ('v', value, type)."""
        fn = fn or s.fn
        base = len(s.fr) if base is None else base
        key = (base, place[0])
        path = ()
        t = self.ty(fn.locals[place[0]])
        val = None
        for n, e in enumerate(place[1:]):
            cur = self.get(s, key, path) if val is None else val
            if e == '*':
                if t['kind'] in ('ref', 'ptr'):
                    t2 = self.ty(t['elem'])
                elif t['kind'] == 'adt' and t['args']:
                    t2 = self.ty(t['args'][0])
                else:
                    raise Undecided('dereference of %s' % t['name'])
                if cur[0] == 'd':
                    cur = cur[1]
                if cur[0] == 'y':
                    taint = bool(cur[1] & 1)
                    o = s.heap(self.fresh(s, t2, taint))
                    s.subst({cur[1]: o})
                    cur = o
                if cur[0] == 'p':
                    key, path, val = cur[1], cur[2], None
                elif cur[0] == 't':
                    val = cur
                    key = 'v'
                elif cur[0] == '!':
                    raise Undecided('dereference of an uninitialised pointer')
                else:
                    raise Undecided('dereference of %s' % (cur[0],))
                t = t2
            elif e[0] == 'f':
                ft = self.ty(e[2])
                if self.transparent(t) or (t['kind'] == 'adt' and (t['box'] or t['path'] in POINTER_ADTS)):
                    t = ft
                    continue
                if cur[0] == 'y' and t['kind'] in ('adt', 'tuple', 'closure'):
                    self.expand(s, cur, t, e[3])
                    cur = self.get(s, key, path) if val is None else UNDEF
                    if cur is UNDEF:
                        raise Undecided('field of an unknown value')
                elif cur[0] == '!' and write:
                    nf = len(self.field_types(t, e[3]) or ())
                    self.put(s, key, path, ('a', e[3] or 0, (UNDEF,) * nf))
                elif cur[0] in ('p', 'd', 'q', 't') and t['kind'] == 'adt':
                    raise Undecided('field of modelled type %s' % t['name'])
                if val is not None:
                    if val[0] != 'a':
                        raise Undecided('field of a text')
                    val = val[2][e[1]]
                else:
                    path = path + (e[1],)
                t = ft
            elif e[0] in ('i', 'ci'):
                et = t.get('elem')
                if cur[0] != 'q':
                    raise Undecided('index into %s' % (cur[0],))
                if e[0] == 'i':
                    idx = self.get(s, (base, e[1]), ())
                    if idx[0] != 'i':
                        raise Undecided('opaque index')
                else:
                    idx = lsub(qlen(cur), I(e[1])) if e[3] else I(e[1])
                x = self.seq_get(s, cur, idx, None, et)
                if val is not None:
                    val = x
                else:
                    path = path + (('i', idx),)
                t = self.ty(et)
            elif e[0] == 'ss':
                if cur[0] != 'q':
                    raise Undecided('subslice of %s' % (cur[0],))
                end = lsub(qlen(cur), I(e[2])) if e[3] else I(e[2])
                _, r = self.seq_cut(s, cur, I(e[1]))
                r, _ = self.seq_cut(s, r, lsub(end, I(e[1])))
                val = r
                key = 'v'
            elif e[0] in ('d', 'nop'):
                pass
            else:
                raise Undecided('projection %s' % (e,))
        if val is not None:
            return ('v', val, t)
        return (key, path, t)

    def read(self, s, place):
        loc = self.lv(s, place)
        if loc[0] == 'v':
            return loc[1]
        return self.get(s, loc[0], loc[1])

    def write(self, s, place, v):
        if len(place) == 1:
            s.ob[(len(s.fr), place[0])] = v
            return
        loc = self.lv(s, place, write=True)
        if loc[0] == 'v':
            raise Undecided('write through a value')
        self.put(s, loc[0], loc[1], v)

    def seq_cut(self, s, q, at):
        """Splits a sequence at a position that is known to be within."""
        pos = I(0)
        segs = q[1]
        for n, g in enumerate(segs):
            d = lsub(at, pos)
            if d == I(0):
                return ('q', segs[:n]), ('q', segs[n:])
            c = self.cmp(s, d, I(0))
            if c <= 0:
                return ('q', segs[:n]), ('q', segs[n:])
            if g[0] == 'e':
                pos = ladd(pos, I(1))
                continue
            if d == g[2]:
                return ('q', segs[:n + 1]), ('q', segs[n + 1:])
            c = self.cmp(s, d, g[2])
            if c < 0:
                rest = lsub(g[2], d)
                if not (rest[1] >= 0 and all(c > 0 for _, c in rest[2])):
                    self.cmp_split(s, d, g[2])
                taint = bool(g[1] & 1)
                a, b = s.sym(taint), s.sym(taint)
                s.subst({g[1]: ('q', (('g', a, d), ('g', b, rest)))})
                raise Fork([s])
            pos = ladd(pos, g[2])
        return q, ('q', ())

    # -- operands ----------------------------------------------------------
    def operand(self, s, o):
        if 'c' in o:
            v = self.read(s, o['c'])
            return v
        if 'm' in o:
            return self.read(s, o['m'])
        return self.const(o)

    def moved(self, s, o):
        """The source of a move becomes uninitialised."""
        p = o.get('m')
        if p is None:
            return
        if len(p) == 1:
            if (len(s.fr), p[0]) in s.ob:
                s.ob[(len(s.fr), p[0])] = UNDEF
        elif '*' not in p:
            loc = self.lv(s, p)
            if loc[0] != 'v':
                self.put(s, loc[0], loc[1], UNDEF)

    def const(self, o):
        k = id(o)
        v = self.const_cache.get(k)
        if v is None:
            v = self.const_value(o['k'], o.get('ty'))
            self.const_cache[k] = v
        return v

    def const_value(self, k, ty):
        t = self.ty(ty) if ty is not None else None
        if 'i' in k:
            if t is not None and t['kind'] == 'bool':
                return B(k['i'])
            if t is not None and t['kind'] == 'int' and t['bits'] >= 32 and 0 <= k['i'] < 1 << (t['bits'] - 1):
                return I(k['i'])        # a counter
            if t is not None and t['kind'] in ('char', 'int'):
                return ('m', (t['kind'], k['i']))
            return I(k['i'])
        if 'str' in k:
            return txt(k['str'])
        if 'z' in k:
            if t is not None and t['kind'] == 'fndef':
                return ('f', t['fn']) if 'fn' in t else UNIT
            if t is not None and t['kind'] == 'array':
                return ('q', ())
            n = len(self.field_types(t, 0) or ()) if t is not None and t['kind'] in ('adt', 'tuple', 'closure') else 0
            if n:
                return ('a', 0, tuple([self.const_value({'z': True}, f) for f in self.field_types(t, 0)]))
            return UNIT
        if 'fnptr' in k:
            return ('f', k['fnptr'])
        if 'ref' in k:
            v = self.const_value(k['ref'], k['ity'])
            it = self.ty(k['ity'])
            if it['kind'] == 'ref' and v[0] == 't':
                pass
            key = ('c', len(self.consts))
            for kk, vv in self.consts.items():
                if vv == v:
                    key = kk
                    break
            self.consts[key] = v
            return ('p', key, ())
        if 'arr' in k:
            et = t['elem'] if t is not None else None
            return ('q', tuple([('e', self.const_value(x, et)) for x in k['arr']]))
        if 'adt' in k:
            if t is not None and t['kind'] == 'adt' and t['path'] in SEQ_ADTS:
                return ('q', ())
            if t is not None and t['kind'] == 'adt' and t['path'] in TEXT_ADTS:
                return txt('')
            vi = k['adt'] or 0
            fts = self.field_types(t, vi) if t is not None else [None] * len(k['fs'])
            if t is not None and self.transparent(t):
                return self.const_value(k['fs'][0], fts[0])
            return ('a', vi, tuple([self.const_value(x, ft) for x, ft in zip(k['fs'], fts)]))
        if 'fl' in k:
            return ('m', ('fl', k['fl']))
        return ('m', ('const', k.get('o', 'error'), t['name'] if t else ''))

    # -- statements --------------------------------------------------------
    def stmt(self, s, st):
        if 'dead' in st:
            s.ob.pop((len(s.fr), st['dead']), None)
            return
        if 'sd' in st:
            loc = self.lv(s, st['p'])
            v = self.get(s, loc[0], loc[1])
            t = loc[2]
            n = len(self.field_types(t, st['sd']) or ())
            fs = v[2] if v[0] == 'a' else ()
            fs = tuple(fs[:n]) + (UNDEF,) * (n - len(fs[:n]))
            self.put(s, loc[0], loc[1], ('a', st['sd'], fs))
            return
        r = st['r']
        v = self.rvalue(s, r, st)
        # Moves first: `x = f(move x)`.
        for k in ('use', 'op', 'repeat'):
            if k in r and isinstance(r[k], dict):
                self.moved(s, r[k])
        if 'agg' in r:
            for o in r['agg']:
                self.moved(s, o)
        self.write(s, st['p'], v)

    def rvalue(self, s, r, st):
        if 'use' in r:
            return self.operand(s, r['use'])
        if 'ref' in r:
            loc = self.lv(s, r['ref'], write=bool(r.get('raw')))
            if loc[0] == 'v':
                v = loc[1]
                if v[0] == 't':
                    return v
                return s.heap(v)
            t = loc[2]
            if self.hook_uninit is not None and '*' in r['ref'] and not r.get('raw') and not self.transparent(t):
                self.hook_uninit(self, s, self.get(s, loc[0], loc[1]), t)
            if t['kind'] == 'str':
                return self.get(s, loc[0], loc[1])
            if t['kind'] == 'dyn':
                # Reborrow of a trait object.
                p = r['ref']
                if p[-1] == '*':
                    return self.read(s, p[:-1])
            if r.get('packed'):
                s.note('misaligned reference')
                s.mon['packed'] = M(1)
            return ('p', loc[0], loc[1])
        if 'agg' in r:
            fs = tuple([self.operand(s, o) for o in r['agg']])
            k = r['k']
            if k == 'array':
                return ('q', tuple([('e', f) for f in fs]))
            if k == 'adt':
                t = self.ty(st['ty'])
                if self.transparent(t):
                    return fs[0] if fs else UNDEF
                return ('a', r['v'], fs)
            if k in ('tuple', 'closure'):
                return ('a', 0, fs)
            if k == 'rawptr':
                return fs[0]
            raise Undecided('aggregate %s' % k)
        if 'discr' in r:
            loc = self.lv(s, r['discr'])
            v = loc[1] if loc[0] == 'v' else self.get(s, loc[0], loc[1])
            t = self.ty(r['pty'])
            if t['kind'] != 'adt':
                return I(0)
            n = self.pick(s, v, t)
            d = t['variants'][n]['discr']
            dt = self.ty(st['ty'])
            if dt['kind'] == 'int':
                bits = dt['bits']
                d &= (1 << bits) - 1
                if d >> (bits - 1):
                    d -= 1 << bits
                return ('m', ('int', d))
            return I(d)
        if 'cast' in r:
            return self.cast(s, r)
        if 'bin' in r:
            return self.binop(s, r['bin'], self.operand(s, r['a']), self.operand(s, r['b']), self.ty(r['oty']))
        if 'un' in r:
            a = self.operand(s, r['a'])
            if r['un'] == 'Not':
                if a[0] == 'b':
                    return B(not a[1])
                if a[0] == 'y':
                    return B(not self.truth(s, a))
            if r['un'] == 'PtrMetadata':
                if a[0] == 't':
                    return self.text_len(s, a)
                if a[0] == 'p':
                    v = self.get(s, a[1], a[2])
                    if v[0] == 'q':
                        return qlen(v)
                raise Undecided('length of %s' % (a[0],))
            return self.pure(s, 'un:' + r['un'], (a,), st['ty'])
        if 'repeat' in r:
            v = self.operand(s, r['repeat'])
            if r['n'] is None or r['n'] > 64:
                return ('q', (('g', s.sym(), I(r['n'] or 0)),))
            return ('q', (('e', v),) * r['n'])
        raise Undecided('rvalue %s' % (list(r.values())[0],))

    def text_len(self, s, t):
        c = text_const(t)
        if c is not None:
            return I(len(c.encode()))
        n = I(0)
        for p in t[1]:
            if isinstance(p, str):
                n = ladd(n, I(len(p.encode())))
                continue
            one = ('t', (p,))
            e = self.text_empty(s, one)
            if e == TRUE:
                continue
            k = s.fact('len', one)
            if k is None:
                k = ladd(('i', 0, ((s.sym(bool(p[1] & 1)), 1),)), I(1))
                s.learn('len', (one,), k)
            n = ladd(n, k)
        return n

    def cast(self, s, r):
        v = self.operand(s, r['op'])
        to = self.ty(r['to'])
        fr = self.ty(r['from'])
        if 'vt' in r:
            if v[0] == 'y':
                el = fr.get('elem', (fr.get('args') or [None])[0])
                o = s.heap(self.fresh(s, el, bool(v[1] & 1)))
                s.subst({v[1]: o})
                v = o
            if v[0] == 'a' and len(v[2]) >= 1 and v[2][0][0] in ('p', 'd'):
                v = v[2][0]
            if v[0] == 't':
                # &str or &&str behind a trait object
                v = s.heap(v)
            return ('d', v, r['vt'])
        if r.get('pc') in ('ReifyFnPointer', 'ClosureFnPointer'):
            return ('f', r['fn']) if 'fn' in r else v
        if r.get('pc'):
            return v
        if r['cast'] in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'FnPtrToFnPtr', 'Subtype', 'PointerWithExposedProvenance'):
            return v
        if r['cast'] == 'IntToInt':
            if v[0] == 'b':
                return I(v[1]) if to['kind'] != 'int' else ('m', ('int', v[1]))
            if v[0] == 'i':
                if to['kind'] == 'uint' and fr['kind'] == 'uint':
                    if not v[2] and v[1] >= 1 << to['bits']:
                        return I(v[1] & ((1 << to['bits']) - 1))
                    if to['bits'] >= fr['bits'] or not v[2]:
                        return v
                if to['kind'] == 'int' and to['bits'] >= 32 and (v[2] or v[1] < 1 << (to['bits'] - 1)):
                    return v
                if to['kind'] == 'int' and not v[2]:
                    return ('m', ('int', v[1]))
                if fr['kind'] == 'int' and to['kind'] == 'uint' and v[2]:
                    return v
                if to['kind'] == 'char' and not v[2]:
                    return ('m', ('char', v[1]))
            if v[0] == 'm' and v[1][0] in ('int', 'char'):
                n = v[1][1]
                if to['kind'] == 'uint':
                    return I(n & ((1 << to['bits']) - 1))
                return ('m', (to['kind'], n))
            if v[0] == 'y' and fr['kind'] == 'bool':
                return I(self.truth(s, v))
        return self.pure(s, 'cast:%s:%s' % (fr['name'], to['name']), (v,), r['to'])

    def binop(self, s, op, a, b, t):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        over = 'WithOverflow' in op
        if t['kind'] == 'int':
            if a[0] == 'i' and not a[2] and b[0] == 'm':
                a = ('m', ('int', a[1]))
            elif b[0] == 'i' and not b[2] and a[0] == 'm':
                b = ('m', ('int', b[1]))
            elif a[0] == 'i' and b[0] == 'i' and base == 'Sub':
                v = lsub(a, b)
                if not (v[1] >= 0 and all(k > 0 for _, k in v[2])):
                    if v[2]:
                        return self.pure(s, 'bin:Sub', (a, b), t)
                    v = ('m', ('int', v[1]))
                return tup(v, FALSE) if over else v
        if a[0] == 'i' and b[0] == 'i':
            if base == 'Add':
                v = ladd(a, b)
                if over and v[2] and t['kind'] == 'uint' and t['bits'] <= 32:
                    # counters of usize cannot get this far
                    return tup(v, self.pure(s, 'overflow:%d' % t['bits'], (v,), 'bool', False))
                return tup(v, FALSE) if over else v
            if base == 'Sub':
                c = self.lt_int(s, a, b)
                if c == TRUE:
                    if over:
                        return tup(s.nat(), TRUE)
                    return self.pure(s, 'wrapping_sub', (a, b), t)
                v = lsub(a, b)
                if not (v[1] >= 0 and all(c > 0 for _, c in v[2])) and not (large(v) and v[1] > 0):
                    self.cmp_split(s, a, b)
                return tup(v, FALSE) if over else v
            if base == 'Mul' and (not a[2] or not b[2]):
                if a[2]:
                    a, b = b, a
                v = lin(a[1] * b[1], {k: c * a[1] for k, c in b[2]})
                return tup(v, FALSE) if over else v
            if base == 'Eq':
                return self.eq_int(s, a, b)
            if base == 'Ne':
                return B(self.eq_int(s, a, b) == FALSE)
            if base == 'Lt':
                return self.lt_int(s, a, b)
            if base == 'Ge':
                return B(self.lt_int(s, a, b) == FALSE)
            if base == 'Gt':
                return self.lt_int(s, b, a)
            if base == 'Le':
                return B(self.lt_int(s, b, a) == FALSE)
            if base == 'BitAnd' and I(0) in (a, b) or base == 'Mul' and I(0) in (a, b):
                return tup(I(0), FALSE) if over else I(0)
            if base in ('BitOr', 'BitXor', 'Shl', 'Shr') and b == I(0):
                return a
            if not a[2] and not b[2]:
                x, y = a[1], b[1]
                f = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Div': lambda: x // y, 'Rem': lambda: x % y,
                     'Shl': lambda: (x << y) & ((1 << t['bits']) - 1), 'Shr': lambda: x >> y}.get(base)
                if f is not None:
                    return I(f())
        if a[0] == 'm' and b[0] == 'm' and isinstance(a[1], tuple) and isinstance(b[1], tuple) and a[1][0] == b[1][0] \
                and a[1][0] in ('int', 'char'):
            x, y = a[1][1], b[1][1]
            f = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}
            if base in f:
                return B(f[base])
            g = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}
            if base in g:
                v = ('m', (a[1][0], g[base]))
                return tup(v, FALSE) if over else v
        if a[0] in ('b', 'y') and b[0] in ('b', 'y') and t['kind'] == 'bool':
            x = self.truth(s, a)
            y = self.truth(s, b)
            f = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Eq': x == y, 'Ne': x != y, 'Lt': x < y,
                 'Gt': x > y, 'Le': x <= y, 'Ge': x >= y}
            if base in f:
                return B(f[base])
        if base in ('Eq', 'Ne'):
            if a[0] in ('p', 'd') or b[0] in ('p', 'd'):
                r = B(a == b)
            else:
                r = self.equal(s, a, b)
            return r if base == 'Eq' else B(r == FALSE)
        r = self.pure(s, 'bin:' + base, (a, b), 'bool' if base in ('Lt', 'Le', 'Gt', 'Ge') else t)
        if over:
            return tup(r, self.pure(s, 'overflow:' + base, (a, b), 'bool'))
        return r

    def equal(self, s, a, b):
        """Structural equality of two values."""
        if a == b:
            return TRUE
        ka, kb = a[0], b[0]
        if ka == 'i' and kb == 'i':
            return self.eq_int(s, a, b)
        if ka == 't' and kb == 't':
            return self.text_eq(s, a, b)
        if ka == 'a' and kb == 'a':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return FALSE
            for x, y in zip(a[2], b[2]):
                if self.equal(s, x, y) == FALSE:
                    return FALSE
            return TRUE
        if ka == 'y' or kb == 'y':
            k = s.fact('eq', a, b)
            if k is not None:
                return k
            if ka != 'y' or (kb == 'y' and a[1] % 2 == 0 and b[1] % 2):
                a, b = b, a
            out = []
            no = s.copy()
            if (a[1] & 1) or tainted(b):
                no.taint = True
            no.learn('eq', (a, b), FALSE)
            out.append(no)
            yes = s.copy()
            if (a[1] & 1) or tainted(b):
                yes.taint = True
            try:
                yes.subst({a[1]: b})
                out.append(yes)
            except Infeasible:
                pass
            raise Fork(out)
        if ka == 'p' and kb == 'p':
            return self.equal(s, self.get(s, a[1], a[2]), self.get(s, b[1], b[2]))
        if ka == 'd' and kb == 'd':
            return self.equal(s, a[1], b[1])
        if ka == 'q' and kb == 'q':
            x, y = elems(a), elems(b)
            if x is not None and y is not None:
                if len(x) != len(y):
                    return FALSE
                for i, j in zip(x, y):
                    if self.equal(s, i, j) == FALSE:
                        return FALSE
                return TRUE
        if ka == kb == 'm':
            return FALSE
        if ka == kb == 'b':
            return FALSE
        return self.pure(s, 'eq?', (a, b), 'bool')

    def pure(self, s, op, args, ty, taint=True):
        """The (unknown) result of a deterministic, effect-free operation."""
        k = (op, tuple(args))
        v = s.memo.get(k)
        if v is None:
            if ty == 'bool':
                v = s.y(taint)
            else:
                v = self.fresh(s, ty, taint)
            s.memo[k] = v
        return v

    def snapshot(self, s, v, depth=0):
        """`v` with everything it points to, as a value."""
        if depth > 6:
            return ('m', 'deep')
        if v[0] == 'p':
            try:
                w = self.get(s, v[1], v[2])
            except Undecided:
                return ('m', ('ptr', repr(v)))
            return ('a', '&', (self.snapshot(s, w, depth + 1),))
        if v[0] == 'd':
            return ('a', '&dyn', (self.snapshot(s, v[1], depth + 1), ('m', v[2])))
        if v[0] == 'a':
            return ('a', v[1], tuple([self.snapshot(s, x, depth + 1) for x in v[2]]))
        if v[0] == 'q':
            return ('q', tuple([('e', self.snapshot(s, g[1], depth + 1)) if g[0] == 'e' else g for g in v[1]]))
        return v

    # -- terminators -------------------------------------------------------
    def goto(self, s, bb):
        s.bb = bb
        s.i = 0

    def term(self, s, t):
        """Executes a terminator. Returns None to carry on with `s`, or a
        list of successor states."""
        if 'goto' in t:
            self.goto(s, t['goto'])
            return None
        if 'switch' in t:
            return self.switch(s, t)
        if 'ret' in t:
            return self.ret(s)
        if 'call' in t:
            return self.call(s, t)
        if 'drop' in t:
            return self.drop(s, t)
        if 'assert' in t:
            v = self.operand(s, t['assert'])
            if bool(self.truth(s, v)) == t['expected']:
                self.goto(s, t['target'])
                return None
            self.panic(s, 'assert: ' + t['msg'])
            return []
        if 'unreachable' in t:
            return []
        if 'unwind' in t:
            return []
        raise Undecided('terminator %s' % (t.get('other'),))

    def switch(self, s, t):
        v = self.operand(s, t['switch'])
        if v[0] == 'b':
            v = I(v[1])
        elif v[0] == 'm' and isinstance(v[1], tuple) and v[1][0] in ('int', 'char'):
            v = I(v[1][1])
        elif v[0] == 'y':
            tg = [n for n, _ in t['targets']]
            if set(tg) <= {0, 1} and self.operand_ty(s, t['switch'])['kind'] == 'bool':
                v = I(self.truth(s, v))
            else:
                # char or signed integer
                kind = self.operand_ty(s, t['switch'])['kind']
                out = []
                for n, bb in t['targets']:
                    c = ('m', (kind, n))
                    if s.fact('eq', v, c) == FALSE:
                        continue
                    x = s.copy()
                    if v[1] & 1:
                        x.taint = True
                    try:
                        x.subst({v[1]: c})
                    except Infeasible:
                        continue
                    self.goto(x, bb)
                    out.append(x)
                x = s.copy()
                if v[1] & 1:
                    x.taint = True
                for n, bb in t['targets']:
                    x.learn('eq', (v, ('m', (kind, n))), FALSE)
                self.goto(x, t['otherwise'])
                out.append(x)
                return out
        if v[0] != 'i':
            raise Undecided('switch on %s' % (v[0],))
        for n, bb in t['targets']:
            if not v[2]:
                if v[1] == n:
                    self.goto(s, bb)
                    return None
            elif self.eq_int(s, v, I(n)) == TRUE:
                self.goto(s, bb)
                return None
        self.goto(s, t['otherwise'])
        return None

    def operand_ty(self, s, o):
        if 'k' in o:
            return self.ty(o['ty'])
        return self.lv(s, o.get('c') or o.get('m'))[2]

    def panic(self, s, what):
        if self.hook_panic is not None:
            self.hook_panic(self, s, what)

    def ret(self, s):
        v = s.ob.get((len(s.fr), 0), UNDEF)
        if v is UNDEF:
            rt = self.ty(s.fn.locals[0])
            if rt['kind'] == 'tuple' and not rt['elems']:
                v = UNIT
            elif rt['zst']:
                v = UNIT
        base = len(s.fr)
        for k in [k for k in s.ob if k[0] == base]:
            del s.ob[k]
        s.note('< %s' % short(s.fn.name))
        if not s.fr:
            s.retv = v
            return [s]
        caller = s.fr[-1]
        s.fr = s.fr[:-1]
        s.fn, s.bb = caller[0], caller[1]
        post = caller[2] if len(caller) > 2 else None
        t = s.fn.blocks[s.bb]['t']
        s.i = len(s.fn.blocks[s.bb]['s'])
        if post is not None:
            return self.posts[post](self, s, v, t)
        return self.finish_call(s, t, v)

    posts = {}

    def finish_call(self, s, t, v):
        if 'drop' in t:
            self.goto(s, t['target'])
            return None
        if t['target'] is None:
            return []
        self.write(s, t['dest'], v)
        self.goto(s, t['target'])
        return None

    def enter(self, s, fn, args, post=None):
        if fn.body is None:
            raise Undecided('no body: %s' % fn.name)
        if len(args) != fn.nargs:
            args = self.spread(s, fn, args)
        if len(args) != fn.nargs:
            raise Undecided('argument count of %s' % fn.name)
        s.fr = s.fr + (((s.fn, s.bb, post) if post is not None else (s.fn, s.bb)),)
        s.fn = fn
        s.bb = 0
        s.i = 0
        b = len(s.fr)
        for i, a in enumerate(args):
            s.ob[(b, i + 1)] = a
        s.note('> %s' % short(fn.name))
        return None

    def spread(self, s, fn, args):
        """The `rust-call` ABI passes the arguments as a tuple."""
        if fn.nargs > len(args) or fn.nargs < len(args):
            if args and len(args) == 2:
                a = args[1]
                if a[0] == 'y':
                    raise Undecided('unknown argument tuple')
                if a[0] == 'a':
                    return [args[0]] + list(a[2])
        return args

    def call(self, s, t):
        c = t['call']
        args = [self.operand(s, a) for a in t['args']]
        if 'fn' in c:
            fn = self.p.fns[c['fn']]
        else:
            f = self.operand(s, c['fptr'])
            if f[0] != 'f':
                return self.call_unknown(s, t, 'function pointer', args)
            fn = self.p.fns[f[1]]
        return self.dispatch(s, t, fn, args)

    def do_moves(self, s, t):
        for a in t.get('args', ()):
            self.moved(s, a)

    def dispatch(self, s, t, fn, args):
        if fn.kind == 'virtual':
            me = args[0]
            tr = fn.key
            m = self.models.get(tr)
            if m is not None and me[0] != 'd':
                r = self.call_model(s, t, fn, m, args)
                if r is not DEFAULT:
                    return r
            if me[0] == 'd':
                slots = self.p.vtables[me[2]]['slots']
                slot = fn.d.get('slot')
                target = slots[slot] if slot is not None and slot < len(slots) else None
                if target is None:
                    raise Undecided('virtual call %s' % fn.name)
                fn2 = self.p.fns[target]
                self.calls.add((s.fn.id, s.bb, fn2.id))
                return self.dispatch(s, t, fn2, [me[1]] + args[1:])
            return self.call_unknown(s, t, fn, args)
        self.calls.add((s.fn.id, s.bb, fn.id))
        m = self.models.get(fn.key)
        if m is not None:
            r = self.call_model(s, t, fn, m, args)
            if r is not DEFAULT:
                return r
        if fn.kind == 'fn_ptr_shim' or (fn.kind in ('closure_once',) and args and args[0][0] == 'f'):
            f = args[0]
            if f[0] == 'p':
                f = self.get(s, f[1], f[2])
            if f[0] == 'f':
                tupv = args[1]
                if tupv[0] == 'a':
                    return self.dispatch(s, t, self.p.fns[f[1]], list(tupv[2]))
        if fn.body is not None:
            if fn in self.recursive or sum(f[0] is fn for f in s.fr) + (s.fn is fn) > self.unroll:
                if fn not in self.recursive:
                    raise NewUnit(fn)
                return self.call_unit(s, t, fn, args)
            self.do_moves(s, t)
            # Tuple the arguments of closures called through the Fn traits.
            if fn.kind == 'closure' and len(args) == 2 and fn.nargs != 2 and args[1][0] == 'a':
                args = [args[0]] + list(args[1][2])
            elif fn.kind == 'closure' and len(args) == 2 and fn.nargs == 2 and args[1][0] == 'a' and self.is_tuple_arg(t, fn):
                args = [args[0]] + list(args[1][2])
            if fn.kind == 'closure' and args and fn.nargs:
                # A closure called by value that takes its environment by reference.
                et = self.ty(fn.locals[1])
                if et['kind'] == 'ref' and args[0][0] not in ('p', 'd', 'y'):
                    args[0] = s.heap(args[0])
            return self.enter(s, fn, args)
        if fn.d.get('ctor') or self.is_ctor(fn):
            v = self.ctor(fn, args)
            self.do_moves(s, t)
            return self.finish_call(s, t, v)
        return self.call_unknown(s, t, fn, args)

    def is_tuple_arg(self, t, fn):
        a = t.get('atys')
        if not a or len(a) != 2:
            return False
        at = self.ty(a[1])
        ft = self.ty(fn.locals[2])
        return at['kind'] == 'tuple' and at['id'] != ft['id']

    def is_ctor(self, fn):
        """Enum and tuple struct constructors used as functions."""
        rt = fn.ret
        if rt is None:
            return False
        t = self.ty(rt)
        if t['kind'] != 'adt':
            return False
        item = fn.d.get('item')
        if t['akind'] == 'struct':
            return item == t['path'].split('::')[-1] and fn.d['path'].endswith(item)
        pre = fn.d['path'].rsplit('::', 1)[0]
        return any(v['name'] == item for v in t['variants']) and \
            pre.split('<')[0].split('::')[-1] in (t['path'].split('::')[-1], '', 'v1')

    def ctor(self, fn, args):
        t = self.ty(fn.ret)
        item = fn.d.get('item')
        if t['akind'] == 'struct':
            return ('a', 0, tuple(args))
        for i, v in enumerate(t['variants']):
            if v['name'] == item:
                return ('a', i, tuple(args))
        raise Undecided('constructor %s' % fn.name)

    def call_model(self, s, t, fn, m, args):
        r = m(self, s, Call(self, t, fn, args), *args)
        if r is None:
            return DEFAULT
        if isinstance(r, Enter):
            self.do_moves(s, t)
            return self.enter(s, r.fn, r.args, r.post)
        if isinstance(r, Redirect):
            return self.dispatch(s, t, r.fn, r.args)
        if isinstance(r, list):
            out = []
            for x in r:
                s2, v = x
                try:
                    self.do_moves(s2, t)
                    q = self.finish_call(s2, t, v)
                except Infeasible:
                    continue
                if q is None:
                    out.append(s2)
                else:
                    out.extend(q)
            return out
        if r is NEVER:
            return []
        self.do_moves(s, t)
        return self.finish_call(s, t, r)

    def call_unknown(self, s, t, fn, args):
        name = fn if isinstance(fn, str) else fn.key
        self.unknown[name] = self.unknown.get(name, 0) + 1
        if not isinstance(fn, str) and fn.kind == 'drop_glue':
            self.do_moves(s, t)
            return self.finish_call(s, t, UNIT)
        if 'drop' in t:
            self.goto(s, t['target'])
            return None
        s.note('? %s' % name)
        snap = tuple([self.snapshot(s, a) for a in args])
        havoc = False
        if any(self.acts(ty) for ty in t.get('atys', ())):
            # It may do anything that what it is given can do.
            s.taint = True
        for a, ty in zip(args, t.get('atys', ())):
            at = self.ty(ty)
            if at['kind'] in ('ref', 'ptr') and at['mut'] and a[0] in ('p', 'd'):
                self.havoc(s, a)
                havoc = True
        if havoc:
            v = self.fresh(s, t['dty'], True)
        else:
            v = self.pure(s, 'call:' + name, snap, t['dty'])
        if t['target'] is None:
            self.panic(s, 'call of ' + name)
            return []
        self.do_moves(s, t)
        return self.finish_call(s, t, v)

    def acts(self, ty, nested=False):
        """Whether something of this type may have effects of its own when it is used."""
        k = (ty, nested)
        r = self.acting.get(k)
        if r is None:
            self.acting[k] = False
            t = self.ty(ty)
            kind = t['kind']
            r = kind in ('closure', 'dyn', 'fndef', 'fnptr') or kind == 'ref' and t['mut'] and nested
            if not r and t.get('elem') is not None:
                r = self.acts(t['elem'], True)
            for x in list(t.get('args') or ()) + list(t.get('elems') or ()):
                r = r or isinstance(x, int) and self.acts(x, True)
            self.acting[k] = r
        return r

    def havoc(self, s, p):
        if p[0] == 'd':
            p = p[1]
        if p[0] != 'p' or p[1][0] == 'c':
            return
        v = self.get(s, p[1], p[2])
        if v[0] == 't':
            w = s.text(True)
        elif v[0] == 'i':
            w = ('i', 0, ((s.sym(True), 1),))
        elif v[0] == 'q':
            w = ('q', (('g', s.sym(True), s.nat()),))
        else:
            w = s.y(True)
        self.put(s, p[1], p[2], w)
        s.taint = s.taint or v[0] in ('a', 'p', 'd')

    def drop(self, s, t):
        if 'fn' not in t:
            self.goto(s, t['target'])
            return None
        loc = self.lv(s, t['drop'])
        if loc[0] == 'v':
            self.goto(s, t['target'])
            return None
        v = self.get(s, loc[0], loc[1])
        fn = self.p.fns[t['fn']]
        if v[0] == '!' or (v[0] == 'a' and v[2] and all(x == UNDEF for x in v[2])):
            self.goto(s, t['target'])
            return None
        m = self.models.get('drop:' + head(self.ty(t['ty'])))
        if m is not None:
            r = m(self, s, ('p', loc[0], loc[1]), v, t)
            if r is not None:
                return r
            self.goto(s, t['target'])
            return None
        if fn.body is None:
            if v[0] != 'y':
                self.put(s, loc[0], loc[1], UNDEF)
            self.goto(s, t['target'])
            return None
        if v[0] == 'd':
            self.goto(s, t['target'])
            return None
        if fn in self.recursive:
            self.goto(s, t['target'])
            return None
        if any(f[0] is fn for f in s.fr):
            # Drop glue of recursive types has no effects of interest.
            self.goto(s, t['target'])
            return None
        return self.enter(s, fn, [('p', loc[0], loc[1])])

    # -- running -----------------------------------------------------------
    def start(self, fn, args, mon):
        s = State()
        s.fr = ()
        s.fn = fn
        s.bb = 0
        s.i = 0
        s.ob = {}
        s.mon = dict(mon)
        s.memo = {}
        s.n = 2
        s.tr = None
        s.ent = ()
        s.taint = False
        s.unit = None
        s.retv = None
        for i in range(fn.nargs):
            s.ob[(0, i + 1)] = args[i] if args is not None and args[i] is not None else self.fresh(s, fn.locals[i + 1])
        return s

    def tick(self):
        self.nsteps += 1
        if self.nsteps & 1023 == 0 and time.time() - self.t0 > self.max_time:
            raise Budget('time')

    def step_block(self, s):
        """Runs `s` to the end of its block; returns successors."""
        self.tick()
        self.p.flow(s.fn)
        blk = s.fn.blocks[s.bb]
        st = blk['s']
        n = len(st)
        self.visited.add((s.fn.id, s.bb))
        try:
            while s.i < n:
                self.stmt(s, st[s.i])
                s.i += 1
            r = self.term(s, blk['t'])
        except Fork as f:
            self.forked = True      # these states are at the same point still
            return f.states
        except Infeasible:
            return []
        except Undecided as e:
            self.undecide('%s in %s' % (e, short(s.fn.name)), s)
            return []
        if r is None:
            return [s]
        return r


class NewUnit(Exception):
    def __init__(self, fn):
        self.fn = fn


class Call:
    """What a model may want to know about a call."""

    def __init__(self, e, t, fn, args):
        self.e = e
        self.t = t
        self.fn = fn
        self.args = args

    def dty(self):
        return self.e.ty(self.t['dty'])

    def aty(self, i):
        return self.e.ty(self.t['atys'][i])


class Enter:
    def __init__(self, fn, args, post=None):
        self.fn = fn
        self.args = args
        self.post = post


class Redirect:
    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class _Never:
    pass


NEVER = _Never()
DEFAULT = _Never()


def short(name):
    import re
    name = name.split(' - ')[0]
    name = re.sub(r'std::result::|std::option::|std::string::|static_xml::|std::boxed::', '', name)
    return name if len(name) < 160 else name[:157] + '...'
