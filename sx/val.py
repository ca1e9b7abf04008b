"""Abstract values.

Every value is a nested tuple:
  ('i', c, ((sym, coef), ...))  integer: a linear term over natural-number symbols
  ('b', 0|1)                    boolean
  ('y', sym)                    unknown value
  ('t', (part, ...))            text; a part is a str or ('y', sym)
  ('a', variant, (fields...))   struct / tuple / closure / enum variant
  ('p', obj, path)              pointer
  ('d', pointer, vtable)        pointer to a trait object
  ('q', (seg, ...))             sequence; a seg is ('e', value) or ('g', sym, length)
  ('f', fn)                     function
  ('m', atom)                   atom of the analysis' own bookkeeping
  ('!',)                        uninitialised or moved out
"""

UNIT = ('a', 0, ())
UNDEF = ('!',)
TRUE = ('b', 1)
FALSE = ('b', 0)
NONE = ('a', 0, ())


def I(n):
    return ('i', n, ())


def B(x):
    return TRUE if x else FALSE


def M(x):
    return ('m', x)


def some(v):
    return ('a', 1, (v,))


def ok(v):
    return ('a', 0, (v,))


def err(v):
    return ('a', 1, (v,))


def tup(*v):
    return ('a', 0, v)


def txt(s):
    return ('t', (s,) if s else ())


def text(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return ('t', tuple(out))


def cat(a, b):
    return text(a[1] + b[1])


def lin(c, d):
    return ('i', c, tuple(sorted((k, v) for k, v in d.items() if v)))


def ladd(a, b, k=1):
    if not b[2]:
        return ('i', a[1] + k * b[1], a[2])
    d = dict(a[2])
    for s, c in b[2]:
        d[s] = d.get(s, 0) + k * c
    return lin(a[1] + k * b[1], d)


def lsub(a, b):
    return ladd(a, b, -1)


def lsym(s):
    return ('i', 0, ((s, 1),))


def lsign(a):
    """Sign of a linear term if it is the same for all naturals, else None.

    Returns -1, 0, 1, or '>=', '<='."""
    if not a[2]:
        return (a[1] > 0) - (a[1] < 0)
    cs = [c for _, c in a[2]]
    if all(c > 0 for c in cs) and a[1] >= 0:
        return 1 if a[1] > 0 else '>='
    if all(c < 0 for c in cs) and a[1] <= 0:
        return -1 if a[1] < 0 else '<='
    return None


def seq(segs):
    return ('q', tuple(s for s in segs if s[0] == 'e' or s[2] != ('i', 0, ())))


def qlen(q):
    n = ('i', 0, ())
    for s in q[1]:
        n = ladd(n, ('i', 1, ()) if s[0] == 'e' else s[2])
    return n


def elems(q):
    """The elements of a fully known sequence, else None."""
    r = []
    for s in q[1]:
        if s[0] != 'e':
            return None
        r.append(s[1])
    return r


def sub(v, m):
    """Substitutes symbols."""
    k = v[0]
    if k == 'i':
        for s, _ in v[2]:
            if s in m:
                break
        else:
            return v
        r = ('i', v[1], ())
        for s, c in v[2]:
            x = m.get(s)
            r = ladd(r, ('i', 0, ((s, 1),)) if x is None else x, c)
        return r
    if k == 'y':
        return m.get(v[1], v)
    if k == 'a':
        f = v[2]
        for i, x in enumerate(f):
            y = sub(x, m)
            if y is not x:
                return ('a', v[1], f[:i] + (y,) + tuple([sub(z, m) for z in f[i + 1:]]))
        return v
    if k == 't':
        for p in v[1]:
            if not isinstance(p, str) and p[1] in m:
                break
        else:
            return v
        out = []
        for p in v[1]:
            if isinstance(p, str):
                out.append(p)
            else:
                x = m.get(p[1])
                if x is None:
                    out.append(p)
                elif x[0] == 't':
                    out.extend(x[1])
                else:
                    out.append(x)
        return text(out)
    if k == 'p':
        for i, s in enumerate(v[2]):
            if not isinstance(s, int):
                y = sub(s[1], m)
                if y is not s[1]:
                    return ('p', v[1], tuple(z if isinstance(z, int) else ('i', sub(z[1], m)) for z in v[2]))
        return v
    if k == 'd':
        x = sub(v[1], m)
        return v if x is v[1] else ('d', x, v[2])
    if k == 'q':
        out = []
        ch = False
        for s in v[1]:
            if s[0] == 'e':
                x = sub(s[1], m)
                if x is not s[1]:
                    ch = True
                    out.append(('e', x))
                else:
                    out.append(s)
            else:
                x = m.get(s[1])
                if x is not None:
                    ch = True
                    if x[0] == 'q':
                        out.extend(x[1])
                    else:
                        out.append(('g', x[1], sub(s[2], m)))
                else:
                    n = sub(s[2], m)
                    if n is not s[2]:
                        ch = True
                        out.append(('g', s[1], n))
                    else:
                        out.append(s)
        return seq(out) if ch else v
    return v


def syms(v, out):
    """Adds all symbols of `v` to the set `out`."""
    k = v[0]
    if k == 'i':
        for s, _ in v[2]:
            out.add(s)
    elif k == 'y':
        out.add(v[1])
    elif k == 'a':
        for x in v[2]:
            syms(x, out)
    elif k == 't':
        for p in v[1]:
            if not isinstance(p, str):
                out.add(p[1])
    elif k == 'p':
        for s in v[2]:
            if not isinstance(s, int):
                syms(s[1], out)
    elif k == 'd':
        syms(v[1], out)
    elif k == 'q':
        for s in v[1]:
            if s[0] == 'e':
                syms(s[1], out)
            else:
                out.add(s[1])
                syms(s[2], out)
    return out


def ptrs(v, out):
    """Appends all pointers in `v` to `out`."""
    k = v[0]
    if k == 'p':
        out.append(v)
    elif k == 'a':
        for x in v[2]:
            ptrs(x, out)
    elif k == 'd':
        ptrs(v[1], out)
    elif k == 'q':
        for s in v[1]:
            if s[0] == 'e':
                ptrs(s[1], out)
    return out
