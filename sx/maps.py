"""Maps and sets.

A map is abstracted to what it holds for a few watched keys, e.watched(type):
('a', 'wmap', (whether it holds nothing else, slot, ...)), where a slot is
NONE or some(value).  Anything may be found under other keys.
"""
from val import *
from core import *
from models import STD, load, target, as_text, deref_ty

NEVER_STRUCT = True


def model(*names):
    def deco(f):
        for n in names:
            STD[n] = f
        return f
    return deco


HEADS = {'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'}


def map_ty(e, t):
    """The map type behind references, else None."""
    t = e.ty(t) if isinstance(t, int) else t
    n = 0
    while t['kind'] in ('ref', 'ptr') and n < 4:
        t = e.ty(t['elem'])
        n += 1
    if t['kind'] != 'adt':
        return None
    h = t['path'].split('::')[-1]
    if h in HEADS or h == 'Namespace' and t['krate'] == 'xml':
        return t
    return None


def is_ns(t):
    return t['path'].split('::')[-1] == 'Namespace'


def key_ty(e, t):
    return None if is_ns(t) else e.ty(t['args'][0])


def textual(e, t):
    """Whether keys are texts."""
    if t is None:
        return True
    n = 0
    while t['kind'] in ('ref', 'ptr') and n < 4:
        t = e.ty(t['elem'])
        n += 1
    return t['kind'] == 'str' or t['kind'] == 'adt' and (t['path'] in TEXT_ADTS or t['path'].split('::')[-1] == 'Cow')


def watched(e, t):
    kt = key_ty(e, t)
    if textual(e, kt):
        return e.wprefixes if is_ns(t) and e.wprefixes is not None else e.wtexts
    return e.wnames


def empty_map(e, t):
    return ('a', 'wmap', (B(not e.any_maps),) + (NONE,) * len(watched(e, t)))


def any_map(e, t):
    return ('a', 'wmap', (FALSE,) + (NONE,) * len(watched(e, t)))


def key_value(e, s, k, t):
    """A key as a value: a text, or a struct's texts."""
    t = e.ty(t) if isinstance(t, int) else t
    n = 0
    while t['kind'] in ('ref', 'ptr') and k[0] in ('p', 'y') and n < 4:
        k = load(e, s, k, t)
        t = deref_ty(e, t)
        n += 1
    if k[0] == 'a' and len(k[2]) > 1:
        return ('a', 0, tuple([as_text(e, s, x) for x in k[2]]))
    if k[0] == 'y' and t['kind'] == 'adt' and t['akind'] == 'struct':
        e.expand(s, k, t, None)
        raise Fork([s])
    return as_text(e, s, k, t)


def which(e, s, k, keys):
    """Index of the watched key that `k` equals, or None."""
    for i, w in enumerate(keys):
        if k == w:
            return i
    for i, w in enumerate(keys):
        if k[0] != w[0]:
            continue
        if k[0] == 't':
            if e.text_eq(s, k, w) == TRUE:
                return i
        elif all(e.text_eq(s, x, y) == TRUE for x, y in zip(k[2], w[2])):
            return i
    return None


def the_map(e, s, p, ty):
    k, path = target(e, s, p, ty)
    v = e.get(s, k, path)
    if v[0] != 'a' or v[1] != 'wmap':
        raise Undecided('unknown map')
    return k, path, v


def setslot(e, s, k, path, m, i, v):
    f = list(m[2])
    if i is None:
        f[0] = FALSE
        s.memo.pop(('maplen', (('p', k, path),)), None)
    else:
        f[i + 1] = v
    e.put(s, k, path, ('a', 'wmap', tuple(f)))


def val_ty(e, t):
    if is_ns(t):
        return None
    return t['args'][1] if len(t['args']) > 1 else None


def fresh_keys(e, s, t):
    if e.any_key is not None:
        return e.any_key(e, s, t)
    x = s.copy()
    return [(x, fresh_key(e, x, t))]


def fresh_key(e, s, t):
    kt = key_ty(e, t)
    if textual(e, kt):
        k = s.text()
    else:
        k = ('a', 0, tuple([e.fresh(s, f) for f in e.field_types(kt, None)]))
    for w in watched(e, t):
        if k[0] == w[0] == 't':
            s.learn('eq', (k, w), FALSE)
    return k


def fresh_vals(e, s, t, key=None):
    """What may be found under another key, as (state, value) pairs."""
    vt = val_ty(e, t)
    if e.any_value is not None:
        return e.any_value(e, s, t, vt, key)
    x = s.copy()
    return [(x, x.text() if vt is None else e.fresh(x, vt))]


def others(e, s, t, m):
    """Whether something may be found under another key: False, or maybe."""
    return m[2][0] == FALSE and not (not textual(e, key_ty(e, t)) and e.new_names)


def ours(c, i=0):
    t = map_ty(c.e, c.t['atys'][i])
    return t


@model('HashMap:Default:default', 'BTreeMap:Default:default', 'HashSet:Default:default', 'BTreeSet:Default:default',
       'HashMap::new', 'BTreeMap::new', 'HashSet::new', 'BTreeSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity',
       'Namespace::empty')
def map_new(e, s, c, *a):
    return empty_map(e, map_ty(e, c.dty()))


@model('HashMap:Clone:clone', 'BTreeMap:Clone:clone', 'HashSet:Clone:clone', 'BTreeSet:Clone:clone')
def map_clone(e, s, c, p):
    return the_map(e, s, p, c.t['atys'][0])[2]


def ns_clone(old):
    def f(e, s, c, p):
        if map_ty(e, c.t['atys'][0]):
            return the_map(e, s, p, c.t['atys'][0])[2]
        return old(e, s, c, p) if old else None
    return f


STD['Namespace:Clone:clone'] = ns_clone(STD.get('Namespace:Clone:clone'))


@model('HashMap::get', 'BTreeMap::get', 'Namespace::get', 'HashMap::get_mut', 'BTreeMap::get_mut', 'HashSet::get', 'BTreeSet::get')
def map_get(e, s, c, p, key):
    t = ours(c)
    if t is None:
        return None
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    kv = key_value(e, s, key, c.t['atys'][1])
    i = which(e, s, kv, watched(e, t))
    if i is not None:
        if m[2][i + 1] == NONE:
            return NONE
        if is_ns(t):
            return some(m[2][i + 1][2][0])
        return some(('p', k, path + (i + 1, 0)))
    out = [(s.copy(), NONE)]
    if others(e, s, t, m):
        for x, v in fresh_vals(e, s, t, kv):
            out.append((x, some(v if is_ns(t) else x.heap(v))))
    return out


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'Namespace::contains', 'HashSet::contains', 'BTreeSet::contains')
def map_has(e, s, c, p, key):
    t = ours(c)
    if t is None:
        return None
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    i = which(e, s, key_value(e, s, key, c.t['atys'][1]), watched(e, t))
    if i is not None:
        return B(m[2][i + 1] != NONE)
    return [(s.copy(), FALSE)] + ([(s.copy(), TRUE)] if others(e, s, t, m) else [])


@model('HashMap::insert', 'BTreeMap::insert', 'HashSet::insert', 'BTreeSet::insert', 'Namespace::force_put', 'Namespace::put',
       'HashMap::replace')
def map_insert(e, s, c, p, key, *val):
    t = ours(c)
    if t is None:
        return None
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    i = which(e, s, key_value(e, s, key, c.t['atys'][1]), watched(e, t))
    v = val[0] if val else UNIT
    name = c.fn.key.split('::')[-1]
    if is_ns(t):
        v = as_text(e, s, v, c.t['atys'][2])

    def result(there, old):
        if name == 'put' or not val:
            return B(not there)
        return some(old) if there else NONE

    if i is not None:
        old = m[2][i + 1]
        if old == NONE or name not in ('put',):
            setslot(e, s, k, path, m, i, some(v))
        return result(old != NONE, old[2][0] if old != NONE else None)
    out = []
    x = s.copy()
    setslot(e, x, k, path, m, None, None)
    out.append((x, result(False, None)))
    if others(e, s, t, m):
        for x, v in fresh_vals(e, s, t):
            out.append((x, result(True, v)))
    return out


@model('HashMap::remove', 'BTreeMap::remove', 'HashSet::remove', 'BTreeSet::remove')
def map_remove(e, s, c, p, key):
    t = ours(c)
    if t is None:
        return None
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    i = which(e, s, key_value(e, s, key, c.t['atys'][1]), watched(e, t))
    isset = val_ty(e, t) is None
    if i is not None:
        old = m[2][i + 1]
        setslot(e, s, k, path, m, i, NONE)
        return B(old != NONE) if isset else old
    out = [(s.copy(), FALSE if isset else NONE)]
    if others(e, s, t, m):
        for x, v in fresh_vals(e, s, t):
            out.append((x, TRUE if isset else some(v)))
    return out


@model('HashMap::clear', 'BTreeMap::clear')
def map_clear(e, s, c, p):
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    e.put(s, k, path, empty_map(e, ours(c)))
    return UNIT


@model('HashMap::is_empty', 'BTreeMap::is_empty', 'Namespace::is_empty', 'HashSet::is_empty', 'Namespace::is_essentially_empty')
def map_empty(e, s, c, p):
    t = ours(c)
    if t is None:
        return None
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    if any(x != NONE for x in m[2][1:]):
        return FALSE
    if m[2][0] == TRUE:
        return TRUE
    return [(s.copy(), TRUE), (s.copy(), FALSE)]


@model('HashMap::len', 'BTreeMap::len', 'HashSet::len', 'BTreeSet::len')
def map_len(e, s, c, p):
    t = ours(c)
    if t is None:
        return None
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    n = I(sum(x != NONE for x in m[2][1:]))
    if m[2][0] == TRUE:
        return n
    # What else there is, is the same until something is added.
    return ladd(n, e.pure(s, 'maplen', (('p', k, path),), c.dty(), taint=False))


# Entries are ('a', 'WEntry', (pointer to the map, key, index of the watched key)).

@model('HashMap::entry', 'BTreeMap::entry')
def map_entry(e, s, c, p, key):
    t = ours(c)
    k, path, m = the_map(e, s, p, c.t['atys'][0])
    kv = key_value(e, s, key, c.t['atys'][1])
    i = which(e, s, kv, watched(e, t))
    et = c.dty()
    vi = {v['name']: n for n, v in enumerate(et['variants'])}
    if i is not None:
        ent = ('a', 'WEntry', (('p', k, path), key, M(i)))
        return ('a', vi['Vacant' if m[2][i + 1] == NONE else 'Occupied'], (ent,))
    x = s.copy()
    out = [(x, ('a', vi['Vacant'], (('a', 'WEntry', (('p', k, path), key, M(None))),)))]
    for x, v in fresh_vals(e, s, t) if others(e, s, t, m) else ():
        o = x.heap(v)
        out.append((x, ('a', vi['Occupied'], (('a', 'WEntry', (o, key, M('scratch'))),))))
    return out


def entry(e, s, v, ty):
    if v[0] == 'p':
        v = e.get(s, v[1], v[2])
    if v[0] != 'a' or v[1] != 'WEntry':
        raise Undecided('unknown entry')
    return v


def entry_place(e, s, ent):
    p, _, i = ent[2]
    if i[1] == 'scratch':
        return p
    return ('p', p[1], p[2] + (i[1] + 1, 0))


@model('VacantEntry::insert', 'VacantEntry::insert_entry')
def vacant_insert(e, s, c, ent, v):
    ent = entry(e, s, ent, None)
    p, key, i = ent[2]
    m = e.get(s, p[1], p[2])
    if i[1] is None:
        setslot(e, s, p[1], p[2], m, None, None)
        return s.heap(v)
    setslot(e, s, p[1], p[2], m, i[1], some(v))
    return entry_place(e, s, ent)


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def occupied_get(e, s, c, ent):
    return entry_place(e, s, entry(e, s, ent, None))


@model('OccupiedEntry::insert')
def occupied_insert(e, s, c, ent, v):
    p = entry_place(e, s, entry(e, s, ent, None))
    old = e.get(s, p[1], p[2])
    e.put(s, p[1], p[2], v)
    return old


@model('OccupiedEntry::remove')
def occupied_remove(e, s, c, ent):
    ent = entry(e, s, ent, None)
    p, _, i = ent[2]
    if i[1] == 'scratch':
        return e.get(s, p[1], p[2])
    m = e.get(s, p[1], p[2])
    old = m[2][i[1] + 1]
    setslot(e, s, p[1], p[2], m, i[1], NONE)
    return old[2][0]


@model('OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key')
def entry_key(e, s, c, ent):
    k = entry(e, s, ent, None)[2][1]
    return k if 'into' in c.fn.key else s.heap(k)


@model('Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with')
def or_insert(e, s, c, ent, *v):
    t = c.aty(0)
    i = e.pick(s, ent, t)
    x = ent[2][0]
    if t['variants'][i]['name'] == 'Occupied':
        return entry_place(e, s, entry(e, s, x, None))
    if c.fn.key != 'Entry::or_insert':
        return None
    return vacant_insert(e, s, c, x, v[0])


# Iterators are ('a', 'WIter', (map or pointer to it, kind, yielded, ...)).

def wrap(e, s, c, it):
    """xml-rs presents its mappings through a mapping iterator."""
    t = c.dty()
    if t['kind'] == 'adt' and t['path'].split('::')[-1] == 'Map':
        return ('a', 0, (it, ('f', e.mapping)))
    return it


def start_iter(e, s, c, p, t, kind):
    if p[0] == 'a' and p[1] == 'wmap':
        src = p
        m = p
        kind = {'ref': 'own'}.get(kind, kind)
    else:
        k, path, m = the_map(e, s, p, c.t['atys'][0])
        src = ('p', k, path)
    return wrap(e, s, c, ('a', 'WIter', (src, M((kind, t['id']))) + (FALSE,) * len(m[2][1:])))


@model('HashMap::iter', 'BTreeMap::iter', 'HashMap::keys', 'BTreeMap::keys', 'HashMap::values', 'BTreeMap::values',
       'HashMap::iter_mut', 'BTreeMap::iter_mut', 'HashMap::values_mut', 'BTreeMap::values_mut', 'HashSet::iter', 'BTreeSet::iter',
       'HashMap::into_keys', 'BTreeMap::into_keys', 'HashMap::into_values', 'BTreeMap::into_values',
       'HashMap:IntoIterator:into_iter', 'BTreeMap:IntoIterator:into_iter', 'HashSet:IntoIterator:into_iter',
       'BTreeSet:IntoIterator:into_iter')
def map_iter(e, s, c, p):
    t = ours(c)
    kind = c.fn.key.split('::')[-1].replace('into_', '')
    if kind.endswith('into_iter') or kind == 'iter' or ':' in kind:
        kind = 'ref'
    if val_ty(e, t) is None:
        kind = 'keys'
    return start_iter(e, s, c, p, t, kind)


_ref_into = STD.get('ref:IntoIterator:into_iter')


@model('ref:IntoIterator:into_iter', 'Namespace:IntoIterator:into_iter')
def ref_into_iter(e, s, c, p):
    t = ours(c)
    if t is None:
        return _ref_into(e, s, c, p) if _ref_into else None
    kind = 'iter_mut' if c.aty(0)['kind'] == 'ref' and c.aty(0).get('mut') else 'ref'
    if not is_ns(t) and val_ty(e, t) is None:
        kind = 'keys'
    return start_iter(e, s, c, p, t, kind)


def wnext(old):
    def f(e, s, c, p):
        k, path = target(e, s, p, c.t['atys'][0])
        it = e.get(s, k, path)
        if it[0] != 'a' or it[1] != 'WIter':
            return old(e, s, c, p) if old else None
        kind, tid = it[2][1][1]
        t = e.ty(tid)
        src = it[2][0]
        m = e.get(s, src[1], src[2]) if src[0] == 'p' else src
        keys = watched(e, t)

        def item(x, key, vp, v):
            """What the iterator yields for an entry: `vp` points to the value."""
            def ref(y):
                return x.heap(y)
            if kind == 'keys':
                return ref(key) if src[0] == 'p' else key
            if kind in ('values', 'values_mut'):
                return vp() if src[0] == 'p' else v
            if src[0] != 'p':
                return tup(key, v)
            return tup(ref(key) if key[0] != 't' else ref(key), vp())
        out = []
        todo = first = False
        for i, w in enumerate(keys):
            if m[2][i + 1] != NONE and it[2][i + 2] == FALSE:
                # The empty text is the least of all.
                first = first or w == txt('') and t['path'].split('::')[-1] in ('BTreeMap', 'BTreeSet')
                todo = True
                x = s.copy()
                f2 = list(it[2])
                f2[i + 2] = TRUE
                e.put(x, k, path, ('a', 'WIter', tuple(f2)))
                v = m[2][i + 1][2][0]
                if is_ns(t):
                    out.append((x, some(tup(w, v))))
                else:
                    out.append((x, some(item(x, w, lambda: ('p', src[1], src[2] + (i + 1, 0)), v))))
        if not todo:
            out.append((s.copy(), NONE))
        for x, key in fresh_keys(e, s, t) if m[2][0] == FALSE and not first else ():
            for y, v in fresh_vals(e, x, t, key):
                if is_ns(t):
                    out.append((y, some(tup(key, v))))
                else:
                    out.append((y, some(item(y, key, lambda: y.heap(v), v))))
        return out
    return f


for n in ('Iter:Iterator:next', 'IterMut:Iterator:next', 'IntoIter:Iterator:next', 'Keys:Iterator:next', 'Values:Iterator:next',
          'ValuesMut:Iterator:next', 'IntoKeys:Iterator:next', 'IntoValues:Iterator:next'):
    STD[n] = wnext(STD.get(n))


def wiv(old):
    def f(e, s, c, v, *r):
        return v if v[0] == 'a' and v[1] == 'WIter' else (old(e, s, c, v, *r) if old else None)
    return f


for n in ('Iter:IntoIterator:into_iter', 'IterMut:IntoIterator:into_iter', 'Keys:IntoIterator:into_iter', 'Values:IntoIterator:into_iter',
          'ValuesMut:IntoIterator:into_iter', 'IntoKeys:IntoIterator:into_iter', 'IntoValues:IntoIterator:into_iter'):
    STD[n] = wiv(STD.get(n))
