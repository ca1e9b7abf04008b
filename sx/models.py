"""Models of library functions whose bodies are not followed."""
from val import *
from core import *

STD = {}


def model(*names):
    def deco(f):
        for n in names:
            STD[n] = f
        return f
    return deco


# -- helpers -------------------------------------------------------------------

def target(e, s, v, ty):
    """(key, path) of what pointer `v` of type `ty` points to."""
    t = e.ty(ty) if isinstance(ty, int) else ty
    if v[0] == 'd':
        v = v[1]
    if v[0] == 'y':
        el = t.get('elem')
        if el is None:
            el = t['args'][0]
        o = s.heap(e.fresh(s, el, bool(v[1] & 1)))
        s.subst({v[1]: o})
        v = o
    if v[0] != 'p':
        raise Undecided('pointer expected, got %s' % (v[0],))
    return v[1], v[2]


def load(e, s, v, ty):
    k, p = target(e, s, v, ty)
    return e.get(s, k, p)


def deref_ty(e, t):
    t = e.ty(t) if isinstance(t, int) else t
    return e.ty(t['elem']) if 'elem' in t else e.ty(t['args'][0])


def as_text(e, s, v, ty=None):
    """The text behind any number of references."""
    n = 0
    t = e.ty(ty) if isinstance(ty, int) else ty
    while v[0] != 't':
        n += 1
        if n > 5:
            raise Undecided('text expected')
        if v[0] == 'd':
            v = v[1]
        elif v[0] == 'p':
            v = e.get(s, v[1], v[2])
            t = deref_ty(e, t) if t is not None and t['kind'] in ('ref', 'ptr') else None
        elif v[0] == 'y' and t is not None and t['kind'] in ('ref', 'ptr'):
            k, p = target(e, s, v, t)
            v = e.get(s, k, p)
            t = deref_ty(e, t)
        elif v[0] == 'a' and v[1] in (0, 1) and len(v[2]) == 1:
            v = v[2][0]     # Cow
            t = None
        else:
            raise Undecided('text expected, got %s' % (v[0],))
    return v


def as_seq(e, s, v, ty=None):
    n = 0
    t = e.ty(ty) if isinstance(ty, int) else ty
    while v[0] != 'q':
        n += 1
        if n > 4:
            raise Undecided('sequence expected')
        if v[0] == 'p':
            v = e.get(s, v[1], v[2])
            t = deref_ty(e, t) if t is not None and t['kind'] in ('ref', 'ptr') else None
        elif v[0] == 'y' and t is not None and t['kind'] in ('ref', 'ptr'):
            k, p = target(e, s, v, t)
            v = e.get(s, k, p)
            t = deref_ty(e, t)
        else:
            raise Undecided('sequence expected, got %s' % (v[0],))
    return v


def elem_ty(e, t):
    """Element type of a (reference to a) sequence type."""
    t = e.ty(t) if isinstance(t, int) else t
    while t['kind'] in ('ref', 'ptr'):
        t = e.ty(t['elem'])
    if t['kind'] in ('slice', 'array'):
        return t['elem']
    if t['kind'] == 'adt' and t['args']:
        return t['args'][0]
    return None


def cut(e, s, q, at):
    """Splits a sequence at a position within it."""
    return e.seq_cut(s, q, at)


# -- panics -----------------------------------------------------------------------

@model('option::unwrap_failed', 'result::unwrap_failed', 'option::expect_failed', 'panicking::panic',
       'panicking::panic_fmt', 'rt::panic_fmt', 'panicking::assert_failed', 'panicking::panic_display',
       'panicking::unreachable_display', 'panicking::panic_const_sub_overflow', 'rt::begin_panic',
       'panicking::panic_explicit', 'panicking::panic_nounwind', 'panicking::panic_bounds_check',
       'panicking::panic_const_add_overflow', 'panicking::panic_str_2015', 'panicking::assert_failed_inner',
       'panicking::begin_panic', 'slice::copy_from_slice', 'str::slice_error_fail', 'process::abort', 'process::exit')
def panics(e, s, c, *a):
    e.panic(s, 'call of ' + c.fn.key)
    return NEVER


# -- memory -------------------------------------------------------------------------

@model('Box::new', 'Arc::new', 'Rc::new')
def box_new(e, s, c, v):
    return s.heap(v)


@model('Arc:Deref:deref', 'Box:Deref:deref', 'Rc:Deref:deref', 'Box:AsRef:as_ref', 'Box:Borrow:borrow',
       'Box:DerefMut:deref_mut', 'Arc:AsRef:as_ref', 'Box:AsMut:as_mut')
def box_deref(e, s, c, p):
    return load(e, s, p, c.t['atys'][0])


@model('Arc:Clone:clone', 'Rc:Clone:clone')
def arc_clone(e, s, c, p):
    return load(e, s, p, c.t['atys'][0])


@model('MaybeUninit::assume_init')
def assume_init(e, s, c, v):
    if e.hook_uninit is not None:
        e.hook_uninit(e, s, v, c.dty())
    return v


@model('MaybeUninit::assume_init_mut', 'MaybeUninit::assume_init_ref', 'MaybeUninit::assume_init_read', 'MaybeUninit::assume_init_drop')
def assume_init_at(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    v = e.get(s, k, path)
    op = c.fn.key.split('::')[1]
    if e.hook_uninit is not None:
        e.hook_uninit(e, s, v, c.dty())
    if op == 'assume_init_read':
        return v
    if op == 'assume_init_drop':
        e.put(s, k, path, UNDEF)
        return UNIT
    return ('p', k, path)


@model('hint::must_use', 'ManuallyDrop::new', 'MaybeUninit::new',
       'hint::black_box', 'ManuallyDrop::into_inner', 'Pin::new')
def ident(e, s, c, v):
    return v


@model('MaybeUninit::uninit')
def uninit(e, s, c):
    return UNDEF


@model('MaybeUninit::as_mut_ptr', 'MaybeUninit::as_ptr',
       'ManuallyDrop:Deref:deref', 'ManuallyDrop:DerefMut:deref_mut', 'ptr::cast', 'NonNull::as_ptr', 'NonNull::cast',
       'mut_ptr::cast', 'const_ptr::cast')
def ptr_ident(e, s, c, v):
    return v


@model('MaybeUninit::write')
def mu_write(e, s, c, p, v):
    k, path = target(e, s, p, c.t['atys'][0])
    if e.hook_init is not None:
        e.hook_init(e, s, e.get(s, k, path))
    e.put(s, k, path, v)
    return ('p', k, path)


@model('mem::size_of', 'mem::align_of')
def layout(e, s, c):
    # Whatever it is, it is the same each time.
    return e.pure(s, c.fn.name, (), c.dty(), taint=False)


@model('mem::replace')
def mem_replace(e, s, c, p, v):
    k, path = target(e, s, p, c.t['atys'][0])
    o = e.get(s, k, path)
    e.put(s, k, path, v)
    return o


@model('mem::swap')
def mem_swap(e, s, c, a, b):
    ka, pa = target(e, s, a, c.t['atys'][0])
    kb, pb = target(e, s, b, c.t['atys'][1])
    x, y = e.get(s, ka, pa), e.get(s, kb, pb)
    e.put(s, ka, pa, y)
    e.put(s, kb, pb, x)
    return UNIT


@model('ptr::read', 'mut_ptr::read', 'const_ptr::read', 'ptr::read_unaligned')
def ptr_read(e, s, c, p):
    return load(e, s, p, c.t['atys'][0])


@model('ptr::write', 'mut_ptr::write', 'ptr::write_unaligned')
def ptr_write(e, s, c, p, v):
    k, path = target(e, s, p, c.t['atys'][0])
    if e.hook_init is not None:
        e.hook_init(e, s, e.get(s, k, path))
    e.put(s, k, path, v)
    return UNIT


@model('mem::forget')
def forget(e, s, c, v):
    return UNIT


@model('intrinsics::cold_path', 'hint::assert_unchecked', 'hint::spin_loop', 'ub_checks::check_language_ub')
def noop(e, s, c, *a):
    return UNIT


@model('intrinsics::likely', 'intrinsics::unlikely')
def likely(e, s, c, v):
    return v


@model('ptr::eq')
def ptr_eq(e, s, c, a, b):
    return B(a == b)


# -- logging and formatting -----------------------------------------------------------

@model('Level:PartialOrd:le')
def log_le(e, s, c, a, b):
    # Logging has no influence on results: analysed as switched off.
    return FALSE


@model('log::max_level')
def log_max(e, s, c):
    return e.pure(s, 'log level', (), c.t['dty'], False)


@model('Argument::new_display')
def arg_display(e, s, c, v):
    return ('a', 'Arg', (v, M(('display', c.t['atys'][0]))))


@model('Argument::new_debug')
def arg_debug(e, s, c, v):
    return ('a', 'Arg', (v, M(('debug', c.t['atys'][0]))))


@model('Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp', 'Argument::new_octal')
def arg_other(e, s, c, v):
    return ('a', 'Arg', (v, M((c.fn.key, c.t['atys'][0]))))


@model('Arguments::new')
def arguments_new(e, s, c, *a):
    return ('a', 'Args', tuple(a))


@model('Arguments::new_const', 'Arguments::from_str', 'Arguments::from_str_nonconst')
def arguments_const(e, s, c, a):
    return ('a', 'Args', (a,))


def display(e, s, v, ty, kind):
    """Text of a value's `Display`."""
    t = e.ty(ty)
    n = 0
    while t['kind'] in ('ref', 'ptr') and n < 5:
        n += 1
        if v[0] == 't':
            break
        if v[0] in ('p', 'y'):
            v = load(e, s, v, t)
        elif v[0] == 'd':
            break
        t = deref_ty(e, t)
    if v[0] == 't' and kind == 'display':
        return v
    if v[0] == 'i' and kind == 'display' and t['kind'] in ('uint', 'int'):
        if not v[2]:
            return txt(str(v[1]))
        r = e.pure(s, 'fmt:' + kind, (v, M(t['name'])), str_ty(e), False)
        if s.fact('empty', r) is None:
            s.learn('empty', (r,), FALSE)
        return r
    if v[0] == 'm' and isinstance(v[1], tuple) and kind == 'display':
        if v[1][0] == 'char':
            return txt(chr(v[1][1]))
        if v[1][0] == 'int':
            return txt(str(v[1][1]))
    return e.pure(s, 'fmt:' + kind, (e.snapshot(s, v), M(t['name'])), str_ty(e), False)


def str_ty(e):
    for t in e.p.types:
        if t['kind'] == 'str':
            return t
    return {'kind': 'str', 'name': 'str'}


def parse_template(b):
    """Decodes the byte template of `fmt::Arguments`: literals preceded by
    their length and placeholders; None if not understood."""
    out = []
    i = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i + 1:i + 1 + x]).decode('utf-8', 'replace'))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]).decode('utf-8', 'replace'))
            i += 3 + n
        elif x == 0xC0:
            out.append(None)
            i += 1
        else:
            return None
    return out


def format_text(e, s, args):
    """Text of `fmt::Arguments`."""
    f = args[2]
    if len(f) == 1:
        if f[0][0] == 't':
            return f[0]
        q = e.get(s, f[0][1], f[0][2]) if f[0][0] == 'p' else f[0]
        if q[0] == 'q':
            l = elems(q)
            if l is not None and all(x[0] == 't' for x in l):
                r = txt('')
                for x in l:
                    r = cat(r, x)
                return r
        return e.pure(s, 'format', (e.snapshot(s, f[0]),), str_ty(e), False)
    tpl = e.get(s, f[0][1], f[0][2]) if f[0][0] == 'p' else f[0]
    lst = elems(e.get(s, f[1][1], f[1][2]) if f[1][0] == 'p' else f[1])
    b = elems(tpl) if tpl[0] == 'q' else None
    parts = None
    if b is not None and all(x[0] == 'i' and not x[2] for x in b):
        parts = parse_template([x[1] for x in b])
    texts = []
    for a in lst or ():
        kind, ty = a[2][1][1]
        texts.append(display(e, s, a[2][0], ty, kind))
    if parts is None or lst is None:
        return e.pure(s, 'format', (e.snapshot(s, f[0]),) + tuple(texts), str_ty(e), False)
    r = txt('')
    n = 0
    for p in parts:
        if p is None:
            r = cat(r, texts[n] if n < len(texts) else txt('?'))
            n += 1
        else:
            r = cat(r, txt(p))
    return r


@model('fmt::format')
def fmt_format(e, s, c, a):
    if a[0] != 'a' or a[1] != 'Args':
        return e.pure(s, 'format', (e.snapshot(s, a),), c.t['dty'], False)
    return format_text(e, s, a)


@model('Formatter::write_fmt', 'Formatter::write_str')
def fmt_write(e, s, c, f, a):
    t = format_text(e, s, a) if a[0] == 'a' and a[1] == 'Args' else as_text(e, s, a)
    if 'out' in s.mon:
        x = s.copy()
        x.mon['out'] = cat(x.mon['out'], t)
        y = s.copy()
        return [(x, ok(UNIT)), (y, err(UNIT))]
    return e.pure(s, 'fmt result', (), c.t['dty'], False)


@model('str:Display:fmt', 'String:Display:fmt')
def text_fmt(e, s, c, a, f):
    return fmt_write(e, s, c, f, as_text(e, s, a, c.t['atys'][0]))


@model('log::__private_api_log', 'String:Write:write_fmt', 'String:Write:write_str', ':Write:write_fmt')
def fmt_into(e, s, c, *a):
    if c.fn.key.startswith('log'):
        return UNIT
    if a[0][0] == 'p':
        t = e.get(s, a[0][1], a[0][2])
        if t[0] == 't':
            u = format_text(e, s, a[1]) if a[1][0] == 'a' else as_text(e, s, a[1])
            e.put(s, a[0][1], a[0][2], cat(t, u))
            return ok(UNIT)
    return None


# -- String and str -----------------------------------------------------------------------

@model('String::new', 'String:Default:default', 'String::with_capacity')
def string_new(e, s, c, *a):
    return txt('')


@model('String:Deref:deref', 'String::as_str', 'str:ToOwned:to_owned', 'String:From:from', 'String:Clone:clone',
       'str:ToString:to_string', 'String:ToString:to_string', 'String:Borrow:borrow', 'String:AsRef:as_ref',
       'str:AsRef:as_ref', 'str::to_owned', 'str::to_string', 'str:Into:into', 'String:ToOwned:to_owned',
       'String::into_boxed_str', 'str::into_string', 'String:DerefMut:deref_mut', 'str:Borrow:borrow', 'String:Index:index',
       'str:SpecToString:spec_to_string', 'ref:ToString:to_string', 'String::into_string', 'str:From:from', 'Cow:ToString:to_string',
       'str::borrow', 'Cow::into_owned', 'Cow:Deref:deref', 'Cow:AsRef:as_ref', 'Cow:Borrow:borrow')
def text_ident(e, s, c, v, *rest):
    if rest and not (c.fn.key == 'String:Index:index' and c.aty(1)['name'].endswith('RangeFull')):
        return None
    if v[0] == 'y' and c.fn.key.startswith('Cow'):
        return None
    if c.fn.key.startswith('Cow'):
        at = c.aty(0)
        while at['kind'] == 'ref':
            if v[0] == 'p':
                v = e.get(s, v[1], v[2])
            at = deref_ty(e, at)
        if v[0] == 'a' and v[2][0][0] == 't':
            return v[2][0]
        if v[0] == 'y':
            e.pick(s, v, at)
        return None
    return as_text(e, s, v, c.t['atys'][0])


@model('Cow:From:from')
def cow_from(e, s, c, v):
    t = c.aty(0)
    borrowed = t['kind'] == 'ref'
    return ('a', 0 if borrowed else 1, (v,))


@model('String::is_empty', 'str::is_empty')
def text_is_empty(e, s, c, v):
    return e.text_empty(s, as_text(e, s, v, c.t['atys'][0]))


@model('String::len', 'str::len')
def text_len(e, s, c, v):
    return e.text_len(s, as_text(e, s, v, c.t['atys'][0]))


@model('String::push_str', 'String::add_assign', 'String:AddAssign:add_assign')
def push_str(e, s, c, p, t):
    k, path = target(e, s, p, c.t['atys'][0])
    e.put(s, k, path, cat(e.get(s, k, path), as_text(e, s, t, c.t['atys'][1])))
    return UNIT


@model('String:Add:add')
def str_add(e, s, c, a, b):
    return cat(as_text(e, s, a), as_text(e, s, b, c.t['atys'][1]))


@model('String:Extend:extend')
def str_extend(e, s, c, p, it):
    k, path = target(e, s, p, c.t['atys'][0])
    if it[0] == 'a' and it[1] in (0, 1) and len(it[2]) == 1 and it[2][0][0] == 't':
        e.put(s, k, path, cat(e.get(s, k, path), it[2][0]))
        return UNIT
    return None


def char_text(e, s, ch):
    if ch[0] == 'm' and ch[1][0] == 'char':
        return txt(chr(ch[1][1]))
    return e.pure(s, 'char text', (ch,), str_ty(e), False)


@model('String::push')
def push_char(e, s, c, p, ch):
    k, path = target(e, s, p, c.t['atys'][0])
    e.put(s, k, path, cat(e.get(s, k, path), char_text(e, s, ch)))
    return UNIT


@model('String::insert_str')
def insert_str(e, s, c, p, at, t):
    k, path = target(e, s, p, c.t['atys'][0])
    if at != I(0):
        return None
    e.put(s, k, path, cat(as_text(e, s, t), e.get(s, k, path)))
    return UNIT


@model('String::clear')
def text_clear(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    e.put(s, k, path, txt(''))
    return UNIT


@model('String::reserve', 'Vec::reserve', 'String::shrink_to_fit', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def reserve(e, s, c, *a):
    return UNIT


@model('String:PartialEq:eq', 'str:PartialEq:eq', 'Cow:PartialEq:eq')
def text_eq(e, s, c, a, b):
    return e.text_eq(s, as_text(e, s, a, c.t['atys'][0]), as_text(e, s, b, c.t['atys'][1]))


@model('String:PartialEq:ne', 'str:PartialEq:ne')
def text_ne(e, s, c, a, b):
    return B(text_eq(e, s, c, a, b) == FALSE)


@model('str:Ord:cmp', 'String:Ord:cmp', 'str:PartialOrd:partial_cmp', 'String:PartialOrd:partial_cmp')
def text_cmp(e, s, c, a, b):
    a = as_text(e, s, a, c.t['atys'][0])
    b = as_text(e, s, b, c.t['atys'][1])
    r = compare_text(e, s, a, b)
    if 'partial' in c.fn.key:
        r = some(r)
    return r


LESS, EQUAL, GREATER = ('a', 0, ()), ('a', 1, ()), ('a', 2, ())


def compare_text(e, s, a, b):
    """`Ordering` of two texts; consistent, but transitivity is not known."""
    x, y = text_const(a), text_const(b)
    if x is not None and y is not None:
        x, y = x.encode(), y.encode()
        return LESS if x < y else GREATER if x > y else EQUAL
    if e.text_eq(s, a, b) == TRUE:
        return EQUAL
    k = s.memo.get(('cmp', (a, b)))
    if k is not None:
        return k
    k = s.memo.get(('cmp', (b, a)))
    if k is not None:
        return GREATER if k == LESS else LESS
    out = []
    for v in (LESS, GREATER):
        x = s.copy()
        x.memo[('cmp', (a, b))] = v
        out.append(x)
    raise Fork(out)


PURE_TEXT = ['str::trim', 'str::trim_start', 'str::trim_end', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase',
             'str::to_ascii_uppercase', 'str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches', 'str::replace',
             'str::repeat', 'str::parse', 'str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case',
             'str::find', 'str::rfind', 'str::strip_prefix', 'str::strip_suffix', 'str::split_once', 'str::rsplit_once',
             'str::as_bytes', 'String::as_bytes', 'String::into_bytes', 'str::from_utf8', 'String::from_utf8',
             'str::from_utf8_unchecked', 'String::from_utf8_unchecked', 'str::chars', 'str::bytes', 'str::char_indices',
             'str::split', 'str::split_whitespace', 'str::lines', 'str::is_char_boundary', 'str::get', 'str::is_ascii',
             'String::from_utf8_lossy', 'char::is_whitespace', 'char::is_ascii_whitespace', 'u8::is_ascii_whitespace',
             'str::matches', 'str::rmatches', 'str::match_indices', 'Matches:Iterator:count', 'Chars:Iterator:count', 'MatchIndices:Iterator:count',
             'Split:Iterator:count', 'Lines:Iterator:count', 'str::escape_debug', 'str::escape_default', 'String::remove', 'str::trim_ascii', 'str::trim_left', 'str::trim_right']


def text_arg(e, s, v, ty):
    """Texts by content, anything else as a snapshot."""
    try:
        return as_text(e, s, v, ty)
    except Undecided:
        return e.snapshot(s, v)


def pure_text(e, s, c, *a):
    """Deterministic, and different from its argument for some texts."""
    args = tuple([text_arg(e, s, v, ty) for v, ty in zip(a, c.t['atys'])])
    t0 = args[0]
    x = text_const(t0) if t0[0] == 't' else None
    k = c.fn.key
    if x is not None:
        y = text_const(args[1]) if len(args) > 1 and args[1][0] == 't' else None
        if len(args) > 1 and args[1][0] == 'm' and isinstance(args[1][1], tuple) and args[1][1][0] == 'char':
            y = chr(args[1][1][1])
        if k == 'str::starts_with' and y is not None:
            return B(x.startswith(y))
        if k == 'str::ends_with' and y is not None:
            return B(x.endswith(y))
        if k == 'str::contains' and y is not None:
            return B(y in x)
        if k in ('str::trim',) and x.strip() == x:
            return t0
    if k == 'str::starts_with' and len(args) > 1 and args[1][0] == 't' and t0[0] == 't' and t0[1] and isinstance(t0[1][0], str):
        y = text_const(args[1])
        if y is not None and len(y) <= len(t0[1][0]):
            return B(t0[1][0].startswith(y))
    return e.pure(s, k, args, c.t['dty'], False)


for k in PURE_TEXT:
    STD[k] = pure_text


@model(*[x + ':Iterator:next' for x in ('Matches', 'RMatches', 'MatchIndices', 'Chars', 'CharIndices', 'Bytes', 'Split', 'SplitN', 'RSplit',
                                        'SplitWhitespace', 'SplitAsciiWhitespace', 'Lines')])
def text_next(e, s, c, p):
    """Any number of anything, but the same each time."""
    k, path = target(e, s, p, c.t['atys'][0])
    it = e.get(s, k, path)
    src, n = (it, I(0)) if it[0] == 'y' else it[2] if it[0] == 'a' and it[1] == 'TIt' else (None, None)
    if src is None:
        return None
    taint = bool(src[1] & 1)
    if not e.truth(s, e.pure(s, 'more', (src, n), 'bool', taint)):
        return NONE
    e.put(s, k, path, ('a', 'TIt', (src, ladd(n, I(1)))))
    return some(e.pure(s, 'item', (src, n), c.dty()['args'][0], taint))


# -- integers ------------------------------------------------------------------------------

def int_model(f):
    return f


@model('usize::saturating_sub', 'u64::saturating_sub', 'u32::saturating_sub')
def saturating_sub(e, s, c, a, b):
    if e.lt_int(s, a, b) == TRUE:
        return I(0)
    v = lsub(a, b)
    if not (v[1] >= 0 and all(k > 0 for _, k in v[2])):
        e.cmp_split(s, a, b)
    return v


@model('usize::checked_sub', 'u64::checked_sub', 'u32::checked_sub')
def checked_sub(e, s, c, a, b):
    if e.lt_int(s, a, b) == TRUE:
        return NONE
    v = lsub(a, b)
    if not (v[1] >= 0 and all(k > 0 for _, k in v[2])):
        e.cmp_split(s, a, b)
    return some(v)


@model('usize::checked_add', 'u64::checked_add', 'u32::checked_add')
def checked_add(e, s, c, a, b):
    return some(ladd(a, b))


@model('usize::saturating_add', 'usize::wrapping_add', 'u64::wrapping_add')
def plain_add(e, s, c, a, b):
    return ladd(a, b)


@model('usize:Ord:min', 'cmp::min', 'usize:Ord:max', 'cmp::max')
def minmax(e, s, c, a, b):
    if a[0] != 'i' or b[0] != 'i':
        return None
    lt = e.lt_int(s, a, b) == TRUE
    if 'min' in c.fn.key:
        return a if lt else b
    return b if lt else a


@model('usize:PartialEq:eq', 'u8:PartialEq:eq', 'bool:PartialEq:eq', 'char:PartialEq:eq', 'u64:PartialEq:eq', 'u32:PartialEq:eq')
def scalar_eq(e, s, c, a, b):
    return e.equal(s, load(e, s, a, c.t['atys'][0]), load(e, s, b, c.t['atys'][1]))


@model('usize:PartialEq:ne', 'u8:PartialEq:ne', 'bool:PartialEq:ne', 'char:PartialEq:ne')
def scalar_ne(e, s, c, a, b):
    return B(scalar_eq(e, s, c, a, b) == FALSE)


@model('usize:Clone:clone', 'u64:Clone:clone', 'bool:Clone:clone', 'u8:Clone:clone')
def scalar_clone(e, s, c, a):
    return load(e, s, a, c.t['atys'][0])


# -- Vec and slices ---------------------------------------------------------------------------

@model('Vec::new', 'Vec::with_capacity', 'Vec:Default:default')
def vec_new(e, s, c, *a):
    return ('q', ())


@model('Vec:Deref:deref', 'Vec:DerefMut:deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'Vec:AsRef:as_ref', 'Vec:Borrow:borrow',
       'slice:AsRef:as_ref')
def vec_deref(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    v = e.get(s, k, path)
    if v[0] == 'y':
        raise Undecided('unknown vector')
    return ('p', k, path)


@model('Vec::len', 'slice::len')
def seq_len(e, s, c, p):
    if p[0] == 't':
        return e.text_len(s, p)
    return qlen(as_seq(e, s, p, c.t['atys'][0]))


@model('Vec::is_empty', 'slice::is_empty')
def seq_is_empty(e, s, c, p):
    if p[0] == 't':
        return e.text_empty(s, p)
    return B(e.cmp(s, qlen(as_seq(e, s, p, c.t['atys'][0])), I(0)) == 0)


@model('Vec::push')
def vec_push(e, s, c, p, v):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if q[0] != 'q':
        raise Undecided('push to %s' % (q[0],))
    e.put(s, k, path, ('q', q[1] + (('e', v),)))
    return UNIT


def pop_last(e, s, q, et):
    """(rest, last element) of a sequence that is not empty."""
    n = qlen(q)
    x = e.seq_get(s, q, lsub(n, I(1)), None, et)
    a, b = e.seq_cut(s, q, lsub(n, I(1)))
    return a, x


@model('Vec::pop')
def vec_pop(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if e.cmp(s, qlen(q), I(0)) == 0:
        return NONE
    a, x = pop_last(e, s, q, elem_ty(e, c.t['atys'][0]))
    e.put(s, k, path, a)
    return some(x)


@model('Vec::truncate')
def vec_truncate(e, s, c, p, n):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if e.cmp(s, n, qlen(q)) >= 0:
        return UNIT
    a, b = e.seq_cut(s, q, n)
    e.put(s, k, path, a)
    return UNIT


@model('Vec::clear')
def vec_clear(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    e.put(s, k, path, ('q', ()))
    return UNIT


@model('Vec::split_off')
def vec_split_off(e, s, c, p, n):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if e.cmp(s, n, qlen(q)) > 0:
        e.panic(s, 'Vec::split_off beyond the end')
        return NEVER
    a, b = e.seq_cut(s, q, n)
    e.put(s, k, path, a)
    return b


@model('Vec::insert')
def vec_insert(e, s, c, p, n, v):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if e.cmp(s, n, qlen(q)) > 0:
        e.panic(s, 'Vec::insert beyond the end')
        return NEVER
    a, b = e.seq_cut(s, q, n)
    e.put(s, k, path, ('q', a[1] + (('e', v),) + b[1]))
    return UNIT


@model('Vec::remove', 'Vec::swap_remove')
def vec_remove(e, s, c, p, n):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if e.cmp(s, n, qlen(q)) >= 0:
        e.panic(s, c.fn.key + ' beyond the end')
        return NEVER
    x = e.seq_get(s, q, n, None, elem_ty(e, c.t['atys'][0]))
    a, b = e.seq_cut(s, q, n)
    _, b = e.seq_cut(s, b, I(1))
    if 'swap' in c.fn.key and b[1]:
        r, l = pop_last(e, s, b, elem_ty(e, c.t['atys'][0]))
        b = ('q', (('e', l),) + r[1])
    e.put(s, k, path, ('q', a[1] + b[1]))
    return x


@model('Vec::append')
def vec_append(e, s, c, p, o):
    k, path = target(e, s, p, c.t['atys'][0])
    k2, path2 = target(e, s, o, c.t['atys'][1])
    q, r = e.get(s, k, path), e.get(s, k2, path2)
    e.put(s, k, path, ('q', q[1] + r[1]))
    e.put(s, k2, path2, ('q', ()))
    return UNIT


@model('Vec:Extend:extend', 'Vec::extend_from_slice')
def vec_extend(e, s, c, p, o):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if o[0] == 'a' and o[1] in ('IntoIter', 'Drain'):
        r = o[2][0]
    elif o[0] == 'a' and o[1] in (0, 1) and c.aty(1)['kind'] == 'adt' and c.aty(1)['path'].endswith('Option'):
        r = ('q', tuple([('e', x) for x in o[2]]))
    else:
        try:
            r = as_seq(e, s, o, c.t['atys'][1])
        except Undecided:
            return None
    e.put(s, k, path, ('q', q[1] + r[1]))
    return UNIT


def yielded(e, s, it, t):
    """The sequence of what an iterator whose steps have no effects yields."""
    if it[0] == 'q':
        return it
    if it[0] != 'a':
        return None
    if it[1] in ('IntoIter', 'Drain'):
        return it[2][0]
    if t['kind'] != 'adt':
        return None
    last = t['path'].split('::')[-1]
    if last == 'Option' and it[1] in (0, 1):
        return ('q', tuple([('e', x) for x in it[2]]))
    if last in ('Cloned', 'Copied') and len(it[2]) == 1:
        it = it[2][0]
        if it[0] != 'a' or it[1] not in ('Iter', 'SIter', 'CIter'):
            return None
        if it[1] == 'CIter':
            q = it[2][0]
        else:
            _, k, path = it[2][0]
            q = e.get(s, k, path)
            q, _ = e.seq_cut(s, q, it[2][2])
            _, q = e.seq_cut(s, q, it[2][1])
        return None if ptrs(q, []) else q
    return None


@model('sxm::sxm_Vec_FromIterator_from_iter')
def vec_collect(e, s, c, it):
    return yielded(e, s, it, c.aty(0))


@model('sxm::sxm_Vec_Extend_extend')
def vec_append(e, s, c, p, it):
    r = yielded(e, s, it, c.aty(1))
    if r is None:
        return None
    k, path = target(e, s, p, c.t['atys'][0])
    e.put(s, k, path, ('q', e.get(s, k, path)[1] + r[1]))
    return UNIT


@model('slice::contains')
def seq_contains(e, s, c, p, x):
    q = elems(as_seq(e, s, p, c.t['atys'][0]))
    if q is None or len(q) > 16:
        return None
    x = load(e, s, x, c.t['atys'][1])
    et = e.ty(elem_ty(e, c.t['atys'][0]))
    text = et['kind'] == 'ref' and e.ty(et['elem'])['kind'] == 'str' or et['kind'] == 'adt' and et['path'].endswith('::String')
    for y in q:
        if text:
            r = e.text_eq(s, as_text(e, s, y, et), as_text(e, s, x, et))
        elif x[0] == y[0] and x[0] in ('m', 'i'):
            r = B(x == y) if x[0] == 'm' else e.eq_int(s, y, x)
        else:
            return None
        if r == TRUE:
            return TRUE
    return FALSE


@model('slice::concat', 'slice::join')
def pieces(e, s, c, p, sep=None):
    q = elems(as_seq(e, s, p, c.t['atys'][0]))
    if q is None or c.dty()['path'].split('::')[-1] != 'String':
        return None
    et = elem_ty(e, c.t['atys'][0])
    r = txt('')
    for i, x in enumerate(q):
        if i and sep is not None:
            r = cat(r, as_text(e, s, sep, c.t['atys'][1]))
        r = cat(r, as_text(e, s, x, et))
    return r


def in_bounds(e, s, q, n):
    return e.cmp(s, n, qlen(q)) < 0


@model('Vec:Index:index', 'Vec:IndexMut:index_mut', 'slice:Index:index', 'slice:IndexMut:index_mut')
def seq_index(e, s, c, p, i):
    it = c.aty(1)
    if p[0] == 't':
        return None
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if it['kind'] == 'uint':
        if not in_bounds(e, s, q, i):
            e.panic(s, 'index out of bounds')
            return NEVER
        e.seq_get(s, q, i, None, elem_ty(e, c.t['atys'][0]))
        return ('p', k, path + (('i', i),))
    name = it['path'].split('::')[-1] if it['kind'] == 'adt' else ''
    if name == 'RangeFull':
        return ('p', k, path)
    n = qlen(q)
    lo, hi = I(0), n
    if name == 'RangeTo':
        hi = i[2][0]
    elif name == 'RangeFrom':
        lo = i[2][0]
    elif name == 'Range':
        lo, hi = i[2][0], i[2][1]
    elif name == 'RangeToInclusive':
        hi = ladd(i[2][0], I(1))
    elif name == 'RangeInclusive':
        lo, hi = i[2][0], ladd(i[2][1], I(1))
    else:
        return None
    if e.cmp(s, hi, n) > 0 or e.cmp(s, lo, hi) > 0:
        e.panic(s, 'range out of bounds')
        return NEVER
    a, b = e.seq_cut(s, q, lo)
    b, _ = e.seq_cut(s, b, lsub(hi, lo))
    if 'Mut' in c.fn.key:
        raise Undecided('mutable subslice')
    return s.heap(b)


@model('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut')
def seq_get(e, s, c, p, i):
    if c.aty(1)['kind'] != 'uint':
        at = c.aty(1)
        if at['kind'] == 'adt' and at['path'].split('::')[-1] in ('RangeTo', 'RangeFrom', 'Range'):
            k, path = target(e, s, p, c.t['atys'][0])
            q = e.get(s, k, path)
            n = qlen(q)
            name = at['path'].split('::')[-1]
            lo = i[2][0] if name != 'RangeTo' else I(0)
            hi = n if name == 'RangeFrom' else i[2][-1]
            if e.cmp(s, hi, n) > 0 or e.cmp(s, lo, hi) > 0:
                return NONE
            a, b = e.seq_cut(s, q, lo)
            b, _ = e.seq_cut(s, b, lsub(hi, lo))
            return some(s.heap(b))
        return None
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if not in_bounds(e, s, q, i):
        return NONE
    e.seq_get(s, q, i, None, elem_ty(e, c.t['atys'][0]))
    return some(('p', k, path + (('i', i),)))


@model('slice::last', 'slice::last_mut', 'Vec::last', 'Vec::last_mut')
def seq_last(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    n = qlen(q)
    if e.cmp(s, n, I(0)) == 0:
        return NONE
    i = lsub(n, I(1))
    e.seq_get(s, q, i, None, elem_ty(e, c.t['atys'][0]))
    return some(('p', k, path + (('i', i),)))


@model('slice::first', 'slice::first_mut', 'Vec::first')
def seq_first(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    if e.cmp(s, qlen(q), I(0)) == 0:
        return NONE
    e.seq_get(s, q, I(0), None, elem_ty(e, c.t['atys'][0]))
    return some(('p', k, path + (('i', I(0)),)))


@model('slice::to_vec', 'Vec:Clone:clone', 'slice:ToOwned:to_owned', 'Vec:From:from', 'slice:Into:into', 'slice::into_vec',
       'slice::to_owned', 'Arc:From:from', 'Box:Clone:clone')
def seq_clone(e, s, c, p):
    if p[0] == 't':
        return p
    if p[0] == 'q':
        return p
    v = load(e, s, p, c.t['atys'][0])
    if v[0] == 'q' and not ptrs(v, []):
        return v
    if v[0] == 'q' and c.fn.key == 'slice::into_vec':
        return v
    return None


@model('boxed::box_assume_init_into_vec_unsafe', 'slice::box_assume_init_into_vec_unsafe')
def box_into_vec(e, s, c, p):
    return load(e, s, p, c.t['atys'][0])


@model('boxed::box_new_uninit', 'Box::new_uninit')
def box_uninit(e, s, c, *a):
    return s.heap(UNDEF)


@model('Vec:PartialEq:eq', 'slice:PartialEq:eq')
def seq_eq(e, s, c, a, b):
    return e.equal(s, as_seq(e, s, a, c.t['atys'][0]), as_seq(e, s, b, c.t['atys'][1]))


# Iterators over sequences.  `Iter` is by reference: (sequence, from, to).

@model('slice::iter', 'slice::iter_mut', 'Vec:IntoIterator:into_iter', 'ref:IntoIterator:into_iter', 'slice:IntoIterator:into_iter',
       'array:IntoIterator:into_iter', 'Vec::iter', 'Iter::new', 'IterMut::new')
def seq_iter(e, s, c, p):
    if p[0] == 'q':
        return ('a', 'IntoIter', (p,))
    if p[0] not in ('p', 'y', 'd'):
        return None
    t = c.aty(0)
    if t['kind'] not in ('ref', 'ptr'):
        return None
    el = deref_ty(e, t)
    if el['kind'] not in ('slice', 'array') and not (el['kind'] == 'adt' and el['path'] in SEQ_ADTS):
        return None
    k, path = target(e, s, p, t)
    q = e.get(s, k, path)
    if q[0] != 'q':
        raise Undecided('iteration over %s' % (q[0],))
    n = qlen(q)
    if e.iter_copy and not t.get('mut') and (elems(q) is None or e.iter_copy == 'always'):
        return ('a', 'CIter', (q,))
    tag = 'Iter' if elems(q) is not None else 'SIter'
    return ('a', tag, (('p', k, path), I(0), n))


@model('Iter:IntoIterator:into_iter', 'IntoIter:IntoIterator:into_iter', 'Drain:IntoIterator:into_iter',
       'IterMut:IntoIterator:into_iter', 'Rev:IntoIterator:into_iter', 'Enumerate:IntoIterator:into_iter')
def iter_ident(e, s, c, v):
    return v


def iter_item(e, s, it, i, et):
    _, k, path = it[2][0]
    q = e.get(s, k, path)
    x = e.seq_get(s, q, i, None, et)
    return ('p', k, path + (('i', i),))


@model('Iter:Iterator:next', 'IterMut:Iterator:next')
def iter_next(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    it = e.get(s, k, path)
    if it[0] == 'a' and it[1] == 'CIter':
        q = it[2][0]
        e.natural(s, q)
        if e.cmp(s, qlen(q), I(0)) == 0:
            return NONE
        x = e.seq_get(s, q, I(0), None, iter_elem(e, c))
        _, r = e.seq_cut(s, q, I(1))
        e.put(s, k, path, ('a', 'CIter', (r,)))
        return some(x if x[0] == 't' else s.heap(x))
    if it[0] != 'a' or it[1] not in ('Iter', 'SIter'):
        return other_iter_next(e, s, c, p)
    if e.cmp(s, it[2][1], it[2][2]) >= 0:
        return NONE
    x = iter_item(e, s, it, it[2][1], iter_elem(e, c))
    e.put(s, k, path, ('a', it[1], (it[2][0], ladd(it[2][1], I(1)), it[2][2])))
    return some(x)


@model('Iter:Iterator:nth', 'IterMut:Iterator:nth')
def iter_nth(e, s, c, p, n):
    k, path = target(e, s, p, c.t['atys'][0])
    it = e.get(s, k, path)
    if it[0] != 'a' or it[1] not in ('Iter', 'SIter'):
        return None
    i = ladd(it[2][1], n)
    if e.cmp(s, i, it[2][2]) >= 0:
        e.put(s, k, path, ('a', it[1], (it[2][0], it[2][2], it[2][2])))
        return NONE
    x = iter_item(e, s, it, i, iter_elem(e, c))
    e.put(s, k, path, ('a', it[1], (it[2][0], ladd(i, I(1)), it[2][2])))
    return some(x)


def other_iter_next(e, s, c, p):
    return None


def iter_elem(e, c):
    """Element type of the slice iterator that `c` is called on."""
    t = c.aty(0)
    while t['kind'] in ('ref', 'ptr'):
        t = e.ty(t['elem'])
    return t['args'][0] if t['kind'] == 'adt' and t['args'] else None


@model('Iter:DoubleEndedIterator:next_back', 'IterMut:DoubleEndedIterator:next_back')
def iter_next_back(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    it = e.get(s, k, path)
    if it[0] == 'a' and it[1] == 'CIter':
        q = it[2][0]
        e.natural(s, q)
        n = qlen(q)
        if e.cmp(s, n, I(0)) == 0:
            return NONE
        i = lsub(n, I(1))
        x = e.seq_get(s, q, i, None, iter_elem(e, c))
        r, _ = e.seq_cut(s, q, i)
        e.put(s, k, path, ('a', 'CIter', (r,)))
        return some(x if x[0] == 't' else s.heap(x))
    if it[0] != 'a' or it[1] not in ('Iter', 'SIter'):
        return None
    if e.cmp(s, it[2][1], it[2][2]) >= 0:
        return NONE
    i = lsub(it[2][2], I(1))
    x = iter_item(e, s, it, i, iter_elem(e, c))
    e.put(s, k, path, ('a', it[1], (it[2][0], it[2][1], i)))
    return some(x)


@model('Iter:ExactSizeIterator:len', 'Iter::len', 'Iter:Iterator:count')
def iter_len(e, s, c, p):
    it = load(e, s, p, c.t['atys'][0]) if p[0] == 'p' else p
    if it[0] != 'a' or it[1] not in ('Iter', 'SIter'):
        return None
    return lsub(it[2][2], it[2][1])


@model('Iter:Clone:clone')
def iter_clone(e, s, c, p):
    return load(e, s, p, c.t['atys'][0])


@model('IntoIter:Iterator:next', 'Drain:Iterator:next')
def into_iter_next(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    it = e.get(s, k, path)
    if it[0] != 'a' or it[1] not in ('IntoIter', 'Drain'):
        return None
    q = it[2][0]
    if e.cmp(s, qlen(q), I(0)) == 0:
        return NONE
    x = e.seq_get(s, q, I(0), None, iter_elem(e, c))
    _, r = e.seq_cut(s, q, I(1))
    e.put(s, k, path, ('a', it[1], (r,) + it[2][1:]))
    return some(x)


@model('IntoIter:DoubleEndedIterator:next_back', 'Drain:DoubleEndedIterator:next_back')
def into_iter_back(e, s, c, p):
    k, path = target(e, s, p, c.t['atys'][0])
    it = e.get(s, k, path)
    if it[0] != 'a' or it[1] not in ('IntoIter', 'Drain'):
        return None
    q = it[2][0]
    if e.cmp(s, qlen(q), I(0)) == 0:
        return NONE
    a, x = pop_last(e, s, q, iter_elem(e, c))
    e.put(s, k, path, ('a', it[1], (a,) + it[2][1:]))
    return some(x)


@model('Vec::drain')
def vec_drain(e, s, c, p, r):
    k, path = target(e, s, p, c.t['atys'][0])
    q = e.get(s, k, path)
    name = c.aty(1)['path'].split('::')[-1]
    n = qlen(q)
    if name == 'RangeFull':
        lo, hi = I(0), n
    elif name == 'RangeFrom':
        lo, hi = r[2][0], n
    elif name == 'RangeTo':
        lo, hi = I(0), r[2][0]
    elif name == 'Range':
        lo, hi = r[2]
    else:
        return None
    if e.cmp(s, hi, n) > 0 or e.cmp(s, lo, hi) > 0:
        e.panic(s, 'Vec::drain out of bounds')
        return NEVER
    a, b = e.seq_cut(s, q, lo)
    b, rest = e.seq_cut(s, b, lsub(hi, lo))
    e.put(s, k, path, ('q', a[1] + rest[1]))
    return ('a', 'Drain', (b,))


@model('iter::rev')
def iter_rev(e, s, c, v):
    return None


# -- misc ---------------------------------------------------------------------------------------

@model('Option:Clone:clone')
def option_clone(e, s, c, p):
    v = load(e, s, p, c.t['atys'][0])
    if v[0] == 'a' and not ptrs(v, []):
        return v
    if v[0] == 'y':
        return v
    return None


def derived_clone(e, s, c, p):
    """Clone of a value without pointers is the value."""
    v = load(e, s, p, c.t['atys'][0])
    if not ptrs(v, []):
        return v
    return None


for k in ('OwnedName:Clone:clone', 'TextPosition:Clone:clone', 'StackElement:Clone:clone', 'Namespace:Clone:clone',
          'Error:Clone:clone', 'OwnedAttribute:Clone:clone'):
    STD[k] = derived_clone
