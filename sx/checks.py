"""Which analysis decides which property."""
from collections import Counter

from base import NoAnswer, REPO, VERIF


def run(ctx):
    level, f = REGISTRY[ctx.prop]
    return level, f(ctx)


# -- the reading side -----------------------------------------------------------

DEBUG = ('-Coverflow-checks=on', '-Cdebug-assertions=on', '-Zub-checks=no')


def lib_functions(e):
    return sorted({e.p.fns[k].name for k, _ in e.visited if e.p.fns[k].krate.startswith('static_xml')})


def engine_coverage(e, sol, what, extra):
    fns = e.functions if hasattr(e, 'functions') else lib_functions(e)
    return dict({
        'explanation': what,
        'library_functions_analysed': len(fns),
        'functions': fns,
        'abstract_states': e.nstates, 'steps': e.nsteps,
        'call_sites_analysed': e.calls if isinstance(e.calls, int) else len(e.calls),
        'unmodelled_functions': sorted(str(k) for k in e.unknown),
    }, **extra)


def reading(ctx):
    import de
    from prog import Prog
    prog = Prog(ctx.extract(VERIF + '/fixtures/de', *DEBUG))
    e, sol, res = de.analyse(prog, max_time=ctx.budget(), found=ctx.stop(None))
    hit = any(k[0] == ctx.prop for k in e.findings)
    if not hit:
        gave_up = any(u.startswith('gave up') for u in e.undecided)
        for r in ('root_read', 'root_from_str'):
            if r not in prog.roots:
                raise NoAnswer('no root %s' % r)
            if not gave_up and not e.undecided and not (res.get(r, {}).get('Ok') and res.get(r, {}).get('Err')):
                raise NoAnswer('%s never succeeds or never fails: %s' % (r, res.get(r)))
    cov = engine_coverage(e, sol, (
        'Abstract interpretation of the MIR of read/from_str, driven by the most general element '
        'visitor and the most general event stream of the XML parser; observers in the '
        'parser model and the visitor check the rules of this property at every step.'),
        {'final_states': res, 'rules': RULES[ctx.prop]})
    return {'findings': e.findings, 'undecided': e.undecided, 'coverage': cov,
            'assumptions': ASSUME_READ,
            'summary': '%d states, results %s' % (e.nstates, res)}


def naming(ctx):
    import expanded
    from prog import Prog
    out = reading(ctx)
    prog = Prog(ctx.extract(VERIF + '/fixtures/names', *DEBUG))
    want = ['root_%s_%s' % (op, k) for k in expanded.KINDS for op in expanded.OPS] + ['root_hash_ref'] + ['root_find_%d' % n for n in expanded.TABLES]
    for r in want:
        if r not in prog.roots:
            raise NoAnswer('no root %s' % r)
    e, sol, res = expanded.analyse(prog, max_time=ctx.budget())
    findings = {**out['findings'], **e.findings}
    undecided = {**out['undecided'], **e.undecided}
    for r in want:
        if not findings and not undecided and not res.get(r, {}).get('paths'):
            raise NoAnswer('%s never returns' % r)
    cov = dict(out['coverage'], operations=res, functions_of_names=lib_functions(e))
    return dict(out, findings=findings, undecided=undecided, coverage=cov, summary='%s; %d operations on names' % (out['summary'], len(want)))


def writing(ctx):
    import ser
    from prog import Prog
    prog = Prog(ctx.extract(VERIF + '/fixtures/ser', *DEBUG))
    e, sol, res = ser.analyse(prog, ctx.prop, max_time=ctx.budget(), found=ctx.stop(None))
    hit = any(k[0] == ctx.prop for k in e.findings)
    if not hit and not e.undecided and not all(r.get('Ok') and (r.get('Err') or r.get('any') or k.startswith('root_names')) for k, r in res.items() or [('', {})]):
        raise NoAnswer('a root never succeeds or never fails: %s' % (res,))
    cov = engine_coverage(e, sol, (
        'Abstract interpretation of the MIR of Serializer::to/to_string, driven by a client that uses the '
        'API in every possible way; monitors in the model of the XML emitter and in the client '
        'check the rules of this property at every step.'),
        {'final_states': res, 'rules': RULES[ctx.prop]})
    return {'findings': e.findings, 'undecided': e.undecided, 'coverage': cov,
            'assumptions': ASSUME_WRITE,
            'summary': '%d states, results %s' % (e.nstates, res)}


def texts(ctx):
    import octets
    import text
    from corpus_text import TYPES
    from prog import Prog
    prog = Prog(ctx.extract(VERIF + '/fixtures/text', *DEBUG))
    e, sol, res = text.analyse(prog, max_time=ctx.budget(), found=ctx.stop(None))
    findings, undecided = dict(e.findings), dict(e.undecided)
    cov = engine_coverage(e, sol, (
        'Abstract interpretation of the MIR of the built-in ParseText/ToText impls and of the expansion of the derives for a corpus '
        'of declarations; the text or value is symbolic, and what each path returns is compared with the declaration.'),
        {'final_states': res, 'rules': RULES[ctx.prop], 'declared_types': {k: repr(v) for k, v in TYPES.items()}})
    want = [r for n in TYPES for r in ('root_parse_' + n.lower(), 'root_write_' + n.lower())]
    if ctx.prop == 'P22':
        want = ['root_%s_%s' % (k, n) for k in ('parse', 'write') for n in text.NUMBERS + ('bool', 'string')] + ['root_write_str']
    if ctx.prop == 'P07':
        want.append('root_normalize')
        fns = prog.by_key.get('de::normalize')
        if not fns:
            raise NoAnswer('no function normalize')
        rep = octets.classify(prog, fns[0])
        findings.update(rep.findings)
        undecided.update(rep.undecided)
        if not rep.findings and not rep.undecided and not (rep.sites and rep.stores):
            raise NoAnswer('normalize does not look at any byte, or writes none')
        cov['classifications'] = rep.sites
        cov['stores'] = rep.stores
        cov['functions_of_normalize'] = rep.functions
    hit = any(k[0] == ctx.prop for k in findings)
    for r in want:
        if r not in prog.roots:
            raise NoAnswer('no root %s' % r)
        if not hit and not undecided and not res.get(r, {}).get('paths'):
            raise NoAnswer('%s never returns' % r)
    return {'findings': findings, 'undecided': undecided, 'coverage': cov, 'assumptions': ASSUME_TEXT,
            'summary': '%d roots, %d paths' % (len(want), sum(res[r]['paths'] for r in want if r in res))}


def derived_reading(ctx):
    import derived
    from corpus_xml import TYPES
    from prog import Prog
    prog = Prog(ctx.extract(VERIF + '/fixtures/xml', *DEBUG))
    want = ['root_%s_%s' % (k, n) for n in TYPES for k in ('read', 'drive')]
    for r in want:
        if r not in prog.roots:
            raise NoAnswer('no root %s' % r)
    e, sol, res = derived.analyse(prog, max_time=ctx.budget(), found=ctx.stop(None))
    hit = any(k[0] == ctx.prop for k in e.findings)
    for r in want:
        if not hit and not e.undecided and not res.get(r, {}).get('Ok'):
            raise NoAnswer('%s never succeeds: %s' % (r, res.get(r)))
    cov = engine_coverage(e, sol, (
        'Abstract interpretation of the MIR of the expansion of derive(Deserialize) for a corpus of declarations, under every sequence '
        'of attributes, elements and character data with every name that matters and any other; what each event does to which field is '
        'compared with the declaration, and so is the value at the end.'),
        {'final_states': res, 'rules': RULES[ctx.prop], 'declared_types': {k: repr(v) for k, v in TYPES.items()}})
    return {'findings': e.findings, 'undecided': e.undecided, 'coverage': cov, 'assumptions': ASSUME_DERIVED,
            'summary': '%d types, %d states' % (len(TYPES), e.nstates)}


def derived_writing(ctx):
    import derived_ser
    from prog import Prog
    prog = Prog(ctx.extract(VERIF + '/fixtures/xml', *DEBUG))
    e, sol, res = derived_ser.analyse(prog, max_time=ctx.budget(), found=ctx.stop(None))
    hit = any(k[0] == ctx.prop for k in e.findings)
    for n in derived_ser.TYPES:
        for k in derived_ser.KINDS:
            r = 'root_%s_%s' % (k, n)
            if not hit and not e.undecided and not res.get(r, {}).get('Ok'):
                raise NoAnswer('%s never succeeds: %s' % (r, res.get(r)))
    cov = engine_coverage(e, sol, (
        'Abstract interpretation of the MIR of the expansion of derive(Serialize) for a corpus of declarations, and of the library impls '
        'it calls, on an arbitrary value, where anything may fail; what is written is compared with the value and the declaration.'),
        {'final_states': res, 'rules': RULES[ctx.prop], 'declared_types': {k: repr(v) for k, v in derived_ser.TYPES.items()}})
    return {'findings': e.findings, 'undecided': e.undecided, 'coverage': cov, 'assumptions': ASSUME_DERIVED,
            'summary': '%d types, %d states' % (len(derived_ser.TYPES), e.nstates)}


def derived_names(ctx):
    import derived
    import derived_ser
    from prog import Prog
    prog = Prog(ctx.extract(VERIF + '/fixtures/xml', *DEBUG))
    w, _, wres = derived_ser.analyse(prog, max_time=ctx.budget())
    for n in derived.TYPES:
        names = wres.get('root_name_' + n, {}).get('names', {})
        derived.MORE[n] = {x for q, xs in names.items() for x in xs if x != derived.declared(n, q)}
    r, sol, rres = derived.analyse(prog, max_time=ctx.budget())
    f, table = {}, {}
    for n in derived.TYPES:
        written = wres.get('root_name_' + n, {}).get('names', {})
        extra, rejected = set(), set()
        for k in 'read', 'drive':
            x, y = rres.get('root_%s_%s' % (k, n), {}).get('names', ((), ()))
            extra |= set(x)
            rejected |= set(y)
        for q, names in sorted(written.items()):
            d = derived.declared(n, q)
            got = ({d} - {x for k, x in rejected if k == q}) | {x for k, x in extra if k == q}
            table[n + q] = {'read': sorted(map(list, got)), 'written': sorted(map(list, names))}
            if got != set(names):
                f[(ctx.prop, n, q)] = {'message': '%s%s is read as %s, but written as %s' % (n, q, pretty(got), pretty(names))}
    undecided = {**w.undecided, **r.undecided}
    if not f and not undecided and len(table) < 60:
        raise NoAnswer('only %d parts are written' % len(table))
    cov = engine_coverage(r, sol, (
        'The names under which each part is read and written are taken from the abstract interpretation of the expansions of both '
        'derives (see P10 and P11), and compared part by part.'), {'rules': RULES[ctx.prop], 'names': table})
    return {'findings': f, 'undecided': undecided, 'coverage': cov, 'assumptions': ASSUME_DERIVED,
            'summary': '%d parts of %d types' % (len(table), len(derived.TYPES))}


def pretty(names):
    return ', '.join('%s {%s}%s' % tuple(x) for x in sorted(map(tuple, names))) or 'nothing'


ASSUME_DERIVED = [
    "field types other than the derived ones are opaque: reading or writing one yields anything, or fails",
    "declarations other than those of the corpus (sx/corpus_xml.py) expand alike",
    "the models of the standard library's functions (sx/models.py) and the MIR semantics (sx/core.py) are right",
]

ASSUME_TEXT = [
    "FromStr and Display of the standard library's number types, and the models of str functions (sx/models.py, sx/chars.py), are right",
    "declarations other than those of the corpus (sx/corpus_text.py) expand alike",
]

ASSUME_WRITE = [
    "xml-rs's EventWriter writes the events it is given, escaping texts and attribute values, and returns the sink's errors",
    "the models of the standard library's functions (sx/models.py, sx/maps.py) and the MIR semantics (sx/core.py) are right",
    "user code is safe Rust: it only uses what the fixtures/ser client can do",
    "prefixes given to `namespace` do not start with xml (documented)",
]

ASSUME_READ = [
    "xml-rs delivers a well-formed event sequence (start and end tags match, one root, one StartDocument and one EndDocument, "
    "errors repeat) and no text outside the root except what the model allows",
    "the models of the standard library's functions (sx/models.py) and the MIR semantics (sx/core.py) are right",
    "user code is safe Rust: it only uses what the fixtures/de client can do",
]

RULES = {
    'P01': ['success is returned only after EndDocument', 'nothing but comments and PIs outside the root',
            'the parser is not told to ignore the end of input'],
    'P02': ['after an error the next thing that happens is that it is returned', 'the parser is not told to skip errors',
            'in derived code an error of reading any attribute, element or text is returned'],
    'P03': ['every error returned carries the stack of open elements, the position and the cause of what happened'],
    'P04': ['each visitor is given its own attributes, children and character data, in order, all of them, up to its end tag'],
    'P05': ['read_string returns the concatenation of the character data, and fails on a child element',
            'the parser is not told to drop white space'],
    'P06': ['the expanded name of each element and attribute is its namespace (none: empty; prefix xml: the XML namespace) and local name',
            'names are equal exactly if both parts are; their order is consistent with that, total, and the same for all operators',
            'nothing but the two parts is hashed; a clone has the same parts', 'looking a name up in a sorted table finds it exactly if it is there'],
    'P14': ['success is returned only if the root element was finished, no element is open and none was abandoned',
            'start/finish/field succeed only if the tags were written', 'an absent field writes nothing'],
    'P15': ['after a sink error nothing is written, and later writes and the whole operation report it',
            'an error of the client is returned as it is unless the client discards it'],
    'P16': ['adding a watched name twice is an error, adding any other succeeds',
            'the start tag has every attribute that was accepted, once, in order, with its value'],
    'P17': ['every element and attribute name is written with a prefix that stands for the requested namespace there',
            'a written xmlns declaration matches the mapping the emitter was given, and each prefix is declared once per element',
            'namespaced attributes have a non-empty prefix; names in no namespace have none',
            'a name in a namespace that was declared, or inherited and not displaced by the element itself, is not refused'],
    'P18': ['no reachable panic, failed assertion or overflow in library code',
            'once a name was refused, the serialization does not succeed'],
    'P23': ['the emitter gets the settings asked for, with escaping on', 'text is written as Characters events with the content given',
            'nothing is written but through the emitter', 'the string returned is what was written'],
    'P07': ['normalize returns the text itself in preserve mode',
            'bytes are told apart only as white space (9, A, D, 20) and others; the only constant byte stored is a space',
            'derived types parse the text normalised in their declared mode'],
    'P08': ['a second occurrence of a plain or optional field is an error', 'a list holds every occurrence in order',
            'an absent plain field is an error, an absent optional one None, an absent list empty, one with a default the default'],
    'P09': ['nothing uninitialised is referred to, moved or part of a value returned', 'nothing initialised is overwritten without a drop',
            'also when a visitor is driven by hand, on after errors'],
    'P10': ['the content of an attribute or element reaches the field or variant declared for its name, and only that, and its errors are returned',
            'names are looked up in tables that are in order', 'an enum keeps its first variant'],
    'P11': ['each namespace is declared, then each attribute is written if it is there, then those of flattened fields',
            'each element field is written as often as it is there, in order, then flattened fields, then text',
            'every name written is the declared one, and the content that of the field', 'an enum writes its variant; a skipped one is an error',
            'every error ends the writing and is returned'],
    'P12': ['for each part of each type, the names under which it is read are those under which it is written'],
    'P24': ['what own fields do not take is offered, unchanged, to each flattened field in order until one takes it or fails',
            'what all decline is handed back unchanged'],
    'P13': ['a restriction yields a variant exactly for its text, the unknown variant holds the text, writing gives the text back',
            'a union tries its variants in order and yields the first that parses', 'std mode uses FromStr and Display'],
    'P22': ['numbers and booleans are parsed after exactly XML white space was trimmed on both sides',
            'a boolean is true exactly for true and 1, false exactly for false and 0', "a number's result and error are those of FromStr",
            'strings are read and written unchanged, the others written by Display'],
    'P19': ['no reachable panic, failed assertion or overflow in library code', 'no recursion among library functions',
            'the same for derived code and text types, whatever the input'],
}


def both(*parts):
    """One property, decided in several parts of the code."""
    def run(ctx):
        out = None
        for part in parts:
            if out is not None and any(k[0] == ctx.prop and k not in ctx.known for k in out['findings']):
                break
            r = part(ctx)
            if out is None:
                out = r
                continue
            cov = out['coverage']
            for k in 'abstract_states', 'steps', 'call_sites_analysed':
                cov[k] += r['coverage'][k]
            cov['functions'] = sorted({*cov['functions'], *r['coverage']['functions']})
            cov['library_functions_analysed'] = len(cov['functions'])
            cov['explanation'] += ' ' + r['coverage']['explanation']
            cov.setdefault('more_final_states', []).append(r['coverage']['final_states'])
            out = dict(out, findings={**out['findings'], **r['findings']}, undecided={**out['undecided'], **r['undecided']},
                       assumptions=sorted({*out['assumptions'], *r['assumptions']}), summary='%s; %s' % (out['summary'], r['summary']))
        return out
    return run


# -- witnesses ---------------------------------------------------------------------


def witnesses(ctx):
    import witness
    res = witness.run(ctx.prop, REPO)
    if ctx.prop == 'P20':
        res += witness.matrix(REPO)
    n = Counter(v for _, v, _ in res)
    if len(res) < witness.FLOOR[ctx.prop]:
        raise NoAnswer('only %d witnesses' % len(res))
    f = {}
    for name, v, detail in res:
        if v == 'accepted':
            f[(ctx.prop, 'accepted', name)] = {'message': 'this misuse compiles: ' + (detail[0] if detail else 'witness/%s/%s.rs' % (ctx.prop, name))}
        elif v == 'twin' and ctx.prop == 'P20':
            f[(ctx.prop, 'rejected', name)] = {'message': 'this well-formed declaration is rejected: %s %s' % (name, detail[:2])}
        elif v == 'twin' and n['accepted'] == 0:
            raise NoAnswer('the well-formed twin of witness %s does not compile: %s' % (name, detail[:2]))
    codes = Counter(str(d[0][0]) for _, v, d in res if d)
    return {'findings': f, 'undecided': {}, 'summary': '%d witnesses rejected, their twins accepted' % n['ok'],
            'coverage': {
                'explanation': 'Each witness is type-checked by rustc against the current crates and must be rejected; its twin, '
                               'which differs only in the offending line, must be accepted.',
                'witnesses': len(res), 'rejected_with_accepted_twin': n['ok'], 'error_codes': dict(codes),
                'samples': ['%s: %s' % (a, d[0][1]) for a, v, d in res if d][:20]},
            'assumptions': ['rustc type-checks soundly']}


REGISTRY = {p: ('other', reading) for p in ('P01', 'P04')}
REGISTRY.update({p: ('other', both(reading, derived_reading, texts)) for p in ('P02', 'P03')})
REGISTRY['P05'] = ('other', both(reading, derived_reading))
REGISTRY['P19'] = ('other', both(reading, derived_reading, texts))
REGISTRY['P06'] = ('other', naming)
REGISTRY.update({p: ('other', writing) for p in ('P14', 'P16', 'P17', 'P18', 'P23')})
REGISTRY['P15'] = ('other', both(writing, derived_writing, texts))
REGISTRY.update({p: ('other', texts) for p in ('P07', 'P13', 'P22')})
REGISTRY.update({p: ('other', derived_reading) for p in ('P08', 'P09', 'P10', 'P24')})
REGISTRY.update({'P11': ('other', derived_writing), 'P12': ('other', derived_names)})
REGISTRY.update({'P20': ('other', witnesses), 'P21': ('other', witnesses)})
