#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sx')
import checks

AI = 'abstract interpretation of the MIR with a most-general client (joins and fixpoints over symbolic sequences), rules as monitors'
WIT = 'type-level encoding: compile-fail witnesses with compiling twins, decided by rustc'
CLAIMS = {
    'P01': (AI, 'Over all documents (as event sequences of xml-rs) and all client types the fixture stands for; sound up to the models of std and xml-rs.'),
    'P02': (AI, 'As P01: every path on which an error was met must return it. Field and text impls are covered with the derived corpus.'),
    'P03': (AI, 'As P01: the error value that is returned is compared with the observed open elements, position and cause.'),
    'P04': (AI, 'As P01: the sequence of visitor calls is compared with the event sequence by observers, at any depth and after any discarded error.'),
    'P05': (AI, 'As P01: the text returned is compared, as a concatenation of symbolic texts, with what the parser delivered.'),
    'P06': (AI + '; decision tables of the comparison operators',
            'As P01 for reported names; the operators on names over all pairs of names, by how their parts compare.'),
    'P07': ('constant propagation of every byte value through the control flow from each load; abstract interpretation for the declared modes',
            'Decides which bytes normalize tells apart, what it stores, and the mode applied by the derived types of a corpus; which runs collapse removes is not decided.'),
    'P08': (AI.replace('a most-general client', 'the most general sequence of events') + '; per-field occurrence monitors',
            'Over every sequence of events, for a corpus of derived types (plain, optional, list, default fields; enums; flattening); field types are opaque.'),
    'P09': (AI.replace('a most-general client', 'the most general sequence of events') + '; initialisation typestate of every field',
            'As P08, also for visitors driven by hand past errors. Packed types are covered by P20.'),
    'P10': (AI.replace('a most-general client', 'the most general sequence of events') + '; content is traced to fields',
            'As P08, with every declared namespace and local name in every combination, and any other.'),
    'P11': (AI.replace('a most-general client', 'an arbitrary value') + '; typestate of the element being written, occurrence counters',
            'Over every value of every type of a corpus of declarations; field types are opaque, lists of any length.'),
    'P12': (AI.replace('a most-general client', 'the most general events and values') + '; comparison of the two name tables',
            'Part by part, for the corpus of declarations.'),
    'P24': (AI.replace('a most-general client', 'the most general sequence of events') + '; opaque flattened fields as observers',
            'As P08, with up to three flattened fields, opaque or derived, nested once.'),
    'P13': (AI.replace('a most-general client', 'symbolic texts and values'), 'Over every text and value, for a corpus of declarations (every mode, whitespace option, renames, unknown variants in every position).'),
    'P22': (AI.replace('a most-general client', 'symbolic texts and values'), 'Over every text and every value of all built-in types; FromStr/Display of std are trusted.'),
    'P14': (AI, 'Over all clients of the writing API at any nesting depth; sound up to the models of std and xml-rs. The sink is assumed not to fail (P15 covers that).'),
    'P15': (AI, 'As P14, with a sink that may fail at any event; error texts are compared symbolically.'),
    'P16': (AI + '; two watched names', 'As P14, with maps tracked exactly for two watched attribute names (three ways of differing); every other name stands for any.'),
    'P17': (AI + '; watched prefix and namespace', 'As P14, with namespace maps tracked exactly for one watched prefix and namespace (eight ways of choosing them, empty ones included); every other name stands for any.'),
    'P18': (AI + '; reachable panics', 'As P14; all panics reachable in library code, overflow checks and debug assertions on.'),
    'P23': (AI, 'As P14: configuration and content given to the emitter are compared with what the client gave; escaping itself is xml-rs.'),
    'P19': (AI + '; reachable panics and call cycles', 'All panics reachable in library code under the most general client, overflow checks and debug assertions on; recursion by call cycles.'),
    'P20': (WIT, 'Decides the listed misuses exactly; other misuses are not covered.'),
    'P21': (WIT, 'Decides the listed misuses exactly; other misuses are not covered. Trusts rustc.'),
}
try:
    from claims import CLAIMS as MORE
    CLAIMS.update(MORE)
except ImportError:
    pass
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'cd driver && cargo +nightly build --release --offline',
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMS and i in checks.REGISTRY:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': CLAIMS[i][0], 'level': checks.REGISTRY[i][0], 'level_note': CLAIMS[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
