#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for /repo's current tree.

Exit 0: nothing found; 1: a violation (VIOLATION line); 2: no answer."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/sx')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from base import NoAnswer


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.tmp = tempfile.mkdtemp(prefix='sxc.', dir='/tmp')
        self.known = known(prop)
        self.t0 = time.time()

    def budget(self):
        """Seconds an analysis may still take."""
        return max(60, (700 if self.tier == 'quick' else 800) - (time.time() - self.t0))

    def extract(self, fixture, *flags):
        """The fixture's MIR, together with that of everything it reaches in the repository."""
        d = VERIF + '/driver'
        p = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoAnswer('the export driver does not build:\n' + p.stdout[-3000:])
        out = self.tmp + '/x_' + os.path.basename(fixture)
        p = subprocess.run([VERIF + '/tools/extract.sh', fixture, out] + list(flags),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        name = 'fx_' + os.path.basename(fixture)
        if p.returncode or not os.path.exists('%s/%s.json' % (out, name)):
            raise NoAnswer('the fixture %s does not compile against the repository:\n%s' % (fixture, p.stdout[-3000:]))
        return '%s/%s.json' % (out, name)

    def stop(self, e):
        """Stops an engine at the first unknown finding for this property."""
        from core import Found

        def hook(key):
            if key[0] == self.prop and text(key) not in self.known:
                raise Found()
        return hook


def text(key):
    return ' / '.join(str(k) for k in key[1:])


def known(prop):
    with open(VERIF + '/known_findings.json') as f:
        return {x['key'] for x in json.load(f)['findings'] if x['property'] == prop}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import checks
    ctx = Ctx(prop, tier)
    t0 = time.time()
    try:
        level, r = checks.run(ctx)
    except NoAnswer as x:
        print('NO ANSWER for %s: %s' % (prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        print('NO ANSWER for %s: the check failed' % prop)
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    found = {text(k): v for k, v in r['findings'].items() if k[0] == prop}
    new = {k: v for k, v in found.items() if k not in ctx.known}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': dict(r['coverage'], undecided=sorted(r['undecided'])[:40], undecided_count=len(r['undecided'])),
        'assumptions': r.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if new:
        ev['coverage']['findings'] = sorted(new)[:40]
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for u in sorted(r['undecided'])[:20]:
        print('UNDECIDED %s' % u)
    for k in sorted(found):
        if k in ctx.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if new:
        path = '%s/evidence/%s.violation.txt' % (VERIF, prop)
        with open(path, 'w') as f:
            for k in sorted(new):
                v = new[k]
                f.write('%s: %s\n' % (k, v['message']))
                for w in v.get('where', ()):
                    f.write('  at %s\n' % w)
                for w in v.get('trace', ())[-60:]:
                    f.write('    %s\n' % w)
                f.write('\n')
        for k in sorted(new)[:10]:
            print('%s: %s' % (k, new[k]['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: no violation; %s (%.0f s)' % (prop, r['summary'], time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
