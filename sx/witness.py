"""Compile-fail witnesses (P20, P21).

Every file of witness/<property> holds two programs that differ only in the
lines marked //BAD and //GOOD. Both are type-checked against the repository's
current crates: the first must be rejected, the second accepted."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOOR = {'P20': 3000, 'P21': 46}

TOML = '''[package]
name = "witness"
version = "0.1.0"
edition = "2021"

[lib]
path = "lib.rs"

[dependencies]
static-xml = { path = "%(repo)s/static-xml" }
static-xml-derive = { path = "%(repo)s/static-xml-derive" }
xml-rs = "0.8"

[workspace]
'''


def variants(src):
    bad, good = [], []
    for line in src.split('\n'):
        l = line.rstrip()
        if l.endswith('//BAD'):
            bad.append(l[:-5])
            good.append('')
        elif l.endswith('//GOOD'):
            good.append(l[:-6])
            bad.append('')
        else:
            bad.append(l)
            good.append(l)
    return '\n'.join(bad), '\n'.join(good)


def run(prop, repo='/repo', toolchain=None):
    """[(name, verdict, detail)], verdict in ok / accepted / twin rejected."""
    d = os.path.join(VERIF, 'witness', prop)
    names = sorted(f[:-3] for f in os.listdir(d) if f.endswith('.rs'))
    tmp = tempfile.mkdtemp(prefix='sxw.', dir='/tmp')
    try:
        os.mkdir(tmp + '/examples')
        open(tmp + '/lib.rs', 'w').write('')
        open(tmp + '/Cargo.toml', 'w').write(TOML % {'repo': repo})
        shutil.copy(repo + '/Cargo.lock', tmp + '/Cargo.lock')
        for n in names:
            b, g = variants(open('%s/%s.rs' % (d, n)).read())
            if b == g and not n.startswith("ok_"):
                raise Exception('witness %s has no offending line' % n)
            for k, t in (('bad', b), ('good', g)) if b != g else (('good', g),):
                open('%s/examples/%s_%s.rs' % (tmp, k, n), 'w').write(t + '\nfn main() {}\n')
        env = dict(os.environ, CARGO_TARGET_DIR=tmp + '/t', RUSTFLAGS='-Awarnings')
        env.pop('RUSTC_WRAPPER', None)
        p = subprocess.run(['cargo'] + ([toolchain] if toolchain else []) +
                           ['check', '--offline', '--examples', '--keep-going', '--message-format=json'],
                           cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        passed, errors, lib = set(), {}, False
        for line in p.stdout.split('\n'):
            if not line.startswith('{'):
                continue
            m = json.loads(line)
            if m['reason'] == 'compiler-artifact':
                if 'example' in m['target']['kind']:
                    passed.add(m['target']['name'])
                elif m['target']['name'] in ('static_xml', 'static-xml'):
                    lib = True
            elif m['reason'] == 'compiler-message' and m['message']['level'] == 'error' and 'example' in m['target']['kind']:
                msg = m['message']
                if msg['message'].startswith('aborting due to'):
                    continue
                code = (msg.get('code') or {}).get('code')
                errors.setdefault(m['target']['name'], []).append((code, msg['message']))
        if not lib:
            raise Exception('the crates under analysis do not compile:\n' + p.stderr[-2000:])
        out = []
        for n in names:
            g, b = 'good_' + n, 'bad_' + n
            if g not in passed:
                out.append((n, 'twin', errors.get(g, [])))
            elif n.startswith('ok_'):
                out.append((n, 'ok', []))
            elif b in passed:
                out.append((n, 'accepted', []))
            elif b in errors:
                out.append((n, 'ok', errors[b]))
            else:
                raise Exception('no verdict on witness %s' % n)
        return out
    finally:
        shutil.rmtree(tmp)


def matrix(repo='/repo', only=None):
    """Decides the cases of matrix.py: {name: verdict}. Each program is a
    module of its own, and is rejected if an error is reported within it."""
    import matrix as m
    cs = sorted(set(m.cases()))
    tmp = tempfile.mkdtemp(prefix='sxm.', dir='/tmp')
    try:
        os.mkdir(tmp + '/src')
        open(tmp + '/Cargo.toml', 'w').write(TOML.replace('"lib.rs"', '"src/lib.rs"') % {'repo': repo})
        shutil.copy(repo + '/Cargo.lock', tmp + '/Cargo.lock')
        env = dict(os.environ, CARGO_TARGET_DIR=tmp + '/t', RUSTFLAGS='-Awarnings')
        env.pop('RUSTC_WRAPPER', None)

        def check(texts):
            """Errors by index; index None for what is in no module."""
            src, where, line = [], [], 1
            for i, x in enumerate(texts):
                x = 'mod m%d {\n%s\n}' % (i, x)
                src.append(x)
                where += [i] * (x.count('\n') + 1)
            open(tmp + '/src/lib.rs', 'w').write('\n'.join(src))
            p = subprocess.run(['cargo', 'check', '--offline', '--message-format=json'], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            errs, ok, dep = {}, False, False
            for l in p.stdout.split('\n'):
                if not l.startswith('{'):
                    continue
                x = json.loads(l)
                if x['reason'] == 'compiler-artifact':
                    ok |= x['target']['name'] == 'witness'
                    dep |= x['target']['name'] in ('static_xml_derive', 'static-xml-derive')
                if x['reason'] != 'compiler-message' or x['message']['level'] != 'error' or x['target']['name'] != 'witness':
                    continue
                msg = x['message']
                for sp in msg['spans']:
                    while sp['file_name'] != 'src/lib.rs' and sp['expansion']:
                        sp = sp['expansion']['span']
                    if sp['is_primary'] or len(msg['spans']) == 1:
                        if sp['file_name'] == 'src/lib.rs':
                            errs.setdefault(where[sp['line_start'] - 1], (msg.get('code'), msg['message']))
                            break
                else:
                    if not msg['message'].startswith(('aborting due to', 'could not compile')):
                        errs.setdefault(None, (None, msg['message']))
            if not dep:
                raise Exception('the crates under analysis do not compile:\n' + p.stderr[-2000:])
            if not ok and not errs:
                raise Exception('no verdict: ' + p.stderr[-2000:])
            return errs
        out = {}
        goods = sorted({g for _, _, g in cs})
        e = check(goods)
        if None in e:
            raise Exception('unplaced error: %s' % (e[None],))
        badgood = {goods[i]: x for i, x in e.items()}
        left = sorted({b for _, b, _ in cs})
        rejected = {}
        while left:
            e = check(left)
            if None in e:
                raise Exception('unplaced error: %s' % (e[None],))
            if not e:
                break
            rejected.update((left[i], x) for i, x in e.items())
            left = [b for i, b in enumerate(left) if i not in e]
        res = []
        for n, b, g in cs:
            if g in badgood:
                res.append((n, 'twin', [badgood[g], g]))
            elif b in rejected:
                res.append((n, 'ok', [rejected[b]]))
            else:
                res.append((n, 'accepted', [b]))
        return res
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    import sys
    for n, v, d in run(sys.argv[1], *sys.argv[2:]):
        print(v, n, d[:2])
