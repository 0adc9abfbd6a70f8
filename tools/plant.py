#!/usr/bin/env python3
"""Make and confirm planted bugs. `plant.py make SPEC.py` builds /verif/seeded/<id>/ for every bug of
SPEC.py (a list BUGS of dicts: id, property, edits [(file, old, new)], demo, needs, what), confirms
each in a scratch copy of /repo and removes those that do not hold. `plant.py catch ID.. [-- CHECKS]`
applies each to /repo, runs the checks and undoes it."""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = VERIF + '/seeded'
KIT = VERIF + '/tools/kit'
SCR = '/tmp/pl/scratch'
REPO = SCR + '/repo'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    if not os.path.exists(REPO):
        os.makedirs(SCR, exist_ok=True)
        rc, o = sh(f'cp -a /repo {REPO}')
        assert rc == 0, o
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', REPO)


def tests():
    env = {'CARGO_TARGET_DIR': '/tmp/pl/target', 'CARGO_NET_OFFLINE': 'true'}
    out = ''
    for rt in ('tokio', 'async-std'):
        f = f'--offline --no-default-features --features runtime-{rt}'
        for cmd in (f'cargo build --lib --examples {f}', f"RUSTFLAGS='--cap-lints warn' cargo test {f}"):
            rc, o = sh(cmd, REPO, env)
            out += o[-1500:]
            if rc:
                return False, out
    return True, out


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    for b in g['BUGS']:
        scratch()
        d = f"{SEED}/{b['id']}"
        if os.path.exists(d + '/ok'):
            continue
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            p = f'{REPO}/src/{f}'
            s = open(p).read()
            if s.count(old) < 1:
                print(b['id'], 'EDIT NOT FOUND', old)
                break
            s = s.replace(old, new, 1) if not b.get('all') else s.replace(old, new)
            open(p, 'w').write(s)
        else:
            rc, diff = sh('git diff', REPO)
            open(d + '/patch.diff', 'w').write(diff)
            kind = b.get('kit', KIT)
            for f in ('kit.rs', 'demo.sh', 'Cargo.toml', 'Cargo.lock'):
                shutil.copy(f'{kind}/{f}', d)
            open(d + '/main.rs', 'w').write(b['demo'])
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                      open(d + '/meta.json', 'w'), indent=1)
            ok, out = tests()
            env = {'DEMO_TARGET': '/tmp/pl/dtarget'}
            rcp, op = sh(f'bash {d}/demo.sh', REPO, env)
            sh('git checkout -q -- .', REPO)
            rcc, oc = sh(f'bash {d}/demo.sh', REPO, env)
            good = ok and rcp != 0 and rcc == 0
            compiled = 'could not compile' not in op
            print(b['id'], 'GOOD' if good and compiled else 'BAD', 'tests', ok, 'patched', rcp, 'clean', rcc, flush=True)
            if not (good and compiled):
                print((out if not ok else '') + op[-1200:] + oc[-1200:])
                shutil.rmtree(d)
            continue
        shutil.rmtree(d)


def catch(ids, checks):
    checks = checks or [f'C{i:02d}' for i in range(1, 31)]
    for i in ids:
        patch = f'{SEED}/{i}/patch.diff'
        prop = json.load(open(f'{SEED}/{i}/meta.json'))['property']
        todo = [prop] if checks == ['own'] else checks
        rc, o = sh(f'git apply {patch}', '/repo')
        assert rc == 0, o
        got, odd = [], []
        try:
            for c in todo:
                rc, o = sh(f'python3 check.py {c}', VERIF, {'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, 1200)
                v = f'VIOLATION property={c}' in o
                if rc == 1 and v:
                    got.append(c)
                elif rc != 0:
                    odd.append(f'{c}:{rc}')
                    open(f'/tmp/pl/{i}.{c}.log', 'w').write(o)
        finally:
            sh('git checkout -q -- .', '/repo')
        print(i, 'own', prop, 'CAUGHT' if prop in got else 'MISSED', 'by', ' '.join(got), 'ODD ' + ' '.join(odd) if odd else '', flush=True)


def quiet(ids, checks):
    """Changes that keep the behaviour: no check may say anything."""
    checks = checks or [f'C{i:02d}' for i in range(1, 40) if os.path.exists(VERIF + '/MANIFEST.json')
                        and f'"C{i:02d}"' in open(VERIF + '/MANIFEST.json').read()]
    for i in ids:
        rc, o = sh(f'git apply {VERIF}/tools/equiv/{i}.diff', '/repo')
        assert rc == 0, o
        try:
            for c in checks:
                rc, o = sh(f'python3 check.py {c}', VERIF, {'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, 1200)
                if rc:
                    open(f'/tmp/pl/eq-{i}.{c}.log', 'w').write(o)
                    print(i, c, 'ALARM', rc, [l for l in o.splitlines() if 'VIOL' in l or ' at event ' in l][:2], flush=True)
        finally:
            sh('git checkout -q -- .', '/repo')
        print(i, 'done', flush=True)


if __name__ == '__main__':
    a = sys.argv[2:]
    if sys.argv[1] == 'quiet':
        c = a[a.index('--') + 1:] if '--' in a else []
        quiet(a[:a.index('--')] if '--' in a else a, c)
        sys.exit()
    if sys.argv[1] == 'make':
        for s in a:
            make(s)
    else:
        c = a[a.index('--') + 1:] if '--' in a else []
        ids = a[:a.index('--')] if '--' in a else a
        catch(ids or sorted(os.listdir(SEED)), c)
