#!/usr/bin/env python3
"""mkseeds.py [ID...]: writes /verif/seeded/<id> from the edits in tools/seeds/*.py and
checks each: applies, touches original lines, builds, keeps the stable tests, and the
demonstration passes without and fails with the change. Scratch copies live under /tmp."""
import json, os, shutil, subprocess, sys, difflib, glob
REPO, OUT, BASE = '/repo', '/verif/seeded', '/tmp/base'
here = os.path.dirname(os.path.abspath(__file__))
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, imports=()):
    SEEDS.append((id, prop, edits, demo, needs, breaks, imports))
for f in sorted(glob.glob(here + '/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))

DEMO = '''#!/bin/bash
# Run in the repository after the build: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off ZZ_SCRATCH=$t
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -run 'TestZZDemo$' -overlay "$t/overlay.json" .
'''
def run(cmd, cwd=None, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

base = json.load(open('/opt/vp/BASELINE.json'))
def tests_ok(w):
    # the stable tests, run in the copy
    o = run(['go', 'test', '-count=1', '-timeout', '200s', '-v', '.'], cwd=w)
    fails = [l.split()[2] for l in o.stdout.decode().splitlines() if l.strip().startswith('--- FAIL')]
    stable = json.dumps(base)
    return [f for f in fails if f in stable], o.returncode, 'build failed' in o.stdout.decode() or '[setup failed]' in o.stdout.decode()

want = sys.argv[1:]
bad = 0
for id, prop, edits, demo, needs, breaks, imports in SEEDS:
    if want and id not in want: continue
    w = '/tmp/seedw'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(REPO, w, symlinks=True)
    err = []
    files = set()
    for f, old, new in edits:
        s = open(f'{w}/{f}').read()
        if s.count(old) != 1:
            err.append(f'{f}: {s.count(old)} matches of {old[:60]!r}')
            continue
        open(f'{w}/{f}', 'w').write(s.replace(old, new))
        files.add(f)
    if err:
        print(id, 'EDIT', err); bad += 1; continue
    diff = run(['git', 'diff'], cwd=w).stdout.decode()
    orig = {f: set(l.strip() for l in open(f'{BASE}/{f}')) for f in files}
    for f in files:
        a = open(f'{REPO}/{f}').read().splitlines(); b = open(f'{w}/{f}').read().splitlines()
        for l in difflib.unified_diff(a, b, n=0, lineterm=''):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in orig[f]:
                err.append('not original: ' + l)
    d = f'{OUT}/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    imp = ''.join(f'\t"{i}"\n' for i in sorted(set(['testing', *imports])))
    open(d + '/demo_test.go', 'w').write(f'package nn\n\nimport (\n{imp})\n\n{demo.strip()}\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r0 = run([d + '/demo.sh'], cwd=REPO)
    if r0.returncode: err.append('demo fails on the clean tree: ' + r0.stdout.decode()[-600:])
    r1 = run([d + '/demo.sh'], cwd=w)
    if r1.returncode == 0: err.append('demo passes with the change')
    elif b'[build failed]' in r1.stdout: err.append('does not build: ' + r1.stdout.decode()[-600:])
    f, rc, bf = tests_ok(w)
    if f or bf: err.append(f'tests: {f} {bf}')
    a = run(['git', 'apply', '--check', d + '/patch.diff'], cwd=REPO)
    if a.returncode: err.append('does not apply')
    print(id, 'ok' if not err else 'BAD ' + '; '.join(err), flush=True)
    bad += bool(err)
    shutil.rmtree(w, ignore_errors=True)
sys.exit(bad > 0)
