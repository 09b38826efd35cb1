#!/usr/bin/env python3
"""Make and confirm planted bugs.   tools/seed.py FILE.py [ID...]

FILE.py defines seed(id, property, needs, breaks, [(file, old, new), ...], main_rs).  A bug is kept in
seeded/<id>/ only if, in a scratch copy of /repo, it builds, passes the stable tests, and its demonstration
succeeds without it and fails with it.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# exit 0: the property holds for the input in main.rs; nonzero: it does not
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" && cp "$H/main.rs" "$D/src/main.rs" && cp "$R/Cargo.lock" "$D/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nmaterial-color-utilities-rs = { path = "%s" }\\n[workspace]\\n' "$R" > "$D/Cargo.toml"
cd "$D" && CARGO_TARGET_DIR="$D/target" cargo run --offline -q
'''
L = []
def seed(id, prop, needs, breaks, edits, main): L.append((id, prop, needs, breaks, edits, main))


def sh(cmd, cwd, t=900):
    try: return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = ''; stderr = 'timeout'
        return R


def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8', S)
    ok = {l.split()[1] for l in r.stdout.split('\n') if l.startswith('test ') and l.rstrip().endswith('... ok')}
    bad = [l for l in r.stdout.split('\n') if l.startswith('test ') and l.rstrip().endswith('FAILED')]
    return len(ok), bad, r


exec(open(sys.argv[1]).read())
want = sys.argv[2:]
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', S])
for id, prop, needs, breaks, edits, main in L:
    if want and id not in want: continue
    d = os.path.join(V, 'seeded', id)
    if not want and os.path.exists(os.path.join(d, 'patch.diff')): continue
    sh('git checkout -- .', S)
    good = True
    tmp = '/tmp/seeddemo'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/main.rs', 'w').write(main)
    open(tmp + '/demo.sh', 'w').write(DEMO)
    a = sh('bash %s/demo.sh' % tmp, S)
    if a.returncode != 0: print(id, 'DEMO FAILS ON UNCHANGED TREE', a.stderr[-1500:], a.stdout[-500:]); continue
    for f, old, new in edits:
        p = os.path.join(S, f); s = open(p).read()
        if s.count(old) != 1: print(id, 'PATTERN', s.count(old), 'times in', f, repr(old[:60])); good = False; break
        open(p, 'w').write(s.replace(old, new))
    if not good: continue
    diff = sh('git diff', S).stdout
    n, bad, r = tests()
    if n < 128 or bad: print(id, 'TESTS', n, bad[:5], r.stderr[-800:] if n == 0 else ''); continue
    b = sh('bash %s/demo.sh' % tmp, S)
    if b.returncode == 0: print(id, 'DEMO PASSES WITH THE BUG'); continue
    if 'error: could not compile' in b.stderr: print(id, 'demo does not compile with the bug'); continue
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(main); open(d + '/demo.sh', 'w').write(DEMO)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, 'kept', (b.stderr.strip().split('\n') or [''])[-1][:200] if 'panicked' in b.stderr else b.stdout[-200:])
shutil.rmtree(S, ignore_errors=True)
