#!/usr/bin/env python3
"""Development aid for planted bugs (never used by a check).
  seedlab.py make SPEC.py     SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main), FEATURES
  seedlab.py test ID...       patch applies to a scratch copy, stable tests pass, demo passes/fails
  seedlab.py run ID...        apply to /repo, run the property's check, undo
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); LAB = '/tmp/lab/repo'
def sh(c, cwd=None, timeout=1800):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def lab():
    if not os.path.isdir(LAB): os.makedirs('/tmp/lab', exist_ok=True); sh('cp -a /repo /tmp/lab/repo')
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (LAB, LAB, LAB))
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this tree
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=/tmp/seed_demo_%(id)s
rm -rf /tmp/seed_demo_%(id)s
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
[ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cp "$R/src/math/utils.rs" "$T/src/u.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
image = { path = "$R", default-features = false, features = [%(features)s] }
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
RC=$?
cd /
rm -rf /tmp/seed_demo_%(id)s
exit $RC
'''
def make(spec):
    ns = {'FEATURES': []}; exec(open(spec).read(), ns); lab()
    i = ns['ID']
    for f, a, b in ns['EDITS']:
        p = os.path.join(LAB, f); t = open(p).read()
        if t.count(a) != 1: print('EDIT matches', t.count(a), 'times:', a); sys.exit(1)
        open(p, 'w').write(t.replace(a, b))
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    rc, out = sh('git -C %s diff' % LAB); open(d + '/patch.diff', 'w').write(out)
    open(d + '/main.rs', 'w').write(ns['DEMO'].strip() + '\n')
    open(d + '/demo.sh', 'w').write(DEMO % {'id': i, 'features': ', '.join('"%s"' % x for x in ns['FEATURES'])}); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    return i
def test(i):
    lab(); d = os.path.join(V, 'seeded', i)
    rc0, o0 = sh('bash %s/demo.sh' % d, '/repo', 600)
    rc, o = sh('git apply %s/patch.diff' % d, LAB)
    if rc: print(i, 'patch does not apply', o); return False
    rc1, o1 = sh('bash %s/demo.sh' % d, LAB, 600)
    env = open('/opt/vp/env.sh').read()
    e = 'export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/tmp/lab/repo/target; F=--features=avif-native,serde,color_quant; '
    sh('find src -name "*.rs" -newer Cargo.toml | xargs touch', LAB)
    rc2, o2 = sh(e + '(cargo test --workspace --no-fail-fast --offline --lib --bins --tests $F -- --test-threads 8; cargo test --workspace --no-fail-fast --offline --doc $F -- --test-threads 8) > /tmp/lab/test.log 2>&1; python3 /opt/vp/results.py /tmp/lab/out.json cargo:/tmp/lab/test.log', LAB)
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ps = set(json.load(open('/tmp/lab/out.json'))['passed'])
    miss = st - ps
    ok = rc0 == 0 and rc1 != 0 and not miss
    print(i, 'OK' if ok else 'BAD', 'demo clean', rc0, 'patched', rc1, 'missing tests', sorted(miss)[:3], '' if ok else (o0 if rc0 else '') [-600:])
    if not ok and rc1 == 0: print(o1[-500:])
    lab(); return ok
def run(i, prop=None):
    d = os.path.join(V, 'seeded', i); p = prop or json.load(open(d + '/meta.json'))['property']
    rc, o = sh('git -C /repo apply %s/patch.diff' % d)
    if rc: print(i, 'does not apply', o); return
    try: rc, o = sh('VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s' % p, V)
    finally: sh('git -C /repo checkout -- .')
    v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
    print(i, p, 'exit', rc, v, [l for l in o.split('\n') if 'failed obligation' in l or 'failing input' in l][:4] if '-v' in sys.argv or not v else '', o[-800:] if not v else '')
if __name__ == '__main__':
    a = [x for x in sys.argv[2:] if not x.startswith('-')]
    if sys.argv[1] == 'make':
        for x in a: i = make(x); test(i); run(i)
    elif sys.argv[1] == 'test':
        for x in a: test(x)
    elif sys.argv[1] == 'run':
        for x in a: run(x)
