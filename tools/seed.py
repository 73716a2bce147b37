#!/usr/bin/env python3
"""Development helper: seed.py <id> <property> <file> <<< python-literal (old, new, needs, breaks); demo.rs given in seeded/<id>/demo.rs (or own demo.sh).
Makes patch.diff from the replacement, verifies build/tests/demo in a scratch copy, and reports what the check says."""
import sys, os, subprocess, json, shutil, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None, t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode('utf8', 'replace')
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir $d/src
cp "$here/demo.rs" $d/src/main.rs
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ncrylib = { path = "%s/crylib" }\\n[workspace]\\n' "$repo" > $d/Cargo.toml
cd $d
cargo run --offline --quiet --target-dir $d/target
'''
def main():
    sid, prop = sys.argv[1:3]
    spec = eval(sys.stdin.read())  # dict(edits=[(file, old, new)], needs=, breaks=, demo=)
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo ' + w)
    for f, old, new in spec['edits']:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, '%s: %d occurrences of %r' % (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    rc, out = sh('git diff', cwd=w); open(os.path.join(d, 'patch.diff'), 'w').write(out)
    if spec.get('demo'): open(os.path.join(d, 'demo.rs'), 'w').write(spec['demo'])
    p = os.path.join(d, 'demo.sh')
    if spec.get('sh'): open(p, 'w').write(spec['sh'])
    elif not os.path.exists(p): open(p, 'w').write(DEMO)
    os.chmod(p, 0o755)
    json.dump(dict(property=prop, needs=spec['needs'], what_it_breaks=spec['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = True
    rc, out = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo unchanged rc', rc, out[-300:] if rc else ''); ok &= rc == 0
    rc, out = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        rc, out = sh('bash /opt/vp/build.sh'); print('build rc', rc); ok &= rc == 0
        rc, out = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/seed_o.json'))
        bp = base['stable']
        gp = got.get('passed') or got
        miss = [t for t in bp if t not in gp]; print('tests missing', miss[:5]); ok &= not miss
        rc, out = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo patched rc', rc, out[-300:]); ok &= rc != 0
        print('SEED', sid, 'OK' if ok else 'BAD')
        if ok and '--nocheck' not in sys.argv:
            rc, out = sh('python3 %s/vf.py %s' % (HERE, prop)); print('check rc', rc, [l[:200] for l in out.splitlines() if 'VIOL' in l or 'PROB' in l][:4], out.splitlines()[-1:])
    finally:
        sh('git -C /repo checkout -- .'); shutil.rmtree(w, ignore_errors=True)
main()
