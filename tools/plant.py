#!/usr/bin/env python3
"""plant.py SPEC...: turn bug specifications (python files defining S = dict(id, property, needs, what_it_breaks,
edits=[(file, old, new)], main)) into seeded/<id>/, after confirming them in a scratch copy of /repo.
plant.py --check ID...: apply seeded bugs to a scratch copy... only confirms them again."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant-wt'
DEMO = '''#!/bin/sh
# exit 0: the property holds on this input; nonzero: broken. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
rm -rf /tmp/seed-demo-%(id)s
mkdir -p /tmp/seed-demo-%(id)s/src
cp "$here/main.rs" "$here/mk.rs" /tmp/seed-demo-%(id)s/src/
cp "$repo/Cargo.lock" /tmp/seed-demo-%(id)s/
cat > /tmp/seed-demo-%(id)s/Cargo.toml <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
aseprite-loader = { path = "$repo" }
EOT
cd /tmp/seed-demo-%(id)s
RUST_BACKTRACE=0 cargo run --offline -q --target-dir /tmp/seed-demo-%(id)s/target
rc=$?
cd /
rm -rf /tmp/seed-demo-%(id)s
exit $rc
'''


def sh(c, cwd=W, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def fresh():
    if not os.path.exists(W):
        sh('cp -a /repo ' + W, '/')
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd')


def confirm(i):
    d = V + '/seeded/' + i
    fresh()
    rc, o = sh('sh %s/demo.sh' % d)
    if rc:
        return 'demo fails on the unchanged tree\n' + o[-1500:]
    rc, o = sh('git apply %s/patch.diff' % d)
    if rc:
        return 'patch does not apply\n' + o
    rc, o = sh('cargo test --offline 2>&1')
    if rc or '14 passed' not in o:
        return 'tests fail\n' + o[-3000:]
    rc, o = sh('sh %s/demo.sh' % d)
    if rc == 0:
        return 'demo passes with the patch'
    return 'OK  ' + ' | '.join(x for x in o.strip().splitlines() if 'panicked' not in x)[-150:]


def main():
    a = sys.argv[1:]
    if a[0] == '--check':
        for i in a[1:] or sorted(os.listdir(V + '/seeded')):
            print(i, confirm(i))
        return
    for spec in a:
        g = {}
        exec(open(spec).read(), g)
        for s in g['S'] if isinstance(g['S'], list) else [g['S']]:
            fresh()
            d = V + '/seeded/' + s['id']
            os.makedirs(d, exist_ok=True)
            for f, old, new in s['edits']:
                t = open(W + '/' + f).read()
                assert t.count(old) == 1, (s['id'], f, old, t.count(old))
                open(W + '/' + f, 'w').write(t.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git diff')[1])
            shutil.copy(V + '/tools/mk.rs', d + '/mk.rs')
            open(d + '/main.rs', 'w').write('mod mk;\n#[allow(unused_imports)]\nuse mk::*;\n' + s['main'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO % s)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
            r = confirm(s['id'])
            print(s['id'], r, flush=True)
            if not r.startswith('OK'):
                shutil.rmtree(d)


main()
