#!/usr/bin/env python3
"""make_seeded.py DEFS: writes /verif/seeded/<id>/ for the planted changes defined in DEFS (see tools/seeds.py) and confirms each."""
import os, subprocess, sys, json, shutil, tarfile, io, gzip
V = '/verif'
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
KIT = None

def kit():
    """the ledger, the stand-ins and the instruction builders, packed"""
    global KIT
    if KIT: return KIT
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as z, tarfile.open(fileobj=z, mode='w') as t:
        def add(path, name):
            i = t.gettarinfo(path, name); i.mtime = 0; i.uid = i.gid = 0; i.uname = i.gname = ''
            t.addfile(i, open(path, 'rb'))
        for d in ('harness/src', 'stubs'):
            for r, ds, fs in os.walk(f'{V}/{d}'):
                ds.sort()
                for f in sorted(fs):
                    if '/target' in r or f in ('main.rs',) and d != 'stubs': continue
                    p = os.path.join(r, f); add(p, os.path.relpath(p, V))
        add(f'{V}/tools/demo/main.rs', 'harness/src/main.rs')
        add(f'{V}/tools/demo/kit.rs', 'harness/src/kit.rs')
        add(f'{V}/harness/Cargo.toml', 'harness/Cargo.toml')
        add(f'{V}/harness/Cargo.lock', 'harness/Cargo.lock')
    KIT = b.getvalue()
    return KIT

DEMO = '''#!/bin/bash
# run with cwd /repo: 0 when the program behaves as it should, nonzero otherwise
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/lib/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
tar xzf "$here/kit.tar.gz" -C "$d"
cp "$here/demo.rs" "$d/harness/src/demo.rs"
sed -i "s#\\"/repo/#\\"$repo/#" "$d/harness/Cargo.toml"
cd "$d/harness"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$d/target}
RUSTFLAGS=-Awarnings cargo build --offline -q 2>"$d/log" || { grep -A8 "^error" "$d/log" | head -40; exit 3; }
"$CARGO_TARGET_DIR/debug/dbc-monitor"
'''

for s in ns['SEEDS']:
    id, prop, f, edits, needs, breaks, demo = s
    if only and id not in only: continue
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = f'/tmp/seed_{id}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, check=True)
    for (ff, *ed) in ([(f, *edits)] if isinstance(f, str) else f):
        p = f'{w}/{ff}'
        t = open(p).read()
        for e in ed:
            assert t.count(e[0]) == (e[2] if len(e) > 2 else 1), (id, ff, t.count(e[0]), e[0][:80])
            t = t.replace(e[0], e[1])
        open(p, 'w').write(t)
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, check=True).stdout
    open(f'{d}/patch.diff', 'wb').write(diff)
    open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.rs', 'w').write(demo)
    open(f'{d}/kit.tar.gz', 'wb').write(kit())
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    env = dict(os.environ, DEMO_TARGET='/tmp/seed_target')
    # changed first: cargo looks at file times
    res = {}
    r = subprocess.run(['bash', f'{d}/demo.sh'], cwd=w, env=env, capture_output=True)
    res['changed'] = (r.returncode, r.stdout.decode(errors='replace')[-900:])
    subprocess.run(['git', 'checkout', '-q', '.'], cwd=w, check=True)
    r = subprocess.run(['bash', f'{d}/demo.sh'], cwd=w, env=env, capture_output=True)
    res['plain'] = (r.returncode, r.stdout.decode(errors='replace')[-900:])
    ok = res['changed'][0] == 1 and res['plain'][0] == 0
    print(id, 'OK' if ok else 'BAD', res if not ok else res['changed'][1].strip()[:160], flush=True)
    shutil.rmtree(w)
