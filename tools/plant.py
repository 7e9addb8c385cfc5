#!/usr/bin/env python3
"""plant.py check ID..  : apply each mutant to /repo, run its property's check, undo.
   plant.py write ID..  : write /verif/seeded/ID from the mutant."""
import os, subprocess, sys, json, importlib.util, difflib
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
def load(f):
    s = importlib.util.spec_from_file_location(f[:-3], f'{T}/{f}'); mod = importlib.util.module_from_spec(s); s.loader.exec_module(mod); return mod.M
M = {}
for f in sorted(os.listdir(T)):
    if f.startswith('mutants') and f.endswith('.py'):
        for k, v in load(f).items():
            assert k not in M, k
            M[k] = v
def edits(mu, root='/repo'):
    out = {}
    for f, a, b in mu['edits']:
        s = out.get(f) or open(f'{root}/{f}').read()
        assert s.count(a) == 1, (f, s.count(a), a[:80])
        out[f] = s.replace(a, b)
    return out
def diff(mu):
    r = ''
    for f, new in edits(mu).items():
        old = open(f'/repo/{f}').read()
        r += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), f'a/{f}', f'b/{f}'))
    return r
DEMO_RS = '''#!/bin/bash
# Runs demo.rs against /repo's crate, in a scratch directory.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$here/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
gaoya = { path = "/repo/gaoya" }
triomphe = "0.1.8"
T
cd "$d" && CARGO_TARGET_DIR="$d/t" cargo run -q --offline PROFILE 2>&1 | tail -15
exit ${PIPESTATUS[0]}
'''
DEMO_PY = '''#!/bin/bash
# Builds the Python package from /repo into a scratch directory and runs demo.py against it.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/t" cargo build -q -p pygaoya --offline --manifest-path /repo/Cargo.toml 2>/dev/null || exit 3
mkdir -p "$d/p/gaoya"; cp /repo/py-gaoya/gaoya/*.py "$d/p/gaoya/"; cp "$d/t/debug/libgaoya.so" "$d/p/gaoya/gaoya.abi3.so"
cd "$d" && PYTHONPATH="$d/p" PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 "$here/demo.py"
'''
def write(i):
    mu = M[i]; d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff(mu))
    json.dump(dict(property=mu['prop'], needs=mu['needs'], what_it_breaks=mu['what']), open(d + '/meta.json', 'w'), indent=1)
    if mu['rs']:
        open(d + '/demo.sh', 'w').write(DEMO_RS.replace('PROFILE', mu.get('profile', '')).replace('  2>&1', ' 2>&1')); open(d + '/demo.rs', 'w').write(mu['rs'].lstrip('\n') + '\n')
        if not os.path.exists(T + '/demo.lock'): raise SystemExit('no demo.lock')
        open(d + '/Cargo.lock', 'w').write(open(T + '/demo.lock').read())
    else:
        open(d + '/demo.sh', 'w').write(DEMO_PY); open(d + '/demo.py', 'w').write(mu['py'].lstrip('\n'))
    os.chmod(d + '/demo.sh', 0o755)
def check(i, props=None):
    mu = M[i]
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--short'], capture_output=True, text=True).stdout.strip()
    ed = edits(mu)
    res = []
    try:
        for f, s in ed.items(): open(f'/repo/{f}', 'w').write(s)
        for p in (props or [mu['prop']]):
            r = subprocess.run([f'{V}/bin/check', p], capture_output=True, text=True, cwd=V)
            msg = ''
            if r.returncode == 1:
                try: msg = json.load(open(f'{V}/replays/{p}.json'))['message'][:150]
                except Exception: pass
            elif r.returncode: msg = r.stderr[-600:]
            res.append(f'{p}:{ {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR") } {msg!r}')
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    print(f'{i:28s}', ' | '.join(res), flush=True)
def run_demo(i): 
    return subprocess.run(['bash', f'{V}/seeded/{i}/demo.sh'], cwd='/repo', capture_output=True, text=True)
def validate(i):
    """the planted bug compiles, passes the stable tests, and its demo tells it from the unchanged tree"""
    import tempfile, time
    write(i)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    t = time.time(); a = run_demo(i); ta = time.time() - t
    subprocess.run(['git', '-C', '/repo', 'apply', f'{V}/seeded/{i}/patch.diff'], check=True)
    try:
        t = time.time(); b = run_demo(i); tb = time.time() - t
        bl = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        with tempfile.TemporaryDirectory() as d:
            te = subprocess.run(['bash', '/opt/vp/test.sh', d + '/o.json'], capture_output=True, text=True)
            try: o = json.load(open(d + '/o.json'))
            except Exception as e: o = {}
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    ok = set(o.get('passed', [])); missing = sorted(base - ok)
    good = a.returncode == 0 and b.returncode not in (0,) and bl.returncode == 0 and not missing and ok
    why = '' if good else f' clean={a.stdout[-300:]}{a.stderr[-200:]} failing={missing[:4]} keys={list(o)[:5]}'
    print(f'{i:28s}', 'VALID' if good else 'INVALID', f'clean rc={a.returncode} {ta:.0f}s patched rc={b.returncode} {tb:.0f}s build rc={bl.returncode} passed={len(ok)}', (b.stdout + b.stderr)[-160:].replace('\n', ' '), why, flush=True)
if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:] or list(M)
    props = None
    if '--props' in ids:
        k = ids.index('--props'); props = ids[k + 1].split(','); ids = ids[:k] or list(M)
    for i in ids:
        if cmd == 'check': check(i, props)
        elif cmd == 'write': write(i)
        elif cmd == 'validate': validate(i)
        elif cmd == 'list': print(i, M[i]['prop'])
