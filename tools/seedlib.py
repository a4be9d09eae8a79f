"""Development helper: create and confirm planted bugs under /verif/seeded (no check reads this or them).
usage: seedlib.py SPECFILE [id ...]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('WT', '/tmp/seed-wt')
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'LD_LIBRARY_PATH', 'CARGO_TARGET_DIR', 'MA_CAPTURE'): e.pop(k, None)
    if env: e.update(env)
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    return r.returncode, r.stdout
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
morton-index = { path = "$repo" }
X
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true MIRI_SYSROOT=
unset MIRI_SYSROOT
CMD
'''
RUN = {'run': 'cargo run --offline -q', 'release': 'cargo run --release --offline -q',
       'miri': 'cargo +nightly miri run --offline -q', 'miri-be': 'cargo +nightly miri run --offline -q --target s390x-unknown-linux-gnu',
       'miri-32': 'cargo +nightly miri run --offline -q --target i686-unknown-linux-gnu'}
# a misuse that the compiler must reject: main.rs holds it, good.rs the same program without it
REJECT = '''cp "$here/good.rs" src/main.rs
cargo check --offline -q || { echo "the correct program does not compile"; exit 3; }
cp "$here/main.rs" src/main.rs; touch src/main.rs
if cargo check --offline -q 2>/dev/null; then echo "the misuse compiles"; exit 1; fi
exit 0'''
RUN['reject'] = REJECT
def copy():
    if not os.path.exists(WT):
        sh(f'cp -a /repo {WT}', '/')
    sh('git checkout -q -f main 2>/dev/null; git reset -q --hard; git clean -fdq', WT)
    head = sh('git rev-parse HEAD', '/repo')[1].strip()
    sh(f'git fetch -q /repo main && git reset -q --hard {head}', WT)
def make(s):
    copy()
    for f, a, b in s['edits']:
        p = f'{WT}/{f}'; t = open(p).read()
        n = s.get('nth', 0)
        if t.count(a) < 1: return 'edit does not apply: ' + a[:60]
        parts = t.split(a)
        if n == 'all': t = b.join(parts)
        else:
            t = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
        open(p, 'w').write(t)
    d = V + f'/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', WT)[1])
    open(d + '/main.rs', 'w').write(s['demo'])
    if 'good' in s: open(d + '/good.rs', 'w').write(s['good'])
    open(d + '/demo.sh', 'w').write(DEMO.replace('CMD', RUN[s.get('how', 'run')]))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    rc, o = sh('bash ' + d + '/demo.sh', '/repo')
    if rc: return 'DEMO FAILS ON CLEAN:\n' + o[-1500:]
    rc, o = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8', WT)
    ok = sum(map(int, re.findall(r'(\d+) passed', o))); bad = sum(map(int, re.findall(r'(\d+) failed', o)))
    if rc or bad or ok < 489: return f'TESTS FAIL: passed {ok} failed {bad}\n' + '\n'.join(l for l in o.splitlines() if 'FAILED' in l or l.startswith('error'))[:800]
    rc2, o = sh('bash ' + d + '/demo.sh', WT)
    if rc2 == 0: return 'DEMO PASSES WITH PATCH'
    last = [l for l in o.splitlines() if l.strip()][:3]
    rc, o = sh(f'MA_REPO={WT} python3 {V}/check.py {s["property"]} quick', V)
    msg = 'CAUGHT' if rc == 1 else f'MISSED ({rc})'
    return f'ok; demo: {last[:2]}; {msg}: ' + ' / '.join(o.splitlines()[:3])[:300]
if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        try: r = make(s)
        except Exception as e: r = 'EXC ' + repr(e)
        print(s['id'], s['property'], '->', r, flush=True)
        if not r.startswith('ok'): shutil.rmtree(V + f'/seeded/{s["id"]}', ignore_errors=True)
