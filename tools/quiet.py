"""Development helper: apply behaviour-preserving edits to a scratch copy and run every entry on it.
usage: quiet.py SPECFILE [id ...]   (specs: REFACT = [dict(id, edits=[(file, old, new[, 'all'])])])"""
import sys, re, os
sys.path.insert(0, '/verif/tools')
import seedlib as S
VR = os.environ.get('VR', '/verif')
def run(r):
    S.copy()
    for e in r['edits']:
        f, a, b = e[:3]
        p = f'{S.WT}/{f}'; t = open(p).read()
        if a not in t: return 'edit does not apply: ' + a[:80]
        t = t.replace(a, b) if len(e) > 3 else t.replace(a, b, 1)
        open(p, 'w').write(t)
    rc, o = S.sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8', S.WT)
    ok = sum(map(int, re.findall(r'(\d+) passed', o))); bad = sum(map(int, re.findall(r'(\d+) failed', o)))
    if rc or bad or ok < 489: return f'TESTS FAIL {ok} {bad}\n' + '\n'.join(l for l in o.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l or '-->' in l)[:1500]
    out = []
    for c in os.environ.get('CHECKS', 'ALL').split(','):
        rc, o = S.sh(f'MA_REPO={S.WT} python3 {VR}/check.py {c} quick', VR, timeout=1500)
        ls = o.splitlines()
        out.append(f'{c} rc={rc}: ' + '\n   '.join(l[:400] for l in ls[-14:]))
    return '\n  '.join(out)
ns = {}
exec(open(sys.argv[1]).read(), ns)
for r in ns['REFACT']:
    if len(sys.argv) > 2 and r['id'] not in sys.argv[2:]: continue
    print('=====', r['id'], run(r), flush=True)
