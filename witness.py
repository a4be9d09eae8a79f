#!/usr/bin/env python3
"""Compile-time witnesses (property C32): programs that must not type-check, each with a twin that must.

The compiler only type- and borrow-checks them against /repo's crate; nothing is linked or run.
"""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile

V = os.path.dirname(os.path.abspath(__file__))
PRE = '''#![allow(warnings)]
use morton_index::{*, dimensions::*, number::*};
'''
W = ['u8', 'u16', 'u32', 'u64', 'u128']


def kinds():
    k = {}
    dim = lambda n: dict(D=f'Dim{n}D', C='Quadrant' if n == 2 else 'Octant', X='Octant' if n == 2 else 'Quadrant',
                         O='QuadrantOrdering' if n == 2 else 'OctantOrdering', P='OctantOrdering' if n == 2 else 'QuadrantOrdering',
                         M=f'MortonIndex{n}D', N=f'MortonIndex{5 - n}D', Z=f'StaticStorage{n}D', F=f'FixedDepthStorage{n}D')
    idx = lambda n, s, b: dict(dim(n), T=f'{s}MortonIndex{n}D{b}')
    bits = [str(int(w[1:])) for w in W]
    k['fixed'] = [idx(n, 'FixedDepth', b) for n in (2, 3) for b in bits]
    k['static'] = [idx(n, 'Static', b) for n in (2, 3) for b in bits]
    k['dynamic'] = [idx(n, 'Dynamic', '') for n in (2, 3)]
    k['variable'] = k['static'] + k['dynamic']
    k['index'] = k['fixed'] + k['variable']
    k['storage'] = [dict(dim(n), S=f'{s}Storage{n}D::<{w}>') for n in (2, 3) for s in ('FixedDepth', 'Static') for w in W] \
        + [dict(dim(n), S=f'DynamicStorage{n}D') for n in (2, 3)]
    k['bits'] = [dict(B=w) for w in W + ['usize', 'Vec<u8>']]
    k['dims'] = [dim(2), dim(3)]
    k['anybits'] = [dict(A=a) for a in ['Quadrant', 'Octant'] + [f'StaticStorage{n}D<{w}>' for n in (2, 3) for w in W[1:]]
                    + [f'StaticMortonIndex{n}D{b}' for n in (2, 3) for b in bits[1:]]]
    k['padded'] = [dict(A=f'StaticStorage{n}D<{w}>') for n in (2, 3) for w in W[1:]]
    return k


def cases():
    ks, out, cur = kinds(), [], None
    for l in open(os.path.join(V, 'witness/cases.txt')):
        if l.startswith('=='):
            name, over, codes = [x.strip() for x in l[2:].split('|')]
            cur = dict(name=name, over=over, codes=codes.split(), lines=[])
            out.append(cur)
        elif cur is not None:
            cur['lines'].append(l)
    for c in out:
        for sub in ks[c['over']]:
            f = lambda drop: PRE + ''.join(re.sub(r'@([A-Z])', lambda m: sub[m.group(1)], l) for l in c['lines'] if '//' + drop not in l)
            yield dict(name=c['name'], codes=c['codes'], on=sub.get('T') or sub.get('S') or sub.get('B') or sub.get('A') or sub.get('D'),
                       bad=f('GOOD'), good=f('BAD'))


def run(env, build, repo):
    """Returns (results, violations, inconclusive).  Raises ValueError when /repo does not compile."""
    src = os.path.join(V, 'witness')
    tdir = os.path.join(build, 'wit')
    tmp = tempfile.mkdtemp(prefix='mw-')
    try:
        if repo != '/repo':   # development only
            shutil.copytree(src, tmp + '/w')
            src = tmp + '/w'
            t = open(src + '/Cargo.toml').read().replace('path = "/repo"', f'path = "{repo}"')
            open(src + '/Cargo.toml', 'w').write(t)
        e = dict(env, CARGO_TARGET_DIR=tdir, CARGO_INCREMENTAL='0')
        subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-q', '-p', 'morton-index'], cwd=src, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=src, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise ValueError('/repo does not compile:\n' + r.stderr[-3000:])
        ext, dirs = {}, set()
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if d.get('reason') == 'compiler-artifact':
                n = d['target']['name'].replace('-', '_')
                f = [x for x in d['filenames'] if x.endswith('.rmeta')]
                dirs.update(os.path.dirname(x) for x in d['filenames'])
                if n in ('morton_index', 'bytemuck') and f:
                    ext[n] = f[0]
        if 'morton_index' not in ext or 'bytemuck' not in ext:
            raise ValueError('the compiled crates were not reported by cargo')

        def check(i, what, text):
            p = f'{tmp}/{what}{i}.rs'
            open(p, 'w').write(text)
            a = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', f'w{i}', '--emit=metadata', '-o', p + '.rmeta',
                 '--error-format=json', p]
            for d in sorted(dirs):
                a[-1:-1] = ['-L', f'dependency={d}']
            for n, f in ext.items():
                a[-1:-1] = ['--extern', f'{n}={f}']
            r = subprocess.run(a, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            errs = []
            for l in r.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    errs.append(('?', l[:200]))
                    continue
                if d.get('level') == 'error' and d.get('spans'):
                    errs.append(((d.get('code') or {}).get('code') or d['message'], d['message']))
            return r.returncode, errs

        cs = list(cases())
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            bad = [ex.submit(check, i, 'bad', c['bad']) for i, c in enumerate(cs)]
            good = [ex.submit(check, i, 'good', c['good']) for i, c in enumerate(cs)]
            viol, incon, res = [], [], []
            for c, b, g in zip(cs, bad, good):
                (brc, berr), (grc, gerr) = b.result(), g.result()
                res.append((c['name'], c['on'], [x[0] for x in berr]))
                if grc and {x[0] for x in gerr} == {'E0046'}:
                    incon.append(f'{c["name"]} on {c["on"]}: a public trait has gained an item')
                elif grc:
                    viol.append(dict(kind='anchor', tag='a public operation the property is stated over no longer type-checks', name=c['name'], on=c['on'],
                                     detail='; '.join(x[1] for x in gerr)[:300], program=c['good']))
                elif brc == 0:
                    viol.append(dict(kind='witness', tag='a program that misuses the library type-checks', name=c['name'], on=c['on'],
                                     detail=c['name'], program=c['bad']))
                elif not any(x[0] in c['codes'] or ('lifetime' in c['codes'] and 'lifetime' in x[1]) for x in berr):
                    incon.append(f'{c["name"]} on {c["on"]}: rejected for another reason: {berr[:2]}')
        return res, viol, incon
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    e = dict(os.environ, CARGO_NET_OFFLINE='true')
    res, viol, incon = run(e, os.path.join(V, '.build'), os.environ.get('MA_REPO', '/repo'))
    print(len(res), len(viol), len(incon))
    for v in viol[:20]:
        print(v['tag'], v['name'], v['on'], v['detail'])
    for v in incon[:20]:
        print(v)
