#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current source.

Builds nothing from /repo that is ever run: /repo's crate is type-checked and lowered to MIR, and the
analyser in engine/ interprets that MIR abstractly from the entries in adapters/ (see DESIGN.md).
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

import witness

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
REPO = os.environ.get('MA_REPO', '/repo')
X64, BE, P32 = 'x86_64-unknown-linux-gnu', 's390x-unknown-linux-gnu', 'i686-unknown-linux-gnu'
OWN = [f'C{i:02d}' for i in range(1, 36) if i not in (21, 22, 26, 30, 32)]
# property -> list of (target, debug assertions, groups of entries, thinning quick/thorough)
ALL = ','.join(x.lower() for x in OWN if x not in ('C33', 'C35'))
C22G = ','.join(x.lower() for x in OWN if x not in ('C11', 'C12', 'C19', 'C25', 'C33', 'C35'))
PLAN = {p: [(X64, False, p.lower(), (1, 1))] for p in OWN}
PLAN['C30'] = [(X64, False, 'c30', (1, 1))]
PLAN['C32'] = [(X64, False, 'c32', (1, 1))]
LINT = {'C30': '1', 'C32': '2'}
PLAN['C21'] = [(X64, False, ALL, (3, 1))]
PLAN['C26'] = [(X64, True, ALL, (3, 1))]
PLAN['C22'] = [(BE, False, C22G, (4, 1)), (P32, False, C22G, (4, 1))]
PLAN['ALL'] = [(X64, False, ALL, (3, 1))]   # development only
PLAN['ALLBE'] = [(BE, False, C22G, (4, 1))]
PLAN['ALLT'] = [(X64, False, ALL, (14, 1))]
PLAN['C36'] = [(X64, False, ALL, (3, 1))]
KINDS = {'C36': ('leak',), 'C21': ('ub',), 'C26': ('panic', 'overflow')}


EXPLAIN = {
    'C30': 'Query over the MIR of every function body and every type declaration of /repo: statics, callees, foreign items, interior mutability; '
           'and type-level witnesses that do not compile unless every type has the auto traits named. An obligation is a use of a static, a call, a type.',
    'C32': 'Compile-time witnesses: programs that misuse the library must be rejected by the compiler, each for a reason of the expected kind, while a twin '
           'without the misuse must be accepted; and a query over every public signature and type declaration of /repo. Nothing is linked or run.',
}


class Stop(Exception):
    pass


def clean_env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR',
              'CARGO_ENCODED_RUSTFLAGS', 'CARGO_INCREMENTAL', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    for k in [k for k in e if k.startswith('MA_') or k.startswith('CARGO_PROFILE')]:
        e.pop(k)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def setup():
    r = subprocess.run([os.path.join(V, 'setup.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Stop('setup failed:\n' + r.stdout[-4000:])


def lower(target, da, feats):
    """Type-check /repo and the entries for `target`; returns (args of the entries' crate, error text)."""
    adir = os.path.join(V, 'adapters')
    if REPO != '/repo':   # development only: analyse a scratch copy
        adir2 = os.path.join(B, 'ad-src-' + str(os.getpid()))
        shutil.copytree(adir, adir2, dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
        t = open(adir2 + '/Cargo.toml').read().replace('path = "/repo"', f'path = "{REPO}"')
        open(adir2 + '/Cargo.toml', 'w').write(t)
        adir = adir2
    tdir = os.path.join(B, f'ad-{target.split("-")[0]}{"-da" if da else ""}')
    args = os.path.join(tdir, 'args')
    os.makedirs(tdir, exist_ok=True)
    sr = os.path.join(B, 'sr-' + target)
    e = clean_env()
    e['CARGO_TARGET_DIR'] = tdir
    e['CARGO_INCREMENTAL'] = '0'
    e['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(B, 'engine/release/morton-absint')
    e['MA_CAPTURE'] = args
    e['RUSTFLAGS'] = (f'--sysroot {sr} -Zalways-encode-mir -Zmir-opt-level=0 '
                      f'-Cdebug-assertions={"on" if da else "off"} -Coverflow-checks=on -Aunused')
    e['LD_LIBRARY_PATH'] = LIB
    # never trust cargo's freshness check for the crate under analysis
    subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-q', '-p', 'morton-index', '-p', 'morton_adapters',
                    '--target', target], cwd=adir, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(args):
        os.remove(args)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--features', feats, '--target', target],
                       cwd=adir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout, adir
    if not os.path.exists(args):
        raise Stop('the compiler arguments were not captured:\n' + r.stdout[-2000:])
    return open(args).read().split('\0'), None, adir


def missing_items(err):
    codes = set(re.findall(r'error\[(E\d+)\]', err))
    return 'could not compile `morton_adapters`' in err and codes == {'E0046'}


def analyse(args, adir, tasks, tier, thin, seed, limit, lint=None, leak=False):
    n = int(os.environ.get('MA_PROCS', '0')) or os.cpu_count() or 4
    tmp = tempfile.mkdtemp(prefix='ma-')
    try:
        os.mkdir(tmp + '/claim')
        procs = []
        for i in range(n):
            e = clean_env()
            e.update(MA_TASKS=tasks, MA_TIER=tier, MA_THIN=str(thin), MA_SEED=str(seed), MA_OUT=f'{tmp}/o{i}',
                     MA_CLAIM=tmp + '/claim', MA_TIME=str(limit), RUST_MIN_STACK=str(1 << 32), CARGO_PKG_NAME='x',
                     LD_LIBRARY_PATH=LIB)
            if lint:
                e['MA_LINT'] = lint
            if leak:
                e['MA_LEAK'] = '1'
            procs.append(subprocess.Popen([os.path.join(B, 'engine/release/morton-absint')] + args, cwd=adir, env=e,
                                          stdout=subprocess.DEVNULL, stderr=open(f'{tmp}/e{i}', 'w')))
        codes = [p.wait() for p in procs]
        res, dones, lost = {}, 0, []
        for i in range(n):
            try:
                for l in open(f'{tmp}/o{i}'):
                    d = json.loads(l)
                    if d.get('done'):
                        dones += 1
                        total = d['total']
                    else:
                        res[(d['entry'], d['p'])] = d
            except (OSError, ValueError):
                pass
            if codes[i] != 0:
                err = [x for x in open(f'{tmp}/e{i}').read().splitlines() if 'message_type' not in x]
                lost.append(f'process {i}: exit {codes[i]}: ' + ' | '.join(err[-6:])[:600])
        if not dones:
            raise Stop('no analysis process finished: ' + '; '.join(lost)[:2000])
        return res, total, lost
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def where(site):
    m = re.search(r'(src/[^ ]*\.rs:\d+)', site)
    return m.group(1) if m else site


def describe(v):
    chain = [c for c in v.get('chain', []) if 'morton_index' in c or '/repo' in c or 'src/' in c]
    d = f'{v["kind"]}: {v["tag"]}'
    if v.get('detail'):
        d += ' (' + v['detail'] + ')'
    return d, chain


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(B, exist_ok=True)
    global LIB
    LIB = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True, env=clean_env()).strip() + '/lib'
    replay = os.path.join(V, 'evidence', f'{prop}.violation.json')
    if os.path.exists(replay):
        os.remove(replay)
    setup()
    lock = open(os.path.join(B, 'check.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    known = [l.rstrip('\n') for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('known: ')]
    viol, incon, runs = [], [], []
    agg = dict(obligations=0, tasks=0, steps=0, memory_accesses=0, case_splits=0, merges=0)
    funcs, sites, tags, entries = set(), set(), {}, {}
    samples = []
    total_limit = 700 if tier == 'quick' else 6 * 3600
    for target, da, groups, thin in PLAN[prop]:
        feats = groups if ',' not in groups else 'all'
        args, err, adir = lower(target, da, feats)
        if err is not None and missing_items(err):
            incon.append(f'{target}: the entries implement a public trait that has gained an item')
            continue
        if err is not None:
            if 'could not compile `morton_adapters`' not in err:
                raise Stop('/repo does not compile for ' + target + ':\n' + err[-3000:])
            first = re.findall(r'error(?:\[E\d+\])?: .*\n *--> .*', err)[:5]
            viol.append(dict(target=target, entry='(anchors)', p=0, kind='anchor',
                             tag='a public operation the property is stated over no longer type-checks',
                             detail=' ; '.join(re.sub(r'\s+', ' ', x) for x in first), site='adapters', chain=[], witness={}, notes={}))
            continue
        th = thin[tier == 'thorough']
        res, total, lost = analyse(args, adir, groups, tier, th, seed, max(60, total_limit - (time.time() - t0)), LINT.get(prop), prop == 'C36')
        total += prop in LINT
        exp = EXPECT.get(f'{prop}/{tier}/{target.split("-")[0]}')
        if exp is not None and total < exp:
            raise Stop(f'only {total} of {exp} instances of the property were enumerated for {target}')
        run = dict(target=target, debug_assertions=da, instances=total, thinning=th, analysed=0)
        missing = total
        for (en, p), d in sorted(res.items()):
            if d.get('bad_range'):
                raise Stop(f'range of {en} could not be evaluated: {d.get("unsup")}')
            missing -= 1
            if d.get('skipped'):
                incon.append(f'{target}: {en}@{p}: not reached within the time limit')
                continue
            run['analysed'] += 1
            agg['tasks'] += 1
            agg['obligations'] += d['checks'] + len(d['asserts'])
            agg['steps'] += d['steps']
            agg['memory_accesses'] += d['mem']
            agg['case_splits'] += d['forks']
            agg['merges'] += d['joins']
            for k, n in d['tags'].items():
                tags[k] = tags.get(k, 0) + n
            funcs.update(f for f in d['funcs'])
            sites.update(d['asserts'])
            entries[en] = entries.get(en, 0) + 1
            for u in d['unsup']:
                incon.append(f'{target}: {en}@{p}: {u}')
            for v in d['violations']:
                viol.append(dict(v, target=target, entry=en, p=p, da=da))
        if missing > 0:
            incon.append(f'{target}: {missing} instances lost: ' + '; '.join(lost)[:1500])
        runs.append(run)
        if REPO != '/repo':
            shutil.rmtree(adir, ignore_errors=True)
    if prop == 'C32':
        try:
            pairs, vs, ic = witness.run(clean_env(), B, REPO)
        except ValueError as e:
            raise Stop(str(e))
        for v in vs:
            viol.append(dict(v, target=X64, entry=f'{v["name"]}::{v["on"]}', p=0, site=f'witness/cases.txt: {v["name"]} on {v["on"]}',
                             chain=v['program'].splitlines(), witness={}, notes={}))
        incon += ic
        agg['obligations'] += 2 * len(pairs)
        for n, on, codes in pairs:
            tags[f'rejected: {n}'] = tags.get(f'rejected: {n}', 0) + 1
            agg['tasks'] += 1
            entries['c32_' + n] = entries.get('c32_' + n, 0) + 1
        runs.append(dict(target=X64, witness_programs=len(pairs), twins=len(pairs)))
    kinds = KINDS.get(prop)
    other = []
    if kinds:
        other = [v for v in viol if v['kind'] not in kinds + ('anchor',)]
        viol = [v for v in viol if v['kind'] in kinds + ('anchor',)]
    # one report per construct
    rep = {}
    for v in viol:
        key = (v['kind'], re.sub(r'\d+', 'N', v['tag']), v['entry'].split('::')[0] if v['kind'] in ('check', 'witness') else re.sub(r':\d+(:\d+)?', '', v['site']))
        rep.setdefault(key, []).append(v)
    out_known, out_new = [], []
    for key, vs in rep.items():
        v = vs[0]
        k = f'{prop} {v["kind"]} {key[1]} {key[2]}'
        hit = [l for l in known if l == 'known: ' + k]
        (out_known if hit else out_new).append((k, vs))
    for k, vs in out_known:
        print(f'KNOWN-FINDING: property={prop} {k}')
    if out_new:
        doc = dict(property=prop, tier=tier, violations=[])
        for k, vs in out_new:
            v = vs[0]
            d, chain = describe(v)
            doc['violations'].append(dict(key=k, what=d, where=v['site'], call_path=v['chain'], inputs=v['witness'], parameters=v['notes'],
                                          target=v['target'], instances=len(vs), first=f'{v["entry"]}@{v["p"]}',
                                          others=[f'{x["entry"]}@{x["p"]}' for x in vs[1:12]],
                                          reproduce=f'python3 {V}/check.py {prop} {tier}'))
        json.dump(doc, open(replay, 'w'), indent=1)
        for d in doc['violations'][:12]:
            print(f'{prop}: {d["what"]}\n    at {d["where"]}\n    entry {d["first"]} ({d["target"]}), {d["instances"]} instance(s); inputs {json.dumps(d["inputs"])} {json.dumps(d["parameters"])}')
            for c in d['call_path'][-6:]:
                print('      via', c)
    own = sorted(funcs)
    fulls = sorted(entries.items())
    for en, n in fulls[:: max(1, len(fulls) // 12)]:
        samples.append(f'{en}: {n} parameter value(s) analysed')
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(out_new),
              coverage=dict(
                  explanation=EXPLAIN.get(prop) or 'Abstract interpretation of the MIR of /repo (and of the std, nalgebra and bytemuck functions it calls), '
                              'from entries that state the property; nothing is executed. An obligation is a stated check or a '
                              'compiler-inserted assertion reached by the analysis; all of them must hold for every value of the abstract inputs.',
                  obligations=agg['obligations'], property_checks=sum(tags.values()), rules={k: n for k, n in sorted(tags.items())},
                  instances=agg['tasks'], entries=len(entries), mir_statements_interpreted=agg['steps'],
                  memory_accesses_checked=agg['memory_accesses'], control_case_splits=agg['case_splits'], control_merges=agg['merges'],
                  repo_functions_analysed=len(own), repo_functions=own,
                  assertion_sites=len(sites), runs=runs, samples=samples,
                  inconclusive=len(incon), inconclusive_list=incon[:60], other_properties_reports=len(other)),
              assumptions=['the MIR that rustc nightly builds for /repo means what the Rust reference says',
                           'the analyser (engine/) models MIR and the intrinsics it meets correctly',
                           'dynamic indices and byte vectors are covered up to the sizes named in DESIGN.md'])
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    if sum(entries.values()) == 0 and not out_new and not incon:
        raise Stop('no instance was analysed')
    print(f'{prop} {tier}: {agg["tasks"]} instances of {len(entries)} entries, {agg["obligations"]} obligations, '
          f'{len(own)} functions of /repo, {len(incon)} inconclusive, {len(out_new)} violation(s), {time.time()-t0:.1f} s')
    for i in incon[:5]:
        print('inconclusive:', i[:300])
    if out_new:
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    return 0


try:
    EXPECT = json.load(open(os.path.join(V, 'expected.json')))
except OSError:
    EXPECT = {}
if __name__ == '__main__':
    try:
        sys.exit(main())
    except Stop as e:
        print('ERROR:', e)
        sys.exit(3)
