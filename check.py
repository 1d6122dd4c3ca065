#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, runs the generated cases in
parallel shards, and writes evidence/<id>.json.

  check.py C05                    quick tier (or VERIF_TIER)
  check.py C05 --tier thorough
  check.py C05 --replay FILE      re-runs a saved failing case
"""
import argparse, concurrent.futures as cf, hashlib, json, os, resource, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)  # build/, evidence/ and replays/ go here (only set by tools/seed.py)
sys.path.insert(0, VERIF)
NPROC = os.cpu_count() or 4

WARN = ['-w', '-fmax-errors=4']
CFG = {
    # sanitized, assertions on: memory errors, undefined behaviour and broken internal invariants become failures
    'san': ['clang++', '-std=c++20', '-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
            '-fno-sanitize=vptr,function'],
    'san1': ['clang++', '-std=c++20', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr,function'],
    'san17': ['clang++', '-std=c++17', '-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
              '-fno-sanitize=vptr,function'],
    # what users ship: the other compiler, optimised, no assertions
    'rel': ['g++', '-std=c++17', '-O2', '-DNDEBUG'],
    'rel20': ['g++', '-std=c++20', '-O2', '-DNDEBUG'],
    'gcc17': ['g++', '-std=c++17', '-O0', '-g1'],
    'gcc': ['g++', '-std=c++20', '-O0', '-g1'],
    'fuzz': ['clang++', '-std=c++20', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined',
             '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function', '-DPBT_FUZZ'],
}
# Recursive grammars need stack, more so with the sanitizers.
_soft, _hard = resource.getrlimit(resource.RLIMIT_STACK)
_want = 1 << 30
resource.setrlimit(resource.RLIMIT_STACK, (_want if _hard == resource.RLIM_INFINITY else min(_want, _hard), _hard))

ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=1:exitcode=99:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
           LSAN_OPTIONS='exitcode=99')


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:2500] + r.stdout[-600:]))


def build(prop, conf, seed, tier, out):
    """Returns [(binary path, unit)]"""
    os.makedirs(out, exist_ok=True)
    jobs, links = {}, []
    inc = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'lib'), '-I', os.path.join(VERIF, 'harness'),
           '-I', out, '-I', REPO]
    units = [u for u in conf['units'] if tier == 'thorough' or not u.get('thorough_only')]
    generated = {}
    for u in units:
        if 'codegen' in u:
            key = (u['codegen'], json.dumps(u.get('codegen_args', {}), sort_keys=True))
            if key not in generated:
                mod = __import__('gen.' + u['codegen'], fromlist=['x'])
                generated[key] = mod.generate(out, seed, tier, **u.get('codegen_args', {}))
    pch = {}
    for u in units:
        if u.get('pch'):
            pch[(u['cfg'], u['pch'], tuple(u.get('flags', [])))] = None
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = []
        for key in pch:
            cfg, hdr, flags = key
            if CFG[cfg][0] != 'clang++':
                continue
            o = os.path.join(out, 'pch_%s_%s_%s.pch' % (cfg, os.path.basename(hdr), abs(hash(flags)) % 9999))
            pch[key] = o
            futs.append(ex.submit(run_cmd, CFG[cfg] + WARN + list(flags) + inc + ['-x', 'c++-header', os.path.join(VERIF, 'harness', hdr), '-o', o]))
        for f in futs:
            f.result()
    for n, u in enumerate(units):
        srcs = [os.path.join(VERIF, 'harness', s) for s in u.get('src', [])]
        if 'codegen' in u:
            srcs += generated[(u['codegen'], json.dumps(u.get('codegen_args', {}), sort_keys=True))]
        srcs += [os.path.join(REPO, s) for s in u.get('repo_src', [])]
        srcs.append(os.path.join(VERIF, 'lib', 'pbt_main.cpp'))
        objs = []
        flags = u.get('flags', [])
        for s in srcs:
            key = (s, u['cfg'], tuple(flags))
            if key not in jobs:
                o = os.path.join(out, '%s_%s_%d.o' % (os.path.splitext(os.path.basename(s))[0], u['cfg'], len(jobs)))
                p = pch.get((u['cfg'], u.get('pch'), tuple(flags)))
                use = ['-include-pch', p] if p and not s.endswith('pbt_main.cpp') and not s.startswith(REPO) else (
                    ['-include', os.path.join(VERIF, 'harness', u['pch'])] if u.get('pch') and not s.endswith('pbt_main.cpp') and not s.startswith(REPO) else [])
                cfgflags = CFG[u['cfg']]
                if s.endswith('pbt_main.cpp'):
                    cfgflags = [f.replace('fuzzer,', 'fuzzer-no-link,') if f.startswith('-fsanitize=fuzzer') else f for f in cfgflags]
                jobs[key] = (o, CFG[u['cfg']] + WARN + list(flags) + inc + use + ['-c', s, '-o', o])
            objs.append(jobs[key][0])
        b = os.path.join(out, 'bin_%d_%s' % (n, u['cfg']))
        links.append((b, u, CFG[u['cfg']] + ['-o', b] + objs + u.get('libs', [])))
    t0 = time.time()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        # big generated units first
        order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[1][-3]))
        for f in [ex.submit(run_cmd, j[1]) for j in order]:
            f.result()
        for f in [ex.submit(run_cmd, l[2]) for l in links]:
            f.result()
    log('built %d objects, %d binaries in %.1fs' % (len(jobs), len(links), time.time() - t0))
    return [(b, u) for b, u, _ in links]


def run_shard(binary, seed, shard, shards, cases, seconds, out, name, workdir):
    st = os.path.join(out, 'stats_%s_%d.json' % (name, shard))
    fl = os.path.join(out, 'fail_%s_%d.tape' % (name, shard))
    for f in (st, fl, st + '.hashes'):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(ENV, PBT_SHARD=str(shard), PBT_SHARDS=str(shards), PBT_TMP=workdir, PBT_STOP=os.path.join(out, 'stop'))
    cmd = [binary, '--seed', str(seed * 1000 + shard), '--cases', str(cases), '--seconds', str(seconds),
           '--stats', st, '--fail', fl]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env,
                           timeout=seconds + 400, cwd=workdir)
        return dict(rc=r.returncode, out=r.stdout, err=r.stderr[-3000:], stats=st, fail=fl)
    except subprocess.TimeoutExpired:
        return dict(rc=-1, out='', err='shard timed out', stats=st, fail=fl)


def run_fuzz(binary, seed, shard, runs, seconds, out, name, workdir, max_len):
    fl = os.path.join(out, 'fail_%s_%d.tape' % (name, shard))
    corpus = os.path.join(workdir, 'corpus_%s_%d' % (name, shard))
    os.makedirs(corpus, exist_ok=True)
    if os.path.exists(fl):
        os.unlink(fl)
    env = dict(ENV, PBT_FAIL=fl, PBT_TMP=workdir, PBT_SHARD=str(shard), PBT_SHARDS='1')
    cmd = [binary, '-seed=%d' % (seed * 1000 + shard + 1), '-runs=%d' % runs, '-max_total_time=%d' % seconds,
           '-max_len=%d' % max_len, '-len_control=20', '-rss_limit_mb=3000', '-timeout=60', '-print_final_stats=1',
           '-artifact_prefix=' + workdir + '/', corpus]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env,
                           timeout=seconds + 120, cwd=workdir)
        return dict(rc=r.returncode, out=r.stdout, err=r.stderr[-4000:], fail=fl)
    except subprocess.TimeoutExpired:
        return dict(rc=0, out='', err='', fail=fl)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--cases', type=float, default=1.0, help='scale the number of cases')
    ap.add_argument('--unit', type=int, help='only this unit (debugging)')
    a = ap.parse_args()
    from registry import PROPS
    conf = PROPS[a.prop]
    if a.unit is not None:
        conf = dict(conf, units=[conf['units'][a.unit]])
    t0 = time.time()
    out = os.path.join(OUT, 'build', a.prop)
    seed, unit_idx = a.seed, None
    if a.replay:
        for line in open(a.replay, errors='replace'):
            if line.startswith('#seed '):
                seed = int(line.split()[1])
            if line.startswith('#unit '):
                unit_idx = int(line.split()[1])
            if line.startswith('#tier '):
                a.tier = line.split()[1]
    if not a.keep:
        shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    if os.path.exists(os.path.join(out, 'stop')):
        os.unlink(os.path.join(out, 'stop'))
    try:
        bins = build(a.prop, conf, seed, a.tier, out)
    except BuildError as e:
        print('ERROR: the harness does not build against this tree')
        print(e)
        return 2
    if a.replay:
        body = ''.join(l for l in open(a.replay, errors='replace') if not l.startswith('#'))
        tmp = os.path.join(out, 'replay.tape')
        open(tmp, 'w').write(body)
        rc = 0
        for i, (b, u) in enumerate(bins):
            if unit_idx is not None and i != unit_idx and a.unit is None:
                continue
            if u['cfg'] == 'fuzz':
                continue
            r = subprocess.run([b, '--replay', tmp], env=dict(ENV, PBT_TMP=out), cwd=out)
            if r.returncode == 1:
                rc = 1
        if rc:
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return rc

    workdir = os.path.join(out, 'work')
    os.makedirs(workdir, exist_ok=True)
    budget = conf.get('seconds', {}).get(a.tier, 240 if a.tier == 'quick' else 1500)
    results = []
    fuzz_stats = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = []
        for i, (b, u) in enumerate(bins):
            if u['cfg'] == 'fuzz':
                continue
            shards = u.get('shards', NPROC)
            cases = int(u['cases'][a.tier] * a.cases / shards) + 1
            for s in range(shards):
                futs.append((i, ex.submit(run_shard, b, seed, s, shards, cases, budget, out, str(i), workdir)))
        for i, (b, u) in enumerate(bins):
            if u['cfg'] != 'fuzz':
                continue
            for s in range(u.get('shards', NPROC)):
                futs.append((i, ex.submit(run_fuzz, b, seed, s, int(u['cases'][a.tier] * a.cases), u['fuzz_seconds'][a.tier],
                                          out, str(i), workdir, u.get('max_len', 512))))
        results = [(i, f.result()) for i, f in futs]

    evals = nontriv = 0
    labels, per_prop, samples, distinct = {}, {}, [], set()
    fails, errors = [], []
    for i, r in results:
        if bins[i][1]['cfg'] == 'fuzz':
            runs = 0
            for line in r['err'].splitlines():
                if 'number_of_executed_units' in line:
                    runs = int(line.split()[-1])
            evals += runs
            labels['(coverage-guided executions)'] = labels.get('(coverage-guided executions)', 0) + runs
            if os.path.exists(r['fail']):
                fails.append((i, r))
            elif r['rc'] not in (0,):
                errors.append((i, r))
            continue
        if r['rc'] == 1:
            fails.append((i, r))
        elif r['rc'] != 0:
            errors.append((i, r))
        if os.path.exists(r['stats']):
            s = json.load(open(r['stats']))
            evals += s['evaluations']
            nontriv += s['nontrivial']
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in s['per_prop'].items():
                per_prop[k] = per_prop.get(k, 0) + v
            if len(samples) < 60:
                samples += s['samples']
            h = open(r['stats'] + '.hashes', 'rb').read()
            distinct.update(x ^ (i * 0x9E3779B97F4A7C15) for (x,) in struct.iter_unpack('<Q', h))
    seen, uniq = set(), []
    for s in samples:
        k = s.split(':')[0]
        if sum(1 for u in uniq if u.split(':')[0] == k) < 3 and s not in seen:
            seen.add(s)
            uniq.append(s)
    viol = []
    for i, r in fails[:4]:
        body = open(r['fail'], errors='replace').read()
        rep_dir = os.path.join(OUT, 'replays')
        os.makedirs(rep_dir, exist_ok=True)
        # the unit index of a fuzz failure is replayed with the first ordinary unit that has the same sources
        ui = i
        if bins[i][1]['cfg'] == 'fuzz':
            ui = next((j for j, (b, u) in enumerate(bins) if u['cfg'] != 'fuzz' and u.get('src') == bins[i][1].get('src')), i)
        text = '#property %s\n#seed %d\n#unit %d\n#tier %s\n' % (a.prop, seed, ui, a.tier) + body
        path = os.path.join(rep_dir, '%s-%s.tape' % (a.prop, hashlib.sha1(body.encode(errors='replace')).hexdigest()[:10]))
        open(path, 'w').write(text)
        viol.append((path, body.split('---')[0][:3000] + r.get('err', '')[-1500:]))
    for path, body in viol[:3]:
        print(body)
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get('property') == a.prop and k.get('status') == 'known']
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=conf.get('level', 'exploration'),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), nontrivial=nontriv,
                            rule=conf['rule'], samples=uniq[:40], labels=labels, cases_per_subproperty=per_prop,
                            configurations=[dict(cfg=u['cfg'], command=' '.join(CFG[u['cfg']])) for _, u in bins]),
              assumptions=conf.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    if known:
        ev['coverage']['known_findings'] = [k['what'] for k in known]
    if errors:
        ev['coverage']['shard_errors'] = [r['err'][-500:] for _, r in errors]
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, 'evidence', a.prop + '.json'), 'w'), indent=1)
    if not a.keep:
        shutil.rmtree(out, ignore_errors=True)
    log('%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs' % (
        a.prop, a.tier, evals, len(distinct), len(viol), time.time() - t0))
    if viol:
        for path, _ in viol:
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if errors:
        print('ERROR: %d shards ended abnormally: %s' % (len(errors), errors[0][1]['err'][-2000:]))
        return 2
    return 0


sys.exit(main())
