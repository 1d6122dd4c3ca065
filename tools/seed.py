#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and runs checks on them.

  seed.py [--nocheck] [--notest] [--check C01,C02] ID...      (default: the property of meta.json)
"""
import json, os, re, shutil, subprocess, sys, time, argparse
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--nocheck', action='store_true')
ap.add_argument('--notest', action='store_true')
ap.add_argument('--nodemo', action='store_true')
ap.add_argument('--check')
ap.add_argument('--scratch', default='/tmp/seedrepo')
a = ap.parse_args()
S = a.scratch
T = S + '.vp'
if not os.path.exists(S):
    subprocess.run(['git', 'clone', '-q', '/repo', S], check=True)
    os.makedirs(T, exist_ok=True)
    for f in os.listdir('/opt/vp'):
        p = '/opt/vp/' + f
        if os.path.isfile(p):
            t = open(p).read().replace('/repo', S).replace('/opt/vp/run_doctest', T + '/run_doctest').replace('/opt/vp/results', T + '/results').replace('/opt/vp/build.sh', T + '/build.sh')
            open(T + '/' + f, 'w').write(t)
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def clean():
    sh(['git', '-C', S, 'fetch', '-q', 'origin']); 
    sh(['git', '-C', S, 'checkout', '-q', '--', '.'])
    sh(['git', '-C', S, 'clean', '-fdq', '-e', '_build'])
    head = sh(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout.strip()
    sh(['git', '-C', S, 'checkout', '-q', '--detach', head])
RESF = V + '/tools/seed_results.json'
RES = json.load(open(RESF)) if os.path.exists(RESF) else {}
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    r = sh(['bash', T + '/test.sh', T + '/out.json'])
    o = json.load(open(T + '/out.json'))
    bad = sorted(stable - set(o['passed']))
    return bad, r.stdout[-1500:]
def demo(d):
    # run from a copy, as in the final check
    c = T + '/demo'
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(d, c)
    for f in os.listdir(c):
        if f.endswith('.diff') or f.endswith('.patch') or f == 'meta.json':
            os.unlink(c + '/' + f)
    try:
        r = sh(['bash', c + '/demo.sh'], cwd=S, timeout=300)
        return r.returncode, r.stdout[-400:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''
ids = a.ids or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    clean()
    t0 = time.time()
    res = []
    if not a.nodemo:
        rc, o = demo(d)
        res.append('demo-clean=%s' % rc + ('' if rc == 0 else ' !!! ' + o))
    r = sh(['git', '-C', S, 'apply', d + '/patch.diff'])
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY', r.stdout); continue
    if not a.nodemo:
        rc, o = demo(d)
        res.append('demo-bug=%s' % rc + (' !!! not shown' if rc == 0 else ''))
    if not a.notest:
        bad, o = tests()
        res.append('tests ok' if not bad else '!!! tests fail: %s %s' % (bad[:3], o[-800:] if len(bad) > 800 else ''))
    if not a.nocheck:
        for c in (a.check.split(',') if a.check else [meta['property']]):
            t1 = time.time()
            r = sh(['python3', V + '/check.py', c], env=dict(os.environ, VERIF_REPO=S, VERIF_OUT=T, VERIF_SEED='1'))
            caught = r.returncode == 1 and 'VIOLATION property=' + c in r.stdout
            res.append('%s:%s(rc=%d, %.0fs)' % (c, 'CAUGHT' if caught else 'MISSED', r.returncode, time.time() - t1))
            if caught or not a.check:
                RES[i] = c if caught else 'missed by ' + c
            if r.returncode == 2: res.append(r.stdout[-600:])
    clean()
    print('%-34s %s  [%.0fs]' % (i, ' '.join(res), time.time() - t0), flush=True)
    if not a.nocheck:
        json.dump(RES, open(RESF, 'w'), indent=1, sort_keys=True)
