#!/usr/bin/env python3
"""mkseed.py < spec.  Spec is a python file with calls: seed(id, prop, needs, breaks, [(file, old, new), ...], demo_cpp, flags='')"""
import json, os, subprocess, sys, difflib
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
DEMO = '''#!/bin/bash
# Run with cwd = the lexy checkout. Compiles demo.cpp against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O0 -w %s -I "$PWD/include" -I "$PWD" "$here/demo.cpp" %s -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
def seed(id, prop, needs, breaks, edits, demo, flags='', libs=''):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or (open('/repo/' + f).read(),) * 2
        if s[1].count(old) != 1:
            print('!!!', id, f, 'old text occurs', s[1].count(old), 'times'); return
        files[f] = (s[0], s[1].replace(old, new))
    for f, (o, n) in files.items():
        diff += ''.join(difflib.unified_diff(o.splitlines(True), n.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % (flags, libs))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    print(id, 'ok' if r.returncode == 0 else 'DOES NOT APPLY')
exec(compile(sys.stdin.read(), 'spec', 'exec'))
