#!/usr/bin/env python3
"""dev tool: mkseed.py ID SPEC.json|py  -- makes seeded/ID from a python dict file: property, needs, breaks, edits=[(file, old, new[, count])], demo (C++ source), srcs"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for id, s in ns['SEEDS'].items():
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mk_' + id
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run('mkdir %s && git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm b' % (w, w, w), shell=True, check=True)
    for e in s['edits']:
        f, old, new = e[:3]
        t = open(w + '/' + f).read()
        assert t.count(old) >= 1, (id, 'old text not found', f, old)
        if len(e) < 4:
            assert t.count(old) == 1, (id, 'ambiguous', t.count(old))
            t = t.replace(old, new)
        else:       # n-th occurrence
            parts = t.split(old)
            n = e[3]
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(w + '/' + f, 'w').write(t)
    r = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True)
    open(d + '/patch.diff', 'w').write(r.stdout)
    shutil.rmtree(w)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
    srcs = ' '.join(s.get('srcs', []))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
g++ -std=c++11 -g %s-w -DHAVE_PTHREADS -Iinclude -Irx -Isrc "$d/demo.cpp" %s -o "$t/demo" -lpthread || { rm -rf "$t"; exit 2; }
ulimit -v unlimited; ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"; rc=$?
rm -rf "$t"
exit $rc
''' % ('-fsanitize=address ' if s.get('asan') else '', srcs))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', id)
