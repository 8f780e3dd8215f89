#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from the list in tools/seeds_data.py: for each planted bug, makes the patch against
/repo's HEAD in a scratch copy, compiles its demonstration with and without the patch, and reports what does not hold."""
import os, sys, subprocess, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'seeds_data.py')).read())
DEMO = '''#!/bin/bash
# exit 0 when the property's demonstration holds on the tree in the current directory
set -e
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 %s-D_USE_MATH_DEFINES -DNOMINMAX -DNDEBUG -I"$PWD/include" "$here/demo.cpp" "$PWD/source/aabb.cpp" "$PWD/source/bvh.cpp" -o "$d/demo"
timeout 100 "$d/demo"
'''
want = sys.argv[1:]
tmp = tempfile.mkdtemp(prefix='seed.')
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
try:
    for s in SEEDS:
        if want and s['id'] not in want: continue
        w = os.path.join(tmp, 'w'); sh('rm -rf %s; git -C /repo archive --prefix=w/ HEAD | tar x -C %s; cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm b' % (w, tmp, w))
        d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(s['demo'].strip() + '\n'); open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
        bad = []
        r = sh('bash %s/demo.sh' % d, cwd=w)
        if r.returncode: bad.append('demo fails on the unchanged tree: ' + r.stdout[-300:] + r.stderr[-1500:])
        for f, old, new in s['edits']:
            p = os.path.join(w, f); t = open(p).read(); n = s.get('nth', 0)
            if t.count(old) < 1: bad.append('text not found: ' + old); continue
            if t.count(old) > 1 and 'nth' not in s: bad.append('ambiguous: ' + old); continue
            i = -1
            for _ in range(n + 1): i = t.index(old, i + 1)
            open(p, 'w').write(t[:i] + new + t[i + len(old):])
        diff = sh('git diff', cwd=w).stdout; open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd=w)
        if not r.returncode: bad.append('demo passes with the patch')
        elif 'error:' in r.stderr: bad.append('does not compile: ' + r.stderr[-1500:])
        if '--tests' in os.environ.get('SEED', ''):
            c = 'git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; rc=$?; git -C /repo checkout -- .; exit $rc' % (d, tmp)
            r = sh(c)
            if r.returncode: bad.append('build or tests fail')
            else:
                o = open(tmp + '/o.json').read()
                if json.loads(o).get('failed'): bad.append('tests fail: ' + o[:300])
        print(s['id'], 'BAD ' + '; '.join(bad) if bad else 'ok')
finally: shutil.rmtree(tmp)
