#!/usr/bin/env python3
"""seed.py SPEC.py...: plant the bug described by SPEC (id, prop, edits, demo, needs, breaks) in a
private copy of /repo, confirm it (builds, tests pass, demo fails; demo passes without it), store it under seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 -w -fno-access-control -I"$PWD" -I"$PWD/_build" -I"$PWD/src" %s "$d/demo.cpp" -o "$t/demo" -L"$PWD/_build/src" -lfptu -Wl,-rpath,"$PWD/_build/src" || exit 4
timeout 120 "$t/demo"
'''
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def gtests(repo, d2a):
    exes = sorted(os.path.join(r, f) for r, _, fs in os.walk(repo + '/_build') for f in fs
                  if os.access(os.path.join(r, f), os.X_OK) and '.' not in f and ('/test' in r) and 'CMakeFiles' not in r)
    exes = [e for e in exes if d2a or 'd2a' not in e]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad = []
    def one(e):
        n = os.path.basename(e)
        l = sh(e + ' --gtest_list_tests')
        su = ''; out = []
        for line in l.stdout.splitlines():
            line = line.split('#')[0].rstrip()
            if line.startswith('  '): out.append(su + line.strip())
            elif line.endswith('.'): su = line
        for c in out:
            hit = [s for s in stable if s.endswith('::' + c) and s.split('::')[0] in (n, n.replace('ut_', ''))] or [s for s in stable if s.endswith('::' + c)]
            if not hit: continue
            try:
                r = sh('MALLOC_PERTURB_=42 %s --gtest_filter=%s' % (e, c), timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc: bad.append(hit[0])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, exes))
    return bad
def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    id_ = ns['id']
    # private mount-free copy; cmake caches the path, so reconfigure there
    w = tempfile.mkdtemp(prefix='seed-')
    repo = w + '/repo'
    try:
        sh('git -C /repo worktree prune')
        r = sh('git clone -q /repo %s' % repo); assert r.returncode == 0, r.stderr
        r = sh('cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DPROVIDE_VERSIONINFO=OFF -DINTERPROCEDURAL_OPTIMIZATION=OFF -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error', cwd=repo)
        assert r.returncode == 0, r.stderr[-800:]
        dst = HERE + '/seeded/' + id_
        tmpd = w + '/demo'; os.makedirs(tmpd)
        open(tmpd + '/demo.cpp', 'w').write(ns['demo'])
        open(tmpd + '/demo.sh', 'w').write(DEMO % ns.get('cxx', ''))
        os.chmod(tmpd + '/demo.sh', 0o755)
        lib = 'ninja -C _build fptu'
        r = sh(lib, cwd=repo); assert r.returncode == 0, r.stdout[-2000:]
        r0 = sh('bash %s/demo.sh' % tmpd, cwd=repo)
        if r0.returncode: return id_ + ': demo fails on the clean tree rc=%d %s' % (r0.returncode, (r0.stdout + r0.stderr)[-800:])
        for f, old, new, *idx in ns['edits']:
            p = repo + '/' + f
            s = open(p).read()
            n = s.count(old)
            if idx:  # n-th occurrence
                at = -1
                for _ in range(idx[0] + 1): at = s.index(old, at + 1)
                open(p, 'w').write(s[:at] + new + s[at + len(old):])
                continue
            if n != 1: return id_ + ': edit matches %d times in %s' % (n, f)
            open(p, 'w').write(s.replace(old, new))
        r = sh('ninja -C _build', cwd=repo)
        if r.returncode: return id_ + ': does not build ' + r.stdout[-2000:]
        r1 = sh('bash %s/demo.sh' % tmpd, cwd=repo)
        if not r1.returncode: return id_ + ': demo passes with the change'
        if r1.returncode in (3, 4): return id_ + ': demo broken ' + r1.stderr[-800:]
        bad = gtests(repo, ns.get('d2a', False))
        if bad: return id_ + ': tests fail: %s' % bad[:6]
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(sh('git diff', cwd=repo).stdout)
        for f in ('demo.cpp', 'demo.sh'): shutil.copy(tmpd + '/' + f, dst)
        json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        return id_ + ': kept; demo says: ' + (r1.stdout + r1.stderr)[-200:].strip()
    finally:
        shutil.rmtree(w, ignore_errors=True)
for s in sys.argv[1:]:
    try:
        print(plant(s), flush=True)
    except AssertionError as e:
        print(s, 'ERR', e)
