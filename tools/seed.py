#!/usr/bin/env python3
"""seed.py <id> <property> <file> <<< JSON {old,new,count?,demo(cpp body),needs,breaks,flags}   plants one bug in a scratch copy, validates it (build, tests, demo), keeps it in seeded/"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def plant(id, prop, edits, demo, needs, breaks, flags='', extra=None):
    d = tempfile.mkdtemp(prefix='seed.'); w = d + '/repo'
    try:
        run('git -C /repo worktree prune; git clone -q /repo %s' % w)
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = run('git -C %s diff' % w).stdout
        base = {}
        for f, _, _ in edits: base[f] = set(x.strip() for x in run('git -C %s show 125835d:%s' % (w, f)).stdout.decode().splitlines())
        gone = [l[1:].strip() for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
        assert gone and all(any(l in b for b in base.values()) for l in gone), 'changes lines of the original repository only: %s' % [l for l in gone if not any(l in b for b in base.values())]
        S = os.path.join(d, 'out'); os.makedirs(S)
        open(S + '/patch.diff', 'wb').write(diff)
        open(S + '/demo.cpp', 'w').write(demo)
        for n, t in (extra or {}).items(): open(S + '/' + n, 'w').write(t)
        open(S + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O0 %s -I include -I private -I . "$here/demo.cpp" -o "$t/demo" %s || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
''' % (flags, '-ldl -pthread'))
        os.chmod(S + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(S + '/meta.json', 'w'), indent=1)
        a = run('bash %s/demo.sh' % S, cwd='/repo'); b = run('bash %s/demo.sh' % S, cwd=w)
        if a.returncode != 0: print(id, 'REJECT: demo fails on the clean tree', a.returncode, a.stdout.decode()[-1500:]); return False
        if b.returncode in (0, 3): print(id, 'REJECT: demo with the patch gives', b.returncode, b.stdout.decode()[-1500:]); return False
        if not os.environ.get('SEED_NOTEST'):
            # build + run the tests on the patched tree, in place of /repo is not allowed: compile the test programs against the scratch tree
            r = run('bash %s/tools/scratchtest.sh %s' % (V, w))
            if r.returncode: print(id, 'REJECT: tests', r.stdout.decode()[-1500:]); return False
        T = os.path.join(V, 'seeded', id)
        shutil.rmtree(T, ignore_errors=True); shutil.copytree(S, T)
        print(id, 'kept'); return True
    finally: shutil.rmtree(d, ignore_errors=True)
