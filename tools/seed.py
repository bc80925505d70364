#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: confirms planted bugs in a scratch copy and writes them to seeded/.

SPEC.py calls bug(id, property, needs, breaks, [(file, old, new)...], test_code, pkg='.').
A bug is only written when it builds, passes the tests, and its demonstration passes without and fails with it.
"""
import json, os, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs demo_test.go as a test of /repo's package, without writing to /repo
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
ov=$(mktemp /tmp/demo.XXXXXX)
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%szz_demo_test.go" "$d/demo_test.go" >"$ov"
go test -count=1 -timeout 120s -overlay "$ov" -run '^TestDemo$' ./%s
'''
bugs = []
def bug(id, property, needs, breaks, edits, test, pkg=''):
    bugs.append((id, property, needs, breaks, edits, test, pkg))

def run(args, cwd, **kw):
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', CGO_ENABLED='0')
    return subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, **kw)

exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for id, prop, needs, breaks, edits, test, pkg in bugs:
    if only and id not in only: continue
    d = tempfile.mkdtemp(prefix='seedrepo', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, o, n in edits:
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(o) >= 1, (id, 'not found', o)
            assert s.count(o) == 1, (id, 'not unique', o)
            open(p, 'w').write(s.replace(o, n, 1))
        patch = run(['git', 'diff'], d).stdout
        out = os.path.join(ROOT, 'seeded', id)
        tmp = tempfile.mkdtemp(prefix='seeddemo', dir='/tmp')
        sub = pkg + '/' if pkg else ''
        open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO % (sub, pkg))
        open(os.path.join(tmp, 'demo_test.go'), 'w').write(test.lstrip())
        def fail(why, r):
            print(id, 'NOT KEPT:', why, (r.stdout + r.stderr)[-1500:])
        try:
            r = run(['go', 'build', './...'], d)
            if r.returncode: fail('does not build', r); continue
            r = run(['go', 'test', './...'], d)
            if r.returncode: fail('tests fail', r); continue
            r = run(['bash', tmp + '/demo.sh'], d)
            if r.returncode == 0 or 'build failed' in r.stdout: fail('demo passes with the bug', r); continue
            bad = r.stdout
            r = run(['bash', tmp + '/demo.sh'], '/repo')
            if r.returncode: fail('demo fails without the bug', r); continue
            os.makedirs(out, exist_ok=True)
            for n in ('demo.sh', 'demo_test.go'):
                open(os.path.join(out, n), 'w').write(open(os.path.join(tmp, n)).read())
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            print(id, 'kept; demo says:', [l.strip() for l in bad.splitlines() if '.go:' in l or 'panic' in l][:2])
        finally:
            subprocess.run(['rm', '-rf', tmp])
    finally:
        subprocess.run(['rm', '-rf', d])
