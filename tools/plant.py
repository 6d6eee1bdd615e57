#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy of the repository and files them under
seeded/.  usage: plant.py SPEC.py [ID...]   where SPEC.py defines BUGS, a list of
dict(id, property, file, edits=[(old, new)...] (or files={file: edits}), needs, breaks, demo)."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant'
R = S + '/repo'
DEMO = '''#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -O1 -I"$repo/include" -I"$repo/src" -I"$repo/src/miniz" "$here/demo.cpp" "$repo/_build/main/src/libnpy.a" -pthread -o "$work/demo"
cd "$work"
timeout 120 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.exists(R):
        os.makedirs(S, exist_ok=True)
        sh('cp -a /repo %s; rm -rf %s/_build; cp -a /opt/vp %s/vp' % (R, R, S))
        for f in ('build.sh', 'test.sh', 'env.sh'):
            p = S + '/vp/' + f
            s = open(p).read().replace('/opt/vp/env.sh', S + '/vp/env.sh').replace('bash /opt/vp/build.sh', 'bash %s/vp/build.sh' % S).replace('REPO=/repo', 'REPO=' + R)
            open(p, 'w').write(s)
    sh('git -C %s fetch -q /repo && git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)' % (R, R))


def build():
    r = sh('bash %s/vp/build.sh' % S)
    return r.returncode == 0, r.stdout


def demo(d):
    r = sh('bash %s/demo.sh' % d, cwd=R)
    return r.returncode, r.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    prepare()
    ok, o = build()
    if not ok:
        print('clean build failed', o[-600:])
        return
    todo = []
    for b in bugs:
        if want and b['id'] not in want:
            continue
        d = '%s/stage/%s' % (S, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO)
        rc, o = demo(d)
        if rc:
            print(b['id'], 'DEMO FAILS ON THE CLEAN TREE', rc, o[-800:])
            continue
        todo.append((b, d))
    for b, d in todo:
        sh('git -C %s checkout -q -- .' % R)
        files = b.get('files') or {b['file']: b['edits']}
        bad = False
        for f, ed in files.items():
            s = open(R + '/' + f).read()
            for old, new in ed:
                if s.count(old) != 1:
                    print(b['id'], 'EDIT: %d matches of %r' % (s.count(old), old[:60]))
                    bad = True
                s = s.replace(old, new)
            open(R + '/' + f, 'w').write(s)
        if bad:
            continue
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        ok, o = build()
        if not ok:
            print(b['id'], 'DOES NOT BUILD', o[-600:])
            continue
        sh('bash %s/vp/test.sh %s/out.json' % (S, S))
        got = json.load(open(S + '/out.json'))
        lost = [x for x in stable if x not in got['passed']]
        if lost:
            print(b['id'], 'TESTS NOTICE', lost)
            continue
        rc, o = demo(d)
        if rc == 0:
            print(b['id'], 'DEMO PASSES WITH THE BUG')
            continue
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        dst = V + '/seeded/' + b['id']
        os.makedirs(dst, exist_ok=True)
        for n in os.listdir(d):
            shutil.copy(d + '/' + n, dst)
        print(b['id'], 'planted; demo rc', rc, o.strip()[-100:])
    sh('git -C %s checkout -q -- .' % R)


main()
