"""C28: every place that states the library's version states the same one."""
import glob
import json
import os
import re

from sa import project
from sa.project import REPO


def run(r):
    r.rule = ('the value of every version macro of the public header (after macro definition, as the preprocessor sees it), '
              'the VERSION file and every package manifest of the library is the same version')
    p = project.load(harness='api.cpp')
    vf = os.path.join(REPO, 'VERSION')
    if not os.path.exists(vf):
        raise project.AnalysisBroken('no VERSION file')
    v = open(vf).read().strip()
    parts = v.split('.')
    r.count('places', 1)
    if not re.fullmatch(r'\d+\.\d+\.\d+', v):
        r.bad('VERSION', 'the package version %r is not of the form major.minor.patch' % v, 'VERSION')
    m = p.macros
    for i, n in enumerate(('MAJOR', 'MINOR', 'PATCH')):
        k = 'NPY_VERSION_' + n
        r.count('places')
        if k not in m:
            r.bad(k, 'the macro %s is not defined' % k, 'include/npy/npy.h')
        elif i < len(parts) and _int(m[k], m) != int(parts[i]):
            r.bad(k, '%s is %s but the package version is %s' % (k, m[k], v), 'include/npy/npy.h')
        else:
            r.ok(k, 'is ' + m[k], 'include/npy/npy.h')
    k = 'NPY_VERSION_STRING'
    r.count('places')
    s = _string(m.get(k, ''), m)
    if k not in m:
        r.bad(k, 'the macro %s is not defined' % k, 'include/npy/npy.h')
    elif s is None:
        r.unsure(k, 'cannot evaluate %s' % m[k])
    elif s != v:
        r.bad(k, '%s is %s but the package version is %s' % (k, m[k], v), 'include/npy/npy.h')
    else:
        r.ok(k, 'is ' + m[k], 'include/npy/npy.h')
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if not d.startswith(('.', '_')) and d not in ('build', 'out')]
        for f in fs:
            if f == 'vcpkg.json':
                q = os.path.join(root, f)
                try:
                    j = json.load(open(q))
                except ValueError:
                    r.bad(os.path.relpath(q, REPO), 'is not valid JSON', os.path.relpath(q, REPO))
                    continue
                if j.get('name') != 'matajoh-libnpy':
                    continue
                rel = os.path.relpath(q, REPO)
                r.count('places')
                vs = [j[k] for k in ('version', 'version-semver', 'version-string') if k in j]
                if vs != [v]:
                    r.bad(rel, 'states version %s but the package version is %s' % (vs, v), rel)
                else:
                    r.ok(rel, 'states ' + v, rel)
    return 6


def _int(t, m, d=0):
    t = t.strip().strip('()')
    if t in m and d < 5:
        return _int(m[t], m, d + 1)
    return int(t) if re.fullmatch(r'\d+', t) else None


def _string(t, m):
    if re.fullmatch(r'("[^"]*")+', t):
        return ''.join(re.findall(r'"([^"]*)"', t))
    return None
