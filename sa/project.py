"""Front end driver: type-checks /repo's current sources with clang and loads
the extracted program (functions, types, globals) of all translation units."""
import re
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
LLVM = '/usr/lib/llvm-18'
RES = LLVM + '/lib/clang/18'
CLANG = LLVM + '/bin/clang++'


class AnalysisBroken(Exception):
    """a construct the analysis relies on was not recognised"""


class SourceBroken(Exception):
    """the analysis cannot be carried out at all (error exit, not a verdict)"""


def extractor():
    """path of the extractor, built from extract/extract.cc when needed"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'extract', 'extract.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        flags = subprocess.run([LLVM + '/bin/llvm-config', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
        flags = [f for f in flags if not f.startswith('-std=')]
        cmd = [CLANG, '-std=c++17', '-O1', '-fno-rtti', *flags, src, '-o', out + '.tmp',
               LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise SourceBroken('the extractor does not build:\n' + r.stderr[-3000:])
        os.rename(out + '.tmp', out)
    return out


def cxxflags(debug=False, extra=()):
    f = ['-std=gnu++17', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
         '-resource-dir', RES, '-w', *extra]
    if not debug:
        f.append('-DNDEBUG')
    return f


def library_units():
    us = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')) + glob.glob(os.path.join(REPO, 'src', '*', '*.cpp')))
    if not us:
        raise SourceBroken('no library sources in ' + REPO)
    return us


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def sources():
    fs = []
    for d in ('src', 'include'):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            for n in names:
                if n.endswith(('.h', '.hpp', '.cpp', '.c', '.inl', '.ipp', '.tpp')):
                    fs.append(os.path.join(r, n))
    return sorted(fs)


def extract(units, debug=False):
    """units: list of (tag, file); returns the raw JSON of each"""
    ex = extractor()
    key = _digest(sources() + [f for _, f in units] + [os.path.join(VERIF, 'extract', 'extract.cc')])
    cache = os.path.join(BUILD, 'facts', '%s-%d' % (key, debug))
    os.makedirs(cache, exist_ok=True)
    olds = sorted(glob.glob(os.path.join(BUILD, 'facts', '*')), key=os.path.getmtime)
    for o in olds[:-40]:
        shutil.rmtree(o, ignore_errors=True)

    def one(u):
        tag, f = u
        out = os.path.join(cache, tag.replace('/', '_') + '.json')
        if not os.path.exists(out):
            tmp = tempfile.mktemp(dir=cache)
            r = subprocess.run([ex, tmp, tag, REPO + ':' + os.path.join(VERIF, 'harness'), f, '--', *cxxflags(debug)],
                               capture_output=True, text=True)
            if not os.path.exists(tmp):
                raise SourceBroken('%s cannot be analysed:\n%s' % (f, r.stderr[-3000:]))
            x = json.load(open(tmp))
            if x['errors']:
                raise SourceBroken('%s does not compile:\n%s' % (f, r.stderr[-3000:]))
            os.rename(tmp, out)
            return x
        return json.load(open(out))

    with ThreadPoolExecutor(8) as p:
        return list(p.map(one, units))


class Type:
    __slots__ = ('n', 'k', 'w', 's', 'bool', 'e', 'len', 'size', 'rec', 'q', 'targs', 'const', 'union', 'lambda_', 'rv', 'u')

    def __init__(self, d):
        self.n = d['n']
        self.k = d['k']
        self.w = d.get('w')
        self.s = d.get('s')
        self.bool = d.get('bool', False)
        self.e = d.get('e')
        self.len = d.get('len')
        self.size = d.get('size')
        self.rec = d.get('rec')
        self.q = d.get('q')
        self.targs = d.get('targs')
        self.const = d.get('const', False)
        self.union = d.get('union', False)
        self.lambda_ = d.get('lambda', False)
        self.rv = d.get('rv', False)

    def __repr__(self):
        return self.n

    @property
    def signed(self):
        return bool(self.s)

    def targ(self, i):
        a = self.targs[i] if self.targs and i < len(self.targs) else None
        if a is None:
            return None
        return a.get('t', a.get('i'))

    def deref(self):
        return self.e if self.k == 'ref' else self


TKEYS = ('t', 'rt', 'rect', 'ct', 'clt', 'at', 'ft', 'base')


class Program:
    """the linked program"""

    def __init__(self, units, debug=False):
        self.fns = {}
        self.by_q = {}
        self.globals = {}
        self.recs = {}       # type rec name -> record
        self.enums = {}
        self.macros = {}
        self.files = set()
        self.units = [f for _, f in units]
        self.debug = debug
        for (tag, f), x in zip(units, extract(units, debug)):
            self._load(tag, f, x)

    def _load(self, tag, path, x):
        types = [Type(d) if d else None for d in x['types']]
        anon = lambda r: r and ('#' in r) and r + '@' + tag or r
        for t in types:
            if isinstance(t.e, int):
                t.e = types[t.e]
            t.rec = anon(t.rec)
            if t.targs:
                t.targs = [None if a is None else ({'t': types[a['t']]} if 't' in a else a) for a in t.targs]
        files = x['files']

        def fix(n):
            st = [n]
            while st:
                d = st.pop()
                if isinstance(d, dict):
                    for k, v in d.items():
                        if k in TKEYS and isinstance(v, int):
                            d[k] = types[v]
                        elif k == 'pt':
                            d[k] = [types[i] for i in v]
                        elif k == 'targs':
                            d[k] = [None if a is None else ({'t': types[a['t']]} if isinstance(a.get('t'), int) else a) for a in v]
                        elif k == 'l':
                            d[k] = (files[v[0]], v[1])
                        elif k == 'd' and isinstance(v, int):
                            d[k] = (tag, v)
                        elif k in ('c', 'n', 'q', 'k', 'm'):
                            if isinstance(v, dict):
                                st.append(v)
                        elif isinstance(v, (dict, list)):
                            st.append(v)
                elif isinstance(d, list):
                    for v in d:
                        if isinstance(v, (dict, list)):
                            st.append(v)

        for key in ('functions', 'globals', 'records'):
            fix(x[key])
        for f in x['functions']:
            f['tu'] = tag
            if f['m'] not in self.fns:
                self.fns[f['m']] = f
                self.by_q.setdefault(f['q'], []).append(f)
        for g in x['globals']:
            g['tu'] = tag
            self.globals.setdefault(g['g'], g)
        for r in x['records']:
            self.recs.setdefault(r['t'].rec, r)
        for e in x['enums']:
            self.enums[e['q']] = {k: int(v) for k, v in e['v'].items()}
        self.macros.update(x['macros'])
        self.files.update(files)

    @property
    def uses_byte_order(self):
        """whether the library's own sources choose code by the host's byte order when compiled"""
        if not hasattr(self, '_ubo'):
            pat = re.compile(r'__BYTE_ORDER__|__ORDER_(LITTLE|BIG)_ENDIAN__|__(LITTLE|BIG)_ENDIAN__|std::endian|__BYTE_ORDER\b')
            self._ubo = False
            for f in sorted(self.files):
                if f.startswith(REPO) and 'miniz' not in f and os.path.exists(f):
                    if pat.search(strip_comments(open(f, errors='replace').read())):
                        self._ubo = True
        return self._ubo

    def rel(self, l):
        if not l:
            return '?'
        return '%s:%d' % (os.path.relpath(l[0], REPO) if l[0].startswith(REPO) else l[0], l[1])

    def find(self, q, **kw):
        """functions with qualified name q"""
        return self.by_q.get(q, [])


def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)


_cache = {}


def load(debug=False, harness='api.cpp'):
    k = (debug, harness)
    if k not in _cache:
        units = [(os.path.relpath(f, os.path.join(REPO, 'src')), f) for f in library_units()]
        if harness:
            units.append(('harness/' + harness, os.path.join(VERIF, 'harness', harness)))
        _cache[k] = Program(units, debug)
    return _cache[k]


def walk(n):
    """all dict nodes of a function body"""
    st = [n]
    while st:
        d = st.pop()
        if isinstance(d, dict):
            yield d
            st.extend(v for v in d.values() if isinstance(v, (dict, list)))
        elif isinstance(d, (list, tuple)):
            st.extend(v for v in d if isinstance(v, (dict, list)))
