"""Archive readers: what their constructors take from the bytes of an archive, and what
the operations return in an arbitrary state of the reader, path by path."""
from .arch import *
from . import models as md

ARCHIVE = 'archive'
DIR = 'dir'
NAME = 'name'
B = None


def src():
    return base(ARCHIVE)


def b(i):
    return at_base(src(), i)


def u(i, n):
    """n bytes at i, lowest first"""
    return add(*[scale(b(add(i, C(k))), 1 << (8 * k)) for k in range(n)])


def size():
    return len_base(src())


def parses(log):
    """npy::load and npy::peek of a stream: a value determined by what is left in it"""
    def handler(what):
        def h(I, st, this, args, e):
            if not args or not isinstance(args[0], LV):
                return None
            s = I.load(st, args[0])
            if not isinstance(s, IStr):
                return None
            log.append((st, what, s))
            I.raise_(st, 'verif::parse_error', e)
            t = e.get('t')
            return [(st, Obj('parsed', (what, t.n if t is not None else '', s.src, s.pos)))]
        return h
    return {'npy::load': handler('load'), 'npy::peek': handler('peek'), 'npy::tensor::load': None}


class Explore(Interp):
    """every path by itself, loops followed for `peel` open iterations"""

    def __init__(self, P, opaque, peel=(1, 2)):
        evalt.LIMIT = 300
        super().__init__(P, be=False, opaque={k: v for k, v in opaque.items() if v})
        self.split = True
        self.name_pos = True
        self.loose_reads = True
        self.peel = peel


class Opened:
    """a constructor of a reader, given an arbitrary archive"""

    def __init__(self, P, cls, f, peel=(1, 2)):
        BASES[ARCHIVE] = dict(lo=0, hi=255)
        self.P, self.cls, self.f = P, cls, f
        I = self.I = Explore(P, codec(), peel)
        st = St()
        t = f['params'][0]['t'].deref()
        if 'string' in cls.split('::')[-1] and t.q == 'std::basic_string':
            st = st.put(('o', 'bytes'), whole(src()))
            args = [LV(('o', 'bytes'))]
        else:
            args, st = ctor_args(I, f, st)
        st = st.put(('o', 'w'), I.uninit(rect(P, cls), 'w'))
        I.contents = whole(src())
        self.rets, self.throws = I.analyse(f, LV(('o', 'w')), args, st)
        self.left = I.left
        self.key = '%s(%s)' % (cls.split('::')[-1], f['params'][0]['t'].n.split('<')[0])
        self.where = where(P, f)

    def rec(self, st):
        r = st.store.get(('o', 'w'))
        return r if isinstance(r, Rec) else None


_shape = {}


def shape(P, cls):
    """the fields of a reader: (stream, directory, keys), and the record after opening"""
    if cls not in _shape:
        O = Opened(P, cls, ctors(P, cls)[0], peel=0)
        rs = [O.rec(s) for s, _ in O.rets]
        rs = [r for r in rs if r is not None]
        if not rs:
            raise AnalysisBroken('the state after opening %s is not known' % cls)
        r = rs[0]
        stream = dirs = keys = None
        for k, v in r.f:
            if isinstance(v, IStr):
                stream = k
            elif isinstance(v, MapV):
                dirs = k
            elif isinstance(v, Seq):
                keys = k
        if not stream or not dirs:
            raise AnalysisBroken('the stream and the directory of %s were not recognised' % cls)
        _shape[cls] = (stream, dirs, keys, r)
    return _shape[cls]


STATE = ('r.pos', 'r.bad', 'r.eof', 'r.gcount')


class Read:
    """an operation of a reader that was opened, whatever was done with it since"""

    def __init__(self, P, cls, f, peel=(1, 2), ranges=None, given=(), varied=None):
        BASES[ARCHIVE] = dict(lo=0, hi=255)
        self.P, self.cls, self.f = P, cls, f
        self.stream, self.dirs, self.keys, r = shape(P, cls)
        varied = varying(P, cls) if varied is None else varied
        self.log = []
        op = dict(codec())
        op.update(parses(self.log))
        I = self.I = Explore(P, op, peel)
        I.ranges = ranges or {}
        st = St()
        ft = {x['n']: x['t'] for x in P.recs[rect(P, cls).rec]['fields']}
        s = r.get(self.stream)
        s = s.but(src=whole(src()), pos=sym('r.pos', 0, 1 << 40), bad=bsym('r.bad'), eof=bsym('r.eof'), gcount=sym('r.gcount', 0, 1 << 40), open=TRUE)
        r = r.put(self.stream, s)
        self.dir = I.symval(ft[self.dirs], DIR)
        r = r.put(self.dirs, self.dir)
        BASES['mapat:dir.filename'] = dict(lo=0, hi=255, len=lambda x: mk('len', x, lo=0, hi=U16))
        if self.keys:
            r = r.put(self.keys, I.symval(ft[self.keys], 'keys'))
        BASES[NAME] = dict(lo=0, hi=255)
        self.name = whole(base(NAME))
        self.suffixed = self.name + lits('.npy')
        for k, v in r.f:
            if k in varied:
                r = r.put(k, I.symval(ft[k], 'r.' + k))
        self.r0 = r
        st = st.put(('o', 'w'), r).put(('o', 'name'), self.name)
        args = [LV(('o', 'name'))] if f['params'] else []
        for g in given:
            st = st.with_facts(together(st.facts, g(self, st)))
        self.start = st
        self.rets, self.throws = I.analyse(f, LV(('o', 'w')), args, st)
        self.rets = [(s, I.load(s, v) if isinstance(v, LV) else v) for s, v in self.rets]
        self.key = '%s::%s' % (cls.split('::')[-1], f['n'])
        ts = [x for x in f.get('targs') or () if x]
        if ts:
            self.key += '<%s>' % ', '.join(x['t'].n.split('::')[-1] if x.get('t') is not None else '' for x in ts).rstrip(', ')
        self.where = where(P, f)

    def has(self, key):
        return md.base_cond(self.I, self.dir.base, key)

    def entry(self, st):
        """the entry the name stands for on this path"""
        a, c = self.has(self.name), self.has(self.suffixed)
        x = md.base_value(self.I, self.dir.base, self.name)
        y = md.base_value(self.I, self.dir.base, self.suffixed)
        d = st.facts.decide(a)
        return x if d is True else y if d is False else unify(a, x, y)

    def rec(self, st):
        r = st.store.get(('o', 'w'))
        return r if isinstance(r, Rec) else None

    def eq(self, st, x, y):
        return md.seq_eq(self.I, st, x, y)


_varying = {}


def varying(P, cls):
    """fields other than the stream and what was read from the directory that operations
    change"""
    if cls not in _varying:
        stream, dirs, keys, r = shape(P, cls)
        ks = ()
        if len(r.f) > 3:
            seen = set()
            for f in readers(P, cls) + readers(P, cls, 'contains'):
                if f['n'] in seen:
                    continue
                seen.add(f['n'])
                R = Read(P, cls, f, peel=(1, 0), varied=())
                for s, _ in [x[:2] for x in R.rets] + [x[:2] for x in R.throws]:
                    a = R.rec(s)
                    if a is not None:
                        ks += tuple(k for k, v in a.f if k not in (stream, dirs, keys) + ks and v != R.r0.get(k))
        _varying[cls] = ks
    return _varying[cls]


def readers(P, cls, name=None):
    """the public operations taking a name and returning what is in the entry"""
    out = []
    for f in methods(P, cls):
        if f.get('access') == 0 and len(f['params']) == 1 and not f.get('ctor') and f['n'] in ((name,) if name else ('peek', 'read')):
            out.append(f)
    return out


def named(st, t):
    """the name a path gives to a position taken from the archive"""
    for l in st.facts.lits:
        if l.op == 'eq0':
            for x in tm.walk(l):
                if x.op == 'sym' and x.a[0].startswith('at#') and eq(x, t) == l:
                    return x
    return t


# ------------------------------------------------------------------ what PKZIP says
class Header:
    """a header at position p of the archive"""

    def u(self, o, n):
        return u(add(self.p, C(o)), n)

    def name(self):
        return whole(src()).slice(self.name_at, self.nl)

    def scan(self, depth):
        """position of the ZIP64 record's data and its length, found among the first
        `depth`+1 records: (found, known, data, length)"""
        x0, xl = self.extra_at, self.xl
        at = ZERO
        found, data, n = FALSE, ZERO, ZERO
        passed = TRUE
        for k in range(depth + 1):
            fits = le(add(at, C(4)), xl)
            tag, ln = u(add(x0, at), 2), u(add(x0, at, C(2)), 2)
            here = and_(passed, fits, eq(tag, ONE))
            data = ite(here, add(x0, at, C(4)), data)
            n = ite(here, ln, n)
            found = or_(found, here)
            passed = and_(passed, fits, not_(eq(tag, ONE)))
            at = add(at, C(4), ln)
        # undecided when there are more records
        return found, not_(and_(passed, le(add(at, C(4)), xl))), data, n

    def wide(self, fields, depth=2):
        """values of the fields, 64 bits wide where a placeholder says so; the condition
        under which this is what the archive says"""
        found, known, data, n = self.scan(depth)
        out = {}
        at = data
        need = ZERO
        for k in fields:
            v = self.u(*self.F[k])
            ph = eq(v, C(U32))
            out[k] = ite(and_(found, ph), u(at, 8), v)
            at = add(at, ite(ph, C(8), ZERO))
            need = add(need, ite(ph, C(8), ZERO))
        # cut off or too short: no well-formed archive
        self.inside = or_(not_(found), le(add(data, need), add(self.extra_at, self.xl)))
        whole_ = and_(le(need, n), le(add(data, n), add(self.extra_at, self.xl)))
        return out, known, or_(not_(found), whole_)


class Central(Header):
    F = dict(uncompressed_size=(24, 4), compressed_size=(20, 4), offset=(42, 4))

    def __init__(self, p):
        self.p = p
        self.sig = (0x50, 0x4b, 1, 2)
        self.nl, self.xl, self.cl = self.u(28, 2), self.u(30, 2), self.u(32, 2)
        self.name_at = add(p, C(46))
        self.extra_at = add(self.name_at, self.nl)
        self.end = add(self.extra_at, self.xl, self.cl)
        self.version = self.u(6, 2)

    def fields(self):
        w, known, ok = self.wide(('uncompressed_size', 'compressed_size', 'offset'))
        w.update(filename=self.name(), crc32=self.u(16, 4), compression_method=self.u(10, 2))
        return w, known, ok


class Local(Header):
    F = dict(uncompressed_size=(22, 4), compressed_size=(18, 4))

    def __init__(self, p):
        self.p = p
        self.sig = (0x50, 0x4b, 3, 4)
        self.nl, self.xl = self.u(26, 2), self.u(28, 2)
        self.name_at = add(p, C(30))
        self.extra_at = add(self.name_at, self.nl)
        self.end = add(self.extra_at, self.xl)
        self.version = self.u(4, 2)

    def fields(self):
        w, known, ok = self.wide(('uncompressed_size', 'compressed_size'))
        w.update(filename=self.name(), crc32=self.u(14, 4), compression_method=self.u(8, 2))
        return w, known, ok


def signed(h):
    return and_(*[eq(b(add(h.p, C(k))), C(x)) for k, x in enumerate(h.sig)])


class End:
    """the end record in the last 22 bytes"""

    def __init__(self):
        self.p = sub(size(), C(22))
        self.sig = (0x50, 0x4b, 5, 6)
        self.count_disk, self.count = u(add(self.p, C(8)), 2), u(add(self.p, C(10)), 2)
        self.offset = u(add(self.p, C(16)), 4)
