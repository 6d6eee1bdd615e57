"""Archives: the state of writers, and what PKZIP demands of the bytes they produce."""
from .elements import *
from .seq import BASES
from .project import AnalysisBroken
from . import evalt
from .drive import *

WRITERS = ('npy::npzstringwriter', 'npy::npzfilewriter')
READERS = ('npy::npzstringreader', 'npy::npzfilereader')
U32 = 0xffffffff
U16 = 0xffff
BEFORE = 'before'        # what the writer's stream holds
PAYLOAD = 'payload'      # the NPY file of the tensor being written
DEFLATED = 'deflated'
VIRTUAL = (BEFORE, PAYLOAD, DEFLATED)
ENTRY = 'npy::file_entry'


def arg(I, st, a):
    return I.load(st, a) if isinstance(a, LV) else a


def crc_of(v):
    return mk('fn', 'crc', v, lo=0, hi=U32)


def codec(log=None):
    """opaque checksum and compression (C21, C27)"""
    def crc(I, st, this, args, e):
        v = arg(I, st, args[0])
        return [(st, crc_of(v))] if isinstance(v, Seq) else None

    def deflate(I, st, this, args, e):
        v = arg(I, st, args[0])
        return [(st, whole(base(DEFLATED, v)))] if isinstance(v, Seq) else None

    def inflate(I, st, this, args, e):
        v = arg(I, st, args[0])
        return [(st, whole(base('inflated', v)))] if isinstance(v, Seq) else None
    return {'npy::npy_crc32': crc, 'npy::npy_deflate': deflate, 'npy::npy_inflate': inflate}


def payload():
    return whole(base(PAYLOAD))


def saves(log, may_throw=True):
    """npy::save of a tensor into a stream: the bytes of an NPY file, or an exception"""
    def save(I, st, this, args, e):
        if len(args) < 2 or not isinstance(args[0], LV):
            return None
        o = I.load(st, args[0])
        if not isinstance(o, OStr):
            return None
        log.append((st, args, o))
        if may_throw:
            I.raise_(st, 'verif::save_error', e)
        return [(I.store(st, args[0], o.but(content=o.content + payload())), None)]
    return {'npy::save': save}


def methods(P, cls, name=None):
    out = [f for q, fs in P.by_q.items() for f in fs if f.get('body') is not None and f.get('rec') is not None and strip_targs(q).startswith(cls + '::')
           and (name is None or f['n'] == name)]
    return sorted(out, key=lambda f: f['m'])


def rect(P, cls):
    for f in methods(P, cls):
        if f.get('rect') is not None and f['rect'].q == cls:
            return f['rect']
    raise AnalysisBroken('class %s not found' % cls)


def ctors(P, cls):
    fs = [f for f in methods(P, cls) if f.get('ctor') and not f.get('copy') and not f.get('move')]
    if not fs:
        raise AnalysisBroken('no constructor of %s found' % cls)
    return sorted(fs, key=lambda f: (len(f['params']) == 0 or f['params'][0]['t'].deref().q != 'std::basic_string', f['m']))


def ctor_args(I, f, st):
    args = []
    for k, p in enumerate(f['params']):
        t = p['t'].deref()
        if t.q == 'std::basic_string':
            st = st.put(('o', 'path'), whole(base('path')))
            BASES['path'] = dict(lo=0, hi=255)
            args.append(LV(('o', 'path')))
        elif t.q == 'std::filesystem::path':
            st = st.put(('o', 'path'), Obj('path', (mk('fn', 'path', lo=0, hi=1),)))
            args.append(LV(('o', 'path')))
        elif t.k == 'ptr':
            BASES['cpath'] = dict(lo=1, hi=255)
            st = st.put(('o', 'cpath'), whole(base('cpath')) + lit([0]))
            args.append(Ptr(('o', 'cpath'), (), ZERO))
        else:
            args.append(I.symval(t, 'arg%d' % k))
    return args, st


def constructed(P, cls, f, be=False):
    """what the constructor leaves: (I, [(state, record)], throws)"""
    I = Interp(P, be=be, opaque=codec())
    args, st = ctor_args(I, f, St())
    t = rect(P, cls)
    st = st.put(('o', 'w'), I.uninit(t, 'w'))
    r, th = I.analyse(f, LV(('o', 'w')), args, st)
    return I, [(s, s.store.get(('o', 'w'))) for s, _ in r], th


_fresh_state = {}


def after_ctor(P, cls):
    """the record a constructor leaves, other than the stream and entries"""
    if cls not in _fresh_state:
        I, rs, th = constructed(P, cls, ctors(P, cls)[0])
        rs = [v for s, v in rs if isinstance(v, Rec)]
        if len(rs) != 1:
            raise AnalysisBroken('the state after constructing %s is not known' % cls)
        _fresh_state[cls] = rs[0]
    return _fresh_state[cls]


_varying = {}


class Writer:
    """a writer that has been constructed and not been closed, after any number of
    writes"""

    def __init__(self, P, I, cls, rec=None):
        self.P, self.I, self.cls = P, I, cls
        rec = after_ctor(P, cls)
        self.stream = self.entries = self.method = None
        for k, v in rec.f:
            if isinstance(v, OStr):
                self.stream = k
            elif isinstance(v, Seq) and self.ft(k).q == 'std::vector' and self.ft(k).targ(0).q == ENTRY:
                self.entries = k
            elif self.ft(k).n == 'npy::compression_method_t':
                self.method = k
        if not self.stream or not self.entries:
            raise AnalysisBroken('the stream and the list of entries of %s were not recognised' % cls)
        self.n = sym('entries', 0, 1 << 40)
        self.before = Seq((('s', base(BEFORE), ZERO, len_base(base(BEFORE))),))
        o = rec.get(self.stream)
        self.file = o.kind == 'f'
        self.failed = or_(o.failed, bsym('failed')) if self.file else FALSE
        o = o.but(content=self.before, failed=self.failed)
        rec = rec.put(self.stream, o)
        I.symseq(self.ft(self.entries).targ(0), 'entries')
        BASES['entries[].filename'] = dict(BASES.get('entries[].filename') or dict(lo=0, hi=255), len=lambda b: mk('len', b, lo=0, hi=U16))
        rec = rec.put(self.entries, Seq((('s', base('entries'), ZERO, self.n),)))
        BASES[BEFORE] = dict(lo=0, hi=255)
        BASES[PAYLOAD] = dict(lo=0, hi=255)
        self.rec = rec
        for k in self.varying():
            rec = rec.put(k, I.symval(self.ft(k), 'w.' + k))
        self.rec = rec

    def varying(self):
        """the other fields a write changes"""
        if self.cls not in _varying:
            _varying[self.cls] = ()
            for rnd in range(3):
                R = Run(self.P, self.cls, 'write', writer=self)
                ks = set(_varying[self.cls])
                for s in [x[0] for x in R.rets] + [x[0] for x in R.throws]:
                    r = s.store.get(('o', 'w'))
                    if isinstance(r, Rec):
                        ks |= {k for k, v in r.f if k not in (self.stream, self.entries) and v != self.rec.get(k)}
                if ks == set(_varying[self.cls]):
                    break
                _varying[self.cls] = tuple(sorted(ks))
                for k in ks:
                    self.rec = self.rec.put(k, self.I.symval(self.ft(k), 'w.' + k))
        return _varying[self.cls]

    def ft(self, k):
        for f in self.P.recs[rect(self.P, self.cls).rec]['fields']:
            if f['n'] == k:
                return f['t']
        raise AnalysisBroken('field %s of %s' % (k, self.cls))

    def state(self):
        return St().put(('o', 'w'), self.rec)

    def lv(self):
        return LV(('o', 'w'))

    def of(self, st):
        """(stream, entries, the other fields) afterwards"""
        r = st.store.get(('o', 'w'))
        if not isinstance(r, Rec):
            return None, None, None
        return r.get(self.stream), r.get(self.entries), tuple((k, v) for k, v in r.f if k not in (self.stream, self.entries))


def entry_field(r, name):
    return dict(r.f).get(name) if isinstance(r, Rec) else None


def at_entry(I, et, j):
    """the j-th entry of the writer"""
    return at_base(base('entries'), j)


def writer_fn(P, cls, name):
    for f in methods(P, cls, '~' + cls.split('::')[-1] if name == 'dtor' else name):
        if name == 'dtor' and not f.get('dtor'):
            continue
        if name != 'write' or len(f['params']) == 2 and f['params'][1]['t'].deref().q == 'verif::opaque':
            return f
    raise AnalysisBroken('%s::%s not found' % (cls, name))


class Run:
    """one operation of a writer, in every state before it is closed"""

    def __init__(self, P, cls, name, be=False, may_throw=True, writer=None):
        self.saves = []
        f = self.f = writer_fn(P, cls, name)
        op = dict(codec())
        op.update(saves(self.saves, may_throw))
        I = self.I = Interp(P, be=be, opaque=op)
        W = self.W = writer or Writer(P, I, cls)
        st = W.state().put(('o', 'name'), whole(base('name'))).put(('o', 'tensor'), Obj('tensor', ('tensor',)))
        j = fresh('j', 0)
        st = st.with_facts(Facts(st.facts.lits, st.facts.all_ + ((j, W.n, (le(entry_field(at_entry(I, None, j), 'filename').length(), C(U16)),)),)))
        self.start = st
        self.rets, self.throws = self.run(f, st, name)
        self.key = '%s::%s' % (cls.split('::')[-1], name)
        self.where = where(P, f)

    def run(self, f, st, name):
        args = [LV(('o', 'name')), LV(('o', 'tensor'))] if name == 'write' else []
        return self.I.analyse(f, self.W.lv(), args, st)

    def then(self, st, name):
        """a further operation on what this one left"""
        return self.run(writer_fn(self.W.P, self.W.cls, name), st, name)

    def pushed(self, st):
        """the entry added by this operation, None if not exactly one was"""
        o, es, c = self.W.of(st)
        old = self.W.rec.get(self.W.entries).parts
        if isinstance(es, Seq) and len(es.parts) == len(old) + 1 and es.parts[:len(old)] == old and es.parts[-1][0] == 'e' and isinstance(es.parts[-1][1], Rec):
            return es.parts[-1][1]
        if isinstance(es, Seq) and es.parts[:len(old)] == old and same(st.facts, es.length(), add(self.W.n, ONE)) is True:
            e = es.at(self.W.n)
            if isinstance(e, Rec):
                return e
        return None


# ----------------------------------------------------------------- PKZIP layouts
def le_bytes(v, n):
    return tuple(('e', slice_(v, 8 * i, 8)) for i in range(n))


def size_field(v, limit):
    """4 bytes: the value, or the placeholder when it is above the limit"""
    return (('i', le(v, C(limit)), le_bytes(v, 4), le_bytes(C(U32), 4)),)


def extra_field(vals, limit, always=False):
    """the ZIP64 extra field with those of the values that are above the limit"""
    big = [lt(C(limit), v) for v in vals]
    anyb = or_(*big)
    n = add(*[ite(b, C(8), ZERO) for b in big])
    body = le_bytes(ONE, 2) + le_bytes(n, 2)
    for v, b in zip(vals, big):
        body += (('i', b, le_bytes(v, 8), ()),)
    return Seq((('i', anyb, Seq(body).parts, ()),)), add(n, ite(anyb, C(4), ZERO)), n


def local_header(got, at, e, limit, extra_len):
    """local header, name and extra field of entry e; fields PKZIP leaves open (version,
    time) are as found; extra_len: what the extra length field covers"""
    name = entry_field(e, 'filename')
    cs, us = entry_field(e, 'compressed_size'), entry_field(e, 'uncompressed_size')
    x, n, n0 = extra_field([us, cs], limit)
    return Seq(lit([0x50, 0x4b, 3, 4]).parts + free(got, at, 4, 2) + le_bytes(ZERO, 2) + le_bytes(entry_field(e, 'compression_method'), 2)
               + free(got, at, 10, 4) + le_bytes(entry_field(e, 'crc32'), 4) + size_field(cs, limit) + size_field(us, limit)
               + le_bytes(name.length(), 2) + le_bytes(n, 2) + name.parts + x.parts)


def free(got, at, o, n):
    """n bytes as found, o bytes after position at"""
    out = []
    for i in range(n):
        v = got.at(add(at, C(o + i)))
        if v is None:
            raise ValueError
        out.append(('e', v))
    return tuple(out)


def central_header(e, limit, free_bytes):
    name = entry_field(e, 'filename')
    cs, us, off = (entry_field(e, k) for k in ('compressed_size', 'uncompressed_size', 'offset'))
    x, n, n0 = extra_field([us, cs, off], limit)
    f = free_bytes
    return Seq(lit([0x50, 0x4b, 1, 2]).parts + f(n, 4, 4) + le_bytes(ZERO, 2) + le_bytes(entry_field(e, 'compression_method'), 2)
               + f(n, 12, 4) + le_bytes(entry_field(e, 'crc32'), 4) + size_field(cs, limit) + size_field(us, limit)
               + le_bytes(name.length(), 2) + le_bytes(n, 2) + le_bytes(ZERO, 6) + f(n, 38, 4) + size_field(off, limit) + name.parts + x.parts)


def end_record(n, size, offset):
    return Seq(lit([0x50, 0x4b, 5, 6]).parts + le_bytes(ZERO, 4) + le_bytes(n, 2) * 2 + le_bytes(size, 4) + le_bytes(offset, 4) + le_bytes(ZERO, 2))


def limits(v):
    """thresholds the closed form compares sizes with"""
    out = {U32 - 1}
    cs = []
    allconds(v, cs)
    for c in cs:
        for l in blits2(c):
            p = l.a[0] if l.op in ('ge0', 'eq0') else None
            if p is not None:
                k, d = poly_parts(p)
                if d and 1 << 24 <= abs(k) <= U32 + 1:
                    out.update(x for x in (abs(k) - 1, abs(k)) if x < U32)
    return sorted(out)


def allconds(v, out):
    if isinstance(v, T):
        for x in tm.walk(v):
            if x.op == 'ite' and x.a[0] not in out:
                out.append(x.a[0])
    elif isinstance(v, Seq):
        allconds(v.parts, out)
    elif isinstance(v, V):
        for k in v._k:
            allconds(getattr(v, k), out)
    elif isinstance(v, tuple):
        if v and v[0] == 'i' and len(v) == 4 and isinstance(v[1], T):
            if v[1] not in out:
                out.append(v[1])
        for x in v:
            allconds(x, out)


def blits2(t):
    if t.op in ('and', 'or', 'not'):
        return [y for x in t.a for y in blits2(x)]
    return [t]


# ------------------------------------------------------- reading bytes back (oracle)
class Bad(Exception):
    pass


class Bytes:
    """evaluated contents: integers, and runs of bytes nobody looks into"""

    def __init__(self, xs):
        self.xs = list(xs)
        self.i = 0
        self.pos = 0

    def done(self):
        return self.i >= len(self.xs)

    def run(self):
        """skip a run of untouched bytes, if one comes next"""
        if not self.done() and isinstance(self.xs[self.i], tuple):
            r = self.xs[self.i]
            self.i += 1
            self.pos += r[3]
            return r
        return None

    def byte(self):
        if self.done():
            raise Bad('the bytes end within a header')
        x = self.xs[self.i]
        if isinstance(x, tuple):
            raise Bad('a header is cut short by data')
        self.i += 1
        self.pos += 1
        return x & 255

    def int(self, n):
        return sum(self.byte() << (8 * i) for i in range(n))

    def bytes(self, n):
        return tuple(self.byte() for _ in range(n))

    def left(self):
        return sum(x[3] if isinstance(x, tuple) else 1 for x in self.xs[self.i:])


def read_extra(b, n, big):
    """ZIP64 values for the placeholder fields"""
    end = b.pos + n
    found = None
    while b.pos < end:
        if end - b.pos < 4:
            raise Bad('the extra field is cut short')
        tag, size = b.int(2), b.int(2)
        if b.pos + size > end:
            raise Bad('the extra field is longer than announced')
        if tag == 1:
            if found is not None:
                raise Bad('there are two ZIP64 extra fields')
            if size != 8 * len(big):
                raise Bad('the ZIP64 extra field holds %d bytes for %d placeholder fields' % (size, len(big)))
            found = [b.int(8) for _ in big]
        else:
            b.bytes(size)
    if big and found is None:
        raise Bad('a placeholder without ZIP64 extra field')
    return dict(zip(big, found or ()))


def expect(what, got, want):
    if got != want:
        raise Bad('%s is %s, not %s' % (what, got, want))


def read_local(b, e):
    """a local header at b, describing entry e (a dict)"""
    expect('the local signature', b.bytes(4), (0x50, 0x4b, 3, 4))
    ver = b.int(2)
    flags = b.int(2)
    if flags & ~0x806:
        raise Bad('general purpose flags are %#x' % flags)
    expect('the method', b.int(2), e['compression_method'])
    b.int(4)
    expect('the checksum', b.int(4), e['crc32'])
    cs, us = b.int(4), b.int(4)
    nl, xl = b.int(2), b.int(2)
    expect('the name length', nl, len(e['filename']))
    expect('the name', b.bytes(nl), e['filename'])
    big = [k for k, v in (('us', us), ('cs', cs)) if v == U32]
    x = read_extra(b, xl, big)
    expect('the compressed size', x.get('cs', cs), e['compressed_size'])
    expect('the uncompressed size', x.get('us', us), e['uncompressed_size'])
    if big and ver & 255 < 45:
        raise Bad('version %d with a ZIP64 extra field' % ver)


def read_central(b, e):
    expect('the directory signature', b.bytes(4), (0x50, 0x4b, 1, 2))
    b.int(2)
    ver = b.int(2)
    flags = b.int(2)
    if flags & ~0x806:
        raise Bad('general purpose flags are %#x' % flags)
    expect('the method', b.int(2), e['compression_method'])
    b.int(4)
    expect('the checksum', b.int(4), e['crc32'])
    cs, us = b.int(4), b.int(4)
    nl, xl, cl = b.int(2), b.int(2), b.int(2)
    expect('the disk number', b.int(2), 0)
    b.int(6)
    off = b.int(4)
    expect('the name length', nl, len(e['filename']))
    expect('the name', b.bytes(nl), e['filename'])
    big = [k for k, v in (('us', us), ('cs', cs), ('off', off)) if v == U32]
    x = read_extra(b, xl, big)
    b.bytes(cl)
    expect('the compressed size', x.get('cs', cs), e['compressed_size'])
    expect('the uncompressed size', x.get('us', us), e['uncompressed_size'])
    expect('the offset', x.get('off', off), e['offset'])
    if big and ver & 255 < 45:
        raise Bad('version %d with a ZIP64 extra field' % ver)


def read_end(b, n, size, offset):
    expect('the signature of the end record', b.bytes(4), (0x50, 0x4b, 5, 6))
    expect('the disk numbers', b.int(4), 0)
    expect('the number of entries on this disk', b.int(2), n)
    expect('the number of entries', b.int(2), n)
    expect('the directory size', b.int(4), size)
    expect('the directory offset', b.int(4), offset)
    c = b.int(2)
    expect('the length of the comment', b.left(), c)


def entry_value(ev, e):
    """the evaluated entry record"""
    out = {}
    for k, v in e.f:
        x = ev.val(v)
        out[k] = x[1] if isinstance(v, Seq) else x
    return out


def big_cases(terms, got=None):
    """extra conditions that make a size cross each of the field widths, and pairs of
    sizes lie at the thresholds the code compares with"""
    out = [()]
    for t in terms:
        for b in (0x7fffffff, 0x80000001, 0x8fffffff, 0x90000000, U32 - 1, U32, U32 + 1, (1 << 33) + 7):
            out.append((eq(t, C(b)),))
    ls = limits(got) if got is not None else []
    near = sorted({x + d for x in ls for d in (0, 1)})
    for t in terms:
        for u in terms:
            if t is not u:
                out += [(eq(t, C(a)), eq(u, C(b))) for a in near for b in (U32 + 9,)]
    return out
