"""What the standard library does, for the analysis: containers, iterators,
strings, streams, maps, algorithms."""
import itertools
from .terms import *
from . import terms as tm
from .seq import *
from . import seq as sq
from .facts import Facts
from .values import *
from . import interp as ip

SEQS = ('std::vector', 'std::basic_string', 'std::array', 'std::initializer_list', 'std::deque', 'std::basic_string_view', 'std::span')
_n = itertools.count(1)
BIG = 1 << 60


def _dec_len(b):
    return mk('len', b, lo=1, hi=20)


BASES['dec'] = dict(lo=45, hi=57, len=_dec_len)
BASES['dec_loc'] = dict(lo=0, hi=255, len=lambda b: mk('len', b, lo=1, hi=40))
BASES['sorted'] = dict(len=lambda b: b.a[1].a[1].length() if b.a[1].op == 'base' and b.a[1].a[0] == 'val' else len_base(b.a[1]))


def sterm(s):
    """a term naming the contents of a sequence"""
    if len(s.parts) == 1 and s.parts[0][0] == 's':
        p = s.parts[0]
        if p[2] is ZERO and p[3] is len_base(p[1]):
            return p[1]
    return base('val', s)


BASES['val'] = dict(len=lambda b: b.a[1].length(), elem=lambda b, i: b.a[1].at(i) or mk('at', b, i))


def seq_eq(I, st, a, b):
    if a == b:
        return TRUE
    dec = I.dec(st)
    la, lb = a.length(), b.length()
    e = eq(la, lb)
    if dec(e) is False:
        return FALSE
    for x, y in ((a, b), (b, a)):
        n = x.length().const
        if n is not None and n <= 256:
            cs = [e]
            for i in range(n):
                p, q = x.at(C(i), dec), y.at(C(i), dec)
                if not (isinstance(p, T) and isinstance(q, T)):
                    return fresh('H:eq', 0, 1)
                cs.append(eq(p, q))
            return and_(*cs)
    ta, tb = sterm(a), sterm(b)
    if repr(tb) < repr(ta):
        ta, tb = tb, ta
    return fn('seqeq', ta, tb, lo=0, hi=1)


# ---------------------------------------------------------------------- helpers
def val(I, st, a, t=None):
    return I.load(st, a, t) if isinstance(a, LV) else a


def asseq(I, st, a):
    """a string-like argument as a sequence"""
    v = val(I, st, a)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Ptr) and v.root is not None:
        c = I.load(st, LV(v.root, v.path))
        if isinstance(c, Seq) and v.idx is not None and v.view is None:
            # NUL-terminated
            el = const_elems(c)
            if el is not None and v.idx.const is not None:
                out = []
                for x in el[v.idx.const:]:
                    if x is ZERO:
                        return elems(out)
                    if x.op != 'c':
                        break
                    out.append(x)
            # the text of a string up to its terminator (assumed to hold no NUL)
            return c if v.idx is ZERO else c.slice(v.idx, sub(c.length(), v.idx), I.dec(st))
    return None


def one(st, v):
    return [(st, v)]


def unk(I, st, e, why):
    return [(st.imprecise(why), I.unknown(e.get('t'), why))]


def elemt(t):
    if t is None or t.k != 'rec':
        return None
    if t.q == 'std::basic_string' or t.q in SEQS:
        try:
            return t.targ(0)
        except Exception:
            return None
    return None


def raw_elem(I, st, a, t):
    """value as held inside a container"""
    v = val(I, st, a)
    return I.stored(v, t.deref() if t is not None else None)


def splice(I, st, lv, idx, new):
    """overwrite elements from idx on with `new`"""
    old = I.load(st, lv)
    if not isinstance(old, Seq):
        return I.store(st, lv, Unk('bulk store'))
    dec = I.dec(st)
    n = new.length()
    if n is ZERO:
        return st
    L = old.length()
    end = add(idx, n)
    a = old.slice(ZERO, idx, dec) if idx is not ZERO else EMPTY
    rest = sub(L, end)
    b = EMPTY if rest is ZERO or dec(eq(rest, ZERO)) is True else old.slice(end, rest, dec)
    return I.store(st, lv, a + new + b)


def obl_range(I, st, lv, idx, n, e, what):
    v = I.load(st, lv)
    if isinstance(v, Seq):
        I.oblige(st, and_(ge0(idx), le(add(idx, n), v.length())), 'bounds', e, what)


def byte_seq(I, st, p, n):
    """the n bytes p points to, as a sequence of raw bytes"""
    c = I.load(st, LV(p.root, p.path))
    dec = I.dec(st)
    if p.view is None:
        if isinstance(c, Mem):
            i = p.idx.const if p.idx is not None else 0
            if i is not None and n.const is not None and i + n.const <= len(c.bytes):
                return elems(c.bytes[i:i + n.const])
            return None
        if not isinstance(c, Seq):
            return None
        s = c.slice(p.idx or ZERO, n, dec)
        return bytesof(s)
    size = p.view[0]
    if isinstance(c, T) or isinstance(c, Rec):
        c = Seq((('e', c),))
    if not isinstance(c, Seq):
        return None
    q, r = div(p.idx, C(size)), mod(p.idx, C(size))
    m, r2 = div(n, C(size)), mod(n, C(size))
    if r.const is None:
        return None
    if r is ZERO and r2 is ZERO:
        s = c.slice(q, m, dec)
        out = []
        for part in s.parts:
            if part[0] == 'e':
                b = I.elem_bytes(part[1], p.view)
                if b is None:
                    return None
                out.extend(('e', x) for x in b)
            else:
                j = fresh('j', 0, BIG)
                el = sq.part_at(part, j, dec)
                if el is None:
                    return None
                b = I.elem_bytes(el, p.view)
                if b is None:
                    return None
                out.append(('c', j, plen((part,)), tuple(('e', x) for x in b)))
        return Seq(out)
    if n.const is not None and n.const <= 64:
        out = []
        for k in range(n.const):
            b = I.load_byte(st, c, p.view, add(p.idx, C(k)))
            if not isinstance(b, T):
                return None
            out.append(b)
        return elems(out)
    return None


def bytesof(s):
    """elements of a byte container as raw bytes"""
    out = []
    ch = False
    for p in s.parts:
        if p[0] == 'e' and isinstance(p[1], T) and not (p[1].lo is not None and p[1].lo >= 0 and p[1].hi is not None and p[1].hi <= 255):
            p = ('e', slice_(p[1], 0, 8))
            ch = True
        elif p[0] == 'e' and isinstance(p[1], Rec):
            return None
        elif p[0] == 's' and BASES.get(p[1].a[0], {}).get('signed8'):
            j = fresh('j', 0, BIG)
            p = ('c', j, p[3], (('e', slice_(at_base(p[1], add(p[2], j)), 0, 8)),))
            ch = True
        out.append(p)
    return Seq(out) if ch else s


def put_bytes(I, st, p, src, n):
    """store the byte sequence src (n bytes) at p"""
    lv = LV(p.root, p.path)
    c = I.load(st, lv)
    dec = I.dec(st)
    if p.view is None:
        if isinstance(c, Seq):
            return splice(I, st, lv, p.idx or ZERO, src)
        if isinstance(c, Mem):
            el = const_elems(src)
            i = p.idx.const if p.idx is not None else 0
            if el is not None and i is not None and i + len(el) <= len(c.bytes):
                b = list(c.bytes)
                b[i:i + len(el)] = el
                return I.store(st, lv, Mem(tuple(b), c.leaf, c.size))
        return I.store(st, lv, Unk('bytes'))
    size = p.view[0]
    q, r = div(p.idx, C(size)), mod(p.idx, C(size))
    m, r2 = div(n, C(size)), mod(n, C(size))
    if r is not ZERO or r2 is not ZERO:
        if n.const is not None and n.const <= 64:
            for k in range(n.const):
                b = src.at(C(k), dec)
                st = I.store(st, LV(p.root, p.path + (('b', p.view, add(p.idx, C(k))),)), b if b is not None else Unk('byte'))
            return st
        return I.store(st, lv, Unk('bytes'))
    if m.const is not None and m.const <= 64:
        new = []
        for i in range(m.const):
            bs = [src.at(C(i * size + k), dec) for k in range(size)]
            if any(not isinstance(b, T) for b in bs):
                return I.store(st, lv, Unk('bytes'))
            new.append(I.cooked(add(*[scale(b, 1 << I.bitpos(p.view, k)) for k, b in enumerate(bs)]), p.view))
        new = elems(new)
        if isinstance(c, Seq):
            return splice(I, st, lv, q, new)
        if m is ONE and q is ZERO:
            return I.store(st, lv, new.at(ZERO))
        return I.store(st, lv, Unk('bytes'))
    j = fresh('j', 0, BIG)
    bs = [src.at(add(scale(j, size), C(k)), dec) for k in range(size)]
    if any(not isinstance(b, T) for b in bs):
        return I.store(st, lv, Unk('bytes'))
    raw = ZERO
    for k, b in enumerate(bs):
        raw = add(raw, scale(b, 1 << I.bitpos(p.view, k)))
    el = I.cooked(raw, p.view)
    new = Seq((('c', j, m, (('e', el),)),))
    if isinstance(c, Seq):
        return splice(I, st, lv, q, new)
    return I.store(st, lv, Unk('bytes'))


# ------------------------------------------------------------------------- maps
def key_eq(I, st, a, b):
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(I, st, a, b)
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    return fresh('H:keyeq', 0, 1)


def kterm(k):
    return sterm(k) if isinstance(k, Seq) else k


def map_cond(I, st, m, key):
    """condition under which key is present"""
    cs = [key_eq(I, st, k, key) for k, _ in m.entries]
    if m.base is not None:
        cs.append(base_cond(I, m.base, key))
    return or_(*cs)


def base_cond(I, b, key):
    return fn('mapin', bterm(b), kterm(key), lo=0, hi=1)


def bterm(b):
    return base('map', b)


def map_get(I, st, m, key):
    """value under key, which is present"""
    if not isinstance(m, MapV):
        return Unk('map')
    r = None
    if m.base is not None:
        r = base_value(I, m.base, key)
    for k, v in m.entries:
        c = key_eq(I, st, k, key)
        if st.facts.decide(c) is True:
            r = v
        elif st.facts.decide(c) is False:
            continue
        else:
            r = v if r is None else ip.unify(c, v, r)
            if r is None:
                return Unk('map value')
    return Unk('map value') if r is None else r


def base_value(I, b, key):
    t = I.mapval.get(b.args[0]) if b.name == 'mapsym' else None
    if t is None:
        return Unk('map value')
    return I.symval(t, 'mapat:%s' % b.args[0], (kterm(key),))


def map_put(I, st, m, key, v):
    for i, (k, _) in enumerate(m.entries):
        if k == key:
            es = list(m.entries)
            es[i] = (k, v)
            return MapV(m.base, tuple(es))
    return MapV(m.base, m.entries + ((key, v),))


# --------------------------------------------------------------------- defaults
def default_construct(I, t):
    q = t.q
    if q in ('std::basic_ostringstream', 'std::basic_stringstream'):
        return OStr('s')
    if q == 'std::basic_ofstream':
        return OStr('f', failed=FALSE, open=FALSE, name='unopened')
    if q == 'std::basic_ifstream':
        return IStr('f', EMPTY, open=FALSE)
    if q == 'std::basic_istringstream':
        return IStr('s', EMPTY)
    if q in ('std::allocator', 'std::less', 'std::locale', 'std::plus', 'std::multiplies', 'std::filesystem::path'):
        return Obj(q)
    if q == 'std::optional':
        return Obj('nullopt')
    return None


def std_global(I, e):
    n = e['n']
    if n in ('cout', 'cerr', 'clog'):
        return OStr('x', name=n)
    if n == 'npos':
        return C((1 << 64) - 1)
    if n == 'nullopt':
        return Obj('nullopt')
    t = e.get('t')
    if t is not None and t.k == 'rec':
        return default_construct(I, t)
    return None


def rng(I, st, first, last):
    """[first, last) -> (container LV, first index, length, rev, view) or None"""
    a, b = val(I, st, first), val(I, st, last)
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.root is None or a.root != b.root or a.path != b.path or a.view != b.view:
        return None
    i = a.idx if a.idx is not None else ZERO
    j = b.idx if b.idx is not None else ZERO
    n = sub(i, j) if a.rev else sub(j, i)
    return a, i, n


def slice_rng(I, st, first, last):
    """contents of a range as a sequence"""
    r = rng(I, st, first, last)
    if r is None:
        return None
    a, i, n = r
    return read_n(I, st, a, n)


def read_n(I, st, p, n):
    c = I.load(st, LV(p.root, p.path))
    if p.view is not None:
        return byte_seq(I, st, p, n)
    if not isinstance(c, Seq):
        if n is ONE:
            return Seq((('e', c),))
        return None
    dec = I.dec(st)
    if p.rev:
        j = fresh('j', 0, BIG)
        v = c.at(sub(p.idx, j), dec)
        if v is None:
            return None
        return Seq((('c', j, n, (('e', v),)),))
    return c.slice(p.idx or ZERO, n, dec)


def write_n(I, st, p, s):
    if p.view is not None:
        return put_bytes(I, st, p, s, s.length())
    if p.rev:
        n = s.length()
        j = fresh('j', 0, BIG)
        v = s.at(sub(sub(n, ONE), j), I.dec(st))
        if v is None:
            return I.store(st, LV(p.root, p.path), Unk('reverse'))
        return splice(I, st, LV(p.root, p.path), add(sub(p.idx, n), ONE), Seq((('c', j, n, (('e', v),)),)))
    return splice(I, st, LV(p.root, p.path), p.idx or ZERO, s)


# ----------------------------------------------------------------- construction
def construct(I, t, fnd, args, e, st):
    q = t.q
    pt = (fnd or {}).get('pt') or []
    vals = [val(I, st, a) for a in args]
    # copies and moves
    if len(args) == 1 and pt and pt[0].deref().k == 'rec' and pt[0].deref().q == q:
        v = vals[0]
        if pt[0].rv and isinstance(args[0], LV):
            st = I.store(st, args[0], I.moved_from(v))
        return [(st, v)]
    if q in SEQS:
        return seq_ctor(I, t, pt, args, vals, e, st)
    if q in ('std::map', 'std::unordered_map', 'std::set'):
        if not args:
            return [(st, MapV(None, ()))]
        v = vals[0]
        if isinstance(v, Seq) and q != 'std::set':
            el = const_elems(v)
            if el is not None and all(isinstance(x, Rec) for x in el):
                m = MapV(None, ())
                for x in el:
                    if not any(k == x.get('first') for k, _ in m.entries):
                        m = MapV(None, m.entries + ((x.get('first'), x.get('second')),))
                return [(st, m)]
        return None
    if q == 'std::pair':
        if len(vals) == 2:
            return [(st, Rec('std::pair', (('first', vals[0]), ('second', vals[1]))))]
        if not vals:
            return [(st, I.zero(t))]
        if isinstance(vals[0], Rec):
            return [(st, vals[0])]
        return None
    if q == 'std::tuple':
        return [(st, Rec('std::tuple', tuple((str(i), v) for i, v in enumerate(vals))))]
    if q == 'std::complex':
        w = t.targ(0).w
        if not vals:
            return [(st, ZERO)]
        if all(isinstance(v, T) for v in vals):
            im = vals[1] if len(vals) > 1 else ZERO
            return [(st, add(vals[0], scale(im, 1 << w)))]
        return None
    if q in ('std::basic_istringstream', 'std::basic_stringstream') and vals and isinstance(vals[0], Seq):
        if pt and pt[0].rv and isinstance(args[0], LV):
            st = I.store(st, args[0], I.moved_from(vals[0]))
        return [(st, IStr('s', vals[0]))] if q.endswith('istringstream') else None
    if q == 'std::basic_ostringstream':
        if vals and isinstance(vals[0], Seq):
            return [(st, OStr('s', vals[0]))] if False else None
        return [(st, OStr('s'))]
    if q in ('std::basic_ifstream', 'std::basic_ofstream'):
        if not vals:
            return [(st, default_construct(I, t))]
        return [(st, opened(I, st, q == 'std::basic_ofstream', vals))]
    if q in ('std::runtime_error', 'std::invalid_argument', 'std::logic_error', 'std::out_of_range', 'std::length_error',
             'std::range_error', 'std::overflow_error', 'std::domain_error', 'std::bad_alloc', 'std::exception', 'std::ios_base::failure'):
        return [(st, Obj('exception', (q,)))]
    if q in ('std::allocator', 'std::locale', 'std::less', 'std::greater', 'std::plus', 'std::multiplies', 'std::ios_base::Init', 'std::char_traits'):
        return [(st, Obj(q))]
    if q == 'std::filesystem::path':
        return [(st, Obj('path', (pathterm(vals[0], I, st),) if vals else ()))]
    if q == 'std::fpos':
        return [(st, vals[0] if vals and isinstance(vals[0], T) else ZERO)]
    if q in ('std::reverse_iterator', 'std::__normal_iterator', '__gnu_cxx::__normal_iterator'):
        if vals and isinstance(vals[0], Ptr):
            v = vals[0]
            if q == 'std::reverse_iterator' and not v.rev:
                return [(st, v.but(rev=True, idx=sub(v.idx, ONE)))]
            return [(st, v)]
        return None
    if q in ('std::unique_ptr', 'std::function', 'std::optional', 'std::reference_wrapper') and vals:
        return [(st, vals[0])]
    return None


def opened(I, st, output, vals):
    """a file stream after opening"""
    p = pathterm(vals[0], I, st)
    if not output:
        op = truth(fn('readable', p, lo=0, hi=1))
        return IStr('f', I.contents if I.contents is not None else whole(base('file', p)), bad=not_(op), open=op, name=mode_name(vals[1]) if len(vals) > 1 else None)
    op = truth(fn('writable', p, lo=0, hi=1))
    mode = mode_name(vals[1]) if len(vals) > 1 else 16
    had = EMPTY
    if mode is None or mode & 1 or mode & 8 and not mode & 32:
        # what the file held stays
        had = whole(base('existing', p))
        BASES['existing'] = dict(lo=0, hi=255)
    return OStr('f', content=had, failed=not_(op), open=op, name=(p, mode))


def mode_name(m):
    return m.const if isinstance(m, T) and m.const is not None else None


def pathterm(v, I, st):
    if isinstance(v, Obj) and v.args:
        return v.args[0]
    s = asseq(I, st, v)
    return sterm(s) if s is not None else fresh('H:path', 0, 1)


def seq_ctor(I, t, pt, args, vals, e, st):
    q = t.q
    et = elemt(t)
    while vals and isinstance(vals[-1], Obj) and vals[-1].name in ('std::allocator',):
        vals, args = vals[:-1], args[:-1]
    n = len(vals)
    if n == 0:
        return [(st, I.zero(t))]
    v = vals[0]
    if n == 1 and isinstance(v, Seq):
        if isinstance(args[0], LV) and pt and pt[0].rv:
            st = I.store(st, args[0], I.moved_from(v))
        return [(st, v)]
    if n == 1 and isinstance(v, T) and q == 'std::vector':
        return [(st, Seq((('r', I.zero(et), v),)))]
    if q in ('std::basic_string', 'std::basic_string_view'):
        if isinstance(v, Ptr) and n == 1:
            s = asseq(I, st, v)
            return [(st, s)] if s is not None else None
        if isinstance(v, Ptr) and n == 2 and isinstance(vals[1], T) and v.root is not None:
            s = read_n(I, st, v, vals[1])
            return [(st, bytesof(s) or s)] if s is not None else None
        if isinstance(v, T) and n == 2 and isinstance(vals[1], T):
            return [(st, Seq((('r', I.stored(vals[1], et), v),)))]
        if isinstance(v, Seq) and n in (2, 3) and all(isinstance(x, T) for x in vals[1:]):
            return substr(I, st, v, vals[1], vals[2] if n == 3 else None, e)
    if q == 'std::vector' and n == 2 and isinstance(v, T):
        return [(st, Seq((('r', I.stored(vals[1], et), v),)))]
    if n == 2 and isinstance(v, Ptr) and isinstance(vals[1], Ptr):
        s = slice_rng(I, st, v, vals[1])
        if s is None:
            return None
        if et is not None and et.k == 'int' and et.w == 8:
            s = bytesof(s) or s
        return [(st, s)]
    if q == 'std::array':
        return [(st, v)] if isinstance(v, Seq) else None
    return None


def substr(I, st, s, pos, n, e):
    L = s.length()
    out = []
    for s1, tk in I.branch(st, le(pos, L)):
        if not tk:
            I.raise_(s1, 'std::out_of_range', e)
            continue
        rest = sub(L, pos)
        k = rest if n is None or n.const == (1 << 64) - 1 else min_(n, rest)
        if n is not None and I.dec(s1)(le(n, rest)) is True:
            k = n
        out.append((s1, s.slice(pos, k, I.dec(s1))))
    return out


# ------------------------------------------------------------------------ calls
FN = {}


def reg(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


STR = ('std::basic_string', 'std::basic_string_view')


def call(I, short, fnd, this, args, e, st):
    f = FN.get(short)
    if f is None:
        cls, _, m = short.rpartition('::')
        if cls in SEQS:
            f = FN.get('seq::' + m)
        elif cls in ('std::basic_istream', 'std::basic_ios', 'std::basic_ifstream', 'std::basic_istringstream', 'std::ios_base',
                     'std::basic_ostream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_fstream'):
            f = FN.get('io::' + m)
        elif cls in ('std::basic_streambuf', 'std::basic_filebuf', 'std::basic_stringbuf'):
            f = FN.get('buf::' + m)
        elif cls in ('std::map', 'std::unordered_map'):
            f = FN.get('map::' + m)
        elif cls in ('std::reverse_iterator', '__gnu_cxx::__normal_iterator'):
            f = FN.get('it::' + m)
        elif short.startswith(('__gnu_cxx::operator', 'std::operator', 'std::rel_ops')):
            f = FN.get('op::' + short.rpartition('operator')[2])
        elif cls == 'std::complex':
            f = FN.get('complex::' + m)
        elif cls in ('std::filesystem::path', 'std::filesystem::__cxx11::path'):
            f = FN.get('path::' + m)
    if f is None:
        return None
    return f(I, fnd, this, args, e, st)


def cur(I, st, this):
    return I.load(st, this) if isinstance(this, LV) else this


# --- containers
@reg('seq::size', 'seq::length', 'std::size')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this if this is not None else args[0])
    return one(st, v.length()) if isinstance(v, Seq) else None


@reg('seq::empty', 'std::empty')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this if this is not None else args[0])
    return one(st, eq(v.length(), ZERO)) if isinstance(v, Seq) else None


@reg('seq::max_size')
def _(I, fnd, this, args, e, st):
    return one(st, C((1 << 63) - 1))


@reg('seq::data', 'seq::c_str', 'seq::begin', 'seq::cbegin')
def _(I, fnd, this, args, e, st):
    if this is None:
        this = args[0]
    return one(st, Ptr(this.root, this.path, ZERO)) if isinstance(this, LV) else None


FN['std::begin'] = FN['std::cbegin'] = FN['std::data'] = FN['seq::begin']


@reg('seq::end', 'seq::cend', 'std::end', 'std::cend')
def _(I, fnd, this, args, e, st):
    if this is None:
        this = args[0]
    v = cur(I, st, this)
    return one(st, Ptr(this.root, this.path, v.length())) if isinstance(v, Seq) and isinstance(this, LV) else None


@reg('seq::rbegin', 'seq::crbegin')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    return one(st, Ptr(this.root, this.path, sub(v.length(), ONE), None, True)) if isinstance(v, Seq) else None


@reg('seq::rend', 'seq::crend')
def _(I, fnd, this, args, e, st):
    return one(st, Ptr(this.root, this.path, C(-1), None, True))


@reg('seq::operator[]')
def _(I, fnd, this, args, e, st):
    i = val(I, st, args[0])
    if not isinstance(i, T) or not isinstance(this, LV):
        return None
    v = cur(I, st, this)
    if isinstance(v, Seq):
        n = v.length()
        isstr = e is not None and fnd['q'].startswith('std::basic_string') or 'basic_string' in fnd['q'].split('::operator')[0].split('<')[0]
        I.oblige(st, and_(ge0(i), le(i, n) if isstr else lt(i, n)), 'bounds', e, 'element %r of %r' % (i, n))
    return one(st, this.x(i))


@reg('seq::at')
def _(I, fnd, this, args, e, st):
    i = val(I, st, args[0])
    v = cur(I, st, this)
    if not isinstance(i, T) or not isinstance(v, Seq):
        return None
    out = []
    for s, tk in I.branch(st, lt(i, v.length())):
        if tk:
            out.append((s, this.x(i)))
        else:
            I.raise_(s, 'std::out_of_range', e)
    return out


@reg('seq::front', 'seq::back')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if not isinstance(v, Seq):
        return None
    n = v.length()
    I.oblige(st, ge0(sub(n, ONE)), 'bounds', e, 'front/back of %r elements' % n)
    return one(st, this.x(ZERO if fnd['n'] == 'front' else sub(n, ONE)))


def grow(I, st, this, fn_):
    v = cur(I, st, this)
    if not isinstance(v, Seq):
        return None
    n = fn_(v)
    return None if n is None else I.store(st, this, n)


def elem_arg(I, st, fnd, a, this_t=None):
    v = val(I, st, a)
    t = (fnd.get('pt') or [None])[0]
    return I.stored(v, t.deref() if t is not None else None)


@reg('seq::push_back', 'seq::emplace_back')
def _(I, fnd, this, args, e, st):
    v = elem_arg(I, st, fnd, args[0])
    pt = fnd.get('pt') or [None]
    if pt[0] is not None and pt[0].rv and isinstance(args[0], LV) and isinstance(v, (Seq, Rec)):
        st = I.store(st, args[0], I.moved_from(v))
    s = grow(I, st, this, lambda o: o + Seq((('e', v),)))
    return None if s is None else one(s, this)


@reg('seq::pop_back')
def _(I, fnd, this, args, e, st):
    s = grow(I, st, this, lambda o: o.slice(ZERO, sub(o.length(), ONE), I.dec(st)))
    return None if s is None else one(s, VOID)


@reg('seq::clear')
def _(I, fnd, this, args, e, st):
    return one(I.store(st, this, EMPTY), VOID)


@reg('seq::reserve', 'seq::shrink_to_fit', 'map::reserve')
def _(I, fnd, this, args, e, st):
    return one(st, VOID)


@reg('seq::capacity')
def _(I, fnd, this, args, e, st):
    return one(st, fresh('H:capacity', 0, BIG))


@reg('seq::resize')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    n = val(I, st, args[0])
    if not isinstance(v, Seq) or not isinstance(n, T):
        return None
    if (st.facts.iv(n)[0] or 0) >= 1 << 63:
        I.raise_(st, 'std::length_error', e)
        return []
    fill = elem_arg(I, st, dict(pt=(fnd.get('pt') or [None, None])[1:]), args[1]) if len(args) > 1 else ZERO
    if len(args) == 1:
        k = [x for x in v.parts if x[0] == 'e']
        if k and isinstance(k[0][1], (Seq, Rec)):
            fill = EMPTY if isinstance(k[0][1], Seq) else None
            if fill is None:
                return None
    L = v.length()
    d = I.dec(st)
    if d(le(L, n)) is True:
        r = v + Seq((('r', fill, sub(n, L)),))
    elif d(le(n, L)) is True:
        r = v.slice(ZERO, n, d)
    else:
        r = ip.seq_ite(le(L, n), v + Seq((('r', fill, sub(n, L)),)), v.slice(ZERO, n, d))
    return one(I.store(st, this, r), VOID)


@reg('seq::assign')
def _(I, fnd, this, args, e, st):
    vs = [val(I, st, a) for a in args]
    if len(vs) == 2 and isinstance(vs[0], T) and isinstance(vs[1], T):
        return one(I.store(st, this, Seq((('r', I.stored(vs[1], (fnd.get('pt') or [None, None])[1].deref()), vs[0]),))), this)
    if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
        s = slice_rng(I, st, vs[0], vs[1])
    elif len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], T):
        s = read_n(I, st, vs[0], vs[1])
    elif len(vs) == 1:
        s = asseq(I, st, vs[0])
    else:
        s = None
    return None if s is None else one(I.store(st, this, s), this)


@reg('seq::append', 'seq::operator+=')
def _(I, fnd, this, args, e, st):
    vs = [val(I, st, a) for a in args]
    if len(vs) == 1:
        if isinstance(vs[0], T):
            s = Seq((('e', slice_(vs[0], 0, 8)),))
        else:
            s = asseq(I, st, vs[0])
    elif len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], T):
        s = read_n(I, st, vs[0], vs[1])
    elif len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
        s = slice_rng(I, st, vs[0], vs[1])
    elif len(vs) == 2 and isinstance(vs[0], T):
        s = Seq((('r', slice_(vs[1], 0, 8), vs[0]),))
    else:
        s = None
    if s is None:
        return None
    r = grow(I, st, this, lambda o: o + s)
    return None if r is None else one(r, this)


@reg('seq::insert')
def _(I, fnd, this, args, e, st):
    vs = [val(I, st, a) for a in args]
    o = cur(I, st, this)
    if not isinstance(o, Seq) or not isinstance(vs[0], Ptr) or vs[0].rev:
        return None
    i = vs[0].idx
    if len(vs) == 3 and isinstance(vs[1], Ptr) and isinstance(vs[2], Ptr):
        s = slice_rng(I, st, vs[1], vs[2])
    elif len(vs) == 2:
        s = vs[1] if isinstance(vs[1], Seq) and isinstance(fnd['pt'][1].deref().targs, list) and False else Seq((('e', I.stored(vs[1], fnd['pt'][1].deref())),))
    elif len(vs) == 3 and isinstance(vs[1], T):
        s = Seq((('r', vs[2], vs[1]),))
    else:
        s = None
    if s is None:
        return None
    d = I.dec(st)
    L = o.length()
    a = o if d(eq(i, L)) is True else o.slice(ZERO, i, d) if i is not ZERO else EMPTY
    b = EMPTY if d(eq(i, L)) is True else o.slice(i, sub(L, i), d)
    return one(I.store(st, this, a + s + b), Ptr(this.root, this.path, i))


@reg('seq::operator=')
def _(I, fnd, this, args, e, st):
    v = val(I, st, args[0])
    pt = fnd.get('pt') or [None]
    if isinstance(v, Ptr):
        v = asseq(I, st, v)
        if v is None:
            return None
    if isinstance(v, T):
        v = Seq((('e', I.stored(v, pt[0].deref())),))
    if pt[0] is not None and pt[0].rv and isinstance(args[0], LV):
        st = I.store(st, args[0], I.moved_from(v))
    return one(I.store(st, this, v), this)


@reg('seq::substr')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    a = [val(I, st, x) for x in args]
    if not isinstance(v, Seq) or not all(isinstance(x, T) for x in a):
        return None
    return substr(I, st, v, a[0] if a else ZERO, a[1] if len(a) > 1 else None, e)


@reg('seq::compare')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    a = [val(I, st, x) for x in args]
    if not isinstance(v, Seq):
        return None
    if len(a) == 1:
        o = asseq(I, st, a[0])
        if o is None:
            return None
        c = seq_eq(I, st, v, o)
        return one(st, sub(ONE, c)) if False else one(st, ite(c, ZERO, fresh('H:cmp', 1, 1)))
    if len(a) == 3 and isinstance(a[0], T) and isinstance(a[1], T):
        o = asseq(I, st, a[2])
        if o is None:
            return None
        return [(s, ite(seq_eq(I, s, x, o), ZERO, ONE)) for s, x in substr(I, st, v, a[0], a[1], e)]
    return None


@reg('seq::find', 'seq::rfind', 'seq::find_first_of', 'seq::find_last_of', 'seq::find_first_not_of', 'seq::find_last_not_of')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if not isinstance(v, Seq):
        return None
    a = [val(I, st, x) for x in args]
    key = a[0] if isinstance(a[0], T) else sterm(asseq(I, st, a[0]) or EMPTY)
    f = fn('str.' + fnd['n'], sterm(v), key, *[x for x in a[1:] if isinstance(x, T)], lo=0, hi=(1 << 64) - 1)
    npos = C((1 << 64) - 1)
    # of one character, or of those in a known set: the first position it stops at
    word = (a[0],) if isinstance(a[0], T) else const_bytes(asseq(I, st, a[0]) or EMPTY)
    if I.scans and fnd['n'] in ('find_first_not_of', 'find_first_of', 'find') and word and all(isinstance(x, (T, int)) for x in word) \
            and (fnd['n'] != 'find' or len(word) == 1) and (len(a) < 2 or isinstance(a[1], T)):
        p = a[1] if len(a) > 1 else ZERO
        cs = [x if isinstance(x, T) else C(x) for x in word]

        def passes(x):
            inside = or_(*[eq(x, c) for c in cs])
            return inside if fnd['n'] == 'find_first_not_of' else not_(inside)
        out = []
        for s1, tk in I.branch(st, lt(p, v.length())):
            if not tk:
                out.append((s1, npos))
                continue
            n, s2 = run_of(I, s1, v, p, passes, 'N')
            if n is None:
                out.append((s2, f))
                continue
            for s3, tk2 in I.branch(s2, lt(add(p, n), v.length())):
                out.append((s3, add(p, n) if tk2 else npos))
        return out
    return one(st, f)


@reg('seq::swap', 'std::swap')
def _(I, fnd, this, args, e, st):
    a, b = (this, args[0]) if this is not None else (args[0], args[1])
    if not (isinstance(a, LV) and isinstance(b, LV)):
        return None
    x, y = I.load(st, a), I.load(st, b)
    return one(I.store(I.store(st, a, y), b, x), VOID)


@reg('seq::fill')
def _(I, fnd, this, args, e, st):
    v = elem_arg(I, st, fnd, args[0])
    s = grow(I, st, this, lambda o: Seq((('r', v, o.length()),)))
    return None if s is None else one(s, VOID)


# --- iterators
@reg('it::operator*')
def _(I, fnd, this, args, e, st):
    p = cur(I, st, this)
    if isinstance(p, Ptr) and p.root is not None:
        I.check_ptr(st, p, e)
        return one(st, p.lv())
    return None


@reg('it::operator->', 'it::base')
def _(I, fnd, this, args, e, st):
    p = cur(I, st, this)
    if fnd['n'] == 'base' and isinstance(p, Ptr) and p.rev:
        return one(st, p.but(rev=False, idx=add(p.idx, ONE)))
    return one(st, p) if isinstance(p, Ptr) else None


@reg('it::operator[]')
def _(I, fnd, this, args, e, st):
    p = cur(I, st, this)
    n = val(I, st, args[0])
    if isinstance(p, Ptr) and p.root is not None and isinstance(n, T):
        p = p.moved(n)
        I.check_ptr(st, p, e)
        return one(st, p.lv())
    return None


@reg('it::operator++', 'it::operator--')
def _(I, fnd, this, args, e, st):
    p = cur(I, st, this)
    if not isinstance(p, Ptr) or p.root is None:
        return None
    q = p.moved(ONE if fnd['q'].endswith('++') else C(-1))
    s = I.store(st, this, q)
    return one(s, p if args else this)


@reg('it::operator+', 'it::operator-')
def _(I, fnd, this, args, e, st):
    p, n = cur(I, st, this), val(I, st, args[0])
    if isinstance(p, Ptr) and isinstance(n, T) and p.root is not None:
        return one(st, p.moved(n if fnd['q'].endswith('+') else neg(n)))
    return None


@reg('it::operator+=', 'it::operator-=')
def _(I, fnd, this, args, e, st):
    p, n = cur(I, st, this), val(I, st, args[0])
    if isinstance(p, Ptr) and isinstance(n, T) and p.root is not None:
        return one(I.store(st, this, p.moved(n if '+=' in fnd['q'] else neg(n))), this)
    return None


@reg('std::next', 'std::prev')
def _(I, fnd, this, args, e, st):
    p = val(I, st, args[0])
    n = val(I, st, args[1]) if len(args) > 1 else ONE
    if isinstance(p, Ptr) and isinstance(n, T):
        return one(st, p.moved(n if fnd['n'] == 'next' else neg(n)))
    return None


@reg('std::advance')
def _(I, fnd, this, args, e, st):
    p, n = val(I, st, args[0]), val(I, st, args[1])
    if isinstance(p, Ptr) and isinstance(n, T):
        return one(I.store(st, args[0], p.moved(n)), VOID)
    return None


@reg('std::distance')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    return one(st, r[2]) if r else None


def _cmp(op):
    def f(I, fnd, this, args, e, st):
        a, b = val(I, st, args[0]), val(I, st, args[1])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and 'basic_string' not in str((fnd.get('pt') or [''])[0].n):
            r = I.ptrop(st, op, a, b, None)
            return one(st, r) if r is not None else None
        if op in ('==', '!='):
            if isinstance(a, Obj) or isinstance(b, Obj):
                if isinstance(a, Obj) and isinstance(b, Obj) and a.name in ('mapit', 'mapend') and b.name in ('mapit', 'mapend'):
                    same = TRUE if a == b else FALSE
                    return one(st, same if op == '==' else not_(same))
                return None
            if isinstance(a, T) and isinstance(b, T):
                c = eq(a, b)
            else:
                x, y = asseq(I, st, a), asseq(I, st, b)
                if x is None or y is None:
                    return None
                c = seq_eq(I, st, x, y)
            return one(st, c if op == '==' else not_(c))
        if isinstance(a, T) and isinstance(b, T):
            return one(st, I.binop(st, op, a, b, e['t']))
        return None
    return f


for _o in ('==', '!=', '<', '>', '<=', '>='):
    FN['op::' + _o] = _cmp(_o)


@reg('op::+')
def _(I, fnd, this, args, e, st):
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if 'basic_string' in e['t'].n or (e['t'].q or '') == 'std::basic_string':
        def s(x, arg):
            return Seq((('e', slice_(x, 0, 8)),)) if isinstance(x, T) else asseq(I, st, arg)
        x, y = s(a, args[0]), s(b, args[1])
        return one(st, x + y) if x is not None and y is not None else None
    if isinstance(a, T) and isinstance(b, Ptr):
        a, b = b, a
    if isinstance(a, Ptr) and isinstance(b, T) and a.root is not None:
        return one(st, a.moved(b))
    return None


@reg('op::-')
def _(I, fnd, this, args, e, st):
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        r = I.ptrop(st, '-', a, b, e['t'])
        return one(st, r) if r is not None else None
    return None


@reg('op::|', 'op::&')
def _(I, fnd, this, args, e, st):
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if isinstance(a, T) and isinstance(b, T):
        return one(st, bitor(a, b) if fnd['q'].endswith('|') else bitand(a, b))
    return None


# --- misc functions
@reg('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref')
def _(I, fnd, this, args, e, st):
    if len(args) == 3:
        return FN['std::copy'](I, fnd, this, args, e, st)
    if fnd['n'] == 'addressof':
        return one(st, I.addr(args[0])) if isinstance(args[0], LV) else None
    return one(st, args[0])


@reg('std::min', 'std::max')
def _(I, fnd, this, args, e, st):
    vs = [val(I, st, a) for a in args]
    if len(vs) == 2 and all(isinstance(v, T) for v in vs):
        r = min_(*vs) if fnd['n'] == 'min' else max_(*vs)
        return one(st, r)
    return None


@reg('std::abs', 'abs')
def _(I, fnd, this, args, e, st):
    v = val(I, st, args[0])
    return one(st, max_(v, neg(v))) if isinstance(v, T) else None


@reg('std::numeric_limits::max')
def _(I, fnd, this, args, e, st):
    t = fnd.get('rt') or e['t']
    return one(st, C(ip.irange(t)[1])) if t.k in ('int', 'enum') else None


@reg('std::numeric_limits::min', 'std::numeric_limits::lowest')
def _(I, fnd, this, args, e, st):
    t = fnd.get('rt') or e['t']
    return one(st, C(ip.irange(t)[0])) if t.k in ('int', 'enum') else None


@reg('std::to_string')
def _(I, fnd, this, args, e, st):
    v = val(I, st, args[0])
    if not isinstance(v, T):
        return None
    return one(st, dec_text(v))


def run_of(I, st, s, pos, test, name):
    """the elements from pos on that satisfy the test: their number"""
    L = s.length()
    n = fresh(name, 0, BIG)
    j = fresh('j', 0, BIG)
    at = s.at(add(pos, j))
    end = s.at(add(pos, n))
    if at is None or end is None:
        return None, st.imprecise('text of unknown shape')
    here = test(at)
    st = st.with_facts(st.facts.forall(j, n, [lt(add(pos, j), L)] + list(here.a if here.op == 'and' else (here,))))
    return n, st.assume(le(add(pos, n), L)).assume(or_(le(L, add(pos, n)), not_(test(end))))


def read_char(test, v):
    """of a character or EOF"""
    return and_(not_(v.a[1]), test(v.a[0])) if v.op == 'get' else test(v)


def byte_decides(st, x, c):
    """a condition on the byte x alone, by what is known of that byte"""
    if x.op != 'at':
        return None
    f = st.facts
    known = [l for l in f.lits if x in tm.walk(l)]
    for j, n, ls in f.all_:
        for l in ls:
            for y in tm.walk(l):
                if y.op == 'at' and y.a[0] is x.a[0]:
                    k = sub(as_term(x.a[1]), sub(as_term(y.a[1]), j))
                    if not occurs(j, k) and f.decide(ge0(k)) is True and f.decide(lt(k, n)) is True:
                        known.append(subst(l, {j: k}))
                    break
    out = set()
    for v in range(256):
        if any(subst(l, {x: C(v)}) is FALSE for l in known):
            continue
        w = subst(c, {x: C(v)})
        if w is not TRUE and w is not FALSE:
            return None
        out.add(w)
    return out == {TRUE} if len(out) == 1 else None


def as_term(i):
    return i if isinstance(i, T) else C(i)


def isspace(v):
    return or_(eq(v, C(32)), and_(le(C(9), v), le(v, C(13))))


def isdigit_(v):
    return and_(le(C(48), v), le(v, C(57)))


def number(I, st, s, pos, lo, hi):
    """decimal conversion as strtol does it: [(state, value, position after it, None or what failed)]"""
    L = s.length()
    out = []
    starts = []
    there = s.at(pos)

    def here(st, pos, test):
        x = s.at(pos)
        if x is None:
            return I.branch(st.imprecise('text of unknown shape'), fresh('H:char', 0, 1))
        res = []
        for a, tk in I.branch(st, lt(pos, L)):
            d = byte_decides(a, x, test(x)) if tk else False
            res += [(a, d)] if d is not None else I.branch(a, test(x))
        return res
    for a, tk in here(st, pos, isspace):
        if not tk:
            starts.append((a, pos))
            continue
        n, a = run_of(I, a, s, pos, isspace, 'N')
        starts.append((a, add(pos, n) if n is not None else fresh('H:pos', 0, BIG)))
    signs = []
    for a, p in starts:
        for c, tk in here(a, p, lambda x: eq(x, C(45))):
            if tk:
                signs.append((c, add(p, ONE), True))
                continue
            for d, tk2 in here(c, p, lambda x: eq(x, C(43))):
                signs.append((d, add(p, ONE) if tk2 else p, False))
    for a, p, neg in signs:
        for c, tk in here(a, p, isdigit_):
            if not tk:
                out.append((c, ZERO, p, 'syntax'))
                continue
            n, c = run_of(I, c, s, p, isdigit_, 'N')
            if n is None:
                out.append((c, fresh('H:number', lo, hi), fresh('H:pos', 0, BIG), None))
                continue
            c = c.assume(ge0(sub(n, ONE)))
            v = fn('decimal', sterm(s.slice(p, n)), lo=0)
            w = v if not neg else sub(ZERO, v)
            if neg and lo == 0:
                w = wrap(w, hi.bit_length(), False)
                fits = le(v, C(hi))
            else:
                fits = and_(le(w, C(hi)), le(C(lo), w))
            for d, ok in I.branch(c, fits):
                out.append((d, w, add(p, n), None) if ok else (d, C(lo if neg and lo else hi), add(p, n), 'range'))
    return out


def dec_text(v, loc='classic'):
    if v.const is not None and loc == 'classic':
        return lits(str(v.const))
    return whole(base('dec' if loc == 'classic' else 'dec_loc', v))


@reg('std::stoi', 'std::stoul', 'std::stoull', 'std::stol', 'std::stoll')
def _(I, fnd, this, args, e, st):
    s = asseq(I, st, args[0])
    if s is None:
        return None
    lo, hi = ip.irange(fnd['rt'])
    plain = all(not isinstance(x, T) or x.const in (0, 10) for x in [val(I, st, a) for a in args[1:]])
    if I.scans and plain and not any(p[0] == 's' and p[1].a[0] == 'dec' for p in s.parts):
        out = []
        for s1, v, n, why in number(I, st, s, ZERO, lo, hi):
            if why is None:
                out.append((s1, v))
            else:
                I.raise_(s1, 'std::out_of_range' if why == 'range' else 'std::invalid_argument', e)
        return out
    ok = fn(fnd['n'] + '.ok', sterm(s), lo=0, hi=1)
    v = fn(fnd['n'], sterm(s), lo=lo, hi=hi)
    if len(s.parts) == 1 and s.parts[0][0] == 's' and s.parts[0][1].a[0] == 'dec' and s == whole(s.parts[0][1]):
        n = s.parts[0][1].a[1]
        ok, v = and_(le(n, C(hi)), ge0(sub(n, C(lo)))), n
    out = []
    for s1, tk in I.branch(st, truth(ok)):
        if tk:
            out.append((s1, v))
        else:
            I.raise_(s1, 'std::out_of_range', e)
    return out


@reg('std::locale::classic')
def _(I, fnd, this, args, e, st):
    return one(st, Obj('locale', ('classic',)))


@reg('isdigit', 'std::isdigit')
def _(I, fnd, this, args, e, st):
    v = val(I, st, args[0])
    return one(st, read_char(isdigit_, v)) if isinstance(v, T) and len(args) == 1 else None


@reg('isspace', 'std::isspace')
def _(I, fnd, this, args, e, st):
    v = val(I, st, args[0])
    return one(st, read_char(isspace, v)) if isinstance(v, T) and len(args) == 1 else None


@reg('printf', 'fprintf', 'std::printf', 'puts', 'fputs', 'fflush')
def _(I, fnd, this, args, e, st):
    return one(st.event('stdout'), fresh('printf', -1, 1 << 30))


@reg('abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', '__assert_fail', '_exit')
def _(I, fnd, this, args, e, st):
    I.raise_(st, '!abort', e)
    return []


@reg('std::tie', 'std::forward_as_tuple')
def _(I, fnd, this, args, e, st):
    return one(st, Rec('std::tuple', tuple((str(i), a) for i, a in enumerate(args))))


@reg('std::make_pair', 'std::make_tuple')
def _(I, fnd, this, args, e, st):
    vs = [val(I, st, a) for a in args]
    if fnd['n'] == 'make_pair':
        return one(st, Rec('std::pair', (('first', vs[0]), ('second', vs[1]))))
    return one(st, Rec('std::tuple', tuple((str(i), a) for i, a in enumerate(vs))))


@reg('std::tuple::operator=', 'std::pair::operator=')
def _(I, fnd, this, args, e, st):
    a, b = cur(I, st, this), val(I, st, args[0])
    if not isinstance(a, Rec) or not isinstance(b, Rec) or len(a.f) != len(b.f):
        return None
    if any(isinstance(x, LV) for _, x in a.f):
        for (_, lv), (_, v) in zip(a.f, b.f):
            v = val(I, st, v)
            if lv is not None and isinstance(lv, LV):
                st = I.store(st, lv, v)
        return one(st, this)
    return one(I.store(st, this, Rec(a.t, tuple((k, v) for (k, _), (_, v) in zip(a.f, b.f)))), this)


@reg('std::get')
def _(I, fnd, this, args, e, st):
    a = args[0]
    v = val(I, st, a)
    i = None
    for x in fnd.get('targs') or ():
        if isinstance(x, (int, str)) and str(x).isdigit():
            i = int(x)
            break
    if i is None or not isinstance(v, Rec):
        return None
    if isinstance(v.f[i][1], LV):
        return one(st, v.f[i][1])
    return one(st, a.f(v.f[i][0]) if isinstance(a, LV) else v.f[i][1])


@reg('memcpy', 'std::memcpy', 'memmove', 'std::memmove')
def _(I, fnd, this, args, e, st):
    d, s, n = (val(I, st, a) for a in args)
    if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(n, T) and d.root and s.root):
        return None
    src = byte_seq(I, st, s, n)
    if src is None:
        return None
    return one(put_bytes(I, st, d, src, n), d)


# --- algorithms
@reg('std::copy', 'std::copy_n', 'std::uninitialized_copy')
def _(I, fnd, this, args, e, st):
    d = val(I, st, args[2])
    if fnd['n'] == 'copy_n':
        a, n = val(I, st, args[0]), val(I, st, args[1])
        if not isinstance(a, Ptr) or not isinstance(n, T):
            return None
    else:
        r = rng(I, st, args[0], args[1])
        if r is None:
            return None
        a, _, n = r
    s = read_n(I, st, a, n)
    if isinstance(d, Obj) and d.name == 'back_inserter' and s is not None:
        lv = d.args[0]
        return one(I.store(st, lv, I.load(st, lv) + s), d)
    if s is None or not isinstance(d, Ptr) or d.root is None:
        return None
    obl_range(I, st, LV(a.root, a.path), a.idx or ZERO, n, e, 'copy source') if not a.rev and a.view is None else None
    obl_range(I, st, LV(d.root, d.path), d.idx or ZERO, n, e, 'copy destination') if not d.rev and d.view is None else None
    return one(write_n(I, st, d, s), d.moved(n))


@reg('std::back_inserter')
def _(I, fnd, this, args, e, st):
    return one(st, Obj('back_inserter', (args[0],))) if isinstance(args[0], LV) else None


@reg('std::fill', 'std::fill_n')
def _(I, fnd, this, args, e, st):
    if fnd['n'] == 'fill':
        r = rng(I, st, args[0], args[1])
        if r is None:
            return None
        a, _, n = r
    else:
        a, n = val(I, st, args[0]), val(I, st, args[1])
    v = elem_arg(I, st, dict(pt=[None]), args[2])
    if not isinstance(a, Ptr) or not isinstance(n, T) or not isinstance(v, T):
        return None
    return one(write_n(I, st, a, Seq((('r', slice_(v, 0, 8) if v.hi is None or v.hi > 255 or v.lo < 0 else v, n),))), VOID)


@reg('std::equal')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, _, n = r
    cs = []
    if len(args) >= 4 and isinstance(val(I, st, args[3]), Ptr):
        r2 = rng(I, st, args[2], args[3])
        if r2 is None:
            return None
        b = r2[0]
        cs.append(eq(n, r2[2]))
    elif len(args) == 3:
        b = val(I, st, args[2])
        if not isinstance(b, Ptr):
            return None
    else:
        return None
    x, y = read_n(I, st, a, n), read_n(I, st, b, n)
    if x is None or y is None:
        return None
    if I.rec and n.const is not None:
        last = b.moved(sub(n, ONE))
        if not b.rev:
            I.check_ptr(st, last, e)
        else:
            I.oblige(st, ge0(last.idx), 'bounds', e, 'std::equal second range')
    return one(st, and_(*cs, seq_eq(I, st, x, y)))


def py_loop(I, st, n, step, e):
    """for k in [0, n): step(st, k) -> [(kind, st, value)]; returns outcomes"""
    from . import loops
    c = ('t', I.depth, ('py', next(_n)))
    st = st.put(c, ZERO)

    def cond(s):
        return I.branch(s, lt(s.store[c], n))

    def body(s):
        return step(s, s.store[c])

    def inc(s):
        return [s.put(c, add(s.store[c], ONE))]
    node = dict(k='py', cond=cond, body=body, inc=inc, l=e.get('l'))
    outs = loops._run(I, node, 'py', st)
    return [(k, s.drop(lambda q: q == c), v) for k, s, v in outs]


def apply(I, f, args, st, e):
    f = val(I, st, f)
    if isinstance(f, Obj) and f.name in ('std::multiplies', 'std::plus', 'std::bit_or') and all(isinstance(a, T) for a in args):
        r = {'std::multiplies': mul, 'std::plus': add, 'std::bit_or': bitor}[f.name](*args)
        return [(st, r)]
    return I.call_value(f, args, e, st)


def elem_at(I, st, p, k):
    """lvalue of the k-th element of a range starting at p"""
    q = p.moved(k)
    return q.lv()


@reg('std::transform')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, _, n = r
    two = len(args) == 5
    b = val(I, st, args[2]) if two else None
    d = val(I, st, args[3 if two else 2])
    f = args[-1]
    back = isinstance(d, Obj) and d.name == 'back_inserter'
    if not back and not (isinstance(d, Ptr) and d.root is not None) or two and not isinstance(b, Ptr):
        return None
    if I.rec and not back and not d.rev:
        obl_range(I, st, LV(d.root, d.path), d.idx or ZERO, n, e, 'transform destination')
    if I.rec and two and not b.rev:
        obl_range(I, st, LV(b.root, b.path), b.idx or ZERO, n, e, 'transform second range')

    def step(s, k):
        xs = [elem_at(I, s, a, k)] + ([elem_at(I, s, b, k)] if two else [])
        out = []
        for s2, v in apply(I, f, [load_conv(I, s, x) for x in xs], s, e):
            v = val(I, s2, v)
            if back:
                s2 = I.store(s2, d.args[0], I.load(s2, d.args[0]) + Seq((('e', v),)))
            else:
                s2 = I.store(s2, elem_at(I, s2, d, k), v)
            out.append(('N', s2, None))
        return out
    outs = py_loop(I, st, n, step, e)
    return [(s, d if back else d.moved(n)) for k, s, v in outs if k == 'N']


def load_conv(I, s, x):
    return I.load(s, x)


@reg('std::for_each')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, _, n = r

    def step(s, k):
        return [('N', s2, None) for s2, _ in apply(I, args[2], [elem_at(I, s, a, k)], s, e)]
    return [(s, VOID) for k, s, v in py_loop(I, st, n, step, e) if k == 'N']


@reg('std::accumulate')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    v0 = val(I, st, args[2])
    if r is None or not isinstance(v0, T):
        return None
    a, _, n = r
    acc = ('t', I.depth, ('acc', next(_n)))
    st = st.put(acc, v0)
    t = e['t']
    I.ltypes[acc] = t

    def step(s, k):
        x = I.load(s, elem_at(I, s, a, k))
        if len(args) > 3:
            rs = apply(I, args[3], [s.store[acc], x], s, e)
        else:
            rs = [(s, I.binop(s, '+', s.store[acc], x, t))]
        return [('N', s2.put(acc, I.to_int(s2, v, t) if t.k == 'int' else v), None) for s2, v in rs]
    return [(s.drop(lambda q: q == acc), s.store[acc]) for k, s, v in py_loop(I, st, n, step, e) if k == 'N']


@reg('std::any_of', 'std::all_of', 'std::none_of')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, _, n = r
    nm = fnd['n']
    hit = {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}[nm]

    def step(s, k):
        out = []
        for s2, v in apply(I, args[2], [elem_at(I, s, a, k)], s, e):
            v = val(I, s2, v)
            for s3, tk in I.branch(s2, v if isinstance(v, T) else None):
                stop = tk if nm != 'all_of' else not tk
                out.append(('B', s3, hit) if stop else ('N', s3, None))
        return out
    outs = py_loop(I, st, n, step, e)
    return [(s, hit if v == 'broke' else not_(hit)) for k, s, v in outs]


@reg('std::find', 'std::find_if', 'std::find_if_not')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, _, n = r
    i = fresh('H:find', 0, BIG)
    st = st.assume(le(i, n)).imprecise('std::find')
    return one(st, a.moved(i))


@reg('std::sort', 'std::stable_sort')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, i, n = r
    lv = LV(a.root, a.path)
    v = I.load(st, lv)
    if not isinstance(v, Seq) or i is not ZERO or n is not v.length() or len(args) > 2:
        return None
    if v == EMPTY or n.const == 1:
        return one(st, VOID)
    b = sterm(v)
    if b.op == 'base' and b.a[0] == 'sorted':
        return one(st, VOID)
    return one(I.store(st, lv, whole(base('sorted', b))), VOID)


@reg('std::reverse')
def _(I, fnd, this, args, e, st):
    r = rng(I, st, args[0], args[1])
    if r is None:
        return None
    a, i, n = r
    s = read_n(I, st, a, n)
    if s is None:
        return None
    k = n.const
    if k is not None and k <= 64:
        el = const_elems(s)
        if el is None:
            return None
        new = elems(list(reversed(el)))
    else:
        j = fresh('j', 0, BIG)
        v = s.at(sub(sub(n, ONE), j), I.dec(st))
        if v is None:
            return None
        new = Seq((('c', j, n, (('e', v),)),))
    return one(write_n(I, st, a, new), VOID)


# --- complex
@reg('complex::real', 'complex::imag', 'std::real', 'std::imag')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this) if this is not None else val(I, st, args[0])
    w = (fnd.get('rt') or e['t']).deref().w
    if not isinstance(v, T) or (this is not None and args):
        return None
    return one(st, slice_(v, 0 if fnd['n'] == 'real' else w, w))


@reg('complex::operator=')
def _(I, fnd, this, args, e, st):
    v = val(I, st, args[0])
    return one(I.store(st, this, v), this) if isinstance(v, T) else None


# --- maps
@reg('map::count', 'map::contains')
def _(I, fnd, this, args, e, st):
    m, k = cur(I, st, this), key_arg(I, st, args[0])
    return one(st, map_cond(I, st, m, k)) if isinstance(m, MapV) and k is not None else None


def key_arg(I, st, a):
    v = val(I, st, a)
    if isinstance(v, Ptr):
        return asseq(I, st, v)
    return v


@reg('map::at')
def _(I, fnd, this, args, e, st):
    m, k = cur(I, st, this), key_arg(I, st, args[0])
    if not isinstance(m, MapV) or k is None:
        return None
    out = []
    for s, tk in I.branch(st, map_cond(I, st, m, k)):
        if tk:
            out.append((s, LV(this.root, this.path + (('m', k),))))
        else:
            I.raise_(s, 'std::out_of_range', e)
    return out


@reg('map::operator[]')
def _(I, fnd, this, args, e, st):
    m, k = cur(I, st, this), key_arg(I, st, args[0])
    if not isinstance(m, MapV) or k is None:
        return None
    c = simp(I, st, map_cond(I, st, m, k))
    if c is not TRUE and fnd.get('rt') is not None:
        # an absent key is inserted with an empty value
        v = I.zero(fnd['rt'].deref())
        if c is not FALSE:
            old = map_get(I, st, m, k)
            v = None if ip.has_unk(old) else ip.unify(c, old, v)
        st = I.store(st, this, map_put(I, st, m, k, Unk('map value') if v is None else v))
    return one(st, LV(this.root, this.path + (('m', k),)))


@reg('map::size')
def _(I, fnd, this, args, e, st):
    m = cur(I, st, this)
    if isinstance(m, MapV) and m.base is None and all(const_bytes(k) is not None for k, _ in m.entries if isinstance(k, Seq)):
        return one(st, C(len(m.entries)))
    return one(st, fn('mapsize', bterm(m.base or Obj('none')), lo=0, hi=BIG)) if isinstance(m, MapV) and not m.entries else None


@reg('map::empty')
def _(I, fnd, this, args, e, st):
    m = cur(I, st, this)
    if isinstance(m, MapV) and m.base is None:
        return one(st, FALSE if m.entries else TRUE)
    return None


@reg('map::find')
def _(I, fnd, this, args, e, st):
    m, k = cur(I, st, this), key_arg(I, st, args[0])
    if not isinstance(m, MapV) or k is None:
        return None
    out = []
    if I.split_maps and m.base is None and len(m.entries) <= 64:
        rest = st
        for kk, v in m.entries:
            br = I.branch(rest, key_eq(I, rest, kk, k))
            rest = None
            for s, tk in br:
                if tk:
                    out.append((s, Obj('mapit', (this, kk))))
                else:
                    rest = s
            if rest is None:
                return out
        out.append((rest, Obj('mapend', (this,))))
        return out
    for s, tk in I.branch(st, map_cond(I, st, m, k)):
        out.append((s, Obj('mapit', (this, k)) if tk else Obj('mapend', (this,))))
    return out


@reg('map::end', 'map::cend')
def _(I, fnd, this, args, e, st):
    return one(st, Obj('mapend', (this,)))


@reg('std::_Rb_tree_const_iterator::operator->', 'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_iterator::operator*',
     'std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator->')
def _(I, fnd, this, args, e, st):
    it = cur(I, st, this)
    if not isinstance(it, Obj) or it.name != 'mapit':
        return None
    lv, k = it.args
    root = ('t', I.depth, ('mapit', id(e)))
    st = st.put(root, Rec('std::pair', (('first', k), ('second', LV(lv.root, lv.path + (('m', k),))))))
    if fnd['q'].endswith('*'):
        return one(st, LV(root))
    return one(st, Ptr(root))


@reg('map::insert', 'map::emplace', 'map::insert_or_assign', 'map::try_emplace')
def _(I, fnd, this, args, e, st):
    m = cur(I, st, this)
    vs = [val(I, st, a) for a in args]
    if not isinstance(m, MapV):
        return None
    if len(vs) == 1 and isinstance(vs[0], Rec):
        k, v = vs[0].f[0][1], vs[0].f[1][1]
    elif len(vs) == 2:
        k, v = vs
    else:
        return None
    k, v = val(I, st, k), val(I, st, v)
    if isinstance(k, Ptr):
        k = asseq(I, st, k)
    c = map_cond(I, st, m, k)
    if fnd['n'] == 'insert_or_assign':
        s = I.store(st, this, map_put(I, st, m, k, v))
        return one(s, Rec('std::pair', (('first', Obj('mapit', (this, k))), ('second', not_(c)))))
    out = []
    for s, tk in I.branch(st, c):
        if not tk:
            s = I.store(s, this, map_put(I, s, m, k, v))
        out.append((s, Rec('std::pair', (('first', Obj('mapit', (this, k))), ('second', FALSE if tk else TRUE)))))
    return out


# --- path
@reg('path::string', 'path::native', 'path::c_str', 'path::u8string')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if isinstance(v, Obj) and v.args and v.args[0].op == 'base':
        return one(st, whole(v.args[0]))
    return None


# ---------------------------------------------------------------------- streams
def simp(I, st, c):
    d = st.facts.decide(c)
    return c if d is None else (TRUE if d else FALSE)


def istr(I, st, this):
    v = cur(I, st, this)
    return v if isinstance(v, IStr) else None


def ostr(I, st, this):
    v = cur(I, st, this)
    return v if isinstance(v, OStr) else None


def take(I, st, s):
    """-> (byte at the position, failure condition)"""
    n = s.src.length()
    f = or_(s.bad, le(n, s.pos))
    f = simp(I, st, f)
    if f is TRUE:
        return ZERO, TRUE
    b = s.src.at(s.pos, I.dec(st))
    if not isinstance(b, T):
        b = fresh('H:byte', 0, 255)
    return b, f


@reg('io::get')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    if s is None:
        return None
    b, f = take(I, st, s)
    ns = s.but(pos=s.pos if f is TRUE else add(s.pos, ONE) if f is FALSE else ite(f, s.pos, add(s.pos, ONE)) if I.exact_pos else add(s.pos, ONE),
               bad=f, eof=or_(s.eof, and_(f, not_(s.bad))), gcount=ite(f, ZERO, ONE))
    st2 = I.store(st, this, ns)
    if not args:
        return one(st2, get_(b, f))
    if len(args) == 1 and isinstance(args[0], LV):
        old = I.load(st2, args[0])
        v = I.stored(b, fnd['pt'][0].deref())
        if isinstance(old, T):
            v = ite(f, old, v)
        elif f is not FALSE:
            v = Unk('get')
        return one(I.store(st2, args[0], v), this)
    return None


@reg('io::peek')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    if s is None:
        return None
    b, f = take(I, st, s)
    eof = and_(f, not_(s.bad))
    # libstdc++: peek at the end sets eofbit only; a later read then fails
    ns = s.but(eof=or_(s.eof, eof), gcount=ZERO, bad=or_(s.bad, and_(s.eof, TRUE)) if False else s.bad)
    return one(I.store(st, this, ns), get_(b, f))


@reg('io::unget', 'io::putback')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    if s is None:
        return None
    return one(I.store(st, this, s.but(pos=sub(s.pos, ONE))), this)


@reg('io::ignore')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    n = val(I, st, args[0]) if args else ONE
    if s is None or not isinstance(n, T) or len(args) > 1:
        return None
    # reaching the end sets eofbit only
    left = sub(s.src.length(), s.pos)
    ns = s.but(pos=add(s.pos, n) if I.dec(st)(le(n, left)) is True else add(s.pos, min_(n, left)), eof=or_(s.eof, lt(left, n)))
    return one(I.store(st, this, ns), this)


@reg('io::read')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    p, n = val(I, st, args[0]), val(I, st, args[1])
    if s is None or not isinstance(n, T):
        return None
    return do_read(I, st, this, s, p, n, e)


def do_read(I, st, this, s, p, n, e):
    L = s.src.length()
    f = simp(I, st, or_(s.bad, lt(sub(L, s.pos), n)))
    dec = I.dec(st)
    if isinstance(p, Ptr) and p.root is not None:
        c = I.container_len(st, p)
        if c is not None:
            I.oblige(st, or_(eq(n, ZERO), and_(ge0(p.idx or ZERO), le(add(p.idx or ZERO, n), c))), 'bounds', e, 'read of %r bytes into %r' % (n, c))
    got = ite(s.bad, ZERO, min_(n, max_(sub(L, s.pos), ZERO))) if f is not FALSE else n
    ns = s.but(pos=add(s.pos, n), bad=f, eof=or_(s.eof, and_(f, not_(s.bad))), gcount=got)
    st2 = I.store(st, this, ns)
    if not isinstance(p, Ptr) or p.root is None:
        return [(st2.imprecise('read into unknown buffer'), this)]
    data = s.src.slice(s.pos, n, dec)
    if f is FALSE:
        return one(put_bytes(I, st2, p, data, n), this)
    if f is TRUE:
        return one(put_bytes(I, st2, p, whole(I.hbase('partial')).slice(ZERO, n), n), this)
    if I.loose_reads:
        # what a failing read leaves in the buffer is arbitrary: as if there were more
        return one(put_bytes(I, st2, p, data, n), this)
    # partial contents on failure
    u = Seq((('s', I.hbase('partial'), ZERO, n),))
    k = n.const
    if k is not None and k <= 64:
        es = []
        for i in range(k):
            b = data.at(C(i), dec)
            if not isinstance(b, T):
                break
            es.append(ite(f, fresh('H:partial', 0, 255), b))
        else:
            return one(put_bytes(I, st2, p, elems(es), n), this)
    a = put_bytes(I, st2, p, data, n)
    b = I.store(st2, LV(p.root, p.path), Unk('partial'))
    old, new = I.load(st2, LV(p.root, p.path)), I.load(a, LV(p.root, p.path))
    if isinstance(old, Seq) and isinstance(new, Seq):
        u = Seq((('s', I.hbase('partial'), ZERO, old.length()),))
        m = ip.seq_ite(f, u, new)
        if m is not None:
            return one(I.store(st2, LV(p.root, p.path), m), this)
    return one(a.assume(TRUE).imprecise('partial read'), this)


# a stream buffer stands for its stream: it has the position, but not the state
@reg('io::rdbuf')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if args or not isinstance(this, LV) or not isinstance(v, (IStr, OStr)):
        return None
    return one(st, Ptr(this.root, this.path))


@reg('buf::sgetn')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    p, n = val(I, st, args[0]), val(I, st, args[1])
    if s is None or not isinstance(n, T) or not isinstance(p, Ptr) or p.root is None:
        return None
    c = I.container_len(st, p)
    if c is not None:
        I.oblige(st, or_(eq(n, ZERO), and_(ge0(p.idx or ZERO), le(add(p.idx or ZERO, n), c))), 'bounds', e, 'read of %r bytes into %r' % (n, c))
    got = min_(n, max_(sub(s.src.length(), s.pos), ZERO))
    st = put_bytes(I, I.store(st, this, s.but(pos=add(s.pos, got))), p, s.src.slice(s.pos, got, I.dec(st)), got)
    return one(st, got)


@reg('buf::sgetc', 'buf::sbumpc')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    if s is None:
        return None
    b, f = take(I, st, s.but(bad=FALSE))
    if fnd['n'] == 'sbumpc':
        st = I.store(st, this, s.but(pos=s.pos if f is TRUE else add(s.pos, ONE) if f is FALSE else ite(f, s.pos, add(s.pos, ONE))))
    return one(st, get_(b, f))


@reg('buf::sputn', 'buf::sputc')
def _(I, fnd, this, args, e, st):
    s = ostr(I, st, this)
    if s is None or s.kind != 's' or s.failed is not FALSE:
        return None
    f = FN['io::write' if fnd['n'] == 'sputn' else 'io::put']
    r = f(I, fnd, this, args, e, st)
    return r and [(x, args[1] if fnd['n'] == 'sputn' else args[0]) for x, _ in r]


@reg('io::gcount')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    return one(st, s.gcount) if s is not None else None


@reg('io::fail', 'io::operator!')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if isinstance(v, IStr):
        return one(st, v.bad)
    if isinstance(v, OStr):
        return one(st, v.failed)
    return None


@reg('io::operator bool')
def _(I, fnd, this, args, e, st):
    r = FN['io::fail'](I, fnd, this, args, e, st)
    return r and [(s, not_(v)) for s, v in r]


@reg('io::bad')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if isinstance(v, IStr):
        return one(st, FALSE if v.kind == 's' else fn('iobad', v.bad, lo=0, hi=1) if v.bad is not FALSE else FALSE)
    if isinstance(v, OStr):
        if v.kind != 'f':
            return one(st, v.failed)
        # not being open and failing to close are no reason to be bad
        return one(st, v.pending if v.closed else and_(v.failed, v.open))
    return None


@reg('io::eof')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if isinstance(v, IStr):
        return one(st, v.eof)
    return one(st, FALSE)


@reg('io::good')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if isinstance(v, IStr):
        return one(st, not_(or_(v.bad, v.eof)))
    if isinstance(v, OStr):
        return one(st, not_(v.failed))
    return None


@reg('io::clear')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if args and isinstance(val(I, st, args[0]), T) and val(I, st, args[0]).const not in (0, None):
        return None
    if isinstance(v, IStr):
        pos = v.pos if v.bad is FALSE else ite(v.bad, fresh('pos', 0, BIG), v.pos)
        return one(I.store(st, this, v.but(bad=FALSE, eof=FALSE, pos=pos)), VOID)
    if isinstance(v, OStr):
        return one(I.store(st, this, v.but(failed=FALSE)).event('cleared'), VOID)
    return None


@reg('io::seekg')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    off = val(I, st, args[0])
    if s is None or not isinstance(off, T):
        return None
    way = 0
    if len(args) > 1:
        w = val(I, st, args[1])
        way = w.const if isinstance(w, T) else None
    L = s.src.length()
    if way == 0:
        tgt = off
    elif way == 1:
        tgt = add(s.pos, off)
    elif way == 2:
        tgt = add(L, off)
    else:
        return None
    if I.name_pos and not I.nest and any(x.op == 'at' for x in tm.walk(tgt)):
        q = fresh('at', tgt.lo, tgt.hi)
        st = st.assume(eq(q, tgt))
        tgt = q
    f = not_(ge0(tgt))
    if s.kind == 's':
        f = or_(f, lt(L, tgt))
    f = simp(I, st, or_(s.bad, f))
    return one(I.store(st, this, s.but(pos=tgt, bad=f, eof=and_(s.eof, s.bad))), this)


@reg('io::tellg')
def _(I, fnd, this, args, e, st):
    s = istr(I, st, this)
    return one(st, ite(s.bad, C(-1), s.pos)) if s is not None else None


@reg('std::fpos::operator long', 'std::fpos::operator-', 'std::fpos::operator+')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if not isinstance(v, T):
        return None
    if args:
        o = val(I, st, args[0])
        return one(st, sub(v, o) if fnd['q'].endswith('-') else add(v, o)) if isinstance(o, T) else None
    return one(st, v)


@reg('io::is_open')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    return one(st, v.open) if isinstance(v, (IStr, OStr)) else None


@reg('io::open')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if not isinstance(v, (IStr, OStr)) or v.kind != 'f':
        return None
    if v.open is not FALSE:
        return None     # opening twice fails
    o = opened(I, st, isinstance(v, OStr), [val(I, st, a) for a in args])
    if isinstance(v, OStr):
        o = o.but(failed=or_(v.failed, o.failed), loc=v.loc)
    else:
        o = o.but(bad=or_(v.bad, o.bad) if v.bad is not FALSE else o.bad, loc=v.loc)
    return one(I.store(st, this, o), None)


@reg('io::imbue')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    l = val(I, st, args[0])
    if isinstance(v, (IStr, OStr)):
        return one(I.store(st, this, v.but(loc='classic' if isinstance(l, Obj) and l.args == ('classic',) else 'other')), Obj('locale'))
    return None


@reg('io::str', 'io::view')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if args:
        s = val(I, st, args[0])
        if isinstance(v, OStr) and isinstance(s, Seq):
            if s == EMPTY:
                return one(I.store(st, this, v.but(content=EMPTY)), VOID)
        if isinstance(v, IStr) and isinstance(s, Seq):
            return one(I.store(st, this, v.but(src=s, pos=ZERO)), VOID)
        return None
    if isinstance(v, OStr):
        return one(st, v.content)
    if isinstance(v, IStr):
        return one(st, v.src)
    return None


def emit(I, st, this, s, new, formatted=False, e=None):
    if s.kind == 'f' and s.closed:
        return one(I.store(st, this, s.but(failed=TRUE)).event('write after close'), this)
    if s.failed is FALSE or not I.exact_fail:
        c = s.content + new
    else:
        c = s.content + new
    if [p[1].const if p[0] == 'e' and isinstance(p[1], T) else None for p in c.parts[-4:]] == [80, 75, 5, 6]:
        I.marks.append((st, s, I.where(e)))
    return one(I.store(st, this, s.but(content=c)), this)


@reg('io::put')
def _(I, fnd, this, args, e, st):
    s = ostr(I, st, this)
    v = val(I, st, args[0])
    if s is None or not isinstance(v, T):
        return None
    return emit(I, st, this, s, Seq((('e', slice_(v, 0, 8)),)), e=e)


@reg('io::write')
def _(I, fnd, this, args, e, st):
    s = ostr(I, st, this)
    p, n = val(I, st, args[0]), val(I, st, args[1])
    if s is None or not isinstance(n, T):
        return None
    if n is ZERO:
        return one(st, this)
    b = byte_seq(I, st, p, n) if isinstance(p, Ptr) and p.root is not None else None
    if b is None:
        b = Seq((('s', I.hbase('written'), ZERO, n),))
    else:
        c = I.container_len(st, p)
        if c is not None:
            I.oblige(st, and_(ge0(p.idx or ZERO), le(add(p.idx or ZERO, n), c)), 'bounds', e, 'write of %r bytes from %r' % (n, c))
    return emit(I, st, this, s, b, e=e)


@reg('io::operator<<', 'op::<<')
def _(I, fnd, this, args, e, st):
    if this is None:
        this, args = args[0], args[1:]
    s = ostr(I, st, this)
    if s is None:
        return None
    v = val(I, st, args[0])
    t = fnd['pt'][-1].deref()
    if isinstance(v, FnV):
        return one(st, this)
    if isinstance(v, T):
        if t.k == 'int' and t.w == 8 and not t.bool:
            return emit(I, st, this, s, Seq((('e', slice_(v, 0, 8)),)), e=e)
        if t.k in ('int', 'enum'):
            return emit(I, st, this, s, dec_text(v, s.loc), e=e)
        return None
    q = asseq(I, st, v)
    if q is None:
        return None
    return emit(I, st, this, s, q, e=e)


@reg('std::endl', 'std::flush')
def _(I, fnd, this, args, e, st):
    return FN['io::flush'](I, dict(fnd, n='flush'), args[0], [], e, st)


@reg('io::flush')
def _(I, fnd, this, args, e, st):
    s = ostr(I, st, this)
    if s is None:
        return None
    return one(I.store(st, this, flush(s)), this)


def cap_of(s):
    return fn('capacity', s.name[0] if isinstance(s.name, tuple) else sym('name:%s' % s.name), lo=0, hi=BIG)


def flush(s):
    if s.kind == 'f':
        return s.but(failed=or_(s.failed, lt(cap_of(s), s.content.length())))
    return s


@reg('io::close')
def _(I, fnd, this, args, e, st):
    v = cur(I, st, this)
    if isinstance(v, OStr):
        n = flush(v)
        if v.closed:
            n = n.but(failed=TRUE)
        return one(I.store(st, this, n.but(closed=True, open=FALSE, pending=and_(v.failed, v.open))), VOID)
    if isinstance(v, IStr):
        return one(I.store(st, this, v.but(open=FALSE, src=EMPTY)), VOID)
    return None


@reg('io::tellp')
def _(I, fnd, this, args, e, st):
    s = ostr(I, st, this)
    if s is None:
        return None
    n = s.content.length()
    f = simp(I, st, s.failed)
    return one(st, ite(f, C(-1), n))


@reg('io::operator>>', 'op::>>')
def _(I, fnd, this, args, e, st):
    if this is None:
        this, args = args[0], args[1:]
    s = istr(I, st, this)
    if s is None or not isinstance(args[0], LV):
        return None
    t = fnd['pt'][-1].deref()
    k = next(_n)
    lo, hi = ip.irange(t) if t.k in ('int', 'enum') else (0, 255)
    if I.scans and t.k == 'int' and t.w > 8 and s.kind in ('s', 'x'):
        if s.loc != 'classic':
            st = st.imprecise('digit grouping of the global locale')
        out = []
        for a, tk in I.branch(st, or_(s.bad, s.eof)):
            if tk:
                out.append((I.store(a, this, s.but(bad=TRUE)), this))
                continue
            for c, v, p, why in number(I, a, s.src, s.pos, lo, hi):
                end = le(s.src.length(), p)
                c = I.store(c, this, s.but(pos=p, bad=TRUE if why else s.bad, eof=or_(s.eof, end)))
                out.append((I.store(c, args[0], v), this))
        return out
    bad = fresh('H:extract.fail', 0, 1)
    st = I.store(st, this, s.but(pos=fresh('H:pos', 0, BIG), bad=or_(s.bad, bad), eof=fresh('H:eof', 0, 1)))
    st = I.store(st, args[0], fresh('H:extract', lo, hi))
    return one(st.imprecise('formatted extraction'), this)
