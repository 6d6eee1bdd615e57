"""What the element bytes of the supported types are, by the NPY format.

An element value is represented by its bit pattern; `scalars` gives the width of
each scalar of an element (a complex number has two)."""
from .drive import *

ENDIAN = 'npy::endian_t'
DTYPE = 'npy::data_type_t'


def enum(P, n, v):
    vs = P.enums.get(n) or {}
    if v in vs:
        return vs[v]
    raise ip_missing(n, v)


def ip_missing(n, v):
    from .project import AnalysisBroken
    return AnalysisBroken('%s::%s not found' % (n, v))


# C++ element type -> (data_type_t, NumPy kind letter, item size, scalars)
TYPES = {
    'signed char': ('INT8', 'i', 1, 1),
    'unsigned char': ('UINT8', 'u', 1, 1),
    'short': ('INT16', 'i', 2, 1),
    'unsigned short': ('UINT16', 'u', 2, 1),
    'int': ('INT32', 'i', 4, 1),
    'unsigned int': ('UINT32', 'u', 4, 1),
    'long': ('INT64', 'i', 8, 1),
    'unsigned long': ('UINT64', 'u', 8, 1),
    'float': ('FLOAT32', 'f', 4, 1),
    'double': ('FLOAT64', 'f', 8, 1),
    'std::complex<float>': ('COMPLEX64', 'c', 8, 2),
    'std::complex<double>': ('COMPLEX128', 'c', 16, 2),
    'npy::boolean': ('BOOL', 'b', 1, 1),
}
WSTR = 'std::basic_string'


def elem_name(t):
    n = t.n
    if n.startswith('const '):
        n = n[6:]
    if strip_targs(n) == WSTR and 'wchar_t' in n:
        return 'std::wstring'
    return n


def little(P, endian, be):
    """does this byte order mean least significant byte first, on this host?"""
    L, N = enum(P, ENDIAN, 'LITTLE'), enum(P, ENDIAN, 'NATIVE')
    return eq(endian, C(L)) if be else or_(eq(endian, C(L)), eq(endian, C(N)))


def scalar_order(size, scalars):
    """for each byte of the element in a little-endian file: its bit offset"""
    w = size // scalars
    out = []
    for s in range(scalars):
        out.append([8 * (s * w + k) for k in range(w)])
    return out


def bytes_of(raw, size, scalars, lit_end):
    """the file bytes of an element whose bit pattern (first scalar lowest) is raw"""
    le = [('e', slice_(raw, o, 8)) for g in scalar_order(size, scalars) for o in g]
    be = [('e', slice_(raw, o, 8)) for g in scalar_order(size, scalars) for o in reversed(g)]
    return Seq((('i', lit_end, tuple(le), tuple(be)),))


def raw_from(bs, size, scalars, lit_end):
    """bit pattern from the file bytes"""
    w = size // scalars
    le = add(*[scale(b, 1 << (8 * i)) for i, b in enumerate(bs)])
    be = ZERO
    for s in range(scalars):
        for k in range(w):
            be = add(be, scale(bs[s * w + k], 1 << (8 * (s * w + w - 1 - k))))
    return ite(lit_end, le, be)


def pattern(et, v):
    """bit pattern of an abstract element value"""
    if isinstance(v, Rec):
        v = v.f[0][1] if len(v.f) == 1 else None
    return v


def cook(et, raw, size):
    """element value of this type with the given bit pattern"""
    if et.k == 'int' and et.s:
        return sx(raw, 8 * size)
    if et.k == 'rec' and et.q != 'std::complex':
        return None
    return raw


def elem_seq(I, et, name, n):
    """an arbitrary sequence of n elements of this type, called name"""
    if elem_name(et) == 'npy::boolean' and name not in BASES:
        r = I.P.recs[et.rec]
        f = r['fields'][0]['n']
        BASES[name] = dict(elem=lambda b, i: Rec(et.rec, ((f, fn(name + '[]', i, lo=0, hi=1)),)))
    I.symseq(et, name)
    return Seq((('s', base(name), ZERO, n),))


def elem_raw(I, et, name, i):
    """bit pattern of element i of elem_seq(name)"""
    from .seq import at_base
    v = at_base(base(name), i)
    v = pattern(et, v)
    size = TYPES[elem_name(et)][2]
    return slice_(v, 0, 8 * size)


def tensor_functions(P, q):
    """members of the tensor class: -> [(function, element type)]"""
    out = []
    for f in find(P, q):
        t = f['rect']
        if t.q == 'npy::tensor':
            out.append((f, t.targ(0)))
    return out


def bit_seq(s, size):
    """a sequence of elements as the sequence of their bit patterns"""
    from .seq import at_base, normalise
    w = 8 * size

    def one(v):
        v = pattern(None, v)
        return v if not isinstance(v, T) else slice_(v, 0, w)

    def go(ps):
        out = []
        for p in ps:
            if p[0] == 'e':
                p = ('e', one(p[1]))
            elif p[0] == 's':
                j = fresh('b', 0)
                p = ('c', j, p[3], (('e', one(at_base(p[1], add(p[2], j)))),))
            elif p[0] == 'r':
                p = ('r', one(p[1]), p[2])
            elif p[0] == 'c':
                p = ('c', p[1], p[2], go(p[3]))
            elif p[0] == 'i':
                p = ('i', p[1], go(p[2]), go(p[3]))
            out.append(p)
        return normalise(out)
    return Seq(go(s.parts))


def input_stream(st, name='in', content='input', failed=FALSE):
    """an arbitrary input stream, positioned anywhere"""
    pos = sym('pos', 0, 1 << 55)
    s = IStr('x', whole(base(content)), pos=pos, bad=failed, eof=FALSE, name=name)
    return st.put(('o', name), s), pos


def file_byte(content, i):
    from .seq import at_base
    return at_base(base(content), i)


def elem_in_file(content, pos, j, size, scalars, lit_end):
    """bit pattern of the j-th element of the data starting at pos"""
    bs = [file_byte(content, add(pos, scale(j, size), C(k))) for k in range(size)]
    return raw_from(bs, size, scalars, lit_end)
