"""C04: the NPY header written."""
import ast
from sa.tensors import *
from sa.seq import BASES


def run(rep):
    rep.rule = ('write_npy_header is analysed on every type code, order and shape; the closed form of the bytes it leaves in the stream is the one the NPY format '
                'demands (or, where it is spelled differently, no valuation of it is a malformed header); refusals imply that the length does not fit. Every save '
                'gives it the tensor\'s own code, order and extents, and the element data follows in the same byte order.')
    rep.assumptions += ['ranks below 2^31', 'standard library streams behave as specified', 'type codes consist of printable characters other than quotes and backslashes (C03)']
    P = program()
    jobs = [('header', f) for f in find(P, 'npy::write_npy_header')]
    if not jobs:
        raise AnalysisBroken('npy::write_npy_header not found')
    for f in find(P, 'npy::save') + find(P, 'npy::tensor::save'):
        jobs.append(('save', f))
    pmap(rep, lambda r, j: (header if j[0] == 'header' else save)(r, P, Judge(r, P), j[1]), jobs, names=[label(j[1]) for j in jobs])
    return 1


def label(f):
    ps = [p['t'].deref() for p in f['params']]

    def nm(t):
        if t.q == 'npy::tensor':
            return 'tensor<%s>' % elem_name(t.targ(0))
        return {'std::basic_string': 'string', 'std::basic_ostream': 'stream', 'std::vector': 'vector'}.get(t.q, t.n)
    return '%s(%s)%s' % ((nm(f['rect']) + '::' if f.get('rect') is not None else '') + f['n'], ', '.join(map(nm, ps)),
                         ' via template' if f.get('targs') and any(x.get('k') == 'tmpl' for x in f['targs'] if isinstance(x, dict)) else '')


# ---------------------------------------------------------------- the header
def dictionary(D, fortran, rank, name):
    j = fresh('k', 0)
    d = at_base(base(name), j)
    text = base('dec', d)
    n = len_base(text)
    dims = ('c', j, rank, (('s', text, ZERO, n), ('i', ge0(sub(rank, add(j, C(2)))), lits(', ').parts, ())))
    return Seq(lits("{'descr': '").parts + D.parts + lits("', 'fortran_order': ").parts
               + seq_ite(fortran, lits('True'), lits('False')).parts
               + lits(", 'shape': (").parts + (dims, ('i', eq(rank, ONE), lits(',').parts, ()))
               + lits('), }').parts)


def wanted(d, wide):
    """the header of the format around this dictionary"""
    pre = 12 if wide else 10
    total = add(d.length(), C(pre + 1))
    m = slice_(total, 0, 6)
    pad = ite(eq(m, ZERO), ZERO, sub(C(64), m))
    n = add(d.length(), ONE, pad)
    field = tuple(('e', slice_(n, 8 * i, 8)) for i in range(4 if wide else 2))
    return Seq(lit([0x93]).parts + lits('NUMPY').parts + lit([2 if wide else 1, 0]).parts + field + d.parts + (('r', C(32), pad),) + lits('\n').parts), n


def parse(bs):
    """what a header says, or why it is none"""
    bs = bytes(b & 255 for b in bs)
    if bs[:6] != b'\x93NUMPY':
        return None, 'the magic is %r' % bs[:6]
    if bs[6:8] == b'\x01\x00':
        pre = 10
        n = int.from_bytes(bs[8:10], 'little')
    elif bs[6:8] in (b'\x02\x00', b'\x03\x00'):
        pre = 12
        n = int.from_bytes(bs[8:12], 'little')
    else:
        return None, 'the version is %r' % bs[6:8]
    if len(bs) != pre + n:
        return None, 'the length field says %d, %d bytes follow it' % (n, len(bs) - pre)
    if len(bs) % 64:
        return None, 'the header is %d bytes long, no multiple of 64' % len(bs)
    if bs[-1:] != b'\n':
        return None, 'the last byte is %r' % bs[-1:]
    body = bs[pre:-1].decode('latin1')
    if body != body.rstrip('\n\t') or '\n' in body:
        return None, 'it is padded with other characters than spaces'
    text = body.rstrip(' ')
    try:
        d = ast.literal_eval(text)
    except (SyntaxError, ValueError, MemoryError, RecursionError):
        return None, 'the dictionary is %r' % text
    if not isinstance(d, dict) or sorted(d, key=str) != ['descr', 'fortran_order', 'shape']:
        return None, 'the dictionary is %r' % text
    if type(d['fortran_order']) is not bool or type(d['shape']) is not tuple or not all(type(x) is int and x >= 0 for x in d['shape']):
        return None, 'the dictionary is %r' % text
    return d, None


def analysed(P, f):
    """the header writer on every code, order and shape"""
    I = Interp(P)
    rank = sym('rank', 0, (1 << 31) - 1)
    dlen = sym('codelength', 0, 1 << 20)
    ps = f['params']
    I.symseq(ps[3]['t'].deref().targ(0), 'shape')
    fortran = bsym('fortran')
    D = Seq((('s', base('code'), ZERO, dlen),))
    st = St().put(('o', 'out'), OStr('x', name='out')).put(('o', 'code'), D)
    BASES['code'] = dict(lo=48, hi=91)     # characters a type code may have, neither quotes nor backslashes
    st = st.put(('o', 'shape'), Seq((('s', base('shape'), ZERO, rank),)))
    r, t = I.analyse(f, None, [LV(('o', 'out')), LV(('o', 'code')), fortran, LV(('o', 'shape'))], st)
    return I, D, rank, fortran, dlen, r, t


def header(rep, P, J, f):
    key, w = label(f), where(P, f)
    rep.count('functions')
    I, D, rank, fortran, dlen, r, t = analysed(P, f)
    rep.count('loops summarised', I.loops_summarised)
    d = dictionary(D, fortran, rank, 'shape')
    w1, n1 = wanted(d, False)
    w2, n2 = wanted(d, True)
    for s, v in r:
        rep.count('paths')
        o = s.store[('o', 'out')]
        got = o.content if isinstance(o, OStr) else None
        what = 'the bytes written are a complete header for this code, order and shape'
        if not isinstance(got, Seq):
            rep.unsure(key, what + ': not known', w)
            continue
        if same(s.facts, got, w1) is True:
            rep.ok(key, what, w)
            J.holds(key + ' length field', s, le(n1, C(0xffff)), 'the header length fits its field', w)
            continue
        if same(s.facts, got, w2) is True:
            rep.ok(key, what, w)
            J.holds(key + ' length field', s, le(n2, C(0xffffffff)), 'the header length fits its field', w)
            continue

        def bad(ev):
            code = ev.val(D)[1]
            x, e = parse(ev.val(got)[1])
            if e:
                return e
            shape = tuple(ev.val(at_base(base('shape'), C(i))) for i in range(ev.val(rank)))
            want = {'descr': ''.join(map(chr, code)), 'fortran_order': bool(ev.val(fortran)), 'shape': shape}
            return None if x == want else 'the dictionary says %r, not %r' % (x, want)
        J.oracle(key, s, bad, what, w)
        if got.length() is not None:
            # the field and the length, without spelling out the text
            J.oracle(key + ' length field', s, lambda ev: field(ev, got), 'the length field is the number of bytes after it', w, extra=(ge0(sub(dlen, C(65400))),))
    for s, x, w2_ in t:
        rep.count('paths')
        if x.q in ('std::invalid_argument', 'std::runtime_error', 'std::length_error', 'std::overflow_error'):
            rep.ok(key + ' refusal', 'refused with %s' % x.q, w2_)
        J.impossible(key + ' refusal', s.with_facts(s.facts.add(le(n1, C(0xffff)))), 'a header whose length fits its field is written', w2_)
    if not r:
        rep.bad(key, 'no header is ever written', w)


def field(ev, got):
    n = ev.val(got.length())
    head = []
    for p in got.parts[:12]:
        if p[0] != 'e':
            break
        head.append(ev.val(p[1]) & 255)
    if len(head) < 10:
        return None
    if head[6] == 1:
        v, pre = head[8] | head[9] << 8, 10
    elif len(head) == 12:
        v, pre = int.from_bytes(bytes(head[8:12]), 'little'), 12
    else:
        return None
    return None if v == n - pre else 'the length field says %d, %d bytes follow it' % (v, n - pre)


# --------------------------------------------------------------------- saving
MARK = 'header of', 'data of'


def save(rep, P, J, f):
    key, w = label(f), where(P, f)
    ps = f['params']
    rep.count('functions')
    if f.get('rect') is not None:
        tt = f['rect']
        if ps[0]['t'].deref().q != 'std::basic_string':
            return          # element data (C01)
    else:
        tt = ps[1]['t'].deref()
    rank = sym('rank', 0, (1 << 31) - 1)
    fortran = bsym('fortran')
    endian = I_enum(P)
    builtin = tt.q == 'npy::tensor'
    log = []

    def head(I, st, this, args, e):
        o = I.load(st, args[0])
        vals = tuple(I.load(st, x) if isinstance(x, LV) else x for x in args[1:])
        log.append(('header', st, o, vals))
        return [(I.store(st, args[0], o.but(content=o.content + lit([-1]))), None)]

    def data(I, st, this, args, e):
        if not isinstance(args[0], LV) or not isinstance(I.load(st, args[0]), OStr):
            return None
        o = I.load(st, args[0])
        log.append(('data', st, o, (this, args[1])))
        return [(I.store(st, args[0], o.but(content=o.content + lit([-2]))), None)]

    def dtype(I, st, this, args, e):
        if len(args) != 1:
            return None
        a = I.load(st, args[0]) if isinstance(args[0], LV) else args[0]
        return [(st, whole(base('code', a)))]
    nm = strip_targs(tt.q or tt.n)
    op = {'npy::write_npy_header': head, nm + '::save': data, nm + '::dtype': dtype}
    if not builtin:
        op[nm + '::shape'] = lambda I, st, this, args, e: [(st, at_base(base('shape'), args[0]))]
        op[nm + '::ndim'] = lambda I, st, this, args, e: [(st, rank)]
        op[nm + '::fortran_order'] = lambda I, st, this, args, e: [(st, fortran)]
    I = Interp(P, opaque=op)
    if builtin:
        cl = [c for c in tensor_classes(P) if c[0].n == tt.n or c[0].rec == tt.rec]
        if not cl:
            rep.unsure(key, 'the tensor class was not found', w)
            return
        t, et, ms = cl[0]
        states, _, pr = build(I, P, t, et, ms, rank, fortran)
    else:
        vt = shape_type(P)
        I.symseq(vt, 'shape')
        states = [(St().put(('o', 'this'), Obj('tensor', ('tensor',))), None)]
    shape = Seq((('s', base('shape'), ZERO, rank),))
    for st, _ in states:
        st = st.put(('o', 'out'), OStr('x', name='out'))
        st = st.put(('o', 'path'), whole(base('path')))
        args = []
        for p in ps:
            q = p['t'].deref().q
            if q == 'std::basic_ostream':
                args.append(LV(('o', 'out')))
            elif q == 'std::basic_string':
                args.append(LV(('o', 'path')))
            elif p['t'].deref().n == tt.n or q == tt.q:
                args.append(LV(('o', 'this')))
            else:
                args.append(endian)
        del log[:]
        r, t_ = I.analyse(f, LV(('o', 'this')) if f.get('rect') is not None else None, args, st)
        rep.count('paths', len(r) + len(t_))
        if not any(x[0] == 'header' for x in log):
            rep.unsure(key, 'no call of write_npy_header was found', w)
            continue
        for k, s, o, vals in log:
            if k == 'header':
                J.agree(key + ' code', s, vals[0], whole(base('code', endian)), 'the header carries the tensor\'s type code in the byte order asked for', w)
                J.agree(key + ' order', s, truth(vals[1]), fortran, 'the header carries the tensor\'s storage order', w)
                J.agree(key + ' shape', s, vals[2], shape, 'the header carries the tensor\'s extents', w)
                J.agree(key + ' first', s, o.content, EMPTY, 'the header comes first', w)
            else:
                J.agree(key + ' data order', s, vals[1], endian, 'the element data has the byte order the header states', w)
                J.agree(key + ' data tensor', s, vals[0], LV(('o', 'this')), 'the element data is that of the tensor saved', w)
                J.agree(key + ' data', s, o.content, lit([-1]), 'the element data follows the header', w)
        for s, v in r:
            o = s.store.get(('o', 'out'))
            if any(p['t'].deref().q == 'std::basic_ostream' for p in ps):
                J.agree(key + ' whole', s, o.content, lit([-1, -2]), 'header and element data are written, once and in this order', w)
        if not r:
            rep.bad(key, 'saving never returns', w)


def I_enum(P):
    lo = min(P.enums[ENDIAN].values())
    return sym('endian', lo, max(P.enums[ENDIAN].values()))


def shape_type(P):
    for f in P.fns.values():
        for p in f['params']:
            t = p['t'].deref()
            if t.q == 'std::vector' and t.targ(0).n == 'unsigned long':
                return t.targ(0)
