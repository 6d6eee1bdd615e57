"""C01: the bytes saved for the elements of a tensor."""
from sa.elements import *


def want_numeric(I, P, et, name, n, lit_end):
    _, _, size, scalars = TYPES[elem_name(et)]
    j = fresh('b', 0)
    return Seq((('c', j, n, bytes_of(elem_raw(I, et, name, j), size, scalars, lit_end).parts),))


def want_wstring(I, P, et, name, n, lit_end):
    """every element as width code units of 4 bytes, the shorter ones padded with NUL"""
    from sa.seq import at_base, len_base
    j, k = fresh('b', 0), fresh('b', 0)
    s = at_base(base(name), j)
    L = s.length()
    width = rmax(ZERO, k, n, subst(L, {j: k}))
    i = fresh('b', 0)
    ch = slice_(s.at(i), 0, 32)
    chars = Seq((('c', i, L, bytes_of(ch, 4, 1, lit_end).parts),))
    pad = Seq((('r', ZERO, scale(sub(width, L), 4)),))
    return Seq((('c', j, n, (chars + pad).parts),)), width


def run(rep):
    rep.rule = ('For every instantiation of the value writers, on a little-endian and on a big-endian host, the closed form of what '
                'the stream receives (loops summarised for every element count) equals, for every requested byte order, the sequence '
                'of the element bytes in that order; no path throws or appends anything else.')
    rep.assumptions += ['element counts below 2^55', 'the stream accepts all bytes (C20 treats failing streams)',
                        'standard library functions behave as specified', 'host byte order is little or big']
    P = program()
    fs = find(P, 'npy::write_values')
    if not fs:
        from sa.project import AnalysisBroken
        raise AnalysisBroken('npy::write_values not found')
    seen = set()
    todo = []
    jobs = [(f, f['params'][1]['t'].e, None) for f in fs if len(f['params']) == 4 and f['params'][1]['t'].k == 'ptr']
    jobs += [(f, et, 'tensor') for f, et in tensor_functions(P, 'npy::tensor::save') if len(f['params']) == 2 and f['params'][0]['t'].deref().q == 'std::basic_ostream']
    for f, et, kind in jobs:
        en = elem_name(et)
        if en not in TYPES and en != 'std::wstring':
            continue
        if kind is None:
            seen.add(en)
        for be in (False, True):
            todo.append((f, et, kind, be))
    pmap(rep, lambda r, j: check(r, P, Judge(r, P), *j), todo, names=['%s<%s>' % (j[0]['n'], elem_name(j[1])) for j in todo])
    for t in list(TYPES) + ['std::wstring']:
        if t not in seen:
            rep.unsure('write_values<%s>' % t, 'no definition found')
    return 1


def check(rep, P, J, f, et, kind, be):
    en = elem_name(et)
    key = '%s<%s> on %s-endian hosts' % ('tensor::save' if kind else 'write_values', en, 'big' if be else 'little')
    where_ = where(P, f)
    if be and P.uses_byte_order:
        rep.unsure(key, 'the sources select code by the host\'s byte order at compile time: only this host\'s branch is analysed')
        return
    I = Interp(P, be=be)
    n = sym('n', 0, 1 << 55)
    D = 'data<%s>' % en
    data = elem_seq(I, et, D, n)
    st = St().put(('o', 'out'), OStr('x', name='out'))
    try:
        if kind:
            this = I.symval(f['rect'], 'tensor<%s>' % en)
            # the vector the elements are kept in
            vf = [x['n'] for x in P.recs[f['rect'].rec]['fields'] if x['t'].q == 'std::vector' and x['t'].targ(0).n == et.n and x['n'] != 'm_shape']
            if len(vf) > 1:
                vf = [x for x in vf if 'val' in x or 'data' in x] or vf
            if not vf:
                rep.unsure(key, 'the element storage was not recognised', where_)
                return
            st = st.put(('o', 'this'), this.put(vf[0], data))
            endian = I.symval(f['params'][1]['t'], 'endian')
            r, t = I.analyse(f, LV(('o', 'this')), [LV(('o', 'out')), endian], st)
        else:
            endian = I.symval(f['params'][3]['t'], 'endian')
            st = st.put(('o', 'data'), data)
            r, t = I.analyse(f, None, [LV(('o', 'out')), Ptr(('o', 'data'), (), ZERO), n, endian], st)
    except GiveUp as e:
        rep.unsure(key, 'analysis gave up: %s' % e, where_)
        return
    rep.count('functions', 1)
    rep.count('loops summarised', I.loops_summarised)
    le = little(P, endian, be)
    if en == 'std::wstring':
        want, _ = want_wstring(I, P, et, D, n, le)
    else:
        want = want_numeric(I, P, et, D, n, le)
    for s, v in r:
        rep.count('paths')
        J.agree(key, s, s.store[('o', 'out')].content, want, 'the bytes written are those of the elements in the requested byte order', where_)
    for s, x, w in t:
        rep.count('paths')
        J.unreachable(key + ' throws', s, 'writing elements does not throw %s' % x.q, w)
