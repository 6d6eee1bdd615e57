"""C02 (and the data half of C06): the elements loaded from a stream."""
from sa.elements import *


def drive(rep, P, f, et, be, bad=None):
    """read_values of this element type on an arbitrary stream -> (I, rets, throws, n, pos)"""
    I = Interp(P, be=be)
    n = sym('n', 0, 1 << 50)
    D = 'old<%s>' % elem_name(et)
    data = elem_seq(I, et, D, n)
    st, pos = input_stream(St().put(('o', 'data'), data), **({} if bad is None else dict(failed=bad)))
    if elem_name(et) == 'npy::boolean':
        BASES['input01'] = dict(lo=0, hi=1)
        s = st.store[('o', 'in')]
        st = st.put(('o', 'in'), s.but(src=whole(base('input01'))))
    info = I.symval(f['params'][3]['t'], 'info')
    st = st.put(('o', 'info'), info)
    r, t = I.analyse(f, None, [LV(('o', 'in')), Ptr(('o', 'data'), (), ZERO), n, LV(('o', 'info'))], st)
    return I, r, t, n, pos, info


def value_functions(P):
    return [(f, f['params'][1]['t'].e) for f in find(P, 'npy::read_values') if len(f['params']) == 4 and f['params'][1]['t'].k == 'ptr']


def field(v, P, n):
    for k, x in v.f:
        if k == n:
            return x
    from sa.project import AnalysisBroken
    raise AnalysisBroken('field %s not found' % n)


def run(rep):
    rep.rule = ('For every instantiation of the value readers, on a little-endian and on a big-endian host, the closed form of the element '
                'storage on return (loops summarised for every element count and stream position) equals, for every stored byte order, the '
                'sequence of the values the stream\'s bytes denote, and the stream has advanced by exactly their size.')
    rep.assumptions += ['element counts below 2^50', 'standard library functions behave as specified', 'host byte order is little or big',
                        'boolean bytes are 0 or 1 (NumPy writes no others)']
    P = program()
    fs = value_functions(P)
    if not fs:
        from sa.project import AnalysisBroken
        raise AnalysisBroken('npy::read_values not found')
    seen = set()
    todo = []
    for f, et in fs:
        en = elem_name(et)
        if en not in TYPES:
            continue
        seen.add(en)
        for be in (False, True):
            todo.append((f, et, be))
    pmap(rep, lambda r, j: check(r, P, Judge(r, P), *j), todo, names=['%s<%s>' % (j[0]['n'], elem_name(j[1])) for j in todo])
    for t in list(TYPES):
        if t not in seen:
            rep.unsure('read_values<%s>' % t, 'no definition found')
    return 1


def check(rep, P, J, f, et, be):
    en = elem_name(et)
    key = 'read_values<%s> on %s-endian hosts' % (en, 'big' if be else 'little')
    w = where(P, f)
    if be and P.uses_byte_order:
        rep.unsure(key, 'the sources select code by the host\'s byte order at compile time: only this host\'s branch is analysed')
        return
    try:
        I, r, t, n, pos, info = drive(rep, P, f, et, be)
    except GiveUp as e:
        rep.unsure(key, 'analysis gave up: %s' % e, w)
        return
    rep.count('functions', 1)
    rep.count('loops summarised', I.loops_summarised)
    size, scalars = TYPES[en][2:]
    le = little(P, field(info, P, 'endianness'), be)
    j = fresh('b', 0)
    content = 'input01' if en == 'npy::boolean' else 'input'
    want = Seq((('c', j, n, (('e', elem_in_file(content, pos, j, size, scalars, le)),)),))
    for s, v in r:
        rep.count('paths')
        got = s.store[('o', 'data')]
        got = bit_seq(got, size) if isinstance(got, Seq) else got
        J.agree(key + ' data', s, got, want, 'the elements are the values the file\'s bytes denote', w)
        J.agree(key + ' position', s, s.store[('o', 'in')].pos, add(pos, scale(n, size)), 'exactly the bytes of the elements are consumed', w)
    if not r:
        rep.bad(key, 'the reader never returns', w)
    for s, x, w2 in t:
        rep.count('paths')
        J.holds(key + ' throws', s, lt(len_base(base(content)), add(pos, scale(n, size))), 'reading fails only when the stream ends too early', w2)
