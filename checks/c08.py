"""C08: width, padding and characters of unicode tensors."""
from sa.tensors import *
from checks.c01 import want_wstring
from checks import c02
from sa.seq import at_base


def run(rep):
    rep.rule = ('The closed forms of what the string writer emits, of the type code a string tensor announces and of what the string reader stores are those of the '
                'property, for any number of strings, any lengths and contents (a maximum over all elements for the width, the last non-NUL code unit for the length).')
    rep.assumptions += ['element counts below 2^50', 'strings shorter than 2^50 characters', 'standard library functions behave as specified', 'host byte order is little or big']
    P = program()
    jobs = []
    for f in find(P, 'npy::write_values'):
        if len(f['params']) == 4 and f['params'][1]['t'].k == 'ptr' and elem_name(f['params'][1]['t'].e) == 'std::wstring':
            jobs += [('write', f, be) for be in (False, True)]
    for f, et in c02.value_functions(P):
        if elem_name(et) == 'std::wstring':
            jobs += [('read', f, be) for be in (False, True)]
    for t, et, ms in tensor_classes(P):
        if elem_name(et) == 'std::wstring':
            for f in ms.get('dtype', ()):
                if len(f['params']) == 1:
                    jobs += [('code', (t, et, ms, f), be) for be in (False, True)]
    for k in ('write', 'read', 'code'):
        if not any(j[0] == k for j in jobs):
            rep.unsure(k, 'no definition for strings found')
    pmap(rep, lambda r, j: check(r, P, Judge(r, P), *j), jobs, names=['%s on %s-endian hosts' % (j[0], 'big' if j[2] else 'little') for j in jobs])
    return 1


def check(rep, P, J, kind, f, be):
    key = '%s on %s-endian hosts' % (dict(write='write_values', read='read_values', code='tensor::dtype')[kind], 'big' if be else 'little')
    if be and P.uses_byte_order:
        rep.unsure(key, 'the sources select code by the host\'s byte order at compile time: only this host\'s branch is analysed')
        return
    rep.count('functions')
    if kind == 'write':
        write(rep, P, J, f, be, key)
    elif kind == 'read':
        read(rep, P, J, f, be, key)
    else:
        code(rep, P, J, f, be, key)


def write(rep, P, J, f, be, key):
    w = where(P, f)
    et = f['params'][1]['t'].e
    I = Interp(P, be=be)
    n = sym('n', 0, 1 << 50)
    data = elem_seq(I, et, 'strings', n)
    st = St().put(('o', 'out'), OStr('x', name='out')).put(('o', 'data'), data)
    endian = I.symval(f['params'][3]['t'], 'endian')
    r, t = I.analyse(f, None, [LV(('o', 'out')), Ptr(('o', 'data'), (), ZERO), n, endian], st)
    rep.count('loops summarised', I.loops_summarised)
    want, width = want_wstring(I, P, et, 'strings', n, little(P, endian, be))
    for s, v in r:
        rep.count('paths')
        got = s.store[('o', 'out')].content
        J.agree(key, s, got, want, 'every element is written with the width of the longest one, padded with NUL, in the requested byte order', w)
        if isinstance(got, Seq):
            J.agree(key + ' size', s, got.length(), want.length(), 'the data has as many bytes as elements of that width take', w)
    for s, x, w2 in t:
        J.unreachable(key + ' throws', s, 'writing strings does not throw %s' % x.q, w2)


def read(rep, P, J, f, be, key):
    w = where(P, f)
    I, r, t, n, pos, info = c02.drive(rep, P, f, f['params'][1]['t'].e, be)
    rep.count('loops summarised', I.loops_summarised)
    M = c02.field(info, P, 'max_element_length')
    le = little(P, c02.field(info, P, 'endianness'), be)
    j, k = fresh('b', 0), fresh('b', 0)
    b = base('input')
    at = [file_byte('input', add(pos, scale(mul(M, j), 4), scale(k, 4), C(i))) for i in range(4)]
    unit = raw_from(at, 4, 1, le)   # characters are kept as bit patterns
    length = rlast(ZERO, k, M, or_(*[not_(eq(x, ZERO)) for x in at]), add(k, ONE))
    want = Seq((('c', j, n, (('e', Seq((('c', k, length, (('e', unit),)),))),)),))
    for s, v in r:
        rep.count('paths')
        J.agree(key, s, s.store[('o', 'data')], want, 'every element is replaced by its code units up to the trailing NULs', w)
        J.agree(key + ' position', s, s.store[('o', 'in')].pos, add(pos, scale(mul(M, n), 4)), 'exactly the bytes of the elements are consumed', w)
    if not r:
        rep.bad(key, 'the reader never returns', w)
    for s, x, w2 in t:
        rep.count('paths')
        J.holds(key + ' throws', s, lt(len_base(b), add(pos, scale(mul(M, n), 4))), 'reading fails only when the stream ends too early', w2, scaled(s.facts, M))


def scaled(facts, m):
    """the inequalities among the facts, multiplied by m >= 0"""
    return [ge0(mul(m, l.a[0])) for l in facts.lits if l.op == 'ge0']


def code(rep, P, J, f, be, key):
    t, et, ms, f = f
    w = where(P, f)
    I = Interp(P, be=be)
    rank = sym('rank', 0, 1 << 50)
    states, _, pr = build(I, P, t, et, ms, rank, bsym("fortran"), "strings")
    endian = I.symval(f['params'][0]['t'], 'endian')
    le = little(P, endian, be)
    j = fresh('b', 0)
    for st, n in states:
        vals = dict(st.store[('o', 'this')].f)[pr['values']]
        width = rmax(ZERO, j, n, at_base(base('strings'), j).length())
        r, th = I.analyse(f, LV(('o', 'this')), [endian], st)
        want = Seq((('e', ite(le, C(ord('<')), C(ord('>')))), ('e', C(ord('U'))))) + whole(base('dec', width))
        for s, v in r:
            rep.count('paths')
            J.agree(key, s, v if isinstance(v, Seq) else I.load(s, v), want, 'the type code is the byte order, U and the length of the longest element', w)
        for s, x, w2 in th:
            J.unreachable(key + ' throws', s, 'the type code is available for every tensor', w2)
