"""C06: input that ends early."""
from sa.elements import *
from checks import c02
from checks.c08 import scaled


def run(rep):
    rep.rule = ('On every path of the value readers and of the header reader that returns, the facts of the path entail that the stream had not failed before and '
                'held every byte the result is made of; the streams may end or have failed at any point.')
    rep.assumptions += ['element counts below 2^50', 'standard library streams behave as specified', 'host byte order is little or big']
    P = program()
    jobs = []
    for f, et in c02.value_functions(P):
        if elem_name(et) in TYPES or elem_name(et) == 'std::wstring':
            jobs += [('values', f, be) for be in (False, True)]
    if not jobs:
        raise AnalysisBroken('npy::read_values not found')
    for f in find(P, 'npy::read_npy_header'):
        jobs.append(('header', f, False))
    for f in find(P, 'npy::peek') + find(P, 'npy::load'):
        if len(f['params']) == 1 and f['params'][0]['t'].deref().q == 'std::basic_istream':
            jobs.append(('whole', f, False))
    for k in ('values', 'header', 'whole'):
        if not any(j[0] == k for j in jobs):
            rep.unsure(k, 'no definition found')
    pmap(rep, lambda r, j: check(r, P, Judge(r, P), *j), jobs, names=['%s %s' % (j[0], j[1]['q']) for j in jobs])
    return 1


def check(rep, P, J, kind, f, be):
    rep.count('functions')
    if kind == 'values':
        values(rep, P, J, f, be)
    elif kind == 'header':
        header(rep, P, J, f)
    else:
        whole_(rep, P, J, f)


def values(rep, P, J, f, be):
    et = f['params'][1]['t'].e
    en = elem_name(et)
    key = 'read_values<%s> on %s-endian hosts' % (en, 'big' if be else 'little')
    w = where(P, f)
    if be and P.uses_byte_order:
        rep.unsure(key, 'the sources select code by the host\'s byte order at compile time: only this host\'s branch is analysed')
        return
    bad = bsym('failed')
    I, r, t, n, pos, info = c02.drive(rep, P, f, et, be, bad=bad)
    rep.count('loops summarised', I.loops_summarised)
    L = len_base(base('input01' if en == 'npy::boolean' else 'input'))
    if en == 'std::wstring':
        M = c02.field(info, P, 'max_element_length')
        total = scale(mul(n, M), 4)
    else:
        total = scale(n, TYPES[en][2])
    for s, v in r:
        rep.count('paths')
        more = []
        if en == 'std::wstring':
            # nothing is read for no elements or for elements of no width
            more = [ge0(sub(M, ONE)), ge0(sub(n, ONE))]
            for k, m, ls in s.facts.all_:
                if m is n:   # the first and the last element
                    more += [subst(l, {k: ZERO}) for l in ls]
                    more += [subst(l, {k: sub(n, ONE)}) for l in ls]
            goal = le(add(pos, total), L), not_(bad)
        else:
            goal = or_(eq(total, ZERO), le(add(pos, total), L)), or_(eq(total, ZERO), not_(bad))
        J.holds(key + ' complete', s, goal[0], 'elements are returned only when the stream held all their bytes', w, more)
        J.holds(key + ' failed stream', s, goal[1], 'elements are not taken from a stream that has failed', w, more)
    if not r:
        rep.bad(key, 'the reader never returns', w)


def stub_header(I, st, this, args, e, log):
    """construction of a header from a dictionary"""
    d = args[0]
    d = I.load(st, d) if isinstance(d, LV) else d
    log.append((st, d))
    v = I.symval(e['t'], 'parsed')
    return [(st, v)]


def header(rep, P, J, f):
    key = 'read_npy_header'
    w = where(P, f)
    bad = bsym('failed')
    log = []
    I = Interp(P, opaque={'npy::header_info::header_info': lambda I, st, this, args, e: stub_header(I, st, this, args, e, log)})
    st, pos = input_stream(St(), failed=bad)
    r, t = I.analyse(f, None, [LV(('o', 'in'))], st)
    L = len_base(base('input'))
    for s, d in log:
        rep.count('paths')
        p = s.store[('o', 'in')].pos
        J.holds(key + ' complete', s, le(p, L), 'a header is parsed only when the stream held all its bytes', w)
        J.holds(key + ' failed stream', s, not_(bad), 'a header is not taken from a stream that has failed', w)
        if isinstance(d, Seq):
            n = d.length()
            # two bytes of length in version 1, four in later ones
            at = lambda i: file_byte('input', add(pos, C(i)))
            for a, nb in ((1, 2), (2, 4)):
                fs = together(s.facts, [eq(at(6), C(a))])
                if not clash(fs):
                    J.agree(key + ' length, version %d' % a, s.with_facts(fs), n, add(*[scale(at(8 + i), 1 << (8 * i)) for i in range(nb)]),
                            'the dictionary is as long as announced, or the header is not returned', w)
            J.agree(key + ' bytes', s, d, Seq((('s', base('input'), sub(p, n), n),)), 'the dictionary is made of the bytes read last', w)
        else:
            rep.unsure(key + ' bytes', 'the dictionary text is not known', w)
    if not log:
        rep.unsure(key, 'the header text is not given to header_info', w)


def whole_(rep, P, J, f):
    """peeking and loading go through the readers above"""
    bad = bsym('failed')
    heads, values = [], []

    def head(I, st, this, args, e):
        heads.append(I.symval(e['t'], 'parsed'))
        return [(st, heads[-1])]

    def load_(I, st, this, args, e):
        i = I.load(st, args[1]) if isinstance(args[1], LV) else args[1]
        values.append((st, args[0], i, I.symval(e['t'].deref(), 'loaded')))
        return [(st, values[-1][3])]
    et = f['rt'].deref()
    key = f['n'] + ('<%s>' % et.n if f['n'] == 'load' else '')
    w = where(P, f)
    I = Interp(P, opaque={'npy::read_npy_header': head, strip_targs(et.n) + '::load': load_})
    st, pos = input_stream(St(), failed=bad)
    r, t = I.analyse(f, None, [LV(('o', 'in'))], st)
    rep.count('paths', len(r))
    for s, v in r:
        if f['n'] == 'peek':
            J.agree(key, s, v, I.symval(et, 'parsed'), 'the header returned is the one read from the stream', w)
        else:
            for x in values:
                J.agree(key + ' header', x[0], x[2], heads[0] if heads else None, 'the values are read with the header of the stream', w)
                J.agree(key, s, v, x[3], 'the tensor returned is the one loaded from the stream', w)
    if not r:
        rep.bad(key, 'the reader never returns', w)
    if not heads:
        rep.unsure(key, 'the header reader is not called', w)

