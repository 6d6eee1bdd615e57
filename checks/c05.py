"""C05: malformed headers are refused."""
from sa.header import *

MAGIC = b'\x93NUMPY'
VERSIONS = ((1, 0), (2, 0), (3, 0))


def run(rep):
    rep.rule = ('The grammar that the dictionary parser accepts is extracted from its source (paths between the heads of its loops, loops over bytes that only go one way '
                'summarised exactly) as a finite automaton whose states carry the parser\'s flags; its language is contained in the language of NPY dictionaries. '
                'On every path on which read_npy_header hands out a header, the path\'s conditions entail the magic bytes and a version of the format. Both with and '
                'without assertions no path ends in an abort.')
    rep.assumptions += ['standard library streams and strings behave as specified', 'tuples of more than three extents are parsed by the same loop as shorter ones']
    jobs = []
    for debug in (False, True):
        P = program(debug)
        for f in parsers(P):
            jobs.append(('dictionary', debug, f))
        for f in find(P, 'npy::read_npy_header'):
            jobs.append(('prefix', debug, f))
        for f in find(P, 'npy::from_dtype'):
            if len(f['params']) == 1:
                jobs.append(('code', debug, f))
        for f in find(P, 'npy::peek') + find(P, 'npy::load'):
            jobs.append(('caller', debug, f))
    if not any(j[0] == 'dictionary' for j in jobs) or not any(j[0] == 'prefix' for j in jobs):
        raise AnalysisBroken('the header parser was not found')
    pmap(rep, lambda r, j: JOBS[j[0]](r, program(j[1]), Judge(r, program(j[1])), j[2], ' with assertions' if j[1] else ''), jobs,
         names=['%s%s' % (j[0], ' with assertions' if j[1] else '') for j in jobs])
    return 2


def aborts(rep, J, throws, cfg, key, w):
    n = 0
    for s, x, w2 in throws:
        if x.q == '!abort':
            n += 1
            J.unreachable(key + ' abort', s, 'input never ends the process', w2)
    if not n:
        rep.ok(key + ' abort', 'no path ends the process', w)


def dictionary_(rep, P, J, f, cfg):
    w = where(P, f)
    key = 'dictionary' + cfg
    G = parse(P, f)
    aborts(rep, J, G.throws, cfg, key, w)
    texts = G.texts()
    rep.count('functions')
    rep.count('loop heads', len(G.cuts))
    rep.count('paths between loop heads', len(texts))
    what = 'every dictionary for which a header is returned is well-formed, names the three keys and a supported type'
    if not G.rets:
        if G.unclear:
            rep.unsure(key, what + ': not decided (%s)' % G.unclear[0][:200], w)
        else:
            rep.bad(key, 'no path returns a header', w)
        return
    spec, s0 = allowed_dictionaries()
    try:
        L = Language(G, texts, True)
        bad = only_in(L.nfa, L.start, spec, s0)
    except GiveUp as e:
        rep.unsure(key, what + ': not decided (%s)' % e, w)
        return
    if bad:
        rep.bad(key, what, w, "accepted although it is none: %s\npath:\n%s" % (spell(bad[0]), '\n'.join(
            '  from %s to %s' % (G.place(x.src), G.place(x.dst)) for x, _ in L.ways(bad[1]))))
        return
    if G.unclear:
        rep.unsure(key, what + ': not decided (%s)' % G.unclear[0][:200], w)
        return
    if L.missing:
        L = Language(G, texts, False)
        bad = only_in(L.nfa, L.start, spec, s0)
        if bad:
            rep.unsure(key, what + ': not decided (%s), perhaps %s' % (L.missing[:1] or 'conditions left out', spell(bad[0])), w)
            return
    if not only_in(L.nfa, L.start, *nothing()):
        rep.unsure(key, 'no dictionary found that the parser accepts', w)
        return
    rep.count('states of the automaton', L.nfa.n)
    rep.ok(key, what, w)


def prefix(rep, P, J, f, cfg):
    w = where(P, f)
    key = 'prefix of %s%s' % (f['params'][0]['t'].deref().targ(0).n, cfg)
    st, pos = input_stream(St(), failed=FALSE)
    made = []

    def header(I, st, this, args, e):
        made.append(1)
        return [(st, Obj('header', ()))]
    I = Interp(P, opaque={'npy::header_info::header_info': header})
    r, t = I.analyse(f, None, [LV(('o', 'in'))], st)
    rep.count('functions')
    for s, v in r:
        rep.count('paths')
        if not (isinstance(v, Obj) and v.name == 'header'):
            rep.unsure(key, 'not decided: the header is not made from the dictionary', w)
        for i, c in enumerate(MAGIC):
            J.agree('%s magic' % key, s, file_byte('input', add(pos, C(i))), C(c), 'a header is returned only after the magic bytes', w)
        ver = [and_(eq(file_byte('input', add(pos, C(6))), C(a)), eq(file_byte('input', add(pos, C(7))), C(b))) for a, b in VERSIONS]
        J.holds('%s version' % key, s, or_(*ver), 'a header is returned only for versions of the format', w)
    if not r:
        (rep.unsure if I.left or not t else rep.bad)(key, 'no path returns a header', w)
    aborts(rep, J, t, cfg, key, w)


def code(rep, P, J, f, cfg):
    I = Interp(P)
    BASES['code'] = dict(lo=0, hi=255)
    st = St().put(('o', 'c'), whole(base('code')))
    r, t = I.analyse(f, None, [LV(('o', 'c')) if f['params'][0]['t'].k == 'ref' else whole(base('code'))], st)
    rep.count('functions')
    aborts(rep, J, t, cfg, 'from_dtype' + cfg, where(P, f))


def caller(rep, P, J, f, cfg):
    """peek and load get their header from the reader above"""
    w = where(P, f)
    ps = [p['t'] for p in f['params']]
    q = ps[0].deref().q
    if q not in ('std::basic_string', 'std::basic_istream') or len(ps) != 1:
        return
    key = '%s(%s)%s' % (f['n'], 'path' if q == 'std::basic_string' else 'stream', cfg)
    key += '' if not f.get('targs') else ' of ' + f['rt'].n
    seen = []

    def header(I, st, this, args, e):
        seen.append(1)
        return [(st.event('header'), I.symval(header_record(P)['t'], 'header'))]

    def make(I, st, this, args, e):
        return [(st.event('make'), Obj('tensor', ()))]
    I = Interp(P, opaque={'npy::read_npy_header': header, 'npy::tensor::load': make})
    st = St()
    if q == 'std::basic_istream':
        st, _ = input_stream(st)
        a = LV(('o', 'in'))
    else:
        BASES['path'] = dict(lo=0, hi=255)
        st = st.put(('o', 'path'), whole(base('path')))
        a = LV(('o', 'path'))
    r, t = I.analyse(f, None, [a], st)
    rep.count('functions')
    for s, v in r:
        rep.count('paths')
        if any(x[0] == 'header' for x in s.log):
            rep.ok(key, 'the header is read by read_npy_header', w)
        else:
            rep.unsure(key, 'not decided: no call of read_npy_header on this path', w)
    aborts(rep, J, t, cfg, key, w)


JOBS = dict(dictionary=dictionary_, prefix=prefix, code=code, caller=caller)
