"""C14: values that do not fit their field."""
from sa.arch import *
from . import c04, c12, c13, c19


def run(rep):
    rep.rule = ('Every header and archive record is a closed form of the values it carries: on every path on which one is written, each length, size, offset and count either fits its '
                'field (entailed by the path) or appears in the wider form (compared with the layout of the format, and parsed on valuations where spelled differently). On every '
                'refusing path nothing has been added to the archive or the stream.')
    rep.assumptions += ['fewer than 2^40 entries', 'ranks below 2^31', 'standard library streams behave as specified']
    P = program()
    jobs = [('header', f) for f in find(P, 'npy::write_npy_header')]
    for cls in WRITERS:
        jobs += [('write', cls), ('close', cls)]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), j[1]), jobs, names=[c04.label(j[1]) if j[0] == 'header' else '%s::%s' % (j[1], j[0]) for j in jobs])
    return 1


def header(rep, P, J, f):
    key, w = c04.label(f), where(P, f)
    rep.count('functions')
    I, D, rank, fortran, dlen, r, t = c04.analysed(P, f)
    d = c04.dictionary(D, fortran, rank, 'shape')
    forms = [c04.wanted(d, False) + (0xffff,), c04.wanted(d, True) + (U32,)]
    what = 'the length field of the header is the number of bytes that follow it'
    for s, v in r:
        rep.count('paths')
        o = s.store[('o', 'out')]
        got = o.content if isinstance(o, OStr) else None
        if not isinstance(got, Seq):
            rep.unsure(key, what + ': not known', w)
            continue
        m = next((x for x in forms if same(s.facts, got, x[0]) is True), None)
        if m is not None:
            J.holds(key, s, le(m[1], C(m[2])), what, w)
            continue
        n = got.length()
        if n is None:
            rep.unsure(key, what + ': the number of bytes is not known', w)
            continue
        if J.oracle(key, s, lambda ev: c04.field(ev, got), what, w, extra=(ge0(sub(dlen, C(65400))),), quiet=True) is not False:
            rep.unsure(key, what + ': another closed form than expected; no valuation is wrong', w)
    for s, x, w2 in t:
        rep.count('paths')
        o = s.store[('o', 'out')]
        if isinstance(o, OStr) and isinstance(o.content, Seq):
            J.agree(key, s, o.content.length(), ZERO, 'a refused header leaves nothing in the stream', w2 or w)


ABOUT = ('the compressed size', 'the uncompressed size', 'the offset', 'the name length', 'the number', 'the directory size', 'the directory offset', 'the extra', 'the ZIP64', 'a placeholder',
         'there are two ZIP64', 'version')


def about(f):
    def g(ev):
        m = f(ev)
        return m if m and m.startswith(ABOUT) else None
    return g


def write(rep, P, J, cls):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'write')
    W, key, w = R.W, R.key, R.where
    rep.count('functions')
    for s, v in R.rets:
        rep.count('paths')
        e = R.pushed(s)
        if e is None:
            rep.unsure(key, 'which entry is added is not known', w)
            continue
        J.holds(key + ' name', s, le(entry_field(e, 'filename').length(), C(U16)), 'the length of the name fits its field', w)
        want = c13.ideal(R, entry_field(e, 'filename'))
        for k in ('uncompressed_size', 'compressed_size', 'offset'):
            J.agree('%s %s' % (key, k), s, entry_field(e, k), want[k], 'the %s is recorded in full' % k.replace('_', ' '), w)
        e = Rec(e.t, tuple((k, want[k]) for k, _ in e.f))
        c12.appended(rep, J, R, s, e, 'the sizes of the local header are those of the data, in the wider form where they do not fit', about)
    for s, x, where_ in R.throws:
        c19.unchanged(J, R, key, s, R.start, 'a refused write (%s) leaves the archive as it was unless the stream failed' % getattr(x, 'q', x), where_ or w)


def close(rep, P, J, cls):
    c12.close(rep, P, J, cls, 'sizes, offsets and counts of the directory are stored in full, in the wider form where they do not fit', about)
