"""C17: a truncated or unreadable archive is refused."""
from sa.reading import *
from . import c15, c16


def run(rep):
    rep.rule = ('Constructors and operations of both readers are followed path by path on a symbolic archive of arbitrary length; reading beyond the end yields arbitrary bytes. On every '
                'path that returns, or hands contents to the parser, the conditions of the path must entail that the file was open and that the end record, the directory headers, the '
                'local header with its complete extra field, and the data lie within the archive.')
    rep.assumptions += ['archives smaller than 2^62 bytes', 'at most two extra records before the ZIP64 one; the first directory entry']
    P = program()
    jobs = [('opening', cls, i) for cls in READERS for i, f in enumerate(ctors(P, cls))]
    jobs += [('reading', cls, i) for cls in READERS for i, f in enumerate(readers(P, cls))]
    jobs += [('far', cls, i, k) for cls in READERS for i in c15.some(rep, readers(P, cls)) for k in ('offset', 'compressed_size')]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), *j[1:]), jobs, names=['%s %s %s' % j[:3] for j in jobs])
    return 1


def opening(rep, P, J, cls, i):
    O = Opened(P, cls, ctors(P, cls)[i])
    rep.count('functions')
    key, w = O.key, O.where
    E = End()
    for s in [x[0] for x in O.rets] + [x[1] for x in O.left if x[2] == 1]:
        rep.count('paths')
        for x in opened(O, s):
            J.holds(key + ' file', s, x, 'the file was opened', w)
        J.holds(key + ' end', s, le(C(22), size()), 'the end record lies within the archive', w)
        p = named(s, E.offset)
        for _ in c15.entries(O, s) or ():
            c = Central(p)
            f, known, ok = c.fields()
            J.holds(key + ' header', s, and_(le(ZERO, c.p), le(c.end, size())), 'the directory header lies within the archive', w)
            J.holds(key + ' extra', s, c.inside, 'the ZIP64 values lie within the extra field', w, extra=(known,))
            p = c.end


def opened(O, s):
    r = O.rec(s)
    return [v.open for k, v in r.f if isinstance(v, IStr) and v.kind == 'f'] if r is not None else []


def reading(rep, P, J, cls, i):
    R = Read(P, cls, readers(P, cls)[i], ranges=c15.SMALL)
    rep.count('functions')
    key, w = R.key, R.where
    for s, what, content in c16.handed_on(R, rep):
        rep.count('paths')
        e = R.entry(s)
        L = Local(entry_field(e, 'offset'))
        f, known, ok = L.fields()
        J.holds(key + ' header', s, le(L.end, size()), 'the local header lies within the archive', w)
        J.holds(key + ' extra', s, L.inside, 'the ZIP64 values lie within the extra field', w, extra=(known,))
        J.holds(key + ' data', s, le(add(L.end, entry_field(e, 'compressed_size')), size()), 'the data lies within the archive', w)


def far(rep, P, J, cls, i, k):
    R = Read(P, cls, readers(P, cls)[i], ranges={**c15.SMALL, 'mapat:dir.' + k: (1 << 63, (1 << 64) - 1)})
    key, w = R.key, R.where
    n = 0
    for s, what, content in c16.handed_on(R, rep):
        rep.count('paths')
        n += 1
        J.impossible('%s far %s' % (key, k), s, 'an entry whose %s no archive can have is refused' % k.replace('_', ' '), w)
    if not n and R.throws:
        rep.ok('%s far %s' % (key, k), 'an entry whose %s no archive can have is refused' % k.replace('_', ' '), w)
