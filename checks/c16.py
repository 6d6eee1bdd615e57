"""C16: nothing is handed on before every integrity check has passed."""
from sa.reading import *
from . import c15


def run(rep):
    rep.rule = ('Constructors and operations of both readers are followed path by path on a symbolic archive. Wherever the contents of an entry are handed to the parser or returned, the '
                'conditions of the path must entail: right signatures, local header and directory agreeing in name, checksum, method and both sizes, a supported method, the recorded size '
                'and the recorded checksum. A reader is opened only on paths entailing the signatures of the end record and of every directory header.')
    rep.assumptions += ['archives and entries smaller than 2^62 bytes', 'at most two extra records before the ZIP64 one; the first directory entry',
                        'the codec and the checksum are uninterpreted here (C21, C27)']
    P = program()
    jobs = [('opening', cls, i) for cls in READERS for i, f in enumerate(ctors(P, cls))]
    jobs += [('reading', cls, i) for cls in READERS for i, f in enumerate(readers(P, cls))]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), *j[1:]), jobs, names=['%s %s %s' % j for j in jobs])
    return 1


def opening(rep, P, J, cls, i):
    O = Opened(P, cls, ctors(P, cls)[i])
    rep.count('functions')
    key, w = O.key, O.where
    E = End()
    for s in [x[0] for x in O.rets] + [x[1] for x in O.left if x[2] == 1]:
        rep.count('paths')
        J.holds(key, s, signed(E), 'the end record is signed', w)
        p = named(s, E.offset)
        for _ in c15.entries(O, s) or ():
            c = Central(p)
            J.holds(key, s, signed(c), 'the directory header is signed', w)
            p = c.end


def handed_on(R, rep):
    """the states in which contents are handed on, and the contents"""
    out = [(s, what, x.src) for s, what, x in R.log]
    for s, v in R.rets:
        if isinstance(v, Seq):
            out.append((s, 'returned', v))
        elif not (isinstance(v, Obj) and v.name == 'parsed'):
            rep.unsure(R.key, 'what is returned is not known', R.where)
    return out


def reading(rep, P, J, cls, i):
    R = Read(P, cls, readers(P, cls)[i], ranges=c15.SMALL)
    rep.count('functions')
    key, w = R.key, R.where
    for s, what, content in handed_on(R, rep):
        rep.count('paths')
        e = R.entry(s)
        g = lambda k: entry_field(e, k)
        L = Local(g('offset'))
        f, known, ok = L.fields()
        J.holds(key + ' signature', s, signed(L), 'the local header is signed', w)
        J.holds(key + ' name', s, R.eq(s, g('filename'), f['filename']), 'the local header has the name of the entry', w)
        for k in ('crc32', 'compression_method', 'compressed_size', 'uncompressed_size'):
            J.agree('%s %s' % (key, k), s, f[k], g(k), 'the local header and the directory have the same %s' % k.replace('_', ' '), w, extra=(known, ok))
        J.holds(key + ' method', s, or_(eq(g('compression_method'), ZERO), eq(g('compression_method'), C(8))), 'the method is a supported one', w)
        if not isinstance(content, Seq):
            rep.unsure(key, 'what is handed on is not known', w)
            continue
        J.agree(key + ' size', s, content.length(), g('uncompressed_size'), 'the contents have the recorded size', w)
        J.agree(key + ' checksum', s, crc_of(content), g('crc32'), 'the contents have the recorded checksum', w)
