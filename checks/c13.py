"""C13: the directory of an archive describes the entries written."""
from sa.arch import *
from . import c12


def run(rep):
    rep.rule = ('Every write records, in every state of the writer and for every name and tensor, one entry whose checksum is that of the bytes before compression, whose sizes are '
                'those before and after, whose method is the one applied and whose offset is where the local header starts; the local header says the same; closing '
                'writes one directory header per recorded entry with these values, and an end record with their number, size and position.')
    rep.assumptions += ['fewer than 2^40 entries', 'standard library streams behave as specified', 'names in the list of entries have at most 65535 bytes (shown for every write under C14)']
    P = program()
    jobs = []
    for cls in WRITERS:
        jobs += [(cls, 'write'), (cls, 'close')]
    pmap(rep, lambda r, j: (write if j[1] == 'write' else close)(r, P, Judge(r, P), j[0]), jobs, names=['%s::%s' % j for j in jobs])
    return 1


def ideal(R, name):
    """what the entry must say"""
    W = R.W
    m = W.rec.get(W.method)
    data = seq_ite(eq(m, ZERO), payload(), whole(base(DEFLATED, payload())))
    return dict(filename=name, crc32=crc_of(payload()), uncompressed_size=payload().length(), compressed_size=data.length(),
                compression_method=m, offset=W.before.length())


WHAT = dict(filename='', crc32='the checksum recorded is that of the bytes before compression', uncompressed_size='the uncompressed size recorded is the number of bytes before compression',
            compressed_size='the compressed size recorded is the number of bytes stored', compression_method='the method recorded is the one applied',
            offset='the offset recorded is where the local header starts')


def write(rep, P, J, cls):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'write')
    W, key, w = R.W, R.key, R.where
    rep.count('functions')
    for s, v in R.rets:
        rep.count('paths')
        o, es, c = W.of(s)
        e = R.pushed(s)
        what = 'one entry is added to the list'
        if e is None:
            if not isinstance(es, Seq) or J.agree(key, s, es.length(), add(W.n, ONE), what, w) is True:
                rep.unsure(key, 'which entry is added is not known', w)
            continue
        rep.ok(key, what, w)
        want = ideal(R, entry_field(e, 'filename'))
        for k, x in want.items():
            if WHAT[k]:
                J.agree('%s %s' % (key, k), s, entry_field(e, k), x, WHAT[k], w)
        e = Rec(e.t, tuple((k, want[k]) for k, _ in e.f))
        c12.appended(rep, J, R, s, e, 'the local header gives these values and the data stored follow it')
    if not R.rets:
        rep.bad(key, 'nothing is ever written', w)


def close(rep, P, J, cls):
    c12.close(rep, P, J, cls, 'the directory lists every entry once with the values recorded, and the end record its number of entries, size and position')
