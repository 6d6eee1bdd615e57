"""C15: where the archive reader finds each field."""
from sa.reading import *


def run(rep):
    rep.rule = ('Constructors and operations of both readers are followed path by path on a symbolic archive. On every returning path the recorded entries, the position of the next '
                'header and the bytes handed on are closed forms in the bytes of the archive; they must equal the ones PKZIP prescribes. No refusing path is open to a well-formed archive.')
    rep.assumptions += ['archives and entries smaller than 2^62 bytes', 'single-disk archives without archive comment', 'at most one extra record before the ZIP64 one',
                        'the codec and the checksum are uninterpreted here (C21, C27)']
    P = program()
    jobs = [('opening', cls, i) for cls in READERS for i, f in enumerate(ctors(P, cls))]
    jobs += [('reading', cls, i) for cls in READERS for i, f in enumerate(readers(P, cls))]
    jobs += [('refusing', cls, i, c) for cls in READERS for i in some(rep, readers(P, cls)) for c in CASES]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), *j[1:]), jobs, names=['%s %s %s' % j[:3] for j in jobs])
    return 1


def some(rep, fs):
    """one operation of each name, or all of them"""
    seen = {}
    for i, f in enumerate(fs):
        seen.setdefault(f['n'] if rep.tier == 'quick' else i, i)
    return sorted(seen.values())


def opening(rep, P, J, cls, i):
    O = Opened(P, cls, ctors(P, cls)[i])
    rep.count('functions')
    key, w = O.key, O.where
    E = End()
    one_disk = eq(E.count_disk, E.count)
    for s, _ in O.rets:
        rep.count('paths')
        directory(rep, J, O, key, w, s, E, one_disk)
    for place, s, depth in O.left:
        rep.count('paths')
        if depth == 1:
            going_on(rep, J, O, key, w, s, E, one_disk)
    for s, x, w2 in O.throws:
        rep.count('paths')
        c = Central(named(s, E.offset))
        f, known, ok = c.fields()
        wf = readable(s) + [ge0(sub(size(), C(22))), signed(E), one_disk]
        first = [known, signed(c), le(c.end, E.p), ok, le(c.version, C(45)), supported(f)]
        J.impossible(key + ' refused', s, 'a well-formed archive is not refused (%s)' % x.q, w2 or w, extra=wf + [or_(eq(E.count, ZERO), and_(*first))])


def supported(f):
    return or_(eq(f['compression_method'], ZERO), eq(f['compression_method'], C(8)))


def readable(s):
    """the file can be opened"""
    return [x for l in s.facts.lits for x in tm.walk(l) if x.op == 'fn' and x.a[0] == 'readable']


def entries(O, s):
    r = O.rec(s)
    m = next((v for k, v in r.f if isinstance(v, MapV)), None) if r else None
    return m.entries if m is not None else None


def directory(rep, J, O, key, w, s, E, one_disk):
    es = entries(O, s)
    if es is None:
        rep.unsure(key, 'the directory is not known', w)
        return
    J.agree(key, s, E.count, C(len(es)), 'the directory has as many entries as the end record says', w, extra=(one_disk,))
    p = named(s, E.offset)
    for k, v in es:
        c = Central(p)
        f, known, ok = c.fields()
        for n, want in f.items():
            J.agree('%s %s' % (key, n), s, entry_field(v, n), want, 'the %s is the one in the central header' % n.replace('_', ' '), w, extra=(known, ok, one_disk))
        J.agree(key + ' key', s, k, f['filename'], 'an entry is found under its name', w, extra=(known, ok))
        p = c.end


def going_on(rep, J, O, key, w, s, E, one_disk):
    es = entries(O, s)
    if not es:
        return
    p = named(s, E.offset)
    for _ in es:
        p = Central(p).end
    r = O.rec(s)
    st = next((v for k, v in r.f if isinstance(v, IStr)), None)
    J.agree(key + ' next', s, st.pos if st is not None else Unk('stream'), p, 'the next header starts after name, extra field and comment', w, extra=(one_disk,))


SMALL = {'mapat:dir.%s' % k: (0, 1 << 62) for k in ('offset', 'compressed_size', 'uncompressed_size')}


def reading(rep, P, J, cls, i):
    R = Read(P, cls, readers(P, cls)[i], ranges=SMALL)
    rep.count('functions')
    key, w = R.key, R.where
    for s, v in R.rets:
        rep.count('paths')
        e = R.entry(s)
        L = Local(entry_field(e, 'offset'))
        data = whole(src()).slice(L.end, entry_field(e, 'compressed_size'))
        method = entry_field(e, 'compression_method')
        got = v if isinstance(v, Seq) else v.args[2] if isinstance(v, Obj) and v.name == 'parsed' else None
        d = s.facts.decide(eq(method, ZERO))
        if got is None or d is None:
            rep.unsure(key, 'what is handed on is not known', w)
            continue
        want = data if d else whole(base('inflated', data))
        J.agree(key + (' stored' if d else ' deflated'), s, got, want, 'what is read is what lies behind the local header', w)
        if isinstance(v, Obj):
            J.agree(key + ' start', s, v.args[3], ZERO, 'it is parsed from its start', w)


def refusing(rep, P, J, cls, i, case):
    R = Read(P, cls, readers(P, cls)[i], ranges=SMALL, given=(lambda R, st: found(R, st, case), well_formed))
    key, w = R.key, R.where
    for s, x, w2 in R.throws:
        rep.count('paths')
        if x.q != 'verif::parse_error':
            J.impossible(key + ' refused', s, 'a well-formed entry is not refused (%s)' % x.q, w2 or w)


CASES = [(n, m) for n in ('name', 'suffixed') for m in (0, 8)]


def found(R, st, case):
    n, m = case
    e = md.base_value(R.I, R.dir.base, R.name if n == 'name' else R.suffixed)
    return ([R.has(R.name)] if n == 'name' else [not_(R.has(R.name)), R.has(R.suffixed)]) + [eq(entry_field(e, 'compression_method'), C(m))]


def well_formed(R, s):
    e = R.entry(s)
    g = lambda k: entry_field(e, k)
    L = Local(g('offset'))
    f, known, ok = L.fields()
    data = whole(src()).slice(L.end, g('compressed_size'))
    plain = whole(base('inflated', data))
    stored = eq(g('compression_method'), ZERO)
    return [known, ok, signed(L), le(L.version, C(45)), le(L.end, size()), le(add(L.end, g('compressed_size')), size()),
            R.eq(s, g('filename'), f['filename'])] + [eq(g(k), f[k]) for k in ('crc32', 'compression_method', 'compressed_size', 'uncompressed_size')] + [
            supported(f), eq(g('uncompressed_size'), ite(stored, g('compressed_size'), plain.length())), eq(g('crc32'), ite(stored, crc_of(data), crc_of(plain)))]
