"""C18: names in archives."""
from sa.reading import *
from . import c13, c15, c16, c19


def run(rep):
    rep.rule = ('Writers: the name recorded on every path is the name given, with .npy appended exactly when it does not end in it. Readers, for an arbitrary directory and name: containment is '
                'the condition under which the name or the name with .npy is in the directory; every read and peek raises std::invalid_argument exactly when neither is, and otherwise uses '
                'the entry of the name itself before that of the name with .npy. After opening, the directory has every name of the archive and the keys are these names, sorted.')
    rep.assumptions += ['names have at most 65535 bytes', 'archives of up to two entries for the keys', 'standard library containers and std::sort behave as specified']
    P = program()
    jobs = [('writing', cls) for cls in WRITERS] + [('contains', cls) for cls in READERS]
    jobs += [('keys', cls, i) for cls in READERS for i in c15.some(rep, ctors(P, cls))] + [('listed', cls) for cls in READERS]
    jobs += [('looking', cls, i) for cls in READERS for i, f in enumerate(readers(P, cls))]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), *j[1:]), jobs, names=[' '.join(map(str, j)) for j in jobs])
    return 1


def writing(rep, P, J, cls):
    R = Run(P, cls, 'write')
    rep.count('functions')
    name = whole(base('name'))
    n = name.length()
    ends = and_(le(C(4), n), *[eq(name.at(add(n, C(k - 4))), C(x)) for k, x in enumerate(b'.npy')])
    for s, v in R.rets:
        rep.count('paths')
        e = R.pushed(s)
        if e is None:
            rep.unsure(R.key, 'which entry is added is not known', R.where)
            continue
        got = entry_field(e, 'filename')
        d = s.facts.decide(ends)
        J.agree(R.key, s, got, name if d is True else name + lits('.npy') if d is False else seq_ite(ends, name, name + lits('.npy')),
                'the name recorded is the one given, with .npy appended exactly when it does not end in it', R.where)


def contains(rep, P, J, cls):
    for f in readers(P, cls, 'contains'):
        R = Read(P, cls, f)
        rep.count('functions')
        want = or_(R.has(R.name), R.has(R.suffixed))
        for s, v in R.rets:
            rep.count('paths')
            J.agree(R.key, s, truth(v) if isinstance(v, T) else v, want, 'an entry is contained when the name or the name with .npy is in the directory', R.where)
            unchanged(J, R, s, R.where)
        for s, x, w in R.throws:
            J.impossible(R.key, s, 'testing for an entry does not fail', w or R.where)


def unchanged(J, R, s, w):
    r = R.rec(s)
    for k in (R.dirs, R.keys):
        if k:
            J.agree(R.key + ' ' + ('directory' if k == R.dirs else 'keys'), s, r.get(k) if r is not None else Unk('reader'), R.r0.get(k),
                    'the %s of the reader are left alone' % ('entries' if k == R.dirs else 'keys'), w)


def keys(rep, P, J, cls, i):
    O = Opened(P, cls, ctors(P, cls)[i], peel=(2, 0))
    stream, dirs, ks, r = shape(P, cls)
    rep.count('functions')
    E = End()
    for s, _ in O.rets:
        rep.count('paths')
        es = c15.entries(O, s)
        n = next((k for k in range(3) if s.facts.add(eq(E.count_disk, E.count)).decide(eq(E.count, C(k)))), None)
        if es is None or not ks or n is None:
            rep.unsure(O.key, 'the directory is not known', O.where)
            continue
        p = named(s, E.offset)
        names = []
        for _ in range(n):
            c = Central(p)
            names.append(c.name())
            p = c.end
        got = O.rec(s).get(ks)
        want = Seq(tuple(('e', x) for x in names))
        if len(names) > 1:
            want = whole(base('sorted', md.sterm(want)))
        J.agree(O.key + ' keys', s, got, want, 'the keys are the names of all entries, sorted', O.where)
        for k, x in enumerate(names):
            have = or_(*[R_eq(O, s, y, x) for y, _ in es])
            J.holds(O.key + ' names', s, have, 'every name of the archive is in the directory', O.where)


def R_eq(O, s, x, y):
    return md.seq_eq(O.I, s, x, y)


def listed(rep, P, J, cls):
    for f in methods(P, cls, 'keys'):
        R = Read(P, cls, f)
        rep.count('functions')
        for s, v in R.rets:
            J.agree(R.key, s, v, R.r0.get(R.keys) if R.keys else Unk('keys'), 'the keys listed are those recorded when the archive was opened', R.where)
            unchanged(J, R, s, R.where)


def looking(rep, P, J, cls, i):
    R = Read(P, cls, readers(P, cls)[i], ranges=c15.SMALL)
    rep.count('functions')
    key, w = R.key, R.where
    a, b = R.has(R.name), R.has(R.suffixed)
    for s, what, content in c16.handed_on(R, rep):
        rep.count('paths')
        J.holds(key + ' found', s, or_(a, b), 'something is read only when the name or the name with .npy is in the directory', w)
        L = Local(entry_field(R.entry(s), 'offset'))
        data = whole(src()).slice(L.end, entry_field(R.entry(s), 'compressed_size'))
        if isinstance(content, Seq):
            method = s.facts.decide(eq(entry_field(R.entry(s), 'compression_method'), ZERO))
            J.agree(key + ' entry', s, content, data if method else whole(base('inflated', data)), 'the entry of the name itself is used before that of the name with .npy', w)
    for s, x, w2 in R.throws:
        rep.count('paths')
        if x.q == 'verif::parse_error':
            continue
        if x.q == 'std::invalid_argument':
            J.holds(key + ' not found', s, and_(not_(a), not_(b)), 'std::invalid_argument means that neither the name nor the name with .npy is in the directory', w2 or w)
        else:
            J.holds(key + ' found', s, or_(a, b), 'a name that is not found raises std::invalid_argument (not %s)' % x.q, w2 or w)
    for s in [x[0] for x in R.rets] + [x[0] for x in R.throws]:
        unchanged(J, R, s, w)
