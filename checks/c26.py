"""C26: a failed read leaves a reader usable."""
from sa.reading import *
from . import c15, c18


def run(rep):
    rep.rule = ('Every reading operation is followed path by path from an arbitrary state of the stream (position, error flags, count of the last read) and of every field an operation '
                'changes: neither the conditions of a path nor its outcome may mention that state, so the result is that of a fresh reader. No operation, whether it returns or throws, '
                'changes the directory, the keys or the contents of the stream. Where a path does mention the state, valuations on which the outcome differs are searched for.')
    rep.assumptions += ['the reader has not been closed', 'archives and entries smaller than 2^62 bytes', 'at most two extra records before the ZIP64 one']
    P = program()
    jobs = [(cls, n, i) for cls in READERS for n in ('peek', 'read', 'contains', 'keys') for i, f in enumerate(operations(P, cls, n))]
    pmap(rep, lambda r, j: operation(r, P, Judge(r, P), *j), jobs, names=[' '.join(map(str, j)) for j in jobs])
    return 1


def operations(P, cls, n):
    return methods(P, cls, n) if n == 'keys' else readers(P, cls, n)


def stateful(x):
    if isinstance(x, T):
        return any(y.op == 'sym' and y.a[0].startswith('r.') for y in tm.walk(x))
    if isinstance(x, Seq):
        return stateful(x.parts)
    if isinstance(x, V):
        return any(stateful(getattr(x, k)) for k in x._k)
    if isinstance(x, tuple):
        return any(stateful(y) for y in x)
    return False


def operation(rep, P, J, cls, n, i):
    R = Read(P, cls, operations(P, cls, n)[i], ranges=c15.SMALL)
    rep.count('functions')
    key, w = R.key, R.where
    outs = [(s, 'returns', v, w) for s, v in R.rets] + [(s, 'throws ' + x.q, None, w2 or w) for s, x, w2 in R.throws]
    what = 'the outcome does not depend on what was done with the reader before'
    for o in outs:
        s, how, v, w2 = o
        rep.count('paths')
        c18.unchanged(J, R, s, w2)
        r = R.rec(s)
        c = r.get(R.stream) if r is not None else None
        J.agree(key + ' contents', s, c.src if isinstance(c, IStr) else Unk('stream'), R.r0.get(R.stream).src, 'the contents of the stream are left alone', w2)
        if not any(stateful(l) for l in s.facts.lits) and not stateful(s.facts.all_) and not stateful(v):
            rep.ok(key, what, w2)
        else:
            J.oracle(key, s, lambda ev: otherwise(ev, o, outs), what, w2, tries=40)


def otherwise(ev, o, outs):
    """another state of the reader, everything else being the same, with another outcome"""
    ks = [k for k in ev.atoms if k[0] == 'sym' and k[1].startswith('r.')]
    for v in range(4):
        e = evalt.Eval(ev.rnd)
        e.atoms, e.info = dict(ev.atoms), dict(ev.info)
        for k in ks:
            lo, hi, _ = ev.info[k]
            e.atoms[k] = ev.rnd.choice((lo or 0, hi if hi is not None else 1))
        for s, how, x, w in outs:
            try:
                if all(e.t(l) for l in s.facts.lits) and evalt.all_hold(e, s.facts.all_):
                    if how != o[1]:
                        return 'the operation %s; in another state of the reader (%s) it %s' % (o[1], ', '.join('%s=%s' % (k[1], e.atoms[k]) for k in ks), how)
                    break
            except evalt.NoValue:
                continue
    return None
