"""C20: data that could not be written is reported."""
from sa.arch import *
from sa.models import flush
from . import c04


def run(rep):
    rep.rule = ('A file takes an unknown number of bytes; what exceeds it is lost, which the stream tells at the latest when it is flushed or closed. Every returning path of every '
                'save by path and of closing an archive file must entail that the file was opened, that it was flushed or closed with all bytes written, and that no operation '
                'failed; a returning write must entail that no failure had been reported before. No path through a destructor lets an exception out.')
    rep.assumptions += ['a file stream reports every refused byte when it is flushed or closed, as the standard library specifies']
    P = program()
    jobs = [('save', f) for f in find(P, 'npy::save') + find(P, 'npy::tensor::save') if f['params'] and f['params'][0]['t'].deref().q in ('std::basic_string', 'std::filesystem::path')
            or f['params'] and f['params'][0]['t'].k == 'ptr']
    if not jobs:
        raise AnalysisBroken('no save by path found')
    jobs += [('write', 'npy::npzfilewriter'), ('close', 'npy::npzfilewriter'), ('dtor', 'npy::npzfilewriter'), ('dtor', 'npy::npzstringwriter')]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), j[1]), jobs, names=[c04.label(j[1]) if j[0] == 'save' else '%s::%s' % (j[1], j[0]) for j in jobs])
    return 1


def opaque_save(I, st, this, args, e):
    """saving into a stream: some bytes, or an exception"""
    for a in ([this] if isinstance(this, LV) else []) + list(args):
        if isinstance(a, LV):
            o = I.load(st, a)
            if isinstance(o, OStr):
                I.raise_(st, 'verif::save_error', e)
                return [(I.store(st, a, o.but(content=o.content + payload())), None)]
    return None


def save(rep, P, J, f):
    key, w = c04.label(f), where(P, f)
    rep.count('functions')
    I = Interp(P, opaque={'npy::save': opaque_save, 'npy::tensor::save': opaque_save, 'npy::write_npy_header': opaque_save})
    BASES[PAYLOAD] = dict(lo=0, hi=255)
    st = St().put(('o', 'tensor'), Obj('tensor', ('tensor',)))
    a, st = ctor_args(I, dict(params=f['params'][:1]), st)
    args = a + [LV(('o', 'tensor')) if p['t'].k == 'ref' else I.symval(p['t'].deref(), 'arg%d' % i) for i, p in enumerate(f['params'][1:])]
    this = LV(('o', 'tensor')) if f.get('rec') is not None else None
    r, t = I.analyse(f, this, args, st)
    for s, v in r:
        rep.count('paths')
        fs = [(k, v) for k, v in s.store.items() if k[0] == 'file']
        if len(fs) != 1 or not isinstance(fs[0][1], OStr):
            rep.unsure(key, 'which file is written is not known', w)
            continue
        written(J, key, s, fs[0][1], w, 'it returns only with every byte written')
    if not r:
        rep.bad(key, 'no save ever succeeds', w)


def written(J, key, s, o, w, what):
    J.holds(key, s, not_(flush(o).failed), what, w)


def write(rep, P, J, cls):
    R = Run(P, cls, 'write')
    rep.count('functions')
    for s, v in R.rets:
        rep.count('paths')
        o = R.W.of(s)[0]
        if isinstance(o, OStr):
            J.holds(R.key, s, not_(o.failed), 'a write returns only if no failure has been reported', R.where)


def close(rep, P, J, cls):
    R = Run(P, cls, 'close')
    rep.count('functions')
    for s, v in R.rets:
        rep.count('paths')
        o = R.W.of(s)[0]
        if isinstance(o, OStr):
            J.holds(R.key, s, not_(flush(o).failed), 'closing returns only with every byte of the archive written', R.where)
    if not R.rets:
        rep.bad(R.key, 'closing never succeeds', R.where)


def dtor(rep, P, J, cls):
    R = Run(P, cls, 'close')
    key = '%s::destructor' % cls.split('::')[-1]
    fs = [f for f in methods(P, cls) if f.get('dtor')]
    if not fs or fs[0].get('implicit'):
        rep.ok(key, 'the destructor is the implicit one, which throws nothing', '')
        return
    w = where(P, fs[0])
    for what, sts in (('open', [R.start]), ('closed', [s for s, _ in R.rets]), ('closed in vain', [s for s, x, _ in R.throws])):
        for st in sts:
            rets, throws = R.then(st, 'dtor')
            rep.count('paths', len(rets) + len(throws))
            for s, x, w3 in throws:
                J.unreachable(key, s, 'destroying a writer (%s) throws nothing' % what, w3 or w)
            rep.ok(key, 'the ways out of destroying a writer (%s) were enumerated' % what, w)
