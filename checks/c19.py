"""C19: an archive is finalised exactly once."""
from sa.arch import *


def run(rep):
    rep.rule = ('Every operation of a writer is analysed in every state before it is closed, and again in every state closing leaves: closing appends to the stream the first '
                'time only; what it leaves makes every write throw and further closing and destruction do nothing; destruction of an open writer does what closing does and '
                'never throws; a write that throws before anything was lost leaves the stream, the list of entries and the state as they were.')
    rep.assumptions += ['fewer than 2^40 entries', 'standard library streams behave as specified', 'operations of the standard library throw only as specified there; memory is not exhausted']
    P = program()
    jobs = [(cls, x) for cls in WRITERS for x in ('write', 'close', 'dtor', 'others')] + [(cls, f) for cls in WRITERS for f in ctors(P, cls)]
    pmap(rep, lambda r, j: (ALL[j[1]] if isinstance(j[1], str) else ctor)(r, P, Judge(r, P), *j), jobs,
         names=['%s::%s' % (c, x if isinstance(x, str) else 'constructor') for c, x in jobs])
    return 1


def unchanged(J, R, key, s, before, what, w, lost=True):
    """the stream holds and the list of entries is what it was"""
    W = R.W
    o, es, rest = W.of(s)
    o0, es0, rest0 = W.of(before)
    if not isinstance(o, OStr) or not isinstance(es, Seq):
        J.rep.unsure(key, what + ': the state afterwards is not known', w)
        return
    if isinstance(o.content, Seq):
        # what is lost when the stream has failed is reported
        f = o.failed if lost else FALSE
        J.holds(key, s, or_(f, same_bytes(s.facts, o.content, o0.content)), what + ': the bytes', w)
    else:
        J.rep.unsure(key, what + ': the bytes afterwards are not known', w)
    x = (not_(o.failed),) if lost else ()
    if x and s.facts.decide(x[0]) is False:
        return
    J.agree(key, s, es.length(), es0.length(), what + ': the number of entries', w, extra=x)
    J.agree(key, s, es, es0, what + ': the list of entries', w, extra=x)
    if dict(rest) != dict(rest0):
        for k, v in rest:
            if v != dict(rest0)[k] and k not in W.varying():
                J.agree(key, s, v, dict(rest0)[k], what + ': the field ' + k, w)


def same_bytes(facts, a, b):
    """the condition for a to be b, as far as it can be told: equal, or of equal length"""
    return TRUE if same(facts, a, b) is True else eq(a.length(), b.length())


def write(rep, P, J, cls, _):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'write')
    W, key, w = R.W, R.key, R.where
    rep.count('functions')
    rep.count('paths', len(R.rets) + len(R.throws))
    if not R.rets:
        rep.bad(key, 'an open writer refuses every write', w)
    for s, x, where_ in R.throws:
        unchanged(J, R, key, s, R.start, 'a write that throws (%s) leaves the archive as it was unless the stream failed' % getattr(x, 'name', x), where_ or w)


def close(rep, P, J, cls, _):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'close')
    W, key, w = R.W, R.key, R.where
    rep.count('functions')
    if not R.rets:
        rep.bad(key, 'closing never succeeds', w)
    d = 'after closing'
    for s, _ in R.rets:
        o, es, rest = W.of(s)
        if True:
            what = 'closing appends the directory and the end record'
            if isinstance(o, OStr) and isinstance(o.content, Seq):
                J.holds(key, s, le(add(W.before.length(), C(22)), o.content.length()), what, w)
            else:
                rep.unsure(key, what + ': not known', w)
        # writing
        key2 = '%s::write' % cls.split('::')[-1]
        rets, throws = R.then(s, 'write')
        rep.count('paths', len(rets) + len(throws))
        w2 = where(P, writer_fn(P, cls, 'write'))
        for s2, _ in rets:
            J.unreachable(key2, s2, 'a write %s throws' % d, w2)
        if not rets:
            rep.ok(key2, 'a write %s throws' % d, w2)
        for s2, x, w3 in throws:
            unchanged(J, R, key2, s2, s, 'a write %s changes nothing' % d, w3 or w2, lost=False)
        # closing again, destruction
        for name in ('close', 'dtor'):
            f = [f for f in methods(P, cls) if f.get('dtor')] if name == 'dtor' else [R.f]
            if not f or f[0].get('implicit'):
                continue
            rets, throws = R.then(s, name)
            rep.count('paths', len(rets) + len(throws))
            what = '%s %s' % ('closing again' if name == 'close' else 'destruction', d)
            for s2, x, w3 in throws:
                J.unreachable(key, s2, what + ' throws nothing', w3 or w)
            for s2, _ in rets:
                unchanged(J, R, key, s2, s, what + ' changes nothing', w, lost=False)


def dtor(rep, P, J, cls, _):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'close')
    W, w = R.W, R.where
    key = '%s::destructor' % cls.split('::')[-1]
    rep.count('functions')
    f = [f for f in methods(P, cls) if f.get('dtor')]
    if not f or f[0].get('implicit'):
        rep.bad(key, 'destruction finalises an open archive: there is no destructor that does', w)
        return
    w = where(P, f[0])
    rets, throws = R.then(R.start, 'dtor')
    rep.count('paths', len(rets) + len(throws))
    for s, x, w3 in throws:
        J.unreachable(key, s, 'destruction throws nothing', w3 or w)
    if not rets:
        rep.bad(key, 'destruction never completes', w)
    # on every way on which closing returns, destruction leaves the same bytes
    done = 0
    for s, _ in R.rets:
        o, es, rest = W.of(s)
        for s2, _ in rets:
            new = [l for l in s.facts.lits if l not in R.start.facts.set]
            s3 = s2
            for l in new:
                s3 = s3.assume(l)
            if s3.facts.infeasible():
                continue
            o2 = W.of(s3)[0]
            what = 'where closing would succeed, destruction produces the archive closing would'
            if isinstance(o2, OStr) and isinstance(o2.content, Seq) and isinstance(o, OStr) and isinstance(o.content, Seq):
                done += 1
                if same(s3.facts, o2.content, o.content) is True:
                    rep.ok(key, what, w)
                elif J.agree(key, s3, o2.content.length(), o.content.length(), what, w) is True:
                    rep.unsure(key, what + ': as many bytes, but differently spelled', w)
            else:
                rep.unsure(key, what + ': not known', w)
    if not done:
        rep.unsure(key, 'no common way through closing and destruction', w)


def others(rep, P, J, cls, _):
    """members other than writing, closing and destruction leave the archive alone"""
    R = Run(P, cls, 'close')
    W = R.W
    seen = set()
    for f in methods(P, cls):
        if f.get('ctor') or f.get('dtor') or f['n'] in ('write', 'close') or f.get('access') != 0:
            continue
        key, w = '%s::%s' % (cls.split('::')[-1], f['n']), where(P, f)
        if f['params']:
            rep.unsure(key, 'a further operation', w)
            continue
        rep.count('functions')
        rets, throws = R.I.analyse(f, W.lv(), [], R.start)
        for s in [x[0] for x in rets] + [x[0] for x in throws]:
            unchanged(J, R, key, s, R.start, 'the archive is left as it is', w, lost=False)


def ctor(rep, P, J, cls, f):
    key = '%s(%s)' % (cls.split('::')[-1], ', '.join(p['t'].deref().n.split('<')[0] for p in f['params'][:-2]))
    w = where(P, f)
    rep.count('functions')
    I, rs, th = constructed(P, cls, f)
    ref = after_ctor(P, cls)
    W = Writer(P, I, cls)
    for s, r in rs:
        rep.count('paths')
        if not isinstance(r, Rec):
            rep.unsure(key, 'the state after construction is not known', w)
            continue
        o, es = r.get(W.stream), r.get(W.entries)
        if isinstance(o, OStr) and isinstance(o.content, Seq):
            J.agree(key, s, o.content.length(), ZERO, 'the archive starts empty', w)
        J.agree(key, s, es.length(), ZERO, 'the list of entries starts empty', w)
        for k, v in r.f:
            if k in (W.stream, W.entries) or not isinstance(v, T) or not isinstance(ref.get(k), T):
                continue
            if ref.get(k).op == 'c' or v.op == 'c':
                J.agree(key, s, v, ref.get(k), 'every constructor leaves the same state: ' + k, w)


ALL = dict(write=write, close=close, dtor=dtor, others=others)
