"""C23: the in-memory and the on-disk classes do the same."""
import time
from sa.reading import *
from . import c15


def run(rep):
    rep.rule = ('Every operation the two variants share is analysed on both from corresponding arbitrary states: writers with the same contents, entries, method and byte order, readers '
                'with the same archive and directory. Any two paths with compatible conditions must have the same outcome: both return the same closed form and leave the same state, '
                'or both throw. Paths with the same conditions are compared directly; the others are shown incompatible, or a valuation of both with different outcomes is searched '
                'for. Constructor overloads of one class are compared in the same way, and every overload of read against the one it stands for.')
    rep.assumptions += ['the file system does not fail: what that leads to is the subject of C17 and C20', 'archives and entries smaller than 2^62 bytes',
                        'at most two extra records before the ZIP64 one', 'which exception is thrown is not compared']
    P = program()
    jobs = [('writing', x) for x in ('write', 'close', 'dtor')] + [('writer_made', i) for i in range(len(ctors(P, WRITERS[1])))] + [('defaults', i) for i in range(len(ctors(P, WRITERS[1])))]
    jobs += [('opened', cls, i, peel) for cls in READERS for i in range(len(ctors(P, cls))) for peel in ((1, 2), (2, 0))]
    a, b = (len(readers(P, c)) for c in READERS)
    jobs += [('reading', n, i) for n in ('peek', 'read', 'contains') for i in range(len(readers(P, READERS[0], n)))] + [('reading', 'keys', 0)]
    jobs += [('overloads', cls, i) for cls in READERS for i in range(len(readers(P, cls, 'read')))]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), *j[1:]), jobs, names=[' '.join(map(str, j)) for j in jobs])
    return 1


# ----------------------------------------------------------------------- writers
NAMES = {}


def renamed(P):
    """parameters of the file writer's constructors come after the path"""
    if not NAMES:
        I = Interp(P, be=False)
        a = [p['t'].deref() for p in ctors(P, WRITERS[0])[0]['params']]
        f = [p['t'].deref() for p in ctors(P, WRITERS[1])[0]['params']]
        for i, t in enumerate(a):
            js = [j for j, x in enumerate(f) if x.n == t.n]
            if len(js) == 1:
                NAMES[I.symval(t, 'arg%d' % js[0])] = I.symval(t, 'arg%d' % i)
    return NAMES


def both(x, y, env):
    """the facts of a path of each, together"""
    fs = x.facts
    memo = {}
    for l in y.facts.lits:
        fs = fs.add(gsubst(l, env, memo))
    return St(x.store, Facts(fs.lits, fs.all_ + gsubst(tuple(y.facts.all_), env, memo)), x.imp | y.imp, x.log)


def writing(rep, P, J, op):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    env = renamed(P)
    R = [Run(P, WRITERS[0], op, may_throw=False)]
    W = Writer(P, Interp(P, be=False), WRITERS[1])
    W.varying()
    W.rec = gsubst(W.rec, env, {})
    R.append(Run(P, WRITERS[1], op, may_throw=False, writer=W))
    rep.count('functions', 2)
    key, w = '%s in memory and on disk' % op, R[1].where
    a, b = outs(R[0]), outs(R[1])
    rep.count('paths', len(a) + len(b))
    for s, how, _ in b:
        o = R[1].W.of(s)[0]
        if not isinstance(o, OStr):
            rep.unsure(key, 'the state of the file is not known', w)
            return
    pairs(J, R, key, [(worked(R[1], s), how, v) for s, how, v in b], a, w)
    if op == 'write':
        what = 'tensors are serialised with the same arguments'
        if len(R[0].saves) == len(R[1].saves) == 1:
            x, y = (r.saves[0] for r in R)
            for m, n in zip(x[1][2:], y[1][2:]):
                J.agree(key + ' arguments', x[0], R[0].I.load(x[0], m) if isinstance(m, LV) else m, R[1].I.load(y[0], n) if isinstance(n, LV) else n, what, w)
            if len(x[1]) != len(y[1]):
                rep.unsure(key, what + ': there are more of them on one side', w)
        else:
            rep.unsure(key, what + ': more than one is made', w)
    if op == 'close':
        for nxt in ('write', 'close', 'dtor'):
            for s, how, v in a:
                for t, how2, v2 in b:
                    if how == how2 == 'returns':
                        x, y = [(q, 'returns', r) for q, r in R[0].then(s, nxt)[0]] + [(q, 'throws', e) for q, e, _ in R[0].then(s, nxt)[1]], None
                        rs, ts = R[1].then(t, nxt)
                        y = [(q, 'returns', r) for q, r in rs] + [(q, 'throws', e) for q, e, _ in ts]
                        y = [(worked(R[1], q), h, r) for q, h, r in y]
                        rep.count('paths', len(x) + len(y))
                        pairs(J, R, '%s after close, in memory and on disk' % nxt, y, x, w)


def worked(R, s):
    """the path, given that the file has not failed"""
    fs = Facts((), tuple(s.facts.all_))
    for l in (not_(R.W.of(s)[0].failed),) + tuple(s.facts.lits):
        fs = together(fs, (l,))
    return s.with_facts(fs)


def outs(R):
    return [(s, 'returns', v) for s, v in R.rets] + [(s, 'throws', x) for s, x, _ in R.throws]


def pairs(J, R, key, bs, as_, w):
    done = 0
    for s, how, _ in as_:
        for t, how2, _ in bs:
            x = both(s, t, {})
            if FALSE in x.facts.lits:
                continue
            if how != how2:
                J.impossible(key, x, 'both accept or refuse the same calls (in memory it %s, on disk it %s)' % (how, how2), w)
                continue
            done += 1
            if how == 'throws':
                J.rep.ok(key, 'both refuse the same calls', w)
                continue
            o, es, rest = R[0].W.of(s)
            p, fs, rest2 = R[1].W.of(t)
            if not isinstance(o, OStr) or not isinstance(p, OStr):
                J.rep.unsure(key, 'the streams are not known afterwards', w)
                continue
            J.agree(key + ' bytes', x, p.content, o.content, 'the same bytes are produced', w)
            J.agree(key + ' entries', x, fs, es, 'the same entries are recorded', w)
            r = dict(rest)
            for k, v in rest2:
                if k in r:
                    J.agree(key + ' ' + k, x, v, r[k], 'the state is the same', w)
    if not done:
        J.rep.unsure(key, 'no paths correspond', w)


def writer_made(rep, P, J, i):
    env = renamed(P)
    f, g = ctors(P, WRITERS[0])[0], ctors(P, WRITERS[1])[i]
    w = where(P, g)
    key = '%s constructor %d' % (WRITERS[1].split('::')[-1], i)
    rep.count('functions', 2)
    I, rs, th = constructed(P, WRITERS[0], f)
    I2, rs2, th2 = constructed(P, WRITERS[1], g)
    for s, r in rs:
        for t, q in rs2:
            rep.count('paths')
            if not isinstance(q, Rec) or not isinstance(r, Rec):
                rep.unsure(key, 'the state after construction is not known', w)
                continue
            q = gsubst(q, env, {})
            x = both(s, t, env)
            d = dict(r.f)
            for k, v in q.f:
                if k not in d:
                    continue
                if isinstance(v, OStr) and isinstance(d[k], OStr):
                    J.agree(key + ' ' + k, x, v.content, d[k].content, 'both start from the same contents', w, extra=(not_(v.failed),))
                else:
                    J.agree(key + ' ' + k, x, v, d[k], 'both start from the same state', w)
    if not rs or not rs2:
        rep.unsure(key, 'construction never succeeds', w)


def defaults(rep, P, J, i):
    """what constructions without options ask for"""
    key, what = 'default arguments %d' % i, 'both have the same default method and byte order'
    got = {}
    for q in ('verif::default_%s' % c.split('::')[-1] for c in WRITERS):
        for f in find(P, q):
            if q.endswith('stringwriter') or f['params'][0]['t'].n == ctors(P, WRITERS[1])[i]['params'][0]['t'].n:
                log = []

                def h(I, st, this, args, e):
                    log.append(args)
                    return [(st, Obj('made', ()))]
                I = Interp(P, be=False, opaque={'%s::%s' % (c, c.split('::')[-1]): h for c in WRITERS})
                args, st = prepare(I, f, St())
                I.analyse(f, None, args, st)
                rep.count('functions')
                got[q] = (log, where(P, f))
    if len(got) != 2 or any(len(l) != 1 for l, _ in got.values()):
        rep.unsure(key, what + ': not known', None)
        return
    (x, _), (y, w) = got['verif::default_npzstringwriter'], got['verif::default_npzfilewriter']
    x, y = x[0], y[0][1:]
    w = where(P, ctors(P, WRITERS[1])[i])
    if len(x) != len(y):
        rep.unsure(key, what + ': they take different options', w)
    for m, n in zip(x, y):
        J.agree(key, St(), n, m, what, w)


# ----------------------------------------------------------------------- readers
def expanded(s, v):
    """conditions and outcome with positions of their own replaced by what they are"""
    lits, all_ = list(s.facts.lits), tuple(s.facts.all_)
    while True:
        for l in lits:
            d = definition(l)
            if d is not None:
                break
        else:
            return frozenset(lits), all_, v
        memo = {}
        lits = [y for y in (gsubst(x, d, memo) for x in lits) if y is not TRUE]
        all_, v = gsubst(all_, d, memo), gsubst(v, d, memo)


def definition(l):
    if l.op == 'eq0':
        for m, k in tm.poly(l.a[0])[0].items() if hasattr(tm, 'poly') else poly_parts(l.a[0])[1].items():
            if len(m) == 1 and m[0].op == 'sym' and m[0].a[0].startswith('at#') and abs(k) == 1:
                rest = sub(l.a[0], scale(m[0], k))
                if not any(x is m[0] for x in tm.walk(rest)):
                    return {m[0]: scale(rest, -k)}
    return None


def paths_of(rets, throws):
    return [(s, 'returns') + expanded(s, v) for s, v in rets] + [(s, 'throws') + expanded(s, None) for s, _, _ in throws]


def compare(rep, J, key, w, xs, ys, what, names):
    """two ways of doing the same"""
    rep.count('paths', len(xs) + len(ys))
    index = {}
    for y in ys:
        index.setdefault((y[1], y[2], y[3]), []).append(y)
    restx, seen = [], set()
    for x in xs:
        for y in index.get((x[1], x[2], x[3]), ()):
            if same(x[0].facts, x[4], y[4]) is True or x[1] == 'throws':
                rep.ok(key, what, w)
                seen.add(id(y))
                break
        else:
            restx.append(x)
    resty = [y for y in ys if id(y) not in seen]
    if refuted(J, key, w, restx, ys, what, names) or refuted(J, key, w, resty, xs, what, names[::-1]):
        return
    until = time.time() + 150
    for x in restx:
        for y in ys if len(restx) < 6 else resty:
            if time.time() > until:
                rep.unsure(key, what + ': not all pairs of paths were compared', w)
                return
            against(rep, J, key, w, x, y, what, names)
    for y in resty:
        if not restx:
            for x in xs:
                against(rep, J, key, w, x, y, what, names)


def refuted(J, key, w, xs, ys, what, names):
    """valuations of the paths of one side on which the other side has another outcome"""
    until = time.time() + 60
    xs = sorted((x for x in xs if not x[0].imp), key=lambda x: (x[1] != 'returns', len(x[2])))
    for x in xs:
        if time.time() > until:
            return False
        def bad(ev):
            for y in ys:
                try:
                    if not all(ev.t(l) for l in y[2]) or not evalt.all_hold(ev, y[3]):
                        continue
                    if y[0].imp:
                        return None
                    if y[1] != x[1]:
                        return '%s %s, %s %s' % (names[0], x[1], names[1], y[1])
                    if x[1] == 'returns':
                        p, q = ev.val(x[4]), ev.val(y[4])
                        if p != q:
                            return '%s returns %s, %s returns %s' % (names[0], short(p), names[1], short(q))
                    return None
                except evalt.NoValue:
                    continue
            return None
        st = x[0].with_facts(Facts(tuple(x[2]), tuple(x[3])))
        for extra in ((), tuple(c for n in lengths(x[4]) for c in (le(ONE, n), le(n, C(4))))):
            if J.oracle(key, st, bad, what, w, tries=6, quiet=True, extra=extra) is False:
                return True
    return False


def lengths(v):
    """of the names in an outcome"""
    if isinstance(v, Seq):
        return [p[1].length() for p in v.parts if p[0] == 'e' and isinstance(p[1], Seq)]
    if isinstance(v, tuple):
        return [n for x in v for n in lengths(x)]
    return []


def against(rep, J, key, w, x, y, what, names):
    if x[1] == y[1] == 'throws':
        return
    if any(not_(l) in x[2] for l in y[2]):
        return
    f = Facts(tuple(x[2]), tuple(x[3]))
    for l in y[2]:
        f = f.add(l)
    if FALSE in f.lits or any(f.decide(l) is False for l in y[2]) or clash(f):
        return
    st = St(x[0].store, Facts(f.lits, f.all_ + tuple(y[3])), x[0].imp | y[0].imp, x[0].log)
    if x[1] != y[1]:
        J.impossible(key, st, '%s (%s: %s; %s: %s)' % (what, names[0], x[1], names[1], y[1]), w)
    else:
        J.agree(key, st, y[4], x[4], what, w)


def opened(rep, P, J, cls, i, peel):
    if cls == READERS[0] and i == 0:
        return
    O = [Opened(P, READERS[0], ctors(P, READERS[0])[0], peel), Opened(P, cls, ctors(P, cls)[i], peel)]
    rep.count('functions', 2)
    xs, ys = (paths_of([(s, state(o, s)) for s, _ in o.rets], [z for z in o.throws]) for o in O)
    ys = [y for y in ys if not any(not_(r) in y[2] for r in readable_terms(y[2]))]
    ys = [(s, how, frozenset(l for l in ls if l not in readable_terms(ls)), al, v) for s, how, ls, al, v in ys]
    compare(rep, J, O[1].key, O[1].where, xs, ys, 'the same archives are opened, with the same directory and keys', [o.key for o in O])


def readable_terms(ls):
    return {x for l in ls for x in tm.walk(l) if x.op == 'fn' and x.a[0] == 'readable'}


def state(O, s):
    r = O.rec(s)
    if r is None:
        return Unk('reader')
    return tuple(v for k, v in r.f if not isinstance(v, IStr))


def operations(P, cls, n):
    return methods(P, cls, n)[:1] if n == 'keys' else readers(P, cls, n)


def reading(rep, P, J, n, i):
    fs = operations(P, READERS[0], n)
    f = fs[i]
    gs = [g for g in operations(P, READERS[1], n) if sig(g) == sig(f)]
    if len(gs) != 1:
        rep.unsure('%s %d' % (n, i), 'the corresponding operation was not found', where(P, f))
        return
    R = [Read(P, c, g, ranges=c15.SMALL) for c, g in zip(READERS, (f, gs[0]))]
    rep.count('functions', 2)
    xs, ys = (paths_of(r.rets, r.throws) for r in R)
    compare(rep, J, '%s in memory and on disk' % R[1].key.split('::')[-1], R[1].where, xs, ys, 'the same outcome', [r.key for r in R])


def sig(f):
    return (f['n'], f['rt'].n, len(f.get('targs') or ()))


def overloads(rep, P, J, cls, i):
    """read<T, TENSOR> returns what read<TENSOR<T>> returns"""
    fs = readers(P, cls, 'read')
    f = fs[i]
    if len(f.get('targs') or ()) < 2:
        return
    gs = [g for g in fs if len(g.get('targs') or ()) == 1 and g['rt'].n == f['rt'].n]
    if len(gs) != 1:
        rep.unsure('read overloads', 'the corresponding operation was not found', where(P, f))
        return
    R = [Read(P, cls, g, ranges=c15.SMALL) for g in (gs[0], f)]
    rep.count('functions', 2)
    xs, ys = (paths_of(r.rets, r.throws) for r in R)
    compare(rep, J, R[1].key, R[1].where, xs, ys, 'every overload returns the tensor read', [r.key for r in R])
