"""C32: no end record before the archive is closed."""
from sa.arch import *
from . import c19


def run(rep):
    rep.rule = ('Until a writer is closed its stream only ever grows: a constructor leaves it empty, with nothing of an earlier file kept, and no write emits the signature of an end '
                'record. Closing emits one, and nothing but the 18 bytes that complete it follow, so no proper prefix of an archive ends in an end record of it.')
    rep.assumptions += ['what a crash leaves of a file is a prefix of what was written to it, or less', 'names and tensors do not themselves contain an end record at the point of the interruption']
    P = program()
    jobs = [(x, cls, None) for cls in WRITERS for x in ('write', 'close')] + [('ctor', cls, f) for cls in WRITERS for f in ctors(P, cls)]
    pmap(rep, lambda r, j: globals()[j[0]](r, P, Judge(r, P), j[1], j[2]), jobs, names=['%s::%s' % (c, x) for x, c, f in jobs])
    return 1


def write(rep, P, J, cls, _):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'write')
    W, key, w = R.W, R.key, R.where
    rep.count('functions')
    for st, o, at in R.I.marks:
        J.unreachable(key, st, 'no write emits the signature of an end record', at or w)
    if not R.I.marks:
        rep.ok(key, 'no write emits the signature of an end record', w)
    for s in [x[0] for x in R.rets] + [x[0] for x in R.throws]:
        rep.count('paths')
        grown(J, R, key, s, w, 'what an earlier operation wrote stays in place')


def grown(J, R, key, s, w, what):
    o, es, c = R.W.of(s)
    old = R.W.before.parts
    if isinstance(o, OStr) and isinstance(o.content, Seq) and o.content.parts[:len(old)] == old:
        J.rep.ok(key, what, w)
    elif isinstance(o, OStr) and isinstance(o.content, Seq):
        J.holds(key, s, le(R.W.before.length(), o.content.length()), what, w)
        J.rep.unsure(key, what, w)
    else:
        J.rep.unsure(key, what, w)


def close(rep, P, J, cls, _):
    evalt.VIRTUAL = frozenset(VIRTUAL)
    R = Run(P, cls, 'close')
    W, key, w = R.W, R.key, R.where
    rep.count('functions')
    marks = R.I.marks
    for s, v in R.rets:
        rep.count('paths')
        grown(J, R, key, s, w, 'what earlier operations wrote stays in place')
        o, es, c = W.of(s)
        if not isinstance(o, OStr) or not isinstance(o.content, Seq):
            continue
        n = o.content.length()
        tail = o.content.parts[-22:]
        if [p[1].const if p[0] == 'e' and isinstance(p[1], T) else None for p in tail[:4]] == [0x50, 0x4b, 5, 6] and all(p[0] == 'e' for p in tail) and len(tail) == 22:
            rep.ok(key, 'the end record is the last thing emitted', w)
            early(J, rep, key, s, o.content.parts[:-22], w)
            continue
        if not marks:
            if o.content.parts and not hidden(o.content):
                rep.bad(key, 'closing completes the archive with an end record', w, 'none is emitted')
            else:
                rep.unsure(key, 'whether closing emits an end record is not known', w)
            continue
        for st, before, at in marks:
            # what was there when the signature was emitted, and 22 bytes
            J.holds(key, s, le(n, add(before.content.length(), C(22))), 'the end record is the last thing emitted', at or w)


def early(J, rep, key, s, parts, w):
    what = 'only one end record is emitted'
    if signature(parts):
        rep.bad(key, what, w, 'another one is emitted before: %s' % short(Seq(parts)))
    else:
        rep.ok(key, what, w)


def signature(parts):
    """the signature of an end record occurs among the bytes the code itself emits"""
    row = []
    for p in parts:
        if p[0] == 'e' and isinstance(p[1], T):
            row.append(p[1].const)
            if row[-4:] == [0x50, 0x4b, 5, 6]:
                return True
            continue
        row = []
        if p[0] == 'i' and (signature(p[2]) or signature(p[3])) or p[0] == 'c' and signature(p[3]):
            return True
    return False


def ctor(rep, P, J, cls, f):
    key = '%s(%s)' % (cls.split('::')[-1], ', '.join(p['t'].deref().n.split('<')[0] for p in f['params'][:-2]))
    w = where(P, f)
    rep.count('functions')
    I, rs, th = constructed(P, cls, f)
    W = Writer(P, I, cls)
    for s, r in rs:
        rep.count('paths')
        o = r.get(W.stream) if isinstance(r, Rec) else None
        if isinstance(o, OStr) and isinstance(o.content, Seq):
            J.agree(key, s, o.content.length(), ZERO, 'the archive starts empty: nothing of an earlier file is kept', w)
        else:
            rep.unsure(key, 'what the stream holds after construction is not known', w)
