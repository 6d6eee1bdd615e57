"""C03: type codes."""
from sa.tensors import *

# NumPy's codes; one-byte types have no byte order
ORDER = {'LITTLE': '<', 'BIG': '>'}
ITEM = {v[0]: (v[1], v[2]) for v in TYPES.values()}


def code(dtype, order, be):
    kind, size = ITEM[dtype]
    if order == 'NATIVE':
        order = 'BIG' if be else 'LITTLE'
    return ('|' if size == 1 else ORDER[order]) + kind + str(size)


def required():
    """canonical code -> (type, order or None)"""
    out = {}
    for d, (k, n) in ITEM.items():
        if n == 1:
            out['|%s%d' % (k, n)] = (d, None)
        else:
            for o, c in ORDER.items():
                out['%s%s%d' % (c, k, n)] = (d, o)
    return out


def synonyms():
    """other spellings NumPy understands, with their only meaning"""
    out = {'?': ('BOOL', None), '|?': ('BOOL', None)}
    for d, (k, n) in ITEM.items():
        for c in ('', '=', '|', '<', '>'):
            o = {'<': 'LITTLE', '>': 'BIG'}.get(c, 'NATIVE') if n > 1 else None
            out['%s%s%d' % (c, k, n)] = (d, o)
    return {k: v for k, v in out.items() if k not in required()}


def is_text(name, s):
    """the string called name is this text"""
    b = base(name)
    return [eq(len_base(b), C(len(s)))] + [eq(at_base(b, C(i)), C(ord(c))) for i, c in enumerate(s)]


def run(rep):
    rep.rule = ('The code produced for every element type, byte order and host is computed from the source by constant propagation and equals NumPy\'s; the parser of '
                'type codes is analysed on an arbitrary string, and on each of its paths the strings that can take it are exactly those with that meaning.')
    rep.assumptions += ['type codes are those of NumPy\'s documentation (kind letter, item size, byte-order mark)', 'host byte order is little or big']
    P = program()
    jobs = []
    for f in find(P, 'npy::to_dtype'):
        if len(f['params']) == 2:
            for be in (False, True):
                for d in ITEM:
                    for o in ('LITTLE', 'BIG', 'NATIVE'):
                        jobs.append(('to', f, d, o, be))
    for f in find(P, 'npy::from_dtype'):
        if len(f['params']) == 1:
            jobs.append(('from', f, None, None, False))
    for t, et, ms in tensor_classes(P):
        if elem_name(et) in TYPES:
            for f in ms.get('dtype', ()):
                for be in (False, True):
                    jobs.append(('tensor', (t, et, ms, f), None, None, be))
    for k in ('to', 'from', 'tensor'):
        if not any(j[0] == k for j in jobs):
            rep.unsure(k, 'no definition found')
    pmap(rep, lambda r, j: check(r, P, Judge(r, P), *j), jobs, names=[j[0] for j in jobs])
    return 1


def text(I, s, v):
    return I.load(s, v) if isinstance(v, LV) else v


def check(rep, P, J, kind, f, d, o, be):
    if be and P.uses_byte_order:
        rep.unsure(kind, 'the sources select code by the host\'s byte order at compile time: only this host\'s branch is analysed')
        return
    host = 'on %s-endian hosts' % ('big' if be else 'little')
    if kind == 'to':
        rep.count('codes produced')
        I = Interp(P, be=be)
        r, t = I.analyse(f, None, [C(enum(P, DTYPE, d)), C(enum(P, ENDIAN, o))], St())
        key = 'to_dtype(%s, %s) %s' % (d, o, host)
        for s, v in r:
            J.agree(key, s, text(I, s, v), lits(code(d, o, be)), 'the code is NumPy\'s for the type', where(P, f))
        for s, x, w in t:
            J.unreachable(key + ' throws', s, 'every type has a code', w)
    elif kind == 'tensor':
        t, et, ms, f = f
        rep.count('functions')
        en = elem_name(et)
        I = Interp(P, be=be)
        rank = sym('rank', 0, 1 << 50)
        states, _, pr = build(I, P, t, et, ms, rank, bsym('fortran'))
        w = where(P, f)
        for st, n in states:
            if not f['params']:
                r, th = I.analyse(f, LV(('o', 'this')), [], st)
                key = 'tensor<%s>::dtype() %s' % (en, host)
                for s, v in r:
                    J.agree(key, s, text(I, s, v), C(enum(P, DTYPE, TYPES[en][0])), 'the type reported is that of the elements', w)
            else:
                th = []
                for o in ('LITTLE', 'BIG', 'NATIVE'):
                    key = 'tensor<%s>::dtype(%s) %s' % (en, o, host)
                    r, th2 = I.analyse(f, LV(('o', 'this')), [C(enum(P, ENDIAN, o))], st)
                    th = th + th2
                    for s, v in r:
                        J.agree(key, s, text(I, s, v), lits(code(TYPES[en][0], o, be)), 'the code is NumPy\'s for the element type', w)
            for s, x, w2 in th:
                J.unreachable('tensor<%s>::dtype throws' % en, s, 'every tensor has a type', w2)
    else:
        parse(rep, P, J, f)


def parse(rep, P, J, f):
    rep.count('functions')
    I = Interp(P)
    I.split_maps = True
    args, st = prepare(I, f, n0='code')
    r, t = I.analyse(f, None, args, st)
    w = where(P, f)
    req, syn = required(), synonyms()
    alls = dict(req)
    alls.update(syn)
    left = set(req)
    for s, v in r:
        rep.count('paths')
        v = text(I, s, v)
        if not isinstance(v, Rec):
            rep.unsure('from_dtype', 'the result is not known', w)
            continue
        ty, en = v.f[0][1], v.f[1][1]
        some = False
        for k, (d, o) in alls.items():
            fs = s.facts
            for x in is_text('code', k):
                fs = fs.add(x)
            if fs.infeasible() or contradictory(fs):
                continue
            some = True
            left.discard(k)
            s2 = s.with_facts(fs)
            J.agree('from_dtype(%s) type' % k, s2, ty, C(enum(P, DTYPE, d)), 'the code means this type', w)
            if o is not None:
                opts = [C(enum(P, ENDIAN, o))]
                J.agree('from_dtype(%s) order' % k, s2, en, opts[0], 'the code means this byte order', w)
        J.holds('from_dtype unsupported codes', s, or_(*[and_(*is_text('code', k)) for k in alls]), 'only supported codes are accepted', w)
    for k in sorted(left):
        rep.count('codes refused')
    for s, x, w2 in t:
        rep.count('paths')
        for k in req:
            fs = s.facts
            for y in is_text('code', k):
                fs = fs.add(y)
            J.impossible('from_dtype(%s) accepted' % k, s.with_facts(fs), 'the code is accepted', w2)
