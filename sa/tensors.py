"""Tensors in every state a constructor can leave them in."""
from .elements import *
from .project import AnalysisBroken


def tensor_classes(P):
    """[(class type, element type, {member name: [functions]})] of the built-in tensor"""
    by = {}
    for q, fs in P.by_q.items():
        for f in fs:
            t = f.get('rect')
            if t is not None and t.q == 'npy::tensor' and f.get('body') is not None:
                by.setdefault(t.rec, (t, t.targ(0), {}))[2].setdefault(f['n'], []).append(f)
    return [by[k] for k in sorted(by)]


def member(ms, name, pred=None):
    for f in sorted(ms.get(name, ()), key=lambda f: f['m']):
        if pred is None or pred(f):
            return f
    return None


def is_vec(t, of=None):
    t = t.deref()
    return t.q == 'std::vector' and (of is None or t.targ(0).n == of)


def parts(P, t, ms):
    """which fields keep shape, elements and storage order: found from the accessors"""
    out = {}
    I = Interp(P)
    this = I.symval(t, 'tensor')
    st = St().put(('o', 'this'), this)
    for k, n, pred in (('shape', 'shape', lambda f: not f['params']), ('values', 'values', lambda f: not f['params']),
                       ('fortran', 'fortran_order', lambda f: not f['params']), ('dtype', 'dtype', lambda f: not f['params'])):
        f = member(ms, n, pred)
        if f is None:
            continue
        r, th = I.analyse(f, LV(('o', 'this')), [], st)
        if len(r) == 1:
            v = r[0][1]
            if isinstance(v, LV) and v.root == ('o', 'this') and len(v.path) == 1 and v.path[0][0] == 'f':
                out[k] = v.path[0][1]
            else:
                for fn_, x in this.f:
                    if x == v:
                        out[k] = fn_
    return out


SHAPE = 'shape'


def shape_seq(I, t_size, rank, name=SHAPE):
    I.symseq(t_size, name)
    return Seq((('s', base(name), ZERO, rank),))


def shaped_ctor(ms):
    return member(ms, 'tensor', lambda f: len(f['params']) == 2 and is_vec(f['params'][0]['t']) and f['params'][1]['t'].k == 'int' and f['params'][1]['t'].bool)


def build(I, P, t, et, ms, rank, fortran, data=None, shape=SHAPE):
    """the states after construction from an arbitrary shape (rank dimensions), the
    elements then being arbitrary: [(St with ('o','this'), size term)]"""
    f = shaped_ctor(ms)
    if f is None:
        raise AnalysisBroken('the constructor of %s from shape and order was not found' % t.n)
    pr = parts(P, t, ms)
    data = data or 'data<%s>' % elem_name(et)
    if 'values' not in pr or 'shape' not in pr:
        raise AnalysisBroken('the storage of %s was not recognised' % t.n)
    st = St().put(('o', 'shape'), shape_seq(I, f['params'][0]['t'].deref().targ(0), rank, shape))
    st = st.put(('o', 'this'), I.uninit(t, t.n))
    r, th = I.analyse(f, LV(('o', 'this')), [LV(('o', 'shape')), fortran], st)
    out = []
    for s, v in r:
        this = s.store[('o', 'this')]
        vals = dict(this.f)[pr['values']]
        if not isinstance(vals, Seq):
            raise AnalysisBroken('the size of the element storage is not known after construction')
        n = vals.length()
        s = s.put(('o', 'this'), this.put(pr['values'], elem_seq(I, et, data, n)))
        out.append((s, n))
    return out, th, pr


def product(rank, name=SHAPE, frm=ZERO, to=None):
    """the product of the extents in [frm, to)"""
    j = fresh('b', 0)
    n = sub(rank if to is None else to, frm)
    return rprod(j, n, mk_at(name, add(j, frm)))


def mk_at(name, i):
    return at_base(base(name), i)
