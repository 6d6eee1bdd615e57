"""C11: the element storage of a tensor always matches its shape."""
from sa.tensors import *
from sa.models import splice, obl_range

MAX64 = (1 << 64) - 1


def exact_product(facts, rank, name=SHAPE):
    """if the product modulo 2^64 of the extents is known not to have wrapped (shown by
    induction over the dimensions from the facts): the equation saying so"""
    j = fresh('dim', 0)
    full = product(rank, name)
    w = slice_(full, 0, 64)
    if w is full:
        return TRUE
    p = fresh('product', 0, MAX64)
    upto = product(j, name)
    env = {slice_(upto, 0, 64): p, upto: p}
    fs = Facts((), ())
    for l in facts.lits:
        fs = fs.add(l)
    fs = fs.add(lt(j, rank))
    for k, n, ls in facts.all_:
        if facts.add(lt(j, rank)).decide(lt(j, n)) is True:
            for l in ls:
                for x in clauses(subst(subst(l, {k: j}), env)):
                    fs = fs.add(x)
    if entails(fs, le(mul(p, mk_at(name, j)), C(MAX64))):
        return eq(w, full)
    return None


def source_tensor(I, P, t, et, ms, tag):
    """another valid tensor: [(St, rec)]"""


def run(rep):
    rep.rule = ('Every constructor, assignment, loader and bulk setter of every built-in tensor type is analysed on every shape and every valid tensor: the '
                'closed form of the number of elements left in the storage equals the product of the extents left in the shape (that the product did not wrap is '
                'shown by induction over the dimensions from the facts of the path), shape, order, type and values are those of the source, and refusals change nothing.')
    rep.assumptions += ['ranks below 2^50', 'standard library containers behave as specified']
    P = program()
    cl = tensor_classes(P)
    if not cl:
        raise AnalysisBroken('no tensor class found')
    jobs = []
    for t, et, ms in cl:
        for nm in ('tensor', 'operator=', 'load', 'copy_from', 'move_from'):
            for f in sorted(ms.get(nm, ()), key=lambda f: f['m']):
                jobs.append((t, et, ms, f))
    pmap(rep, lambda r, j: check(r, P, *j), jobs, names=[label(j[0], j[3]) for j in jobs])
    return 1


def label(t, f):
    return 'tensor<%s>::%s(%s)' % (elem_name(t.targ(0)), f['n'], ', '.join(p['t'].n.replace(t.n, 'tensor') for p in f['params']))


def check(rep, P, t, et, ms, f):
    J = Judge(rep, P)
    key, w = label(t, f), where(P, f)
    ps = f['params']
    rank = sym('rank', 0, 1 << 50)
    fortran = bsym('fortran')
    pr = parts(P, t, ms)
    if 'values' not in pr or 'shape' not in pr:
        raise AnalysisBroken('storage not recognised')
    code = C(enum(P, DTYPE, 'UNICODE_STRING' if elem_name(et) == 'std::wstring' else TYPES[elem_name(et)][0]))
    I = Interp(P)
    rep.count('functions')

    def invariant(s, rec, shape_name, rk, order, w, throws=False):
        fl = dict(rec.f)
        vals = fl[pr['values']]
        J.agree(key + ' shape', s, fl[pr['shape']], Seq((('s', base(shape_name), ZERO, rk),)), 'the shape is the one asked for', w)
        if 'fortran' in pr and order is not None:
            J.agree(key + ' order', s, truth(fl[pr['fortran']]), order, 'the storage order is the one asked for', w)
        if 'dtype' in pr:
            J.agree(key + ' type', s, fl[pr['dtype']], code, 'the type is that of the elements', w)
        if not isinstance(vals, Seq):
            rep.unsure(key + ' size', 'the number of elements is not known', w)
            return
        x = exact_product(s.facts, rk, shape_name)
        J.agree(key + ' size', s, vals.length(), product(rk, shape_name), 'there are as many elements as the shape says', w, (x,) if x is not None else ())

    def refused(th, kinds=('std::invalid_argument',)):
        for s, x, w2 in th:
            rep.count('paths')
            if x.q in kinds or x.q.startswith('H'):
                rep.ok(key + ' refusal', 'refused with %s' % x.q, w2)
            else:
                J.unreachable(key + ' refusal', s, 'refusals are reported as %s, not %s' % (' or '.join(kinds), x.q), w2)

    if f['n'] == 'tensor' and ps and is_vec(ps[0]['t']):
        st = St().put(('o', 'shape'), shape_seq(I, ps[0]['t'].deref().targ(0), rank)).put(('o', 'this'), I.uninit(t, t.n))
        args = [LV(('o', 'shape'))] + ([fortran] if len(ps) > 1 else [])
        r, th = I.analyse(f, LV(('o', 'this')), args, st)
        for s, v in r:
            rep.count('paths')
            invariant(s, s.store[('o', 'this')], SHAPE, rank, fortran if len(ps) > 1 else FALSE, w)
        refused(th)
        return
    states, _, _ = build(I, P, t, et, ms, rank, fortran)
    if f['n'] in ('tensor', 'operator=') and len(ps) == 1 and ps[0]['t'].deref().rec == t.rec:
        for st, n in states:
            src = st.store[('o', 'this')]
            st = st.put(('o', 'other'), src)
            if f['n'] == 'tensor':
                st = st.put(('o', 'this'), I.uninit(t, t.n))
                cases = [(st, 'other')]
            else:
                # another tensor of another shape
                I2 = I
                rank2 = sym('rank2', 0, 1 << 50)
                b2, _, _ = build(I2, P, t, et, ms, rank2, bsym('fortran2'), 'data2<%s>' % elem_name(et), 'shape2')
                cases = []
                for s2, n2 in b2:
                    m = St(st.store, st.facts, st.imp, st.log).put(('o', 'this'), s2.store[('o', 'this')])
                    fs = m.facts
                    for l in s2.facts.lits:
                        fs = fs.add(l)
                    cases.append((m.with_facts(Facts(fs.lits, fs.all_ + s2.facts.all_)), 'other'))
                if not ps[0]['t'].rv:
                    cases.append((st.put(('o', 'this'), src), 'this'))
            for st2, other in cases:
                r, th = I.analyse(f, LV(('o', 'this')), [LV(('o', other))], st2)
                for s, v in r:
                    rep.count('paths')
                    J.agree(key + (' self' if other == 'this' else ''), s, s.store[('o', 'this')], src, 'shape, order, type and values are those of the source', w)
                    if other == 'other' and not ps[0]['t'].rv:
                        J.agree(key + ' source', s, s.store[('o', 'other')], src, 'the source of a copy stays as it is', w)
                    if f['n'] == 'operator=' and isinstance(v, LV):
                        J.agree(key + ' result', s, v, LV(('o', 'this')), 'assignment gives the tensor assigned to', w)
                for s, x, w2 in th:
                    J.unreachable(key + ' throws', s, 'copying and moving does not throw %s' % x.q, w2)
        return
    if f['n'] == 'load' and len(ps) == 2:
        I = Interp(P, opaque=dict(read_values=lambda I, st, this, args, e: read_stub(I, st, args, et, calls)))
        calls = []
        st, pos = input_stream(St())
        info = I.symval(ps[1]['t'].deref(), 'info')
        nm = 'shape'
        I.symseq(shape_elem(P), nm)
        info = info.put('shape', Seq((('s', base(nm), ZERO, rank),)))
        st = st.put(('o', 'info'), info)
        d = dict(info.f)
        r, th = I.analyse(f, None, [LV(('o', 'in')), LV(('o', 'info'))], st)
        for s, v in r:
            rep.count('paths')
            if not isinstance(v, Rec):
                rep.unsure(key, 'the tensor returned is not known', w)
                continue
            invariant(s, v, nm, rank, truth(d['fortran_order']), w)
            J.agree(key + ' type checked', s, d['dtype'], code, 'only a file of the tensor\'s own element type is loaded', w)
            vals = dict(v.f)[pr['values']]
            if isinstance(vals, Seq):
                J.agree(key + ' filled', s, vals, Seq((('s', base('loaded<%s>' % elem_name(et)), ZERO, vals.length()),)), 'every element comes from the stream', w)
        for i in calls:
            J.agree(key + ' description', i[0], i[1], info, 'the elements are read with the description of the file', w)
        refused(th, ('std::invalid_argument', 'std::runtime_error'))
        return
    if f['n'] in ('copy_from', 'move_from'):
        for st, n in states:
            before = st.store[('o', 'this')]
            m = sym('count', 0, 1 << 55)
            nm = 'source<%s>' % elem_name(et)
            src = elem_seq(I, et, nm, m)
            st = st.put(('o', 'source'), src)
            args = [LV(('o', 'source'))] if is_vec(ps[0]['t']) else [Ptr(('o', 'source'), (), ZERO), m]
            r, th = I.analyse(f, LV(('o', 'this')), args, st)
            for s, v in r:
                rep.count('paths')
                J.holds(key + ' count', s, eq(m, n), 'only as many values as there are elements are accepted', w)
                after = s.store[('o', 'this')]
                vals = dict(after.f)[pr['values']]
                J.agree(key + ' values', s, bits(vals, et), bits(src, et), 'the elements are the values given', w, (eq(m, n),))
                J.agree(key + ' rest', s, after.put(pr['values'], ZERO), before.put(pr['values'], ZERO), 'shape and order stay as they are', w)
            for s, x, w2 in th:
                rep.count('paths')
                J.impossible(key + ' accepted', s.with_facts(s.facts.add(eq(m, n))), 'as many values as there are elements are accepted', w2)
                J.agree(key + ' unchanged', s, s.store[('o', 'this')], before, 'a refused call changes nothing', w2)
            refused(th)


def read_stub(I, st, args, et, calls):
    """what read_values does to the tensor's storage (C02): n elements from there on
    come from the stream"""
    p, n = args[1], I.load(st, args[2]) if isinstance(args[2], LV) else args[2]
    i = I.load(st, args[3]) if isinstance(args[3], LV) else args[3]
    calls.append((st, i))
    if not isinstance(p, Ptr) or p.view is not None:
        return None
    nm = 'loaded<%s>' % elem_name(et)
    new = elem_seq(I, et, nm, n)
    obl_range(I, st, LV(p.root, p.path), p.idx or ZERO, n, None, 'elements read into the storage')
    return [(splice(I, st, LV(p.root, p.path), p.idx or ZERO, new), None)]


def bits(s, et):
    return bit_seq(s, TYPES[elem_name(et)][2]) if isinstance(s, Seq) and elem_name(et) in TYPES else s


def shape_elem(P):
    for f in P.fns.values():
        for p in f['params']:
            t = p['t'].deref()
            if t.q == 'std::vector' and t.targ(0).n == 'unsigned long':
                return t.targ(0)
    raise AnalysisBroken('std::vector<std::size_t> not found')
