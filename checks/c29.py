"""C29: the boolean element type."""
from sa.elements import *


def run(rep):
    rep.rule = ('Every constructor and assignment of the boolean element type is analysed on an arbitrary argument: the single byte of storage is 1 if the argument is '
                'true and 0 otherwise; the conversion back to bool is analysed on both storage values.')
    rep.assumptions += ['the argument types instantiated in harness/api.cpp stand for the types convertible to bool']
    P = program()
    rs = [r for k, r in P.recs.items() if k == 'npy::boolean']
    if not rs:
        raise AnalysisBroken('npy::boolean not found')
    r = rs[0]
    J = Judge(rep, P)
    size = r['t'].size
    if size is None:
        rep.unsure('size', 'the size of the type is not known')
    elif size != 8 and size != 1:
        rep.bad('size', 'the storage is exactly one byte', P.rel(r['l']), 'size %s' % size)
    fs = [f for f in P.fns.values() if f.get('rec') == 'npy::boolean']
    one = [f for f in r['fields'] if not f.get('static')]
    if len(one) != 1:
        rep.unsure('storage', 'the storage is not a single field')
        return 1
    fld = one[0]['n']

    def stored(I, s):
        v = s.store[('o', 'this')]
        x = dict(v.f)[fld] if isinstance(v, Rec) else v
        return slice_(x, 0, 8) if isinstance(x, T) and not is_bool(x) else ite(x, ONE, ZERO) if isinstance(x, T) else x

    for f in sorted(fs, key=lambda f: f['m']):
        if not f.get('body') or f.get('dtor'):
            continue
        w = where(P, f)
        I = Interp(P)
        ps = f['params']
        if f.get('ctor') or f['n'] == 'operator=':
            key = 'boolean(%s)' % ', '.join(p['t'].n for p in ps) if f.get('ctor') else 'boolean = %s' % ps[0]['t'].n
            rep.count('functions')
            this = I.uninit(r['t'], 'npy::boolean') if f.get('ctor') else Rec('npy::boolean', ((fld, sym('before', 0, 1)),))
            st = St().put(('o', 'this'), this)
            cases = []
            if not ps:
                cases = [(None, ZERO)]
            else:
                t = ps[0]['t'].deref()
                if t.rec == 'npy::boolean':
                    v = Rec('npy::boolean', ((fld, sym('value', 0, 1)),))
                    cases = [(v, v.f[0][1])]
                elif t.k == 'ptr':
                    cases = [(Ptr(('o', 'something'), (), ZERO), ONE), (NULL, ZERO)]
                else:
                    v = I.symval(t, 'value')
                    want = truth_of(I, t, v)
                    if want is None:
                        rep.unsure(key, 'the argument type is not modelled', w)
                    else:
                        cases = [(v, want)]
            for v, want in cases:
                st2, args = st, []
                if v is not None:
                    st2 = st.put(('o', 'value'), v)
                    args = [LV(('o', 'value')) if ps[0]['t'].k == 'ref' else v]
                r2, t2 = I.analyse(f, LV(('o', 'this')), args, st2)
                for s, v in r2:
                    rep.count('paths')
                    J.agree(key, s, stored(I, s), want, 'the storage is 1 for true and 0 for false', w)
                    if not f.get('ctor') and isinstance(v, LV):
                        J.agree(key + ' result', s, v, LV(('o', 'this')), 'assignment gives the boolean assigned to', w)
                for s, x, w2 in t2:
                    J.unreachable(key + ' throws', s, 'no exception', w2)
        elif f['n'] == 'operator bool':
            rep.count('functions')
            b = bsym('value')
            st = St().put(('o', 'this'), Rec('npy::boolean', ((fld, ite(b, ONE, ZERO)),)))
            r2, t2 = I.analyse(f, LV(('o', 'this')), [], st)
            for s, v in r2:
                rep.count('paths')
                J.agree('operator bool', s, truth(v) if isinstance(v, T) else v, b, 'the truth value stored', w)
    return 2


def truth_of(I, t, v):
    if isinstance(v, T):
        # a floating-point number is true unless it is zero, of either sign
        b = truth(slice_(v, 0, t.w - 1) if t.k == 'float' else v)
        return ite(b, ONE, ZERO)
    return None
