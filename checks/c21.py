"""C21: the codec is used to the end of its stream and always released."""
from sa.elements import *
from sa import models as md
from sa.seq import BASES

OK, END, DICT, DATA, MEM, BUF = 0, 1, 2, -3, -4, -5
FINISH = 4
Z, FED, OUT, LAST, USES = ('o', '#z'), ('o', '#fed'), ('o', '#out'), ('o', '#last'), ('o', '#uses')
IDLE, OPEN, ENDED = 0, 1, 2


def run(rep):
    rep.rule = ('Typestate and data flow of the codec interface in every function that uses it: each path, with a codec that consumes and produces any amount and returns any '
                'status its contract allows, is followed. Every call is made between one initialisation and one release, with counts within the buffers; every way out has released '
                'the codec; a value is returned only after the codec reported the end of its stream and is what the codec produced, in order, from the input in order without gaps.')
    rep.assumptions += ['contract of the codec: it consumes at most avail_in and produces at most avail_out bytes; the compressor stops only at the end of its stream, with the input used up '
                        'or the output full, and ends only after Z_FINISH with all input used', 'memory allocation succeeds', 'standard library streams behave as specified',
                        'errors of the codec other than Z_BUF_ERROR (no progress possible) persist, and after the end of its stream it reports the end again', 'the codec loops are followed for a bounded number of calls per path (three fillings of the input buffer, two calls for each)']
    P = program()
    jobs = []
    for f in P.fns.values():
        u = uses(P, f, set())
        if u and f.get('body') and not f.get('lambda') and P.rel(f['l']).startswith(('src/zip', 'include', 'src/npz', 'src/npy')) and returns_text(f) and f.get('rect') is None:
            jobs.append((f, u))
    if not jobs:
        raise AnalysisBroken('no function uses the codec')
    pmap(rep, lambda r, j: check(r, P, Judge(r, P), *j), jobs, names=[j[0]['n'] for j in jobs])
    return 4


def returns_text(f):
    return f['rt'].q == 'std::basic_string' and len(f['params']) == 1 and f['params'][0]['t'].deref().q == 'std::basic_string'


def callees(b, out):
    if isinstance(b, dict):
        if b.get('k') in ('call', 'mcall') and isinstance(b.get('fn'), dict):
            out.append(b['fn'])
        for v in b.values():
            callees(v, out)
    elif isinstance(b, (list, tuple)):
        for v in b:
            callees(v, out)
    return out


def uses(P, f, seen):
    """which way of the codec the function drives, directly or through helpers"""
    if f['m'] in seen:
        return None
    seen.add(f['m'])
    for c in callees(f.get('body'), []):
        if c['n'] in ('mz_deflate', 'deflate'):
            return 'deflate'
        if c['n'] in ('mz_inflate', 'inflate'):
            return 'inflate'
        g = P.fns.get(c['m'])
        if g is not None and g.get('body') and not g['q'].startswith(('std::', 'mz_', 'tdefl', 'tinfl')):
            u = uses(P, g, seen)
            if u:
                return u
    return None


class Codec:
    def __init__(self, kind):
        self.kind = kind
        self.pairs = []          # (consumed, available) of every call
        self.demands = []        # (key, st, condition, what, where)

    def handlers(self):
        out = {}
        for k in ('deflate', 'inflate'):
            out['mz_%sInit2' % k] = out['mz_%sInit' % k] = lambda *a, k=k: self.init(k, *a)
            out['mz_' + k] = lambda *a, k=k: self.step(k, *a)
            out['mz_%sEnd' % k] = lambda *a, k=k: self.end(k, *a)
        return out

    def demand(self, I, key, st, cond, what, e):
        self.demands.append((key, st, cond, what, I.where(e)))

    def state(self, st):
        return st.store.get(Z, C(IDLE)).const

    def init(self, k, I, st, this, args, e):
        self.demand(I, 'initialised once', st, TRUE if self.state(st) == IDLE else FALSE, 'the codec is initialised once', e)
        bad = fresh('initret', -10000, -1)
        ok = st.put(Z, C(OPEN)).put(FED, EMPTY).put(OUT, EMPTY).put(USES, C(0))
        # the codec's own members are its business; it starts with nothing consumed
        return [(ok, C(OK)), (st, bad)]

    def member(self, I, st, p, n):
        lv = LV(p.root, p.path + (('f', n),))
        return lv, I.load(st, lv)

    def where(self, p):
        if isinstance(p, Ptr) and p.root is not None:
            return p
        return None

    def step(self, k, I, st, this, args, e):
        z = args[0]
        if isinstance(z, Ptr):
            z = LV(z.root, z.path)
        if not isinstance(z, LV):
            return None
        self.demand(I, 'used while open', st, TRUE if self.state(st) == OPEN else FALSE, 'the codec is used only between its initialisation and its release', e)
        lin, nin = self.member(I, st, z, 'next_in')
        lai, ain = self.member(I, st, z, 'avail_in')
        lout, nout = self.member(I, st, z, 'next_out')
        lao, aout = self.member(I, st, z, 'avail_out')
        if st.store.get(FED) is None:
            return []
        if not isinstance(ain, T) or not isinstance(aout, T):
            return None
        for nm, p, n in (('input', nin, ain), ('output', nout, aout)):
            c = I.container_len(st, p) if isinstance(p, Ptr) and p.root is not None else None
            if c is not None:
                self.demand(I, nm + ' within its buffer', st, or_(eq(n, ZERO), le(add(p.idx or ZERO, n), c)), 'the codec is given no more than the %s buffer holds' % nm, e)
            elif not (n is ZERO):
                self.demand(I, nm + ' within its buffer', st.imprecise('the %s buffer' % nm), FALSE, 'the codec is given no more than the %s buffer holds' % nm, e)
        last = st.store.get(LAST)
        if k == 'deflate':
            fl = args[1]
            fl = I.load(st, fl) if isinstance(fl, LV) else fl
            if not isinstance(fl, T):
                return None
        if last is not None and last.const == END:
            # nothing more happens
            if k == 'inflate':
                return [(st, C(END))]
            return [(st.with_facts(f), r) for f, r in ((together(st.facts, [eq(fl, C(FINISH))]), C(END)), (together(st.facts, [not_(eq(fl, C(FINISH)))]), C(BUF))) if FALSE not in f.lits and not clash(f)]
        if last is not None and last.const == -1:
            return [(st, fresh('codecret', -10000, -1) if k == 'deflate' else C(DATA))]
        n = st.store[USES].const + 1
        used, made = fresh('used', 0, (1 << 32) - 1), fresh('made', 0, (1 << 32) - 1)
        st = st.put(USES, C(n)).assume(le(used, ain)).assume(le(made, aout))
        fed = md.byte_seq(I, st, nin, used) if isinstance(nin, Ptr) and nin.root is not None else None
        self.pairs.append((used, ain))
        b = base('codec#%d' % n)
        BASES['codec#%d' % n] = dict(lo=0, hi=255)
        seg = Seq((('s', b, ZERO, made),))
        st = st.put(FED, st.store[FED] + fed if fed is not None else Unk('codec input')) if isinstance(st.store[FED], Seq) else st
        st = st.put(OUT, st.store[OUT] + seg) if isinstance(st.store[OUT], Seq) else st
        if isinstance(nout, Ptr) and nout.root is not None:
            st = md.put_bytes(I, st, nout, seg, made)
            st = I.store(st, lout, nout.but(idx=add(nout.idx or ZERO, made)) if hasattr(nout, 'but') else Ptr(nout.root, nout.path, add(nout.idx or ZERO, made)))
        if isinstance(nin, Ptr) and nin.root is not None:
            st = I.store(st, lin, nin.but(idx=add(nin.idx or ZERO, used)) if hasattr(nin, 'but') else Ptr(nin.root, nin.path, add(nin.idx or ZERO, used)))
        ai, ao = sub(ain, used), sub(aout, made)
        st = I.store(I.store(st, lai, ai), lao, ao)
        for m in ('total_in', 'total_out', 'adler'):
            l, v = self.member(I, st, z, m)
            if isinstance(v, T):
                st = I.store(st, l, fresh('codec ' + m, 0, 1 << 62))
        out = []

        def way(conds, ret, last):
            f = together(st.facts, conds)
            if FALSE not in conds and not clash(f):
                out.append((st.with_facts(f).put(LAST, C(last)), ret))
        stuck = [eq(used, ZERO), eq(made, ZERO)]
        if k == 'deflate':
            way([eq(fl, C(FINISH)), eq(ai, ZERO)], C(END), END)
            way([eq(ao, ZERO)], C(OK), OK)
            way([ge0(sub(ao, ONE)), eq(ai, ZERO), not_(eq(fl, C(FINISH)))], C(OK), OK)
            way(stuck + [eq(ai, ZERO), not_(eq(fl, C(FINISH)))], C(BUF), OK)
            way([], fresh('codecret', -10000, -1), -1)
        else:
            way([], C(END), END)
            way([], C(OK), OK)
            way([], C(DICT), -1)
            way(stuck + [or_(eq(ai, ZERO), eq(ao, ZERO))], C(BUF), OK)
            way([], C(DATA), -1)
            way([], C(MEM), -1)
        return out

    def end(self, k, I, st, this, args, e):
        s = self.state(st)
        self.demand(I, 'released once', st, TRUE if s == OPEN else FALSE, 'the codec is released once, after its initialisation', e)
        return [(st.put(Z, C(ENDED)), C(OK))]


def check(rep, P, J, f, kind):
    w = where(P, f)
    key = f['n']
    BASES['bytes'] = dict(lo=0, hi=255)
    src = whole(base('bytes'))
    st = St().put(('o', 'bytes'), src)
    a = LV(('o', 'bytes')) if f['params'][0]['t'].k == 'ref' else src
    for peel in ((2, 1), (1, 1), (1, 0)):
        codec = Codec(kind)
        I = Interp(P, opaque=codec.handlers())
        I.split = True
        I.loose_reads = True
        I.peel = peel
        try:
            r, t = I.analyse(f, None, [a], st)
            break
        except GiveUp as e:
            gave = e
    else:
        rep.unsure(key, 'analysis gave up: %s' % gave, w)
        return
    rep.count('functions')
    for kind_, s, c, w2, what, q in I.obls:
        if kind_ != 'bounds':
            continue
        J.holds(key + ' bounds', s, c, 'buffers are accessed within their bounds', w2)
    rep.count('codec calls', len(codec.demands))
    for k, s, c, what, w2 in codec.demands:
        k = key + ' ' + k
        if c is TRUE:
            rep.ok(k, what, w2)
        elif c is FALSE:
            J.unreachable(k, s, what, w2)
        else:
            J.holds(k, s, c, what, w2)
    L = len_base(base('bytes'))
    n = 0
    for s, v in r:
        rep.count('paths returning')
        last = s.store.get(LAST)
        z = codec.state(s)
        if z == IDLE:
            rep.unsure(key + ' returns', 'not decided: a value is returned without the codec', w)
            continue
        n += 1
        one(rep, J, key + ' end', s, last is not None and last.const == END, 'a value is returned only after the codec reported the end of its stream', w)
        one(rep, J, key + ' released on return', s, z == ENDED, 'the codec is released when the function returns', w)
        out, fed = s.store[OUT], s.store[FED]
        if not isinstance(v, Seq) or not isinstance(out, Seq):
            rep.unsure(key + ' result', 'not decided: the value returned is not followed', w)
        else:
            J.agree(key + ' result', s, v, out, 'the value returned is what the codec produced, in order', w)
            J.agree(key + ' result length', s, v.length(), out.length(), 'as many bytes are returned as the codec produced', w)
        if not isinstance(fed, Seq):
            rep.unsure(key + ' input', 'not decided: what the codec was given is not followed', w)
        elif kind == 'deflate':
            fed = consumed(codec, s)
            m = fed.length()
            J.agree(key + ' input', s, fed, src.slice(ZERO, m, I.dec(s)), 'the codec was given the bytes from the first on, in order', w)
            J.holds(key + ' all input', maxima(s), le(L, m), 'the codec was given all bytes', w)
        else:
            fed = consumed(codec, s)
            m = fed.length()
            J.agree(key + ' input', s, fed, src.slice(ZERO, m, I.dec(s)), 'the codec was given the bytes from the first on, in order', w)
    for s, x, w2 in t:
        rep.count('paths throwing')
        one(rep, J, key + ' released on exception', s, codec.state(s) != OPEN, 'the codec is released when an exception leaves the function', w2)
        if codec.state(s) != IDLE and isinstance(s.store.get(FED), Seq):
            last = s.store.get(LAST)
            if last is not None and last.const == -1:
                rep.ok(key + ' gives up', 'it fails only when the codec reported an error or the input is used up', w2)
            else:
                J.holds(key + ' gives up', maxima(s), le(L, consumed(codec, s).length()), 'it fails only when the codec reported an error or the input is used up', w2)
        if x.q == '!abort':
            J.unreachable(key + ' abort', s, 'no path ends the process', w2)
    if not n:
        (rep.unsure if I.left or not t else rep.bad)(key, 'no path returns what the codec produced', w)


def consumed(codec, s):
    """the input used, with the lengths the path determines"""
    return gsubst(s.store[FED], {u: simplified(n, s.facts) for u, n in codec.pairs if s.facts.decide(ge0(sub(u, n))) is True}, {})


def maxima(s):
    """a maximum that is zero is zero on one side"""
    more = []
    for l in s.facts.lits:
        if l.op == 'eq0' and any(x.op in ('max', 'min') for x in tm.walk(l)):
            x = l
            for _ in range(4):
                x = simplified(x, s.facts, equations=False)
            if x is not l and x.op != 'c':
                more.append(x)
        if l.op == 'eq0' and l.a[0].op in ('max', 'min'):
            more.append(or_(*[eq(x, ZERO) for x in l.a[0].a]))
            for x in l.a[0].a:
                if isinstance(x, T) and x.op in ('max', 'min'):
                    more.append(or_(ne(x, ZERO), *[eq(y, ZERO) for y in x.a]))
    return s.with_facts(together(s.facts, more)) if more else s


def one(rep, J, key, s, ok, what, w):
    if ok:
        rep.ok(key, what, w)
    else:
        J.unreachable(key, s, what, w)
