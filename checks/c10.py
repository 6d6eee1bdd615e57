"""C10 and C09: index arithmetic and bounds checks of the tensor's element access."""
from sa.tensors import *

ACCESS = ('operator()', 'get', 'set')


def jobs(P):
    """[(class, element type, members, function)] for every element access function"""
    for t, et, ms in tensor_classes(P):
        if os.environ.get("ONE") and et.n != os.environ["ONE"]:
            continue
        for nm in ACCESS:
            for f in sorted(ms.get(nm, ()), key=lambda f: f['m']):
                yield t, et, ms, f


def label(t, f):
    n = elem_name(t.targ(0))
    return 'tensor<%s>::%s(%s)%s' % (n, f['n'], ', '.join('vector<%s>' % p['t'].deref().targ(0).n if is_vec(p['t']) else p['t'].deref().n for p in f['params']), ' const' if f.get('const') else '')


class Access:
    """one access function analysed on every valid tensor and every index"""

    def __init__(self, P, t, et, ms, f):
        self.P, self.t, self.et, self.f = P, t, et, f
        self.I = I = Interp(P)
        self.rank = sym('rank', 0, 1 << 50)
        self.fortran = bsym('fortran')
        states, _, self.parts = build(I, P, t, et, ms, self.rank, self.fortran)
        self.rets, self.throws = [], []
        ps = f['params']
        vec = bool(ps) and is_vec(ps[0]['t'])
        self.count = sym('count', 0, 1 << 50) if vec else C(len(ps))
        self.width = None
        for st, n in states:
            self.before = st.store[('o', 'this')]
            args = []
            self.value = None
            if vec:
                it = ps[0]['t'].deref().targ(0)
                self.name = 'index:' + it.n
                I.symseq(it, self.name)
                st = st.put(('o', 'index'), Seq((('s', base(self.name), ZERO, self.count),)))
                args.append(LV(('o', 'index')))
                for k, p in enumerate(ps[1:]):
                    self.value = I.symval(p['t'].deref(), 'value<%s>' % elem_name(et))
                    st = st.put(('o', 'value'), self.value)
                    args.append(LV(('o', 'value')))
            else:
                self.name = None
                self.idx = [I.symval(p['t'], 'i%d' % k) for k, p in enumerate(ps)]
                args = list(self.idx)
            r, th = I.analyse(f, LV(('o', 'this')), args, st)
            self.rets += r
            self.throws += th

    def index(self, j):
        """the j-th index as given"""
        if self.name:
            return mk_at(self.name, j)
        return self.idx[j.const]

    def eff(self, j):
        """the j-th index, a negative one counted from the end"""
        i = self.index(j)
        if i.lo is not None and i.lo >= 0:
            return i
        return ite(ge0(i), i, add(i, mk_at(SHAPE, j)))

    def valid(self, j):
        e = self.eff(j)
        return and_(ge0(e), lt(e, mk_at(SHAPE, j)))

    def position(self):
        """where the element is: row-major, or column-major"""
        if self.name:
            j = fresh('b', 0)
            n = self.rank
            f = rsum(j, n, mul(self.eff(j), product(n, to=j)))
            c = rsum(j, n, mul(self.eff(j), product(n, frm=add(j, ONE), to=n)))
        else:
            k = len(self.idx)
            f = add(*[mul(self.eff(C(j)), product(self.rank, to=C(j))) for j in range(k)])
            c = add(*[mul(self.eff(C(j)), product(self.rank, frm=C(j + 1), to=C(k))) for j in range(k)])
        return ite(self.fortran, f, c)

    def storage(self, s, v):
        """(index of the element accessed on this path, value written or None); None: unknown"""
        if self.f['n'] == 'set' or self.value is not None:
            return None
        if isinstance(v, LV) and v.root == ('o', 'this') and len(v.path) == 2 and v.path[0] == ('f', self.parts['values']) and v.path[1][0] == 'x':
            return v.path[1][1]
        return None


def replaced(s, i, v):
    n = s.length()
    return s.slice(ZERO, i) + Seq((('e', v),)) + s.slice(add(i, ONE), sub(sub(n, i), ONE))


def run(rep):
    rep.rule = ('For every element access function of every built-in tensor type, applied to every tensor a constructor can produce and every index '
                'accepted, the offset into the element storage (closed form over the symbolic shape, loops summarised for every rank) equals the '
                'row-major or column-major position; set() changes that element and nothing else.')
    rep.assumptions += ['ranks below 2^50', 'the positions of in-range indices are below the number of elements (arithmetic)', 'standard library functions behave as specified']
    P = program()
    js = list(jobs(P))
    pmap(rep, lambda r, j: check(r, P, *j), js, names=[label(j[0], j[3]) for j in js])
    if not js:
        raise AnalysisBroken('no element access function found')
    return 1


def check(rep, P, t, et, ms, f):
    J = Judge(rep, P)
    key = label(t, f)
    w = where(P, f)
    a = Access(P, t, et, ms, f)
    rep.count('functions')
    want = slice_(a.position(), 0, 64)
    for s, v in a.rets:
        rep.count('paths')
        extra = [eq(a.rank, a.count)]
        if not a.name:
            extra += [a.valid(C(j)) for j in range(len(a.idx))]
        else:
            j = fresh('j', 0)
            s = s.with_facts(s.facts.forall(j, a.rank, (a.valid(j),)))
        if a.value is not None:
            got = dict(s.store[('o', 'this')].f)[a.parts['values']]
            before = dict(a.before.f)[a.parts['values']]
            size = before.length()
            extra.append(lt(want, size))
            exp = replaced(before, want, a.value)
            J.agree(key, s, got, exp, 'the element at the position of the index is replaced, no other', w, extra)
            J.agree(key + ' rest', s, s.store[('o', 'this')].put(a.parts['values'], ZERO), a.before.put(a.parts['values'], ZERO), 'shape and order stay as they are', w, extra)
            continue
        got = a.storage(s, v)
        if got is None:
            rep.unsure(key, 'the element accessed was not recognised: %s' % short(v), w)
            continue
        J.agree(key, s, got, want, 'the element is the one at the position of the index', w, extra)
