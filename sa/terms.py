"""Value terms: the abstract domain of the value-flow analysis.

A term denotes a mathematical integer (machine integers are wrapped explicitly),
a truth value, or an opaque value.  Terms are hash-consed and kept in a normal
form (polynomials over atoms; bit operations become sums of shifted bit slices),
so that equality of normal forms is identity of Python objects.
"""
import itertools
from math import gcd

_tab = {}
_ids = itertools.count()
INF = None


class T:
    __slots__ = ('op', 'a', 'id', 'lo', 'hi', 'h', '_fs')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        raise TypeError

    @property
    def const(self):
        return self.a[0] if self.op == 'c' else None


def mk(op, *a, lo=None, hi=None):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        t.lo = lo
        t.hi = hi
        t.h = hash(k)
        t._fs = None
        _tab[k] = t
    return t


def C(v):
    v = int(v)
    return mk('c', v, lo=v, hi=v)


ZERO = C(0)
ONE = C(1)
TRUE = ONE
FALSE = ZERO

_fresh = itertools.count(1)


def sym(name, lo=None, hi=None):
    return mk('sym', name, lo, hi, lo=lo, hi=hi)


def fresh(name, lo=None, hi=None):
    return sym('%s#%d' % (name, next(_fresh)), lo, hi)


def bsym(name):
    return mk('sym', name, 0, 1, lo=0, hi=1)


def fn(name, *args, lo=None, hi=None):
    return mk('fn', name, *args, lo=lo, hi=hi)


# ---------------------------------------------------------------- polynomials
def _poly(t):
    """term -> (const, {mono: coeff})"""
    if t.op == 'c':
        return t.a[0], {}
    if t.op == 'poly':
        return t.a[0], dict(t.a[1])
    return 0, {(t,): 1}


def _imul(x, y):
    if x == 0 or y == 0:
        return 0
    if x is None or y is None:
        return None
    return x * y


def _ivmul(l1, h1, l2, h2):
    # interval product; None = infinite
    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
        lo = l1 * l2
        hi = _imul(h1, h2)
        return lo, hi
    vals = []
    for x in (l1, h1):
        for y in (l2, h2):
            if (x is None and y != 0) or (y is None and x != 0):
                return None, None
            vals.append(0 if (x is None or y is None) else x * y)
    return min(vals), max(vals)


def mono_iv(m, iv):
    lo, hi = 1, 1
    for x in m:
        l, h = iv(x)
        lo, hi = _ivmul(lo, hi, l, h)
    return lo, hi


def poly_iv(c, d, iv):
    lo = hi = c
    for m, k in d.items() if isinstance(d, dict) else d:
        l, h = mono_iv(m, iv)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def _iv0(x):
    return x.lo, x.hi


def _mkpoly(c, d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return C(c)
    for m, k in d.items():
        # 2^s * (y >> s) is y - y mod 2^s
        x = m[0]
        if len(m) == 1 and x.op == 'slice' and x.a[1] and x.a[0].op == 'poly' and k % (1 << x.a[1]) == 0:
            y, s, w = x.a
            if y.lo is not None and y.lo >= 0 and y.hi is not None and y.hi < 1 << (s + w):
                d2 = {m2: k2 for m2, k2 in d.items() if m2 is not m}
                return add(_mkpoly(c, d2), scale(sub(y, slice_(y, 0, s)), k >> s))
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda x: (len(x[0]), tuple(y.id for y in x[0]))))
    lo, hi = poly_iv(c, items, _iv0)
    return mk('poly', c, items, lo=lo, hi=hi)


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        if t.op == 'c':
            c += t.a[0]
        elif t.op == 'poly':
            c += t.a[0]
            for m, k in t.a[1]:
                d[m] = d.get(m, 0) + k
        else:
            d[(t,)] = d.get((t,), 0) + 1
    return _mkpoly(c, d)


def scale(t, k):
    if k == 0:
        return ZERO
    if k == 1:
        return t
    c, d = _poly(t)
    return _mkpoly(c * k, {m: v * k for m, v in d.items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'c':
        return scale(b, a.a[0])
    if b.op == 'c':
        return scale(a, b.a[0])
    ca, da = _poly(a)
    cb, db = _poly(b)
    d = {}
    for m, k in da.items():
        if cb:
            d[m] = d.get(m, 0) + k * cb
    for m, k in db.items():
        if ca:
            d[m] = d.get(m, 0) + k * ca
    for m1, k1 in da.items():
        for m2, k2 in db.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + k1 * k2
    return _mkpoly(ca * cb, d)


def poly_parts(t):
    return _poly(t)


# ------------------------------------------------------------------- booleans
def is_bool(t):
    return t.op in ('ge0', 'eq0', 'not', 'and', 'or') or (t.lo is not None and t.lo >= 0 and t.hi is not None and t.hi <= 1)


def ge0(p):
    if p.op == 'c':
        return TRUE if p.a[0] >= 0 else FALSE
    if p.lo is not None and p.lo >= 0:
        return TRUE
    if p.hi is not None and p.hi < 0:
        return FALSE
    c, d = _poly(p)
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        p = _mkpoly(c // g, {m: k // g for m, k in d.items()})
        return ge0(p)
    r = _bit_ge(p)
    if r is not None:
        return r
    return mk('ge0', p, lo=0, hi=1)


def bite(c, p, q):
    if p is q:
        return p
    if p.op == 'c':
        return or_(c, q) if p.a[0] else and_(not_(c), q)
    if q.op == 'c':
        return or_(not_(c), p) if q.a[0] else and_(c, p)
    return or_(and_(c, p), and_(not_(c), q))


def choice(x, n=16):
    """x as a decision tree over constants, with at most n leaves: (c, then, else)
    and integers; None when it is something else"""
    if x.op == 'c':
        return x.a[0]
    if x.op == 'ite':
        a = choice(x.a[1], n - 1)
        b = None if a is None else choice(x.a[2], n - size(a))
        return None if b is None else (x.a[0], a, b)
    if x.op in ('ge0', 'eq0', 'not', 'and', 'or'):
        return (x, 1, 0)
    c, d = _poly(x)
    if len(d) > 4 or any(len(m) != 1 for m in d) or len(d) == 1 and next(iter(d))[0] is x:
        return None
    r = c
    for (a,), k in d.items():
        t = choice(a, n)
        if t is None:
            return None
        r = _graft(r, t, k)
        if size(r) > n:
            return None
    return r


def choices_of(p):
    c, d = _poly(p)
    if 0 < len(d) <= 4 and all(len(m) == 1 and m[0].op in ('ite', 'ge0', 'eq0', 'not', 'and', 'or') for m in d):
        if len(d) > 1 or next(iter(d))[0].op == 'ite':
            return choice(p)
    return None


def size(t):
    return size(t[1]) + size(t[2]) if isinstance(t, tuple) else 1


def _graft(r, t, k):
    if isinstance(r, tuple):
        return (r[0], _graft(r[1], t, k), _graft(r[2], t, k))
    if isinstance(t, tuple):
        return (t[0], _graft(r, t[1], k), _graft(r, t[2], k))
    return r + k * t


def _tree(t, f):
    if isinstance(t, tuple):
        return bite(t[0], _tree(t[1], f), _tree(t[2], f))
    return TRUE if f(t) else FALSE


def _bit_ge(p):
    """+-b + c >= 0 for a truth value b"""
    t = choices_of(p)
    if t is not None:
        return _tree(t, lambda x: x >= 0)
    c, d = _poly(p)
    if len(d) == 1:
        (m, k), = d.items()
        if len(m) == 1 and is_bool(m[0]):
            b = m[0]
            if k > 0:  # k*b + c >= 0
                if c >= 0:
                    return TRUE
                if k + c >= 0:
                    return b
                return FALSE
            if c + k >= 0:
                return TRUE
            if c >= 0:
                return not_(b)
            return FALSE
    return None


def eq0(p):
    if p.op == 'c':
        return TRUE if p.a[0] == 0 else FALSE
    if (p.lo is not None and p.lo > 0) or (p.hi is not None and p.hi < 0):
        return FALSE
    c, d = _poly(p)
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        if c % g:
            return FALSE
        c //= g
        d = {m: k // g for m, k in d.items()}
        p = _mkpoly(c, d)
        if p.op == 'c':
            return eq0(p)
    # a single atom compared with a constant
    if len(d) == 1:
        (m, k), = d.items()
        if len(m) == 1 and k in (1, -1):
            x = m[0]
            v = -c * k
            if x.op == 'sx':
                w, y = x.a
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                    return FALSE
                return eq(slice_(y, 0, w), C(v % (1 << w)))
            if x.op == 'get':
                if v == -1:
                    return x.a[1]
                return and_(not_(x.a[1]), eq(x.a[0], C(v)))
            if x.op == 'ite':
                p, q = eq(x.a[1], C(v)), eq(x.a[2], C(v))
                return p if p is q else or_(and_(x.a[0], p), and_(not_(x.a[0]), q))
            if is_bool(x):
                return x if v == 1 else not_(x)
    t = choices_of(p)
    if t is not None:
        return _tree(t, lambda x: x == 0)
    # bit concatenations compared piece by piece
    items = list(d.items())
    first = min(items, key=lambda x: (len(x[0]), tuple(y.id for y in x[0])))
    if first[1] < 0:
        p = neg(p)
        c, d = _poly(p)
    ps = pieces(sub(p, C(c))) if len(d) > 1 else None
    if ps is not None and len(ps) > 1:
        v = -c
        if v < 0:
            return FALSE
        out = []
        top = max(o + n for o, n, _, _ in ps)
        if v >> top:
            return FALSE
        covered = 0
        for o, n, x, l in ps:
            out.append(eq(slice_(x, l, n), C((v >> o) & ((1 << n) - 1))))
            covered |= ((1 << n) - 1) << o
        if v & ~covered:
            return FALSE
        return and_(*out)
    return mk('eq0', p, lo=0, hi=1)


def eq(a, b):
    if a is b:
        return TRUE
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def _nsx(a):
    return a


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def not_(t):
    if t.op == 'c':
        return FALSE if t.a[0] else TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'ge0':
        return ge0(sub(neg(t.a[0]), ONE))
    if t.op == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.a])
    return mk('not', t, lo=0, hi=1)


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in (t.a if t.op == 'and' else (t,)):
            if x is TRUE:
                continue
            if x is FALSE:
                return FALSE
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if x.op not in ('and', 'or') and not_(x) in seen:
            return FALSE
    out = _absorb(out, seen, 'or', or_)
    if out is None:
        return and_(*_absorbed[0])
    out = _subsume(out, -1)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('and', *out, lo=0, hi=1)


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in (t.a if t.op == 'or' else (t,)):
            if x is FALSE:
                continue
            if x is TRUE:
                return TRUE
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if x.op not in ('and', 'or') and not_(x) in seen:
            return TRUE
    out = _absorb(out, seen, 'and', and_)
    if out is None:
        return or_(*_absorbed[0])
    out = _subsume(out, 1)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('or', *out, lo=0, hi=1)


_absorbed = [None]


def _absorb(xs, seen, dual, mkd):
    """x | (!x & y) = x | y and x | (x & y) = x; None: changed, see _absorbed"""
    ch = False
    out = []
    for x in xs:
        if x.op == dual:
            if any(y in seen for y in x.a):
                ch = True
                continue
            keep = [y for y in x.a if y.op in ('and', 'or') or not_(y) not in seen]
            if len(keep) < len(x.a):
                ch = True
                x = mkd(*keep)
        out.append(x)
    if not ch:
        return xs
    _absorbed[0] = out
    return None


def _subsume(xs, sign):
    """bounds on the same quantity: keep the weakest (or) / strongest (and)"""
    if sum(1 for x in xs if x.op == 'ge0') < 2:
        return xs
    best = {}
    out = []
    for x in xs:
        if x.op == 'ge0':
            c, d = _poly(x.a[0])
            k = frozenset(d.items())
            o = best.get(k)
            if o is None:
                best[k] = (c, x)
                out.append(x)
            elif (c - o[0]) * sign > 0:
                out[out.index(o[1])] = x
                best[k] = (c, x)
        else:
            out.append(x)
    return out


def truth(t):
    """integer or truth value -> truth value"""
    if is_bool(t):
        return t
    if t.op == 'ite':
        x, y = truth(t.a[1]), truth(t.a[2])
        return x if x is y else or_(and_(t.a[0], x), and_(not_(t.a[0]), y))
    return not_(eq0(t))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    # max / min
    if c.op == 'ge0':
        p = c.a[0]
        d = sub(a, b)
        if p is d or add(p, ONE) is d:      # a>=b ? a : b  /  a>b ? a : b
            return max_(a, b)
        if p is neg(d) or add(p, ONE) is neg(d):
            return min_(a, b)
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    n = oriented(c)
    if n is not c:
        c, a, b = n, b, a
    return mk('ite', c, a, b, lo=lo, hi=hi)


def oriented(c):
    """c, or its negation where that is the preferred way of writing a choice"""
    if c.op == 'ge0':
        _, d = _poly(c.a[0])
        if d:
            m = min(d, key=lambda m: tuple(x.id for x in m))
            if d[m] < 0:
                return not_(c)
    elif c.op == 'or':
        n = not_(c)
        if n.op == 'and':
            return n
    elif c.op == 'not':
        return c.a[0]
    return c


def max_(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(max(a.a[0], b.a[0]))
    if a is b:
        return a
    if a.lo is not None and b.hi is not None and a.lo >= b.hi:
        return a
    if b.lo is not None and a.hi is not None and b.lo >= a.hi:
        return b
    xs = sorted({*(a.a if a.op == 'max' else (a,)), *(b.a if b.op == 'max' else (b,))}, key=lambda x: x.id)
    los = [x.lo for x in xs if x.lo is not None]
    his = [x.hi for x in xs]
    return mk('max', *xs, lo=max(los) if los else None, hi=None if None in his else max(his))


def min_(a, b):
    return neg(max_(neg(a), neg(b)))


# ------------------------------------------------------------------ bit level
def pieces(x):
    """x as a list of non-overlapping (offset, nbits, atom, low bit); None if it
    is not such a concatenation."""
    c, d = _poly(x)
    if c < 0:
        return None
    out = []
    used = 0
    for m, k in d.items():
        if k <= 0 or len(m) != 1 or k & (k - 1):
            return None
        o = k.bit_length() - 1
        t = m[0]
        if t.lo is None or t.lo < 0 or t.hi is None:
            return None
        n = max(t.hi.bit_length(), 1)
        mask = ((1 << n) - 1) << o
        if used & mask:
            return None
        used |= mask
        if t.op == 'slice':
            out.append((o, n, t.a[0], t.a[1]))
        else:
            out.append((o, n, t, 0))
    if c & used:
        return None
    o = 0
    while c >> o:
        if (c >> o) & 1:
            n = 0
            while (c >> (o + n)) & 1:
                n += 1
            out.append((o, n, C((1 << n) - 1), 0))
            o += n
        else:
            o += 1
    out.sort()
    return out


def slice_(x, lo, n):
    """bits lo..lo+n-1 of x (two's complement)"""
    if n <= 0:
        return ZERO
    if x.op == 'c':
        return C((x.a[0] >> lo) & ((1 << n) - 1))
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        if x.hi < (1 << lo):
            return ZERO
        if lo == 0 and x.hi < (1 << n):
            return x
        n = min(n, x.hi.bit_length() - lo)
    if x.op == 'slice':
        y, l2, n2 = x.a
        if lo >= n2:
            return ZERO
        return slice_(y, l2 + lo, min(n, n2 - lo))
    if x.op == 'sx':
        w, y = x.a
        if lo + n <= w:
            return slice_(y, lo, n)
    if x.op == 'get':
        return slice_(x.a[0], lo, n)
    if x.op == 'ite':
        return ite(x.a[0], slice_(x.a[1], lo, n), slice_(x.a[2], lo, n))
    if x.op == 'xor':
        return xor_(*[slice_(y, lo, n) for y in x.a])
    if x.op == 'poly':
        ps = pieces(x)
        if ps is not None and len(ps) > 1:
            out = []
            for o, m, t, l in ps:
                a = max(o, lo)
                b = min(o + m, lo + n)
                if a < b:
                    out.append(scale(slice_(t, l + a - o, b - a), 1 << (a - lo)))
            return add(*out)
        # ring homomorphism: drop inner wraps, reduce coefficients
        M = lo + n
        c, d = _poly(x)
        nd = {}
        nc = c % (1 << M)
        acc = [C(nc)]
        changed = nc != c
        for m, k in d.items():
            k2 = k % (1 << M)
            if k2 >= (1 << (M - 1)) and k < 0:
                k2 = k2 - (1 << M)
            if k2 != k:
                changed = True
            if k2 == 0:
                continue
            prod = ONE
            for t in m:
                u = unwrap(t, M)
                if u is not t:
                    changed = True
                prod = mul(prod, u)
            acc.append(scale(prod, k2))
        if c < 0:
            # keep small negative constants (canonical: signed residue)
            acc[0] = C(c if c > -(1 << (M - 1)) else nc)
            changed = any(False for _ in ()) or add(*acc) is not x
        elif nc >= (1 << (M - 1)) and M >= 32:
            acc[0] = C(nc - (1 << M))
            changed = True
        if changed:
            y = add(*acc)
            if y is not x:
                return slice_(y, lo, n)
    if x.op in ('rsum', 'rprod'):
        y = unwrap(x, lo + n)
        if y is not x:
            return slice_(y, lo, n)
    return mk('slice', x, lo, n, lo=0, hi=(1 << n) - 1)


_unwrap = {}


def unwrap(t, M):
    """a term congruent to t modulo 2^M without the reductions modulo 2^M or more"""
    k = (t, M)
    r = _unwrap.get(k)
    if r is not None:
        return r
    if t.op == 'slice' and t.a[1] == 0 and t.a[2] >= M:
        r = unwrap(t.a[0], M)
    elif t.op == 'sx' and t.a[0] >= M:
        r = unwrap(t.a[1], M)
    elif t.op == 'ite':
        a, b = unwrap(t.a[1], M), unwrap(t.a[2], M)
        r = t if a is t.a[1] and b is t.a[2] else ite(t.a[0], a, b)
    elif t.op in ('rsum', 'rprod'):
        e = unwrap(t.a[2], M)
        r = t if e is t.a[2] else (rsum if t.op == 'rsum' else rprod)(t.a[0], t.a[1], e)
    elif t.op == 'poly':
        c, d = _poly(t)
        acc = [C(c)]
        for m, v in d.items():
            prod = ONE
            for x in m:
                prod = mul(prod, unwrap(x, M))
            acc.append(scale(prod, v))
        r = add(*acc)
    else:
        r = t
    _unwrap[k] = r
    return r


def sx(x, w):
    """two's complement reinterpretation of the low w bits as signed"""
    h = 1 << (w - 1)
    if x.lo is not None and x.hi is not None and -h <= x.lo and x.hi < h:
        return x
    if x.lo is not None and x.hi is not None and h <= x.lo and x.hi < 2 * h:
        return sub(x, C(2 * h))
    if x.op == 'c':
        v = x.a[0] & ((1 << w) - 1)
        return C(v - (1 << w) if v >= h else v)
    if x.op == 'sx' and x.a[0] >= w:
        return sx(x.a[1], w)
    if x.op == 'slice' and x.a[1] == 0 and x.a[2] >= w:
        return sx(x.a[0], w)
    if x.op == 'get':
        return sx(x.a[0], w)
    if x.op == 'ite':
        return ite(x.a[0], sx(x.a[1], w), sx(x.a[2], w))
    return mk('sx', w, x, lo=-h, hi=h - 1)


def wrap(x, w, signed, iv=None):
    lo, hi = (x.lo, x.hi) if iv is None else iv
    if signed:
        if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return x
        return sx(x, w)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << w):
        return x
    return slice_(x, 0, w)


def bitand(x, y):
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        m = y.a[0]
        if m < 0:
            # ~mask: x - (x & mask)
            inv = ~m
            return sub(x, bitand(x, C(inv)))
        out = []
        o = 0
        while m >> o:
            if (m >> o) & 1:
                n = 0
                while (m >> (o + n)) & 1:
                    n += 1
                out.append(scale(slice_(x, o, n), 1 << o))
                o += n
            else:
                o += 1
        return add(*out) if out else ZERO
    if x is y:
        return x
    if is_bool(x) and is_bool(y):
        return and_(x, y)
    a, b = sorted((x, y), key=lambda t: t.id)
    hi = None
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        hi = x.hi
    if y.lo is not None and y.lo >= 0 and y.hi is not None:
        hi = y.hi if hi is None else min(hi, y.hi)
    return mk('band', a, b, lo=0 if hi is not None else None, hi=hi)


def _bits_used(x):
    ps = pieces(x)
    if ps is None:
        if x.lo is not None and x.lo >= 0 and x.hi is not None:
            return (1 << x.hi.bit_length()) - 1
        return None
    u = 0
    for o, n, _, _ in ps:
        u |= ((1 << n) - 1) << o
    return u


def bitor(x, y):
    if x.op == 'c' and y.op == 'c':
        return C(x.a[0] | y.a[0])
    if x is y:
        return x
    if is_bool(x) and is_bool(y):
        return or_(x, y)
    u, v = _bits_used(x), _bits_used(y)
    if u is not None and v is not None and not (u & v):
        return add(x, y)
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c' and y.a[0] >= 0:
        return add(sub(x, bitand(x, y)), y)
    a, b = sorted((x, y), key=lambda t: t.id)
    hi = None
    if u is not None and v is not None:
        hi = u | v
    return mk('bor', a, b, lo=0 if hi is not None else None, hi=hi)


def xor_(*xs):
    c = 0
    cnt = {}
    st = list(xs)
    while st:
        x = st.pop()
        if x.op == 'c':
            c ^= x.a[0]
        elif x.op == 'xor':
            st.extend(x.a)
        else:
            cnt[x] = cnt.get(x, 0) ^ 1
    out = [x for x, k in cnt.items() if k]
    if not out:
        return C(c)
    if c:
        if len(out) == 1 and is_bool(out[0]) and c == 1:
            return not_(out[0])
        out.append(C(c))
    if len(out) == 1:
        return out[0]
    # disjoint bits: a sum
    out.sort(key=lambda t: t.id)
    us = [_bits_used(t) for t in out]
    if None not in us:
        acc = 0
        ok = True
        for u in us:
            if acc & u:
                ok = False
            acc |= u
        if ok:
            return add(*out)
    hi = None
    if None not in us:
        hi = 0
        for u in us:
            hi |= u
    return mk('xor', *out, lo=0 if hi is not None else None, hi=hi)


def shr(x, k):
    if k == 0:
        return x
    if x.op == 'c':
        return C(x.a[0] >> k)
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        return slice_(x, k, max(x.hi.bit_length() - k, 0)) if x.hi >> k else ZERO
    return mk('div', x, C(1 << k), lo=None if x.lo is None else x.lo >> k, hi=None if x.hi is None else x.hi >> k)


def div(x, y):
    """C division; exact for non-negative operands"""
    if y.op == 'c' and y.a[0] > 0:
        k = y.a[0]
        if x.op == 'c':
            v = abs(x.a[0]) // k
            return C(v if x.a[0] >= 0 else -v)
        if k == 1:
            return x
        nonneg = x.lo is not None and x.lo >= 0
        if nonneg:
            c, d = _poly(x)
            if c % k == 0 and all(v % k == 0 for v in d.values()):
                return _mkpoly(c // k, {m: v // k for m, v in d.items()})
            if not k & (k - 1) and x.hi is not None:
                return shr(x, k.bit_length() - 1)
            # constants divisible by k can be taken out
            whole = {m: v // k for m, v in d.items() if v % k == 0}
            rest = {m: v for m, v in d.items() if v % k}
            r = _mkpoly(c % k, rest)
            if (whole or c // k) and r.lo is not None and r.lo >= 0 and all(v > 0 for v in whole.values()):
                w = _mkpoly(c // k, whole)
                return add(w, div(r, y)) if w is not ZERO else mk('div', x, y, lo=0, hi=None if x.hi is None else x.hi // k)
            return mk('div', x, y, lo=x.lo // k, hi=None if x.hi is None else x.hi // k)
    nn = x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0
    if nn and y.op == 'ite':
        pass
    return mk('div', x, y, lo=0 if nn else None, hi=x.hi if nn else None)


def mod(x, y):
    if y.op == 'c' and y.a[0] > 0:
        k = y.a[0]
        if x.op == 'c':
            v = abs(x.a[0]) % k
            return C(v if x.a[0] >= 0 else -v)
        if x.lo is not None and x.lo >= 0:
            if k == 1:
                return ZERO
            if x.hi is not None and x.hi < k:
                return x
            if not k & (k - 1):
                return slice_(x, 0, k.bit_length() - 1)
            c, d = _poly(x)
            nd = {m: v % k for m, v in d.items()}
            nx = _mkpoly(c % k, nd)
            if nx is not x and nx.lo is not None and nx.lo >= 0:
                return mod(nx, y)
            return mk('mod', x, y, lo=0, hi=k - 1)
        return mk('mod', x, y, lo=-(k - 1), hi=k - 1)
    nn = x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0
    return mk('mod', x, y, lo=0 if nn else None, hi=y.hi if nn else None)


def get_(byte, failed):
    """result of istream::get()/peek(): the byte, or EOF when failed"""
    if failed is FALSE:
        return byte
    if failed is TRUE:
        return C(-1)
    return mk('get', byte, failed, lo=-1, hi=255)


def unget(t):
    return t.a[0] if t.op == 'get' else t


# -------------------------------------------------------- recurrences (loops)
def rsum(j, n, e):
    """sum of e over j in [0, n)"""
    if e is ZERO or n is ZERO:
        return ZERO
    if not occurs(j, e):
        return mul(n, e)
    # linearity, constants out
    c, d = _poly(e)
    if len(d) + (1 if c else 0) > 1:
        return add(*([scale(n, c)] if c else []), *[scale(rsum(j, n, _mono(m)), k) for m, k in d.items()])
    (m, k), = d.items()
    if k != 1:
        return scale(rsum(j, n, _mono(m)), k)
    out = [x for x in m if not occurs(j, x)]
    inn = [x for x in m if occurs(j, x)]
    if out:
        return mul(_mono(tuple(out)), rsum(j, n, _mono(tuple(inn))))
    if len(inn) == 1 and inn[0] is j:
        # 0+1+...+n-1
        return mk('rsum', bound(0), n, bound(0), lo=0)
    return _bind('rsum', j, n, e)


def rprod(j, n, e):
    if n is ZERO or e is ONE:
        return ONE
    return _bind('rprod', j, n, e)


def rmax(x0, j, n, e):
    """max of x0 and e over j in [0,n)"""
    if n is ZERO:
        return x0
    if not occurs(j, e):
        pass
    J = bound(0)
    j2, e2 = _alpha(j, e)
    return mk('rmax', x0, j2, n, e2, lo=x0.lo if x0.lo is not None else None, hi=None if x0.hi is None or e.hi is None else max(x0.hi, e.hi))


def rlast(v0, j, n, c, x):
    """x(i) of the last i < n with c(i), else v0"""
    if n is ZERO:
        return v0
    J = bound(max(height(c), height(x)))
    if J is not j:
        c, x = subst(c, {j: J}), subst(x, {j: J})
    los = [t.lo for t in (v0, x) if t.lo is not None]
    his = [t.hi for t in (v0, x) if t.hi is not None]
    return mk('rlast', v0, J, n, c, x, lo=min(los) if len(los) == 2 else None, hi=max(his) if len(his) == 2 else None)


def lrec(x0, j, n, a, b):
    """x_{k+1} = a(k) x_k + b(k)"""
    if a is ONE:
        return add(x0, rsum(j, n, b))
    if b is ZERO:
        return mul(x0, rprod(j, n, a))
    # unfolded: x0 * prod a + sum_k b(k) * prod_{i>k} a(i)
    i = fresh('i', 0)
    kk = j
    tail = rprod(i, sub(sub(n, j), ONE), subst(a, {j: add(i, j, ONE)}))
    return add(mul(x0, rprod(j, n, a)), rsum(j, n, mul(b, tail)))


def _mono(m):
    t = ONE
    for x in m:
        t = mul(t, x)
    return t


def bound(d):
    return sym('$%d' % d, 0, None)


BINDERS = {'rsum': 0, 'rprod': 0, 'rmax': 1, 'rlast': 1}
_heights = {}


def height(t):
    """one more than the largest index of a variable bound inside t"""
    r = _heights.get(t)
    if r is None:
        r = 0
        if t.op in BINDERS:
            J = t.a[BINDERS[t.op]]
            if J.a[0].startswith('$'):
                r = int(J.a[0][1:]) + 1
        if t.op not in ('c', 'sym'):
            for k in (t.a if t.op != 'poly' else kids(t)):
                if isinstance(k, T):
                    r = max(r, height(k))
                elif hasattr(k, 'height'):
                    r = max(r, k.height())
        _heights[t] = r
    return r


def _alpha(j, e):
    J = bound(height(e))
    return J, (e if J is j else subst(e, {j: J}))


def _orient(j, n, e):
    """index reversal: prefer sequence elements at +j"""
    pos = negs = 0
    for x in walk(e):
        if x.op == 'at':
            k = lin_coeff(x.a[1], j)
            if k is not None:
                if k > 0:
                    pos += 1
                elif k < 0:
                    negs += 1
    if negs > pos:
        return subst(e, {j: sub(sub(n, ONE), j)})
    return e


def _bind(op, j, n, e):
    e = _orient(j, n, e)
    j2, e2 = _alpha(j, e)
    lo = hi = None
    if e2.lo is not None and e2.lo >= 0:
        lo = 0
        if op == 'rsum' and e2.hi is not None and n.hi is not None and e2.hi < 1 << 80:
            hi = max(n.hi, 0) * e2.hi
    return mk(op, j2, n, e2, lo=lo, hi=hi)


def lin_coeff(t, j):
    """coefficient of j in t if t is linear in j, else None"""
    c, d = _poly(t)
    k = 0
    for m, v in d.items():
        if m == (j,):
            k = v
        elif any(occurs(j, x) for x in m):
            return None
    return k


# ------------------------------------------------------------ traversal/subst
def kids(t):
    if t.op in ('c', 'sym'):
        return ()
    if t.op == 'poly':
        return [x for m, _ in t.a[1] for x in m]
    out = []
    for x in t.a:
        if isinstance(x, T):
            out.append(x)
        elif hasattr(x, 'terms'):
            out.extend(x.terms())
    return out


def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def free_syms(t):
    if t._fs is None:
        if t.op == 'sym':
            t._fs = frozenset((t,))
        else:
            s = set()
            for k in kids(t):
                s |= free_syms(k)
            t._fs = frozenset(s)
    return t._fs


_loose = {}


def loose(t):
    """variables of enclosing sums, loops and sequences that t mentions (possibly more,
    under sequences)"""
    r = _loose.get(t)
    if r is None:
        if t.op == 'sym':
            r = frozenset((t,)) if t.a[0].startswith(('$', 'b#')) else frozenset()
        elif t.op in BINDERS:
            i = BINDERS[t.op]
            out, inn = set(), set()
            for k, x in enumerate(t.a):
                if isinstance(x, T) and k != i:
                    (inn if k > i + 1 else out).update(loose(x))
            r = frozenset(out | inn - {t.a[i]})
        else:
            out = set()
            for k in kids(t):
                out |= loose(k)
            r = frozenset(out)
        _loose[t] = r
    return r


def occurs(j, t):
    return j in free_syms(t)


def subst(t, env, memo=None):
    """replace terms (by identity) in t"""
    if memo is None:
        memo = {}
    if not env:
        return t
    return _subst(t, env, memo)


def _subst(t, env, memo):
    r = env.get(t)
    if r is not None:
        return r
    if t.op in ('c', 'sym'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if len(env) <= 4:
        fs = free_syms(t)
        if all(k.op == 'sym' and k not in fs for k in env):
            return t
    S = lambda x: _subst(x, env, memo) if isinstance(x, T) else (x.subst(env, memo) if hasattr(x, 'subst') else x)
    r = rebuild(t, S)
    memo[t] = r
    return r


def rebuild(t, S):
    op = t.op
    if op == 'poly':
        out = [C(t.a[0])]
        ch = False
        for m, k in t.a[1]:
            p = ONE
            for x in m:
                y = S(x)
                if y is not x:
                    ch = True
                p = mul(p, y)
            out.append(scale(p, k))
        return add(*out) if ch else t
    if op in BINDERS:
        i = BINDERS[op]
        J = t.a[i]
        f = fresh('b', J.lo, J.hi)
        head = tuple(S(x) for x in t.a[:i])
        n = S(t.a[i + 1])
        b1 = tuple(subst(x, {J: f}) for x in t.a[i + 2:])
        b2 = tuple(S(x) for x in b1)
        if n is t.a[i + 1] and all(x is y for x, y in zip(head, t.a[:i])) and all(x is y for x, y in zip(b1, b2)):
            return t
        return build(op, head + (f, n) + b2, t)
    na = tuple(S(x) for x in t.a)
    if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(na, t.a)):
        return t
    return build(op, na, t)


def build(op, a, t=None):
    if op == 'ge0':
        return ge0(a[0])
    if op == 'eq0':
        return eq0(a[0])
    if op == 'not':
        return not_(truth(a[0]))
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'max':
        r = a[0]
        for x in a[1:]:
            r = max_(r, x)
        return r
    if op == 'slice':
        return slice_(*a)
    if op == 'sx':
        return sx(a[1], a[0])
    if op == 'band':
        return bitand(*a)
    if op == 'bor':
        return bitor(*a)
    if op == 'xor':
        return xor_(*a)
    if op == 'div':
        return div(*a)
    if op == 'mod':
        return mod(*a)
    if op == 'get':
        return get_(*a)
    if op == 'rsum':
        return rsum(*a)
    if op == 'rprod':
        return rprod(*a)
    if op == 'rmax':
        return rmax(*a)
    if op == 'rlast':
        return rlast(*a)
    if op == 'at':
        from . import seq
        return seq.at_base(a[0], a[1])
    if op == 'len':
        from . import seq
        return seq.len_base(a[0])
    if op == 'base':
        from . import seq
        return seq.rebuild_base(t, a)
    if t is not None:
        return mk(op, *a, lo=t.lo, hi=t.hi)
    return mk(op, *a)


# ------------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return '...'
    op = t.op
    if op == 'c':
        return str(t.a[0])
    if op == 'sym':
        return t.a[0]
    if op == 'poly':
        out = []
        for m, k in t.a[1]:
            s = '*'.join(show(x, d + 1) for x in m)
            out.append(s if k == 1 else '%d*%s' % (k, s))
        if t.a[0]:
            out.append(str(t.a[0]))
        return '(' + ' + '.join(out) + ')'
    if op == 'ge0':
        return '[%s >= 0]' % show(t.a[0], d + 1)
    if op == 'eq0':
        return '[%s == 0]' % show(t.a[0], d + 1)
    if op == 'not':
        return '!%s' % show(t.a[0], d + 1)
    if op == 'slice':
        return '%s<%d+%d>' % (show(t.a[0], d + 1), t.a[1], t.a[2])
    if op == 'at':
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if op == 'fn':
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d + 1) if isinstance(x, T) else repr(x) for x in t.a[1:]))
    if op == 'base':
        return t.a[0] + ('(%s)' % ', '.join(show(x, d + 1) if isinstance(x, T) else repr(x) for x in t.a[1:]) if len(t.a) > 1 else '')
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) if isinstance(x, T) else repr(x) for x in t.a))
