"""Path facts and entailment: intervals plus linear arithmetic over monomials
(the polyhedra domain, entailment by Fourier-Motzkin elimination)."""
from .terms import *
from . import terms as tm
from .seq import Seq


def clauses(x):
    """a truth value that chooses between two, as two clauses"""
    n = x.op == 'not'
    t = x.a[0] if n else x
    if t.op != 'ite' or not (is_bool(t.a[1]) and is_bool(t.a[2])):
        return (x,)
    c, a, b = t.a
    if n:
        a, b = not_(a), not_(b)
    out = []
    for y in (or_(not_(c), a), or_(c, b)):
        out.extend(y.a if y.op == 'and' else (y,))
    return tuple(out)


class Facts:
    """an immutable conjunction of literals; `all_` are universally quantified:
    (j, n, literals): the literals hold for every j in [0, n)"""
    __slots__ = ('lits', 'set', 'all_', '_iv', '_bad', '_memo')

    def __init__(self, lits=(), all_=()):
        self.lits = tuple(lits)
        self.set = frozenset(self.lits)
        self.all_ = tuple(all_)
        self._iv = None
        self._bad = False
        self._memo = {}

    def add(self, c):
        """conjoin a truth value"""
        if c is TRUE or c in self.set:
            return self
        new = list(self.lits)
        for x in (c.a if c.op == 'and' else (c,)):
            for y in clauses(x):
                if y is not TRUE and y not in self.set:
                    new.append(y)
        # unit propagation into disjunctions
        s = set(new)
        ors = [x for x in new if x.op == 'or']
        while ors:
            changed = False
            units = Facts([x for x in new if x.op != 'or'])
            for x in ors:
                if any(y in s for y in x.a):
                    continue
                rest = [y for y in x.a if not_(y) not in s and units.decide(y, False) is not False]
                if len(rest) < len(x.a):
                    y = or_(*rest)
                    new.remove(x)
                    s.discard(x)
                    for z in (y.a if y.op == 'and' else (y,)):
                        if z not in s:
                            new.append(z)
                            s.add(z)
                    changed = True
                    break
            if not changed:
                break
            ors = [x for x in new if x.op == 'or']
        return Facts(new, self.all_)

    def forall(self, j, n, lits):
        if not lits:
            return self
        return Facts(self.lits, self.all_ + ((j, n, tuple(lits)),))

    def subst(self, env, memo=None):
        memo = {} if memo is None else memo
        out = []
        for x in self.lits:
            y = tm._subst(x, env, memo)
            for z in (y.a if y.op == 'and' else (y,)):
                if z is not TRUE:
                    out.append(z)
        al = []
        for j, n, ls in self.all_:
            al.append((j, tm._subst(n, env, memo), tuple(tm._subst(x, env, memo) for x in ls)))
        return Facts(out, al)

    # intervals of atoms implied by single-atom literals
    def iv(self, t):
        if self._iv is None:
            self._iv = {}
            for _ in range(2):
                for x in self.lits:
                    self._note(x)
        return self._ivt(t)

    def _note(self, x):
        if x.op == 'ge0':
            c, d = poly_parts(x.a[0])
            # c + sum k*m >= 0 : bound each monomial by the others' intervals
            if len(d) > 4:
                return
            for m, k in d.items():
                if len(m) != 1:
                    continue
                rest = dict(d)
                del rest[m]
                lo, hi = poly_iv(c, rest, self._ivt)
                if hi is None:
                    continue
                # k*a >= -hi
                a = m[0]
                l, h = self._ivt(a)
                if k > 0:
                    b = -(hi // k)
                    if l is None or b > l:
                        self._iv[a] = (b, h)
                else:
                    b = hi // (-k)
                    if h is None or b < h:
                        self._iv[a] = (l, b)
                l, h = self._iv.get(a, (l, h))
                if l is not None and h is not None and l > h:
                    self._bad = True
        elif x.op == 'eq0':
            p = x.a[0]
            c, d = poly_parts(p)
            if len(d) == 1:
                (m, k), = d.items()
                if len(m) == 1 and c % k == 0:
                    v = -c // k
                    l, h = self._ivt(m[0])
                    if (l is not None and v < l) or (h is not None and v > h):
                        self._bad = True
                    self._iv[m[0]] = (v, v)
            else:
                self._note(mk('ge0', p, lo=0, hi=1))
                self._note(mk('ge0', neg(p), lo=0, hi=1))
        elif x.op == 'not' and x.a[0].op == 'eq0':
            c, d = poly_parts(x.a[0].a[0])
            if len(d) == 1:
                (m, k), = d.items()
                if len(m) == 1 and c % k == 0:
                    v = -c // k
                    l, h = self._ivt(m[0])
                    if l == v:
                        self._iv[m[0]] = (v + 1, h)
                    elif h == v:
                        self._iv[m[0]] = (l, v - 1)
                    l, h = self._ivt(m[0])
                    if l is not None and h is not None and l > h:
                        self._bad = True

    def _ivt(self, t):
        op = t.op
        if op == 'c':
            return t.a[0], t.a[0]
        if op == 'poly':
            lo, hi = poly_iv(t.a[0], t.a[1], self._ivt)
            # keep static bounds when better
            if t.lo is not None and (lo is None or t.lo > lo):
                lo = t.lo
            if t.hi is not None and (hi is None or t.hi < hi):
                hi = t.hi
            r = self._iv.get(t)
            if r:
                lo = r[0] if lo is None else lo if r[0] is None else max(lo, r[0])
                hi = r[1] if hi is None else hi if r[1] is None else min(hi, r[1])
            return lo, hi
        r = self._iv.get(t)
        lo, hi = r if r else (t.lo, t.hi)
        if op == 'slice' and t.a[1] == 0:
            l2, h2 = self._ivt(t.a[0])
            if l2 is not None and l2 >= 0 and h2 is not None and h2 < (1 << t.a[2]):
                lo = max(lo, l2)
                hi = min(hi, h2)
        elif op == 'max':
            for x in t.a:
                l2, _ = self._ivt(x)
                if l2 is not None and (lo is None or l2 > lo):
                    lo = l2
        elif op == 'div' and t.a[1].op == 'c' and t.a[1].a[0] > 0:
            l2, h2 = self._ivt(t.a[0])
            k = t.a[1].a[0]
            if l2 is not None and l2 >= 0:
                lo = l2 // k if lo is None else max(lo, l2 // k)
                if h2 is not None:
                    hi = h2 // k if hi is None else min(hi, h2 // k)
        elif op == 'ite':
            l1, h1 = self._ivt(t.a[1])
            l2, h2 = self._ivt(t.a[2])
            if l1 is not None and l2 is not None:
                lo = min(l1, l2)
            if h1 is not None and h2 is not None:
                hi = max(h1, h2)
        return lo, hi

    def infeasible(self):
        self.iv(ZERO)
        if self._bad:
            return True
        for x in self.lits:
            if x is FALSE or not_(x) in self.set:
                return True
            if x.op in ('ge0', 'eq0'):
                lo, hi = self.iv(x.a[0])
                if hi is not None and hi < 0:
                    return True
                if x.op == 'eq0' and lo is not None and lo > 0:
                    return True
        return False

    # ------------------------------------------------------------ entailment
    def decide(self, c, deep=True):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = (c, deep)
        if key in self._memo:
            return self._memo[key]
        r = self._decide(c, deep)
        self._memo[key] = r
        return r

    def _decide(self, c, deep):
        if c in self.set:
            return True
        if not_(c) in self.set:
            return False
        if c.op == 'and':
            rs = [self.decide(x, deep) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return False if self._clause(not_(c)) else None
        if c.op == 'or':
            rs = [self.decide(x, deep) for x in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return True if self._clause(c) else None
        if c.op == 'not':
            r = self.decide(c.a[0], deep)
            return None if r is None else not r
        if c.op == 'ge0':
            lo, hi = self.iv(c.a[0])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            if deep:
                if self.entails_ge0(c.a[0]):
                    return True
                if self.entails_ge0(sub(neg(c.a[0]), ONE)):
                    return False
            return None
        if c.op == 'eq0':
            lo, hi = self.iv(c.a[0])
            if lo == 0 and hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if deep:
                if self.entails_ge0(sub(c.a[0], ONE)) or self.entails_ge0(sub(neg(c.a[0]), ONE)):
                    return False
                if self.entails_ge0(c.a[0]) and self.entails_ge0(neg(c.a[0])):
                    return True
            return None
        l, h = self.iv(c)
        if l == 1:
            return True
        if h == 0:
            return False
        for j, n, ls in self.all_:
            for x in ls:
                for e in _unify(j, x, c):
                    if self.decide(and_(ge0(e), lt(e, n)), False) is True:
                        return True
                for e in _unify(j, not_(x), c):
                    if self.decide(and_(ge0(e), lt(e, n)), False) is True:
                        return False
        return None

    def _clause(self, c):
        """a disjunction among the facts covers this one"""
        if c.op != 'or':
            return False
        ys = set(c.a)
        return any(l.op == 'or' and all(x in ys for x in l.a) for l in self.lits)

    def instances(self, goal_terms):
        """instantiate the quantified facts at the elements the goal mentions"""
        out = []
        ats = set()
        for g in goal_terms:
            for x in walk(g):
                if x.op in ('at', 'fn'):
                    ats.add(x)
        if not ats:
            return out
        for j, n, ls in self.all_:
            idx = set()
            for l in ls:
                for x in walk(l):
                    if x.op in ('at', 'fn') and occurs(j, x):
                        for y in ats:
                            for e in _unify(j, x, y):
                                idx.add(e)
            for e in idx:
                if self.decide(and_(ge0(e), lt(e, n)), False) is True:
                    for l in ls:
                        y = subst(l, {j: e})
                        if y is not TRUE:
                            out.append(y)
        return out

    def maxima(self, p):
        """a maximum over a range is at least its value at each index of the range that is mentioned"""
        seen = list(walk(p))
        ms = [x for x in seen if x.op == 'rmax']
        if not ms:
            return []
        out = []
        for t in dict.fromkeys(ms):
            _, j, n, body = t.a
            cands = [body] if body.op != 'poly' else [m for ms_ in poly_parts(body)[1] for m in ms_ if occurs(j, m)]
            if any(x.op in ('rmax', 'max') for x in cands):
                continue
            idx = set()
            for pat in cands:
                for y in seen:
                    if y.op == pat.op and y is not pat:
                        idx.update(e for e in _unify(j, pat, y) if not occurs(j, e))
            for e in idx:
                if self.decide(and_(ge0(e), lt(e, n)), False) is True:
                    out.append(ge0(sub(t, subst(body, {j: e}))))
        return out

    def entails_ge0(self, p):
        """linear entailment of p >= 0"""
        goal = sub(neg(p), ONE)     # to refute: goal >= 0
        cons = []
        for x in self.lits:
            _lin(x, cons)
        for x in self.maxima(p):
            _lin(x, cons)
        for x in self.instances([p] + [a for l in self.lits for a in ()]):
            for y in (x.a if x.op == 'and' else (x,)):
                _lin(y, cons)
        return refute(cons, goal, self.iv)


def _unify(j, pat, t):
    """solutions e for j such that pat[j:=e] is t (simple one-variable matching)"""
    if not occurs(j, pat):
        return []
    if pat is j:
        return [t]
    if pat.op != t.op:
        if pat.op == 'poly' or t.op == 'poly':
            return _unify_poly(j, pat, t)
        return []
    if pat.op == 'poly':
        return _unify_poly(j, pat, t)
    if pat.op == 'sym':
        return []
    if len(pat.a) != len(t.a):
        return []
    for x, y in zip(pat.a, t.a):
        if isinstance(x, T) and occurs(j, x):
            if not isinstance(y, T):
                return []
            es = _unify(j, x, y)
            return [e for e in es if subst(pat, {j: e}) is t]
    return []


def _unify_poly(j, pat, t):
    k = lin_coeff(pat, j)
    if k in (1, -1):
        rest = sub(pat, scale(j, k))
        e = scale(sub(t, rest), k)
        return [e]
    if k:
        rest = sub(pat, scale(j, k))
        d = sub(t, rest)
        c, m = poly_parts(d)
        if c % k == 0 and all(v % k == 0 for v in m.values()):
            return [tm._mkpoly(c // k, {a: v // k for a, v in m.items()})]
    return []


def _lin(x, cons):
    if x.op == 'ge0':
        cons.append(x.a[0])
        _products(x.a[0], cons)
    elif x.op == 'eq0':
        cons.append(x.a[0])
        cons.append(neg(x.a[0]))


def _products(p, cons):
    """div(c, h) - d >= 0 with h >= 1 gives c - h*d >= 0"""
    c, d = poly_parts(p)
    for m, k in d.items():
        if k == 1 and len(m) == 1 and m[0].op == 'div' and m[0].a[1].op != 'c':
            x, h = m[0].a
            rest = sub(p, m[0])          # div + rest >= 0
            cons.append(add(x, mul(h, rest)))


def _axioms(atoms):
    """definitional facts of slices, divisions, remainders"""
    out = []
    for t in atoms:
        if t.op == 'slice':
            x, lo, n = t.a
            if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi.bit_length() <= lo + n:
                # t = floor(x / 2^lo)
                d = sub(x, scale(t, 1 << lo))
                out.append(d)
                out.append(sub(C((1 << lo) - 1), d))
            elif lo == 0 and x.lo is not None and x.lo >= 0:
                out.append(sub(x, t))
                if x.hi is not None:
                    up = slice_(x, n, x.hi.bit_length() - n)
                    d = sub(x, add(t, scale(up, 1 << n)))
                    out.append(d)
                    out.append(neg(d))
        elif t.op == 'div' and t.a[1].op == 'c' and t.a[1].a[0] > 0 and t.a[0].lo is not None and t.a[0].lo >= 0:
            d = sub(t.a[0], scale(t, t.a[1].a[0]))
            out.append(d)
            out.append(sub(C(t.a[1].a[0] - 1), d))
        elif t.op == 'max':
            for x in t.a:
                out.append(sub(t, x))
        elif t.op == 'rmax':
            out.append(sub(t, t.a[0]))
        elif t.op == 'rlast':
            v0, J, n, c, x = t.a
            k = sub(x, J)
            if k.op == 'c' and n.lo is not None and n.lo >= 0:
                # x = J + k for some J < n, or v0
                if v0.op == 'c' and v0.a[0] <= k.a[0]:
                    out.append(sub(t, v0))
                    if v0.a[0] == k.a[0] - 1:
                        out.append(sub(add(n, v0), t))
    return out


def refute(cons, goal, iv, limit=220):
    r"""True if cons /\ goal >= 0 is unsatisfiable over the reals"""
    # relevance: constraints connected to the goal through shared monomials
    def monos(p):
        return poly_parts(p)[1].keys()
    rel = set(monos(goal))
    atoms = {a for m in rel for a in m}
    chosen = [goal]
    pool = list(dict.fromkeys(cons))
    pool += _axioms(atoms)
    seen_ax = set(atoms)
    used = set()
    for _ in range(4):
        ch = False
        for i, p in enumerate(pool):
            if i in used:
                continue
            ms = monos(p)
            if any(m in rel for m in ms):
                used.add(i)
                chosen.append(p)
                new = set(ms) - rel
                if new:
                    rel |= new
                    ch = True
        na = {a for m in rel for a in m} - seen_ax
        if na:
            seen_ax |= na
            pool += _axioms(na)
            ch = True
        if not ch or len(chosen) > 40:
            break
    # bounds of monomials
    rows = []
    for p in chosen:
        c, d = poly_parts(p)
        rows.append((c, dict(d)))
    for m in rel:
        lo, hi = mono_iv(m, iv)
        if lo is not None:
            rows.append((-lo, {m: 1}))
        if hi is not None:
            rows.append((hi, {m: -1}))
    return _fm(rows, limit)


def _fm(rows, limit):
    rows = _dedup(rows)
    while True:
        for c, d in rows:
            if not d and c < 0:
                return True
        vars_ = {}
        for c, d in rows:
            for m, k in d.items():
                v = vars_.setdefault(m, [0, 0])
                v[0 if k > 0 else 1] += 1
        if not vars_:
            return False
        m = min(vars_, key=lambda x: vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1])
        pos = [r for r in rows if r[1].get(m, 0) > 0]
        negs = [r for r in rows if r[1].get(m, 0) < 0]
        rest = [r for r in rows if m not in r[1]]
        if len(pos) * len(negs) + len(rest) > limit:
            return False
        for c1, d1 in pos:
            for c2, d2 in negs:
                a, b = d1[m], -d2[m]
                g = gcd(a, b)
                x, y = b // g, a // g
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + v * x
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * y
                d = {k: v for k, v in d.items() if v}
                c = c1 * x + c2 * y
                # integer tightening
                g = 0
                for v in d.values():
                    g = gcd(g, v)
                if g > 1:
                    c //= g
                    d = {k: v // g for k, v in d.items()}
                rest.append((c, d))
        rows = _dedup(rest)


from math import gcd


def _dedup(rows):
    best = {}
    for c, d in rows:
        k = frozenset(d.items())
        if k not in best or c < best[k][0]:
            best[k] = (c, d)
    return list(best.values())
