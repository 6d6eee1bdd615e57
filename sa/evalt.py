"""Refuting valuations.

Two normal forms that differ are not yet a violation: the normal form may simply
not be canonical.  A difference is reported only when the two closed forms
denote different values under some valuation of their symbols that satisfies the
facts of the path.  Valuations interpret terms (the abstract values computed from
the source); nothing of the analysed program is executed.
"""
import random
import zlib
from .terms import *
from . import terms as tm
from .seq import Seq, BASES
from .values import V, Rec, Ptr, LV, Unk, Obj, Exc


class NoValue(Exception):
    pass


LIMIT = 6000
VIRTUAL = frozenset()   # bases whose contents are not spelled out
OPAQUE = {'map', 'mapsym'}
INTERP = {}      # interpreted functions: name -> f(ev, args) -> int
IBASE = {}       # interpreted bases: name -> f(ev, evaluated args) -> tuple of elements


def ibase(name):
    def d(f):
        IBASE[name] = f
        return f
    return d


def ifn(name):
    def d(f):
        INTERP[name] = f
        return f
    return d


@ibase('dec')
def _(ev, n):
    return tuple(ord(c) for c in str(n))


@ibase('val')
def _(ev, s):
    return s[1]


@ibase('sub')
def _(ev, s):
    return s[1]


@ibase('sorted')
def _(ev, s):
    return tuple(sorted(s))


@ifn('seqeq')
def _(ev, a, b):
    return int(a == b)


NPOS = (1 << 64) - 1


def _first(s, pred, pos=0):
    for i in range(min(pos, len(s)), len(s)):
        if pred(s[i]):
            return i
    return NPOS


def _last(s, pred, pos=NPOS):
    for i in range(min(pos, len(s) - 1), -1, -1):
        if pred(s[i]):
            return i
    return NPOS


def _set(k):
    return k if isinstance(k, tuple) else (k,)


ifn('str.find_first_of')(lambda ev, s, k, p=0: _first(s, lambda c: c in _set(k), p))
ifn('str.find_first_not_of')(lambda ev, s, k, p=0: _first(s, lambda c: c not in _set(k), p))
ifn('str.find_last_of')(lambda ev, s, k, p=NPOS: _last(s, lambda c: c in _set(k), p))
ifn('str.find_last_not_of')(lambda ev, s, k, p=NPOS: _last(s, lambda c: c not in _set(k), p))


@ifn('str.find')
def _(ev, s, k, p=0):
    k = _set(k)
    for i in range(p, len(s) - len(k) + 1):
        if s[i:i + len(k)] == k:
            return i
    return NPOS


@ifn('str.rfind')
def _(ev, s, k, p=NPOS):
    k = _set(k)
    for i in range(min(p, len(s) - len(k)), -1, -1):
        if s[i:i + len(k)] == k:
            return i
    return NPOS


@ibase('dec_loc')
def _(ev, n):
    # a locale that groups digits
    return tuple(ord(c) for c in format(n, ',d'))


class Eval:
    def __init__(self, rnd, pick=None):
        self.rnd = rnd
        self.atoms = {}      # key -> value
        self.info = {}       # key -> (lo, hi, term)
        self.memo = {}
        self.bind = {}
        self.pick = pick     # bias of the choices
        self.low = rnd.random() < 0.5
        self.used = None     # keys read since the last reset

    # ------------------------------------------------------------- atoms
    def choose(self, key, lo, hi, t):
        if self.used is not None:
            self.used.append(key)
        v = self.atoms.get(key)
        if v is None:
            r = self.rnd
            lo = -40 if lo is None else lo
            hi = lo + 40 if hi is None else hi
            m = r.random()
            if hi - lo <= 8 or m < 0.08:
                v = r.randint(lo, hi)
            elif hi - lo <= 255:
                v = lo if self.low and r.random() < 0.7 else r.choice((lo, hi, r.randint(lo, hi), r.randint(lo, hi)))
            else:
                z = max(lo, min(hi, 0))
                v = max(lo, min(hi, z + r.choice((0, 1, 2, 3, r.randint(0, 9), r.randint(0, 9)))))
            self.atoms[key] = v
            self.info[key] = (lo, hi, t)
        return v

    def set(self, key, v):
        lo, hi, _ = self.info.get(key, (None, None, None))
        if isinstance(v, int) and ((lo is not None and v < lo) or (hi is not None and v > hi)):
            return
        self.atoms[key] = v
        self.memo = {}

    def val(self, x):
        if isinstance(x, T):
            if x.op == 'base':
                return self.whole(x)
            return self.t(x)
        if isinstance(x, Seq):
            return ('seq', tuple(self.seq(x)))
        if isinstance(x, Rec):
            return ('rec',) + tuple(self.val(v) for _, v in x.f)
        if isinstance(x, V):
            if type(x).__name__ == 'Unk' or (type(x).__name__ == 'Obj' and x._k and getattr(x, x._k[0]) == 'moved'):
                raise NoValue
            return (type(x).__name__,) + tuple(self.val(getattr(x, k)) for k in x._k)
        if isinstance(x, tuple):
            return tuple(self.val(y) for y in x)
        return x

    def t(self, x):
        op = x.op
        if op == 'c':
            return x.a[0]
        if op == 'sym' and x in self.bind:
            return self.bind[x]
        k = (x, tuple((j, self.bind[j]) for j in free_syms(x) if j in self.bind)) if self.bind else (x, ())
        r = self.memo.get(k)
        if r is None:
            if self.used is not None:
                # keep track of what was read even when memoised later
                outer, self.used = self.used, []
                v = self.t1(x)
                u = tuple(self.used)
                self.used = outer
                outer.extend(u)
                r = (v, u)
            else:
                r = (self.t1(x), ())
            self.memo[k] = r
        elif self.used is not None:
            self.used.extend(r[1])
        return r[0]

    def t1(self, x):
        try:
            return self.t2(x)
        except TypeError:
            # a sequence where a number is expected
            raise NoValue

    def t2(self, x):
        op, a = x.op, x.a
        E = self.t
        if op == 'poly':
            s = a[0]
            for m, k in a[1]:
                p = k
                for y in m:
                    p *= E(y)
                s += p
            return s
        if op == 'ge0':
            return int(E(a[0]) >= 0)
        if op == 'eq0':
            return int(E(a[0]) == 0)
        if op == 'not':
            return int(not E(a[0]))
        if op == 'and':
            return int(all(E(y) for y in a))
        if op == 'or':
            return int(any(E(y) for y in a))
        if op == 'ite':
            return E(a[1]) if E(a[0]) else E(a[2])
        if op == 'max':
            return max(E(y) for y in a)
        if op == 'slice':
            return (E(a[0]) >> a[1]) & ((1 << a[2]) - 1)
        if op == 'sx':
            w = a[0]
            v = E(a[1]) & ((1 << w) - 1)
            return v - (1 << w) if v >> (w - 1) else v
        if op == 'band':
            return E(a[0]) & E(a[1])
        if op == 'bor':
            return E(a[0]) | E(a[1])
        if op == 'xor':
            v = 0
            for y in a:
                v ^= E(y)
            return v
        if op in ('div', 'mod'):
            u, v = E(a[0]), E(a[1])
            if v == 0:
                raise NoValue
            q = abs(u) // abs(v)
            q = q if (u < 0) == (v < 0) else -q
            return q if op == 'div' else u - q * v
        if op == 'get':
            return -1 if E(a[1]) else E(a[0])
        if op in ('rsum', 'rprod', 'rmax', 'rlast'):
            i = BINDERS[op]
            n = E(a[i + 1])
            if n > LIMIT:
                raise NoValue
            J = a[i]
            old = self.bind.get(J)
            r = {'rsum': 0, 'rprod': 1}.get(op)
            if r is None:
                r = E(a[0])
            try:
                for k in range(max(n, 0)):
                    self.bind[J] = k
                    if op == 'rsum':
                        r += E(a[2])
                    elif op == 'rprod':
                        r *= E(a[2])
                        if abs(r) > 1 << 4096:
                            raise NoValue
                    elif op == 'rmax':
                        r = max(r, E(a[3]))
                    elif E(a[3]):
                        r = E(a[4])
            finally:
                if old is None:
                    self.bind.pop(J, None)
                else:
                    self.bind[J] = old
            return r
        if op == 'sym':
            if x.a[0].startswith('H:'):
                raise NoValue
            return self.choose(('sym', x.a[0]), x.lo, x.hi, x)
        if op == 'at':
            b = self.bkey(a[0])
            i = E(a[1])
            c = self.content(b)
            if c is not None:
                if not 0 <= i < len(c):
                    raise NoValue
                return c[i]
            return self.choose(('at', b, i), x.lo, x.hi, x)
        if op == 'len':
            b = self.bkey(a[0])
            c = self.content(b)
            if c is not None:
                return len(c)
            return self.choose(('len', b), x.lo, x.hi, x)
        if op == 'fn':
            if a[0].startswith('H:'):
                raise NoValue
            args = tuple(self.val(y) for y in a[1:])
            f = INTERP.get(a[0])
            if f is not None:
                return f(self, *args)
            return self.choose(('fn', a[0]) + args, x.lo, x.hi, x)
        raise NoValue

    def whole(self, b):
        """the contents a base stands for"""
        k = self.bkey(b)
        if b.a[0] in OPAQUE:
            return k
        c = self.content(k)
        if c is None:
            from . import seq as sq
            n = self.t(sq.len_base(b))
            if n > LIMIT:
                raise NoValue
            c = tuple(self.elem(b, i) for i in range(n))
        return tuple(c)

    def bkey(self, b):
        if b.op == 'seqval':
            return ('lit', tuple(self.seq(b.a[0])))
        if b.op != 'base':
            raise NoValue
        n = b.a[0]
        if n.startswith('H:'):
            raise NoValue
        args = tuple(self.val(y) for y in b.a[1:])
        return ('base', n) + args

    def content(self, k):
        if k[0] == 'lit':
            return k[1]
        f = IBASE.get(k[1])
        if f is not None:
            return f(self, *k[2:])
        return None

    # ---------------------------------------------------------- sequences
    def seq(self, s):
        out = []
        self.parts(s.parts, out)
        return out

    def elem(self, b, i):
        """element i of base b (a term), through the same route as terms"""
        from . import seq as sq
        return self.val(sq.at_base(b, C(i)))

    def parts(self, ps, out):
        for p in ps:
            k = p[0]
            if k == 'e':
                out.append(self.val(p[1]))
            elif k == 's':
                o, n = self.t(p[2]), self.t(p[3])
                if p[1].op == 'base' and p[1].a[0] in VIRTUAL:
                    if n:
                        out.append(('run', self.bkey(p[1]), o, n))
                    continue
                if n > LIMIT:
                    raise NoValue
                if p[1].op == 'base' and p[1].a[0] not in ('sub',):
                    bk = self.bkey(p[1])
                    c = self.content(bk)
                else:
                    bk = self.bkey(p[1])
                    c = self.content(bk)
                for i in range(max(n, 0)):
                    if c is not None:
                        if not 0 <= o + i < len(c):
                            raise NoValue
                        out.append(c[o + i])
                    else:
                        out.append(self.elem(p[1], o + i))
            elif k == 'r':
                n = self.t(p[2])
                if n > LIMIT:
                    raise NoValue
                out.extend([self.val(p[1])] * max(n, 0))
            elif k == 'c':
                n = self.t(p[2])
                if n > LIMIT:
                    raise NoValue
                old = self.bind.get(p[1])
                try:
                    for i in range(max(n, 0)):
                        self.bind[p[1]] = i
                        self.parts(p[3], out)
                        if len(out) > LIMIT:
                            raise NoValue
                finally:
                    if old is None:
                        self.bind.pop(p[1], None)
                    else:
                        self.bind[p[1]] = old
            elif k == 'i':
                self.parts(p[2] if self.t(p[1]) else p[3], out)


def fixing(ev, l, rnd):
    """change one atom so that the literal may hold"""
    if l.op in ('and', 'or'):
        bad = [x for x in l.a if not ev.t(x)]
        if bad:
            return fixing(ev, rnd.choice(bad), rnd)
        return False
    if l.op in ('ge0', 'eq0') or (l.op == 'not' and l.a[0].op == 'eq0'):
        p = (l.a[0] if l.op != 'not' else l.a[0].a[0])
        c, d = poly_parts(p)
        v = ev.t(p)
        ms = [(m, k) for m, k in d.items() if len(m) == 1]
        rnd.shuffle(ms)
        for m, k in ms:
            a = m[0]
            key = atom_key(ev, a)
            cur = ev.t(a)
            if l.op == 'eq0':
                if v % k:
                    continue
                new = cur - v // k
            elif l.op == 'ge0':
                need = -v + rnd.choice((0, 0, 0, 1, 2))
                new = cur + (-(-need // k) if k > 0 else -(need // -k) if False else -(-(-need // -k)))
                if new > cur and rnd.random() < 0.1:
                    new += 1 << rnd.choice((8, 16, 32)) # a value whose low bits are small
            else:
                new = cur + rnd.choice((-1, 1, 2))
            if key is None:
                if set_deep(ev, a, new):
                    return True
                continue
            lo, hi, _ = ev.info.get(key, (None, None, None))
            if (lo is not None and new < lo) or (hi is not None and new > hi):
                continue
            ev.set(key, new)
            return True
        return False
    b = l.a[0] if l.op == 'not' else l
    if b.op == 'fn' and b.a[0] == 'seqeq' and l is b:
        return equalise(ev, b.a[1], b.a[2]) or equalise(ev, b.a[2], b.a[1])
    key = atom_key(ev, b)
    if key is not None:
        ev.set(key, 0 if l.op == 'not' else 1)
        return True
    return False


def equalise(ev, b, other):
    """give the base b the contents of the other"""
    if b.op != 'base' or ev.content(ev.bkey(b)) is not None or b.a[0].startswith('H:'):
        return False
    vs = ev.whole(other) if other.op == 'base' else ev.bkey(other)[1]
    k = ev.bkey(b)
    if k == ev.bkey(other):
        return False
    from . import seq as sq
    n = atom_key(ev, sq.len_base(b))
    if n is None:
        return False
    ev.set(n, len(vs))
    for i, v in enumerate(vs):
        e = sq.at_base(b, C(i))
        key = atom_key(ev, e) if isinstance(e, T) else None
        if key is None or not isinstance(v, int):
            return False
        ev.set(key, v)
    return True


def set_deep(ev, a, new):
    """make the compound atom take the value new, if it is a bit slice or a cast"""
    if a.op == 'slice':
        y, lo, n = a.a
        if not 0 <= new < (1 << n):
            return False
        key = atom_key(ev, y)
        if key is None:
            if y.op == 'poly' and lo == 0:
                c, d = poly_parts(y)
                v = ev.t(y)
                for m, k in d.items():
                    if k in (1, -1) and len(m) == 1:
                        kk = atom_key(ev, m[0])
                        if kk is not None:
                            ev.set(kk, ev.t(m[0]) + (new - (v & ((1 << n) - 1))) * k)
                            return True
            return False
        v = ev.t(y)
        mask = ((1 << n) - 1) << lo
        ev.set(key, (v & ~mask) | (new << lo))
        return True
    if a.op == 'sx':
        key = atom_key(ev, a.a[1])
        if key is None:
            return False
        ev.set(key, new & ((1 << a.a[0]) - 1))
        return True
    if a.op == 'get':
        key = atom_key(ev, a.a[0])
        if key is not None and 0 <= new < 256:
            ev.set(key, new)
            return True
    return False


def atom_key(ev, a):
    ev.used = []
    try:
        if a.op == 'sym':
            if a in ev.bind:
                return None
            ev.t(a)
            return ('sym', a.a[0])
        if a.op == 'at':
            b = ev.bkey(a.a[0])
            if ev.content(b) is not None:
                return None
            k = ('at', b, ev.t(a.a[1]))
            ev.t(a)
            return k
        if a.op == 'len':
            b = ev.bkey(a.a[0])
            if ev.content(b) is not None:
                return None
            ev.t(a)
            return ('len', b)
        if a.op == 'fn' and a.a[0] not in INTERP:
            ev.t(a)
            return ('fn', a.a[0]) + tuple(ev.val(y) for y in a.a[1:])
    finally:
        ev.used = None
    return None


def valuations(lits, seed=1, tries=60, steps=120, alls=(), also=()):
    """valuations satisfying the literals (a generator)"""
    rnd = random.Random(seed)
    lits = list(lits)
    for _ in range(tries):
        ev = Eval(rnd)
        ok = False
        try:
            for _ in range(steps):
                bad, open_ = violated(ev, lits)
                if not bad:
                    if open_:
                        break
                    bad = one_of(ev, alls)
                    if not bad:
                        ok = True
                        break
                    if bad is MANY:
                        break
                for _ in range(3):
                    try:
                        if fixing(ev, bad[0] if rnd.random() < 0.6 else rnd.choice(bad), rnd):
                            break
                    except NoValue:
                        continue
                else:
                    break
        except (NoValue, OverflowError, RecursionError):
            continue
        if ok:
            yield ev


def violated(ev, lits):
    """the literals that do not hold, and whether some have no value yet"""
    bad, open_ = [], False
    for l in lits:
        try:
            if not ev.t(l):
                bad.append(l)
        except NoValue:
            open_ = True
    return bad, open_


MANY = 'more elements than can be tried'


def one_of(ev, alls):
    """the first element for which a quantified fact does not hold: its literals that fail"""
    for j, n, ls in alls:
        if all(l.const == 1 for l in ls):
            continue
        m = ev.t(n)
        if m > 2000:
            return MANY
        for i in range(m):
            ev.bind[j] = i
            try:
                bad = [l for l in ls if not ev.t(l)]
            finally:
                ev.bind.pop(j, None)
            if bad:
                return [tm.subst(l, {j: C(i)}) for l in bad]
    return ()


def all_hold(ev, alls):
    for j, n, ls in alls:
        if all(l.const == 1 for l in ls):
            continue
        m = ev.t(n)
        if m > 2000:
            return False
        for i in range(m):
            ev.bind[j] = i
            try:
                if not all(ev.t(l) for l in ls):
                    return False
            finally:
                ev.bind.pop(j, None)
    return True


def choices(v, out):
    """the conditions of the choices in v"""
    if isinstance(v, T):
        for x in tm.walk(v):
            if x.op == 'ite' and not tm.loose(x.a[0]):
                out[x.a[0]] = 1
            elif x.op == 'rlast': # some element is chosen: say the first
                c = tm.subst(x.a[3], {x.a[1]: C(0)})
                c = tm.and_(tm.ge0(tm.sub(x.a[2], C(1))), c)
                if not tm.loose(c):
                    out[c] = 1
    elif isinstance(v, Seq):
        choices(v.parts, out)
    elif isinstance(v, V):
        for k in v._k:
            choices(getattr(v, k), out)
    elif isinstance(v, tuple):
        if v and v[0] == 'i' and len(v) == 4 and isinstance(v[1], T) and not tm.loose(v[1]):
            out[v[1]] = 1
        for x in v:
            choices(x, out)


def apart(a, b):
    """conditions under which the choices of a and b may go different ways"""
    x, y = {}, {}
    choices(a, x)
    choices(b, y)
    p, q = [c for c in x if c not in y][:4], [c for c in y if c not in x][:4]
    for c in p or (TRUE,):
        for d in q or (TRUE,):
            for e in ((c, not_(d)), (not_(c), d)) if p and q else ((c, d), (not_(c), d), (c, not_(d))):
                if FALSE not in e and (c is not TRUE or d is not TRUE):
                    yield tuple(z for z in e if z is not TRUE)


def differs(facts, a, b, seed=1, tries=80, extra=()):
    """a valuation of the facts under which a and b denote different values, or
    None.  -> (description, value of a, value of b)"""
    for more, n in [((), tries)] + [(e, 12) for e in apart(a, b)]:
        for ev in valuations(tuple(facts.lits) + tuple(extra) + more, seed, n, alls=facts.all_):
            try:
                x, y = ev.val(a), ev.val(b)
            except (NoValue, OverflowError, RecursionError):
                continue
            if x != y:
                # choices made while evaluating must still satisfy the facts
                try:
                    if all(ev.t(l) for l in facts.lits) and all(ev.t(l) for l in extra) and all_hold(ev, facts.all_):
                        return describe(ev), x, y
                except NoValue:
                    continue
    return None


def satisfiable(facts, extra=(), seed=1, tries=80):
    """a valuation under which the path is taken, or None"""
    for ev in valuations(tuple(facts.lits) + tuple(extra), seed, tries, alls=facts.all_):
        return describe(ev)
    return None


def describe(ev, limit=12):
    out = []
    for k, v in ev.atoms.items():
        if k[0] == 'sym':
            out.append('%s=%d' % (k[1], v))
        elif k[0] == 'len':
            out.append('|%s|=%d' % (nm(k[1]), v))
        elif k[0] == 'at':
            out.append('%s[%d]=%s' % (nm(k[1]), k[2], v))
        else:
            out.append('%s=%s' % (nm(k), v))
        if len(out) >= limit:
            out.append('...')
            break
    return ', '.join(out)


def nm(k):
    s = str(k[1]) + (repr(k[2:]) if len(k) > 2 else '')
    return s[:60]
