"""Terms as vectors of affine forms over GF(2): the domain in which shift registers
are compared.  A bit is an integer whose bit 0 is the constant and whose bit k+1 says
whether the k-th unknown bit is added."""
from .terms import *
from . import terms as tm


class NotAffine(Exception):
    pass


class Bits:
    def __init__(self):
        self.vars = {}
        self.memo = {}

    def var(self, t, k):
        return 1 << (self.vars.setdefault((t, k), len(self.vars)) + 1)

    def atom(self, t, w):
        if t.lo is None or t.hi is None or t.lo < 0:
            raise NotAffine('range of %s' % str(t)[:60])
        n = t.hi.bit_length()
        return [self.var(t, k) if k < n else 0 for k in range(w)]

    def bits(self, t, w):
        """the w low bits of t (two's complement)"""
        k = (t, w)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._bits(t, w)
        return r

    def _bits(self, t, w):
        if t.op == 'c':
            return [(t.a[0] >> i) & 1 for i in range(w)]
        if t.op in ('sym', 'at', 'fn'):
            return self.atom(t, w)
        if t.op == 'slice':
            x, lo, n = t.a
            b = self.bits(x, lo + min(n, w))[lo:]
            return b + [0] * (w - len(b))
        if t.op == 'sx':
            n, x = t.a
            b = self.bits(x, min(n, w))
            return b + [b[-1]] * (w - len(b))
        if t.op == 'xor':
            out = [0] * w
            for x in t.a:
                out = [a ^ b for a, b in zip(out, self.bits(x, w))]
            return out
        if t.op == 'poly':
            return self.poly(t, w)
        if t.op == 'ite':
            return self.ite(t, w)
        if tm.is_bool(t):
            return [self.bool(t)] + [0] * (w - 1)
        raise NotAffine(t.op)

    def poly(self, t, w):
        ps = tm.pieces(t)
        if ps is not None:
            out = [0] * w
            for o, n, x, lo in ps:
                if o >= w:
                    continue
                b = self.bits(x, lo + n)[lo:]
                for i, v in enumerate(b):
                    if o + i < w:
                        out[o + i] ^= v
            return out
        # -x - 1 turns every bit round
        y = sub(C(-1), t)
        if y.op != 'poly' or tm.pieces(y) is not None:
            return [b ^ 1 for b in self.bits(y, w)]
        c, d = tm._poly(t)
        if len(d) == 1:
            # a number chosen by one bit
            (m, k), = d.items()
            if len(m) == 1 and m[0].lo == 0 and m[0].hi == 1:
                b = self.bits(m[0], 1)[0]
                return [((c >> i) & 1) ^ (b if ((c ^ (c + k)) >> i) & 1 else 0) for i in range(w)]
        raise NotAffine('sum')

    def bool(self, c):
        """a condition as one affine bit"""
        if c.op == 'c':
            return c.a[0] & 1
        if c.op == 'not':
            return self.bool(c.a[0]) ^ 1
        if c.op in ('slice', 'sym', 'xor', 'at') and c.hi == 1:
            return self.bits(c, 1)[0]
        if c.op in ('ge0', 'eq0'):
            a = self.subject(c, 1)
            if a is not None:
                v = [tm.subst(c, {a: C(i)}) for i in (0, 1)]
                if all(x.op == 'c' for x in v):
                    p, q = (x.a[0] for x in v)
                    return p ^ ((p ^ q) * self.bits(a, 1)[0] if p != q else 0)
        raise NotAffine('condition %s' % str(c)[:80])

    def subject(self, c, width):
        """the only value of at most so many bits a condition depends on"""
        p = c.a[0]
        cs, d = tm._poly(p)
        ats = {m for m in d}
        if len(ats) == 1:
            m = next(iter(ats))
            if len(m) == 1 and m[0].lo is not None and m[0].lo >= 0 and m[0].hi is not None and m[0].hi.bit_length() <= width:
                return m[0]
        return None

    def ite(self, t, w):
        # a table: every condition is about one small value, every leaf a constant
        tab = self.table(t)
        if tab is not None:
            a, vs = tab
            n = a.hi.bit_length()
            if len(vs) == 1 << n and all(vs[i] == self.spread(vs, i) for i in range(1 << n)):
                ab = self.bits(a, n)
                out = []
                for k in range(w):
                    x = (vs[0] >> k) & 1
                    for i in range(n):
                        if ((vs[0] ^ vs[1 << i]) >> k) & 1:
                            x ^= ab[i]
                    out.append(x)
                return out
            raise NotAffine('the table over %s' % str(a)[:60])
        c, x, y = t.a
        b = self.bool(c)
        p, q = self.bits(x, w), self.bits(y, w)
        out = []
        for u, v in zip(p, q):
            if u == v:
                out.append(u)
            elif u ^ v == 1:
                out.append(v ^ b)
            else:
                raise NotAffine('choice')
        return out

    @staticmethod
    def spread(vs, i):
        x = vs[0]
        k = 0
        while i >> k:
            if (i >> k) & 1:
                x ^= vs[0] ^ vs[1 << k]
            k += 1
        return x

    def table(self, t):
        a = None
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen or x.op == 'c':
                continue
            seen.add(x)
            if x.op != 'ite':
                return None
            for c in [x.a[0]]:
                if c.op not in ('ge0', 'eq0'):
                    return None
                b = self.subject(c, 8)
                if b is None or (a is not None and b is not a):
                    return None
                a = b
            st.extend(x.a[1:])
        if a is None or (a.hi + 1) & a.hi or len(seen) < 2:
            return None
        out = []
        for i in range(a.hi + 1):
            x = tm.subst(t, {a: C(i)})
            if x.op != 'c':
                return None
            out.append(x.a[0])
        return a, out


POLY = 0xEDB88320


def crc_step(c, byte):
    """one byte through PKZIP's register, bit by bit (RFC 1952, appnote 4.4.7): c and
    byte are lists of affine bits, least significant first"""
    c = list(c)
    for i in range(8):
        c[i] = c[i] ^ byte[i]
    for _ in range(8):
        low = c[0]
        c = c[1:] + [0]
        for i in range(32):
            if (POLY >> i) & 1:
                c[i] ^= low
    return c


def crc_number(c, byte):
    c ^= byte
    for _ in range(8):
        c = (c >> 1) ^ (POLY if c & 1 else 0)
    return c
