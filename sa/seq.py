"""Sequences: contents of strings, vectors, buffers and streams.

A sequence is a normalised tuple of parts
  ('e', v)            one element
  ('s', base, o, n)   n elements of an unknown sequence `base` from offset o
  ('r', v, n)         n copies of v
  ('c', j, n, parts)  the concatenation of parts(j) for j in [0, n)
  ('i', c, p, q)      p if c else q
"""
from .terms import *
from . import terms as tm

BASES = {}   # base name -> dict(len=, elem=, lo=, hi=)


def base(name, *args):
    return mk('base', name, *args)


def rebuild_base(t, a):
    r = BASES.get(a[0], {}).get('rebuild')
    return mk('base', *a)


def len_base(b):
    f = BASES.get(b.a[0], {}).get('len')
    if f is not None:
        return f(b)
    return mk('len', b, lo=0, hi=(1 << 60))


def at_base(b, i):
    f = BASES.get(b.a[0], {}).get('elem')
    if f is not None:
        return f(b, i)
    d = BASES.get(b.a[0], {})
    return mk('at', b, i, lo=d.get('lo', 0), hi=d.get('hi', 255))


def raw_at(b, i, lo, hi):
    return mk('at', b, i, lo=lo, hi=hi)


def vsubst(v, env, memo):
    if isinstance(v, T):
        return tm._subst(v, env, memo)
    if hasattr(v, 'subst'):
        return v.subst(env, memo)
    return v


def vterms(v):
    if isinstance(v, T):
        return [v]
    if hasattr(v, 'terms'):
        return v.terms()
    return []


def plen(parts):
    out = ZERO
    for p in parts:
        k = p[0]
        if k == 'e':
            out = add(out, ONE)
        elif k == 's':
            out = add(out, p[3])
        elif k == 'r':
            out = add(out, p[2])
        elif k == 'c':
            out = add(out, rsum(p[1], p[2], plen(p[3])))
        elif k == 'i':
            out = add(out, ite(p[1], plen(p[2]), plen(p[3])))
    return out


def psubst(parts, env, memo):
    out = []
    for p in parts:
        k = p[0]
        if k == 'e':
            out.append(('e', vsubst(p[1], env, memo)))
        elif k == 's':
            b = tm._subst(p[1], env, memo)
            o = tm._subst(p[2], env, memo)
            n = tm._subst(p[3], env, memo)
            if b.op == 'seqval':      # a base replaced by a concrete sequence
                s = b.a[0]
                out.extend(s.slice(o, n).parts)
            else:
                out.append(('s', b, o, n))
        elif k == 'r':
            out.append(('r', vsubst(p[1], env, memo), tm._subst(p[2], env, memo)))
        elif k == 'c':
            if p[1].a[0].startswith('$'):
                f = fresh('b', 0)
                out.append(('c', f, tm._subst(p[2], env, memo), psubst(psubst(p[3], {p[1]: f}, {}), env, memo)))
            else:
                out.append(('c', p[1], tm._subst(p[2], env, memo), psubst(p[3], env, memo)))
        elif k == 'i':
            out.append(('i', tm._subst(p[1], env, memo), psubst(p[2], env, memo), psubst(p[3], env, memo)))
    return normalise(out)


def pterms(parts):
    out = []
    for p in parts:
        k = p[0]
        if k == 'e':
            out.extend(vterms(p[1]))
        elif k == 's':
            out.extend((p[1], p[2], p[3]))
        elif k == 'r':
            out.extend(vterms(p[1]))
            out.append(p[2])
        elif k == 'c':
            out.append(p[2])
            out.extend(pterms(p[3]))
        elif k == 'i':
            out.append(p[1])
            out.extend(pterms(p[2]))
            out.extend(pterms(p[3]))
    return out


def pheight(parts):
    """one more than the largest index of a variable bound inside"""
    d = 0
    for p in parts:
        if p[0] == 'c':
            if p[1].a[0].startswith('$'):
                d = max(d, int(p[1].a[0][1:]) + 1)
            d = max(d, pheight(p[3]), tm.height(p[2]))
        elif p[0] == 'i':
            d = max(d, tm.height(p[1]), pheight(p[2]), pheight(p[3]))
        else:
            for x in p[1:]:
                d = max(d, vheight(x))
    return d


def vheight(v):
    if isinstance(v, T):
        return tm.height(v)
    if isinstance(v, Seq):
        return v.height()
    return max([tm.height(t) for t in vterms(v)], default=0)


def canon_c(p):
    """canonical name of the counting variable"""
    J = bound(pheight(p[3]))
    if J is p[1]:
        return p
    return ('c', J, p[2], psubst(p[3], {p[1]: J}, {}))


def normalise(parts):
    out = []

    def push(p):
        k = p[0]
        if k == 'e' and isinstance(p[1], T) and p[1].op == 'at' and BASES.get(p[1].a[0].a[0], {}).get('elem') is None:
            p = ('s', p[1].a[0], p[1].a[1], ONE)
            k = 's'
        if k == 's' and p[3] is ZERO:
            return
        if k == 'r':
            if p[2] is ZERO:
                return
            n = p[2].const
            if n is not None:
                if n <= 0:
                    return
                if n <= 256:
                    for _ in range(n):
                        push(('e', p[1]))
                    return
        if k == 'c':
            n = p[2].const
            if not p[3] or n == 0:
                return
            p = canon_c(p)
            if n is not None and n <= 32:
                for i in range(n):
                    for q in psubst(p[3], {p[1]: C(i)}, {}):
                        push(q)
                return
            inner = p[3]
            if len(inner) > 1 and all(q[0] == 'e' for q in inner) and all(q[1] == inner[0][1] for q in inner[1:]) \
                    and not any(occurs(p[1], t) for t in vterms(inner[0][1])):
                push(('r', inner[0][1], scale(p[2], len(inner))))
                return
            if len(inner) == 1:
                q = inner[0]
                if q[0] == 'e' and not any(occurs(p[1], t) for t in vterms(q[1])):
                    push(('r', q[1], p[2]))
                    return
                if q[0] == 'r' and not any(occurs(p[1], t) for t in pterms((q,))):
                    push(('r', q[1], mul(p[2], q[2])))
                    return
                if q[0] == 's' and not occurs(p[1], q[1]) and q[3].const is not None:
                    m = q[3].const
                    if lin_coeff(q[2], p[1]) == m:
                        push(('s', q[1], subst(q[2], {p[1]: ZERO}), scale(p[2], m)))
                        return
                if q[0] == 'i' and not occurs(p[1], q[1]):
                    push(('i', q[1], normalise([('c', p[1], p[2], q[2])]), normalise([('c', p[1], p[2], q[3])])))
                    return
        if k == 'i':
            if p[1] is TRUE:
                for q in p[2]:
                    push(q)
                return
            if p[1] is FALSE:
                for q in p[3]:
                    push(q)
                return
            if p[2] == p[3]:
                for q in p[2]:
                    push(q)
                return
            c = oriented(p[1])
            if c is not p[1]:
                p = ('i', c, p[3], p[2])
        if out:
            l = out[-1]
            if l[0] == 's' and k == 's' and l[1] is p[1] and add(l[2], l[3]) is p[2]:
                out[-1] = ('s', l[1], l[2], add(l[3], p[3]))
                return
            if l[0] == 'c' and k == 'e' and len(l[3]) == 1 and l[3][0][0] == 'e' and vsubst(l[3][0][1], {l[1]: l[2]}, {}) == p[1]:
                out[-1] = ('c', l[1], add(l[2], ONE), l[3])
                return
            if l[0] == 'r' and k == 'e' and l[1] == p[1]:
                out[-1] = ('r', l[1], add(l[2], ONE))
                return
            if l[0] == 'r' and k == 'r' and l[1] == p[1]:
                out[-1] = ('r', l[1], add(l[2], p[2]))
                return
            if k == 'r' and l[0] == 'e' and l[1] == p[1]:
                n = p[2]
                while out and out[-1][0] == 'e' and out[-1][1] == p[1]:
                    out.pop()
                    n = add(n, ONE)
                out.append(('r', p[1], n))
                return
        out.append(p)

    for p in parts:
        push(p)
    return tuple(out)


class Seq:
    __slots__ = ('parts', '_h', '_len')

    def __init__(self, parts=(), norm=True):
        self.parts = normalise(parts) if norm else tuple(parts)
        self._h = None
        self._len = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(('Seq', self.parts))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Seq) and self.parts == o.parts

    def __repr__(self):
        return '<' + ' '.join(show_part(p) for p in self.parts) + '>'

    def subst(self, env, memo):
        n = psubst(self.parts, env, memo)
        return self if n == self.parts else Seq(n, False)

    def terms(self):
        return pterms(self.parts)

    def height(self):
        return pheight(self.parts)

    def length(self):
        if self._len is None:
            self._len = plen(self.parts)
        return self._len

    def __add__(self, o):
        return Seq(self.parts + o.parts)

    # `dec` decides a condition: True / False / None
    def at(self, i, dec=None):
        dec = dec or const_dec
        off = ZERO
        rest = self.parts
        for n, p in enumerate(rest):
            pl = plen((p,))
            end = add(off, pl)
            inside = TRUE if n == len(rest) - 1 else lt(i, end)
            d = dec(inside)
            if d is True:
                if n and dec(le(off, i)) is not True and n == len(rest) - 1 and False:
                    return None
                return part_at(p, sub(i, off), dec)
            if d is None:
                # undecided: select
                a = part_at(p, sub(i, off), dec)
                b = Seq(rest[n + 1:], False).at(sub(i, end), dec)
                if isinstance(a, T) and isinstance(b, T):
                    return ite(inside, a, b)
                return None
            off = end
        return None

    def slice(self, o, n, dec=None):
        dec = dec or const_dec
        if o is ZERO and n is self.length():
            return self
        if n is ZERO:
            return Seq(())
        if len(self.parts) == 1 and self.parts[0][0] == 's':
            p = self.parts[0]
            return Seq((('s', p[1], add(p[2], o), n),))
        if len(self.parts) == 1 and self.parts[0][0] == 'r':
            return Seq((('r', self.parts[0][1], n),))
        if len(self.parts) == 1 and self.parts[0][0] == 'c':
            _, J, _, body = self.parts[0]
            m = plen(body).const
            if m:
                q, k = (o, n) if m == 1 else (div(o, C(m)), div(n, C(m)))
                if m == 1 or (scale(q, m) is o and scale(k, m) is n):
                    f = fresh('b', 0)
                    return Seq((('c', f, k, psubst(body, {J: add(f, q)}, {})),))
        # drop whole parts from the front
        parts = list(self.parts)
        while parts and o is not ZERO:
            pl = plen((parts[0],))
            if dec(le(pl, o)) is True:
                o = sub(o, pl)
                parts.pop(0)
            else:
                break
        if o is not ZERO and parts and parts[0][0] in ('s', 'r', 'c'):
            p = parts[0]
            pl = plen((p,))
            if dec(le(o, pl)) is True:
                if p[0] == 's':
                    parts[0] = ('s', p[1], add(p[2], o), sub(p[3], o))
                    o = ZERO
                elif p[0] == 'r':
                    parts[0] = ('r', p[1], sub(p[2], o))
                    o = ZERO
        if o is ZERO:
            out = []
            left = n
            for p in parts:
                if left is ZERO:
                    return Seq(out)
                pl = plen((p,))
                if dec(le(pl, left)) is True:
                    out.append(p)
                    left = sub(left, pl)
                    continue
                if p[0] == 's' and dec(le(left, pl)) is True:
                    out.append(('s', p[1], p[2], left))
                    left = ZERO
                    continue
                if p[0] == 'r' and dec(le(left, pl)) is True:
                    out.append(('r', p[1], left))
                    left = ZERO
                    continue
                break
            if left is ZERO:
                return Seq(out)
        return Seq((('s', base('sub', self), o, n),))


def const_dec(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return None


def part_at(p, i, dec):
    k = p[0]
    if k == 'e':
        return p[1]
    if k == 's':
        return at_base(p[1], add(p[2], i))
    if k == 'r':
        return p[1]
    if k == 'i':
        d = dec(p[1])
        if d is True:
            return Seq(p[2], False).at(i, dec)
        if d is False:
            return Seq(p[3], False).at(i, dec)
        a = Seq(p[2], False).at(i, dec)
        b = Seq(p[3], False).at(i, dec)
        if isinstance(a, T) and isinstance(b, T):
            return ite(p[1], a, b)
        return None
    if k == 'c':
        inner = p[3]
        m = plen(inner).const
        if m == 1:
            return Seq(psubst(inner, {p[1]: i}, {}), False).at(ZERO, dec)
        if m:
            q = div(i, C(m))
            r = mod(i, C(m))
            if r.const is not None:
                return Seq(psubst(inner, {p[1]: q}, {}), False).at(r, dec)
        return None
    return None


EMPTY = Seq(())


def lit(bs):
    return Seq([('e', C(b)) for b in bs])


def lits(s):
    return lit(s.encode('latin1'))


def whole(b):
    return Seq((('s', b, ZERO, len_base(b)),))


def elems(vals):
    return Seq([('e', v) for v in vals])


def const_bytes(s):
    """the literal value of a sequence, or None"""
    out = []
    for p in s.parts:
        if p[0] != 'e' or not isinstance(p[1], T) or p[1].op != 'c':
            return None
        out.append(p[1].a[0])
    return out


def const_elems(s):
    """list of element values when the length is known, or None"""
    n = s.length().const
    if n is None or n > 4096:
        return None
    out = []
    for p in s.parts:
        if p[0] == 'e':
            out.append(p[1])
        elif p[0] == 's':
            for i in range(p[3].const):
                out.append(at_base(p[1], add(p[2], C(i))))
        else:
            m = plen((p,)).const
            if m is None:
                return None
            for i in range(m):
                v = part_at(p, C(i), const_dec)
                if v is None:
                    return None
                out.append(v)
    return out


def show_part(p):
    k = p[0]
    if k == 'e':
        v = p[1]
        if isinstance(v, T) and v.op == 'c' and 32 <= v.a[0] < 127:
            return repr(chr(v.a[0]))
        return repr(v)
    if k == 's':
        return '%r[%r:+%r]' % (p[1], p[2], p[3])
    if k == 'r':
        return '%r^%r' % (p[1], p[2])
    if k == 'c':
        return 'for %r<%r{%s}' % (p[1], p[2], ' '.join(show_part(q) for q in p[3]))
    return 'if %r{%s}{%s}' % (p[1], ' '.join(show_part(q) for q in p[2]), ' '.join(show_part(q) for q in p[3]))
