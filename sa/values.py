"""Abstract values that are not terms: references, pointers, records, streams, maps."""
from .terms import *
from . import terms as tm
from .seq import Seq, vsubst, vterms, EMPTY


class V:
    """immutable; _k lists the attributes"""
    __slots__ = ('_h',)
    _k = ()

    def key(self):
        return tuple(getattr(self, k) for k in self._k)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())

    def but(self, **kw):
        n = type(self).__new__(type(self))
        for k in self._k:
            setattr(n, k, kw[k] if k in kw else getattr(self, k))
        return n

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (k, getattr(self, k)) for k in self._k))

    def subst(self, env, memo):
        ch = {}
        for k in self._k:
            v = getattr(self, k)
            n = gsubst(v, env, memo)
            if n is not v:
                ch[k] = n
        return self.but(**ch) if ch else self

    def terms(self):
        out = []
        for k in self._k:
            out.extend(gterms(getattr(self, k)))
        return out


def gsubst(v, env, memo):
    if isinstance(v, T):
        return tm._subst(v, env, memo)
    if isinstance(v, (V, Seq)):
        return v.subst(env, memo)
    if isinstance(v, tuple):
        n = tuple(gsubst(x, env, memo) for x in v)
        return v if all(a is b for a, b in zip(n, v)) else n
    return v


def gterms(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, (V, Seq)):
        return v.terms()
    if isinstance(v, tuple):
        out = []
        for x in v:
            out.extend(gterms(x))
        return out
    return []


class LV(V):
    """a reference to a location"""
    __slots__ = ('root', 'path')
    _k = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def f(self, name):
        return LV(self.root, self.path + (('f', name),))

    def x(self, i):
        return LV(self.root, self.path + (('x', i),))


class Ptr(V):
    """pointer or iterator.  idx None: to the object itself; otherwise to the
    element idx of the container at (root, path).  view: None, or (leaf bytes,
    element bytes) when idx counts bytes of the representation.
    rev: reverse iterator (idx of the element it refers to)."""
    __slots__ = ('root', 'path', 'idx', 'view', 'rev')
    _k = ('root', 'path', 'idx', 'view', 'rev')

    def __init__(self, root, path=(), idx=None, view=None, rev=False):
        self.root = root
        self.path = path
        self.idx = idx
        self.view = view
        self.rev = rev

    def lv(self):
        if self.view is not None:
            return LV(self.root, self.path + (('b', self.view, self.idx),))
        if self.idx is None:
            return LV(self.root, self.path)
        return LV(self.root, self.path + (('x', self.idx),))

    def moved(self, n):
        i = ZERO if self.idx is None else self.idx
        return self.but(idx=sub(i, n) if self.rev else add(i, n))


NULL = Ptr(None)


class Rec(V):
    """a record; t: its name, f: ((field, value), ...)"""
    __slots__ = ('t', 'f')
    _k = ('t', 'f')

    def __init__(self, t, f):
        self.t = t
        self.f = f if isinstance(f, tuple) else tuple(f.items())

    def get(self, n):
        for k, v in self.f:
            if k == n:
                return v
        return None

    def put(self, n, v):
        out = []
        found = False
        for k, o in self.f:
            if k == n:
                out.append((k, v))
                found = True
            else:
                out.append((k, o))
        if not found:
            out.append((n, v))
        return Rec(self.t, tuple(out))


class Mem(V):
    """an object known by the bytes of its representation"""
    __slots__ = ('bytes', 'leaf', 'size')
    _k = ('bytes', 'leaf', 'size')

    def __init__(self, bytes, leaf, size):
        self.bytes = bytes
        self.leaf = leaf
        self.size = size


class OStr(V):
    """output stream. kind: 's' in memory, 'f' file, 'x' given by the caller"""
    __slots__ = ('kind', 'content', 'failed', 'pending', 'open', 'closed', 'loc', 'fmt', 'name')
    _k = ('kind', 'content', 'failed', 'pending', 'open', 'closed', 'loc', 'fmt', 'name')

    def __init__(self, kind, content=EMPTY, failed=FALSE, pending=FALSE, open=TRUE, closed=False, loc='global', fmt=(), name=None):
        self.kind = kind
        self.content = content
        self.failed = failed
        self.pending = pending
        self.open = open
        self.closed = closed
        self.loc = loc
        self.fmt = fmt
        self.name = name


class IStr(V):
    """input stream over src; bad: the condition under which an operation has
    failed so far; eof: under which the end has been met"""
    __slots__ = ('kind', 'src', 'pos', 'bad', 'eof', 'gcount', 'open', 'loc', 'name')
    _k = ('kind', 'src', 'pos', 'bad', 'eof', 'gcount', 'open', 'loc', 'name')

    def __init__(self, kind, src, pos=ZERO, bad=FALSE, eof=FALSE, gcount=ZERO, open=TRUE, loc='global', name=None):
        self.kind = kind
        self.src = src
        self.pos = pos
        self.bad = bad
        self.eof = eof
        self.gcount = gcount
        self.open = open
        self.loc = loc
        self.name = name


class MapV(V):
    """a map: known entries (key, value) in the order of insertion on top of an
    unknown map `base` (None: empty).  `const`: entries are constant keys."""
    __slots__ = ('base', 'entries')
    _k = ('base', 'entries')

    def __init__(self, base=None, entries=()):
        self.base = base
        self.entries = entries


class Lam(V):
    __slots__ = ('m', 'caps')
    _k = ('m', 'caps')

    def __init__(self, m, caps):
        self.m = m
        self.caps = caps


class FnV(V):
    __slots__ = ('m',)
    _k = ('m',)

    def __init__(self, m):
        self.m = m


class Unk(V):
    """anything"""
    __slots__ = ('tag',)
    _k = ('tag',)

    def __init__(self, tag):
        self.tag = tag


class Exc(V):
    __slots__ = ('q',)
    _k = ('q',)

    def __init__(self, q):
        self.q = q


class Obj(V):
    """an uninterpreted object: the result of `name` on args"""
    __slots__ = ('name', 'args')
    _k = ('name', 'args')

    def __init__(self, name, args=()):
        self.name = name
        self.args = tuple(args)


VOID = Obj('void')
