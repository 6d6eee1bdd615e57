"""The value-flow analysis: an abstract interpreter over the type-checked syntax
tree.  It computes, for a function, one abstract state per way of leaving it;
joins keep both values under the condition that selects between them, loops are
replaced by closed forms of the recurrences their bodies define (sa/loops.py).
Nothing of the program is executed."""
import itertools
import os
from .terms import *
from . import terms as tm
from .seq import *
from . import seq as sq
from .facts import Facts
from .values import *
from .project import AnalysisBroken, REPO


DEBUG = bool(os.environ.get('SA_DEBUG'))


class GiveUp(Exception):
    """the construct is beyond the analysis"""


class St:
    """immutable abstract state"""
    __slots__ = ('store', 'facts', 'imp', 'log')

    def __init__(self, store=None, facts=None, imp=frozenset(), log=()):
        self.store = store or {}
        self.facts = facts or Facts()
        self.imp = imp
        self.log = log

    def put(self, root, v):
        d = dict(self.store)
        d[root] = v
        return St(d, self.facts, self.imp, self.log)

    def drop(self, pred):
        d = {k: v for k, v in self.store.items() if not pred(k)}
        return self if len(d) == len(self.store) else St(d, self.facts, self.imp, self.log)

    def assume(self, c):
        if c is TRUE:
            return self
        return St(self.store, self.facts.add(c), self.imp, self.log)

    def with_facts(self, f):
        return St(self.store, f, self.imp, self.log)

    def imprecise(self, why):
        return self if why in self.imp else St(self.store, self.facts, self.imp | {why}, self.log)

    def event(self, *e):
        return St(self.store, self.facts, self.imp, self.log + (e,))


def irange(t):
    """value range of an integer-like type"""
    if t.bool:
        return 0, 1
    w = t.w or 32
    if t.signed:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


_unk = itertools.count(1)


def is_h(t):
    return t.op == 'sym' and t.a[0].startswith('H:')


def has_h(v):
    """does the value depend on something the analysis does not know?"""
    for t in gterms(v):
        for x in tm.walk(t):
            if is_h(x) or (x.op == 'base' and x.a[0].startswith('H:')) or (x.op == 'fn' and str(x.a[0]).startswith('H:')):
                return True
    return has_unk(v)


def has_unk(v):
    if isinstance(v, Unk):
        return True
    if isinstance(v, V):
        return any(has_unk(getattr(v, k)) for k in v._k)
    if isinstance(v, tuple):
        return any(has_unk(x) for x in v)
    if isinstance(v, Seq):
        return has_unk(v.parts)
    return False


def strip_targs(q):
    """qualified name without template arguments"""
    if '<' not in q or 'operator<' in q and q.count('<') == q.split('operator')[1].count('<'):
        return q
    out = []
    d = 0
    i = 0
    while i < len(q):
        if d == 0 and q.startswith('operator', i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == '_')):
            out.append(q[i:])
            break
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    if 'operator' in s:
        h, t = s.split('operator', 1)
        # conversion operators and template operators keep their name only
        if t.startswith(('<<', '<=', '<', '>>', '>=', '>', '->')):
            for o in ('<<=', '<<', '<=>', '<=', '<', '>>=', '>>', '>=', '>', '->*', '->'):
                if t.startswith(o):
                    return h + 'operator' + o
        return h + 'operator' + (t.split('<')[0] if '<' in t else t)
    return s


class Interp:
    def __init__(self, P, be=False, opaque=None, models=None, limit=400000):
        from . import models as md
        self.P = P
        self.be = be
        self.opaque = opaque or {}
        self.models = md
        self.depth = 0
        self.stack = []
        self.throws = [[]]
        self.marks = []     # (state, stream, place): an end record has just been started
        self.obls = []          # (kind, facts, cond, loc, imp)
        self.rec = True
        self.fuel = limit
        self.seen_fns = set()
        self.gcache = {}
        self.nloc = None
        self.split = False
        self.peel = 1           # iterations of a loop followed when every path is taken by itself
        self.left = []          # (place, state, loops around it and itself) where that was not the end of it
        self.within = 0
        self.contents = None    # what is in every file, where that is to have a name
        self.name_pos = False   # give positions taken from a file a name of their own
        self.ranges = {}        # bounds of named values, where narrower than the type's
        self.loose_reads = False
        self.nest = 0
        self.cuts = None        # a list: record the loops that were summarised
        self.cut_first = 0
        self.heads = {}
        self.hooks = {}
        self.inl_limit = 40
        self.loops_summarised = 0
        self.loops_unrolled = 0
        self.ltypes = {}
        self.mapval = {}
        self.split_maps = False
        self.scans = False      # taking every path by itself: summarise loops that go one way only
        self.cutting = False    # ... and cut the outermost other loops: an iteration in an arbitrary state
        self.exact_pos = False
        self.exact_fail = False

    # --------------------------------------------------------------- helpers
    def step(self):
        self.fuel -= 1
        if self.fuel <= 0:
            raise GiveUp('analysis budget exhausted')

    def where(self, e):
        l = e.get('l') if isinstance(e, dict) else None
        return self.P.rel(l or self.nloc)

    def unknown(self, t, tag, st=None):
        """an arbitrary value of type t"""
        t = t.deref() if t is not None else None
        if t is not None and t.k in ('int', 'enum'):
            lo, hi = irange(t)
            return fresh('H:' + tag, lo, hi)
        if t is not None and t.k == 'float':
            return fresh('H:' + tag, 0, (1 << t.w) - 1)
        if t is not None and t.k == 'rec':
            if t.q in ('std::vector', 'std::basic_string', 'std::array'):
                return whole(self.hbase(tag))
            r = self.P.recs.get(t.rec)
            if r and r.get('fields') is not None and not (t.q or '').startswith('std::'):
                if t.union:
                    return Mem(tuple(fresh('H:' + tag, 0, 255) for _ in range(t.size or 0)), 1, t.size)
                return Rec(t.rec, tuple((f['n'], self.unknown(f['t'], tag)) for f in r['fields']))
            if t.q in ('std::basic_ostringstream', 'std::basic_ostream', 'std::basic_ofstream'):
                return OStr('x', whole(self.hbase(tag)), failed=fresh('H:' + tag, 0, 1), name=tag)
        return Unk(tag)

    def hbase(self, tag):
        return base('H:%s#%d' % (tag, next(_unk)))

    def undecided_branch(self, st, tag):
        return fresh('H:' + tag, 0, 1), st.imprecise(tag)

    def oblige(self, st, cond, kind, e, what=''):
        if self.rec:
            self.obls.append((kind, st, cond, self.where(e), what, self.stack[-1]['q'] if self.stack else ''))

    # ---------------------------------------------------------------- memory
    def load(self, st, lv, t=None):
        """value at an lvalue"""
        if not isinstance(lv, LV):
            return lv
        if lv.root is None:
            return self.unknown(t, 'nullderef')
        v = st.store.get(lv.root)
        if v is None:
            v = self.global_value(lv.root)
            if v is None:
                return self.unknown(t, 'uninit')
        for i, s in enumerate(lv.path):
            v = self.step_into(st, v, s, t)
            if isinstance(v, Unk):
                return self.unknown(t, v.tag)
        return v

    def dec(self, st):
        f = st.facts
        return lambda c: f.decide(c)

    def step_into(self, st, v, s, t=None):
        k = s[0]
        if k == 'f':
            if isinstance(v, Rec):
                r = v.get(s[1])
                return Unk('field') if r is None else r
            if isinstance(v, Mem):
                return self.mem_view(v, s[2]) if len(s) > 2 else v
            return Unk('field')
        if k == 'u':          # member of a union: (u, type size, sign, kind)
            if isinstance(v, Mem):
                return self.mem_load(v, 0, s[1])
            return Unk('union')
        if k == 'x':
            if isinstance(v, Seq):
                r = v.at(s[1], self.dec(st))
                return Unk('element') if r is None else r
            if isinstance(v, Mem):
                c = s[1].const
                if c is not None and 0 <= c < len(v.bytes):
                    return v.bytes[c]
                return Unk('byte')
            if isinstance(v, MapV):
                return Unk('map')
            if s[1] is ZERO:
                return v
            return Unk('index')
        if k == 'b':
            return self.load_byte(st, v, s[1], s[2])
        if k == 'm':
            if isinstance(v, MapV):
                return self.models.map_get(self, st, v, s[1])
            return Unk('mapped')
        raise GiveUp('path ' + repr(s))

    def mem_load(self, m, off, desc):
        size, signed, kind = desc
        bs = m.bytes[off:off + size]
        if kind == 'arr' or len(bs) < size:
            return Mem(bs, 1, len(bs))
        if self.be:
            bs = tuple(reversed(bs))
        v = add(*[scale(b, 1 << (8 * i)) for i, b in enumerate(bs)]) if bs else ZERO
        return sx(v, 8 * size) if signed else v

    # byte views: view = (element size, leaf size, signed, wrapper)
    def view_of(self, t):
        if t is None:
            return None
        if t.k in ('int', 'enum'):
            return (max(t.w // 8, 1), max(t.w // 8, 1), bool(t.signed), None)
        if t.k == 'float':
            return (t.w // 8, t.w // 8, False, None)
        if t.k == 'rec' and t.q == 'std::complex':
            return (t.size, t.size // 2, False, None)
        if t.k == 'rec':
            r = self.P.recs.get(t.rec)
            if r and len(r.get('fields') or ()) == 1:
                f = r['fields'][0]
                v = self.view_of(f['t'])
                if v and v[0] == t.size:
                    return (v[0], v[1], v[2], (t.rec, f['n']))
        return None

    def bitpos(self, view, k):
        size, leaf = view[0], view[1]
        if not self.be:
            return 8 * k
        m, r = divmod(k, leaf)
        return 8 * (m * leaf + leaf - 1 - r)

    def raw(self, v, view):
        """element -> bit pattern"""
        if view[3]:
            v = v.get(view[3][1]) if isinstance(v, Rec) else None
        if not isinstance(v, T):
            return None
        return slice_(v, 0, 8 * view[0])

    def cooked(self, raw, view):
        v = sx(raw, 8 * view[0]) if view[2] else raw
        if view[3]:
            return Rec(view[3][0], ((view[3][1], v),))
        return v

    def elem_bytes(self, v, view):
        r = self.raw(v, view)
        if r is None:
            return None
        return [slice_(r, self.bitpos(view, k), 8) for k in range(view[0])]

    def load_byte(self, st, v, view, i):
        n = view[0]
        q, r = div(i, C(n)), mod(i, C(n))
        k = r.const
        if k is None:
            return Unk('byte offset')
        if isinstance(v, Seq):
            el = v.at(q, self.dec(st))
        elif isinstance(v, Mem):
            c = i.const
            return v.bytes[c] if c is not None and c < len(v.bytes) else Unk('byte')
        else:
            el = v if q is ZERO else None
        if el is None:
            return Unk('byte')
        raw = self.raw(el, view)
        return Unk('byte') if raw is None else slice_(raw, self.bitpos(view, k), 8)

    def store(self, st, lv, v):
        if not isinstance(lv, LV) or lv.root is None:
            return st.imprecise('store through unknown pointer')
        old = st.store.get(lv.root)
        if old is None:
            old = self.global_value(lv.root) or Unk('undef')
        nv = self.update(st, old, lv.path, v)
        return st.put(lv.root, nv)

    def update(self, st, old, path, v):
        if not path:
            return v
        s = path[0]
        k = s[0]
        if k == 'f':
            if isinstance(old, Rec):
                return old.put(s[1], self.update(st, old.get(s[1]), path[1:], v))
            return Unk('store into unknown')
        if k == 'u':
            if isinstance(old, Mem):
                size, signed, kind = s[1]
                if len(path) == 1 and isinstance(v, T):
                    bs = [slice_(v, 8 * i, 8) for i in range(size)]
                    if self.be:
                        bs.reverse()
                    return Mem(tuple(bs) + old.bytes[size:], 1, old.size)
                if len(path) == 2 and path[1][0] == 'x' and path[1][1].const is not None and isinstance(v, T):
                    c = path[1][1].const
                    b = list(old.bytes)
                    b[c] = slice_(v, 0, 8)
                    return Mem(tuple(b), 1, old.size)
            return Unk('union store')
        if k == 'x':
            if isinstance(old, Seq):
                if len(path) > 1:
                    el = old.at(s[1], self.dec(st))
                    nv = self.update(st, Unk('element') if el is None else el, path[1:], v)
                else:
                    nv = v
                return seq_put(old, s[1], nv, self.dec(st))
            if isinstance(old, Mem) and len(path) == 1 and s[1].const is not None:
                b = list(old.bytes)
                b[s[1].const] = slice_(v, 0, 8)
                return Mem(tuple(b), 1, old.size)
            if s[1] is ZERO:
                return self.update(st, old, path[1:], v)
            return Unk('store at unknown index')
        if k == 'b':
            view, i = s[1], s[2]
            n = view[0]
            q, r = div(i, C(n)), mod(i, C(n))
            k = r.const
            if k is None or not isinstance(v, T):
                return Unk('byte store')
            if isinstance(old, Seq):
                el = old.at(q, self.dec(st))
            else:
                el = old if q is ZERO else None
            if el is None:
                return Unk('byte store')
            raw = self.raw(el, view)
            if raw is None:
                return Unk('byte store')
            p = self.bitpos(view, k)
            w = 8 * n
            nr = add(slice_(raw, 0, p), scale(slice_(v, 0, 8), 1 << p), scale(slice_(raw, p + 8, w - p - 8), 1 << (p + 8)))
            ne = self.cooked(nr, view)
            if isinstance(old, Seq):
                return seq_put(old, q, ne, self.dec(st))
            return ne
        if k == 'm':
            if isinstance(old, MapV):
                if len(path) > 1:
                    cur = self.models.map_get(self, st, old, s[1])
                    v = self.update(st, cur, path[1:], v)
                return self.models.map_put(self, st, old, s[1], v)
            return Unk('map store')
        raise GiveUp('store path')

    # --------------------------------------------------------------- globals
    def global_value(self, root):
        if root[0] != 'g':
            return None
        if root in self.gcache:
            return self.gcache[root]
        g = self.P.globals.get(root[1])
        if g is None:
            return None
        t = g['t']
        self.gcache[root] = None
        if g.get('init') is None:
            v = self.zero(t)
        else:
            rs = self.ev(g['init'], St())
            v = self.load(rs[0][0], rs[0][1]) if len(rs) == 1 else None
            if v is not None and t.k != 'ref' and isinstance(rs[0][1], LV):
                v = self.load(rs[0][0], rs[0][1])
        if not t.const and not (t.k == 'array' and t.e.const):
            v = self.unknown(t, 'mutable global')
        self.gcache[root] = v
        return v

    # ------------------------------------------------------------ zero / init
    def zero(self, t):
        if t.k in ('int', 'enum', 'float'):
            return ZERO
        if t.k in ('ptr', 'nullptr'):
            return NULL
        if t.k == 'array':
            z = self.zero(t.e)
            return Seq((('r', z, C(t.len)),))
        if t.k == 'rec':
            if t.q == 'std::complex':
                return ZERO
            if t.q == 'std::array':
                n = t.targ(1)
                return Seq((('r', self.zero(t.targ(0)), C(int(n))),))
            if t.q in ('std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::initializer_list'):
                return EMPTY
            if t.q in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
                return MapV(None, ())
            if t.q == 'std::pair':
                return Rec('std::pair', (('first', self.zero(t.targ(0))), ('second', self.zero(t.targ(1)))))
            if (t.q or '').startswith('std::'):
                r = self.models.default_construct(self, t)
                if r is not None:
                    return r
                return Unk('zero of ' + t.n)
            if t.union:
                return Mem((ZERO,) * (t.size or 0), 1, t.size)
            r = self.P.recs.get(t.rec)
            if r is None:
                return Unk('zero of ' + t.n)
            return Rec(t.rec, tuple((f['n'], self.zero(f['t'])) for f in r['fields']))
        return Unk('zero of ' + t.n)

    def uninit(self, t, name):
        if t.k in ('int', 'enum'):
            lo, hi = irange(t)
            return fresh('uninit:' + name, lo, hi)
        if t.k == 'float':
            return fresh('uninit:' + name, 0, (1 << t.w) - 1)
        if t.k in ('ptr', 'nullptr'):
            return Unk('uninit ptr')
        if t.k == 'array':
            if t.len is not None and t.len <= 64 and t.e.k in ('int', 'enum'):
                return Seq([('e', self.uninit(t.e, name)) for _ in range(t.len)])
            b = base('uninit:%s#%d' % (name, next(_unk)))
            return Seq((('s', b, ZERO, C(t.len or 0)),))
        if t.k == 'rec':
            if t.q == 'std::complex':
                return ZERO
            if t.q == 'std::array':
                n = int(t.targ(1))
                if n <= 64 and t.targ(0).k in ('int', 'enum'):
                    return Seq([('e', self.uninit(t.targ(0), name)) for _ in range(n)])
                return Seq((('s', base('uninit:%s#%d' % (name, next(_unk))), ZERO, C(n)),))
            if (t.q or '').startswith('std::'):
                return self.zero(t)
            if t.union:
                return Mem(tuple(fresh('uninit:' + name, 0, 255) for _ in range(t.size or 0)), 1, t.size)
            r = self.P.recs.get(t.rec)
            if r is None:
                return Unk('uninit ' + t.n)
            return Rec(t.rec, tuple((f['n'], self.uninit(f['t'], name + '.' + f['n'])) for f in r['fields']))
        return Unk('uninit ' + t.n)

    # ---------------------------------------------------------------- merging
    def merge(self, sts, vals=None):
        """states (with values) -> fewer states"""
        items = list(zip(sts, vals)) if vals is not None else [(s, None) for s in sts]
        if self.split or len(items) < 2:
            return items
        out = []
        for it in items:
            for i, o in enumerate(out):
                m = self.merge2(o, it)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(it)
        return out

    def merge2(self, a, b):
        (s1, v1), (s2, v2) = a, b
        f1, f2 = s1.facts, s2.facts
        if s1.store == s2.store and v1 == v2 and s1.log == s2.log:
            # the same values: only the facts differ
            imp = s1.imp | s2.imp
            if f1.all_ != f2.all_:
                imp |= {'joined paths'}
            return St(s1.store, join_facts(f1, f2), imp, s1.log), v1
        c = separator(f1, f2)
        if c is None:
            return None
        d = {}
        for k in s1.store.keys() | s2.store.keys():
            x, y = s1.store.get(k), s2.store.get(k)
            if x is y:
                d[k] = x
            elif x is None or y is None:
                d[k] = x if y is None else y
            else:
                u = unify(c, x, y)
                if u is None:
                    if k[0] == 't':
                        u = Unk('join')
                    else:
                        return None
                d[k] = u
        v = None
        if v1 is not None or v2 is not None:
            v = unify(c, v1, v2)
            if v is None:
                return None
        if s1.log == s2.log:
            log = s1.log
        else:
            n = 0
            while n < len(s1.log) and n < len(s2.log) and s1.log[n] == s2.log[n]:
                n += 1
            log = s1.log[:n] + (('alt', c, s1.log[n:], s2.log[n:]),)
        return St(d, join_facts(f1, f2, c), s1.imp | s2.imp, log), v

    def merge_out(self, outs):
        """outcomes (kind, st, val) merged by kind"""
        if len(outs) < 2 or self.split:
            return outs
        res = []
        by = {}
        for k, s, v in outs:
            by.setdefault(k, []).append((s, v))
        for k, l in by.items():
            for s, v in self.merge([s for s, _ in l], [v for _, v in l]):
                res.append((k, s, v))
        return res

    # ---------------------------------------------------------------- branches
    def branch(self, st, c):
        """-> [(st, taken)]"""
        if not isinstance(c, T):
            c, st = self.undecided_branch(st, 'branch')
        c = truth(c)
        d = st.facts.decide(c)
        if d is not None:
            return [(st, d)]
        a, b = self.learn(st.assume(c), c), self.learn(st.assume(not_(c)), not_(c))
        if a.store is not st.store or b.store is not st.store:
            for k, v in st.store.items():
                remember(c, v, a.store.get(k), b.store.get(k))
        out = []
        if not a.facts.infeasible():
            out.append((a, True))
        if not b.facts.infeasible():
            out.append((b, False))
        if not out:
            return []
        return out

    def learn(self, st, c):
        """replace the literals of c, now known, in the stored values"""
        env = {}
        syms = set()
        for x in (c.a if c.op == 'and' else (c,)):
            if x.op in ('c',):
                continue
            env[x] = TRUE
            env[not_(x)] = FALSE
            syms |= free_syms(x)
        if not env or len(env) > 24:
            return st
        env.pop(TRUE, None)
        env.pop(FALSE, None)
        memo = {}
        d = {}
        ch = False
        for k, v in st.store.items():
            n = gsubst(v, env, memo)
            if n is not v and n != v:
                ch = True
                v = n
            d[k] = v
        return St(d, st.facts, st.imp, st.log) if ch else st

    # ------------------------------------------------------------- expressions
    def evs(self, es, st):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def rv(self, e, st):
        """evaluated and loaded"""
        return [(s, self.load(s, v, e.get('t')) if isinstance(v, LV) else v) for s, v in self.ev(e, st)]

    def ev(self, e, st):
        self.step()
        k = e['k']
        if 'c' in e and k not in ('str',) and not e.get('lv'):
            t = e['t']
            if t.k in ('int', 'enum'):
                return [(st, C(int(e['c'])))]
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            return [(st.imprecise('expression ' + k), self.unknown(e.get('t'), 'expr ' + k))]
        r = m(e, st)
        if len(r) > 1 and not self.split:
            r = self.merge([s for s, _ in r], [v for _, v in r])
        return r

    def ev_full(self, e, st):
        return self.ev(e['e'], st)

    def ev_int(self, e, st):
        return [(st, C(int(e['c'])))]

    def ev_float(self, e, st):
        import struct
        t = e['t']
        try:
            x = float(e['v'])
            b = struct.pack('<f' if t.w == 32 else '<d', x)
            return [(st, C(int.from_bytes(b, 'little')))]
        except Exception:
            return [(st, self.unknown(t, 'float'))]

    def ev_null(self, e, st):
        return [(st, NULL)]

    def ev_zero(self, e, st):
        return [(st, self.zero(e['t']))]

    def ev_nop(self, e, st):
        return [(st, VOID)]

    def ev_str(self, e, st):
        s = e['v']
        bs = s if isinstance(s, list) else [ord(c) for c in s]
        root = ('str', tuple(bs))
        v = Seq([('e', C(b)) for b in bs] + [('e', ZERO)])
        return [(st.put(root, v) if root not in st.store else st, LV(root))]

    def ev_this(self, e, st):
        lv = self.stack[-1]['this']
        if lv is None:
            return [(st, Unk('this'))]
        return [(st, Ptr(lv.root, lv.path))]

    def local(self, d):
        return ('l', self.depth, d)

    def ev_ref(self, e, st):
        if e.get('cap'):
            cap = self.stack[-1].get('caps') or {}
            if e['d'] in cap:
                return [(st, cap[e['d']])]
        if e.get('g'):
            g = e['g']
            t = e['t']
            root = ('g', g)
            gl = self.P.globals.get(g)
            if gl is not None and gl['t'].k == 'ref':
                v = self.global_value(root)
                if isinstance(v, LV):
                    return [(st, v)]
            if gl is None:
                v = self.models.std_global(self, e)
                if v is not None:
                    return [(st.put(root, v) if root not in st.store else st, LV(root))]
            return [(st, LV(root))]
        cap = self.stack[-1].get('caps')
        if cap and e['d'] in cap:
            return [(st, cap[e['d']])]
        root = self.local(e['d'])
        v = st.store.get(root)
        if isinstance(v, LV):      # a reference
            return [(st, v)]
        if v is None:
            b = st.store.get(('bind', self.depth, e['d']))
            if b is not None:
                return [(st, b)]
        return [(st, LV(root))]

    def ev_fref(self, e, st):
        return [(st, FnV(e['fn']['m']))]

    def ev_mem(self, e, st):
        out = []
        for s, b in self.ev(e['b'], st):
            if e.get('arrow'):
                b = self.load(s, b)
                if isinstance(b, Ptr):
                    b = b.lv() if b.root is not None else Unk('null')
            if isinstance(b, LV):
                bt = e['b']['t']
                bt = bt.e if bt.k == 'ptr' else bt
                if bt.union:
                    ft = e['t'].deref()
                    kind = 'arr' if ft.k == 'array' else 'int'
                    out.append((s, LV(b.root, b.path + (('u', ((ft.size if ft.k in ('array', 'rec') else (ft.w or 8) // 8), bool(ft.signed), kind)),))))
                    continue
                lv = b.f(e['f'])
                v = self.load(s, lv)
                if isinstance(v, LV) and e['t'].k != 'ptr':
                    out.append((s, v))      # reference member
                else:
                    out.append((s, lv))
            elif isinstance(b, Rec):
                v = b.get(e['f'])
                out.append((s, Unk('field') if v is None else v))
            else:
                out.append((s.imprecise('member of unknown object'), self.unknown(e['t'], 'member')))
        return out

    def ev_mat(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if isinstance(v, LV) and e['e'].get('lv'):
                out.append((s, v))
                continue
            root = ('t', self.depth, id(e))
            out.append((s.put(root, v), LV(root)))
        return out

    def ev_cast(self, e, st):
        ck = e['ck']
        t = e['t']
        src = e['e']
        if ck == 'LValueToRValue':
            return [(s, self.convert_loaded(self.load(s, v, t), t)) for s, v in self.ev(src, st)]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.ev(src, st)
        if ck == 'ToVoid':
            return [(s, VOID) for s, _ in self.ev(src, st)]
        if ck in ('IntegralCast',):
            return [(s, self.to_int(s, v, t)) for s, v in self.ev(src, st)]
        if ck in ('IntegralToBoolean',):
            return [(s, truth(v) if isinstance(v, T) else self.unknown(t, 'bool')) for s, v in self.ev(src, st)]
        if ck == 'PointerToBoolean':
            out = []
            for s, v in self.ev(src, st):
                if isinstance(v, Ptr):
                    out.append((s, FALSE if v.root is None else TRUE))
                else:
                    out.append((s, self.unknown(t, 'pointer')))
            return out
        if ck == 'FloatingToBoolean':
            out = []
            for s, v in self.ev(src, st):
                ft = src['t']
                out.append((s, not_(eq(slice_(v, 0, ft.w - 1), ZERO)) if isinstance(v, T) else self.unknown(t, 'float')))
            return out
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            out = []
            for s, v in self.ev(src, st):
                if isinstance(v, T):
                    if t.k == 'float':
                        lo, hi = 0, (1 << t.w) - 1
                    else:
                        lo, hi = irange(t)
                    if v is ZERO:
                        out.append((s, ZERO))
                    else:
                        out.append((s, fn('%s:%s:%s' % (ck, src['t'].n, t.n), v, lo=lo, hi=hi)))
                else:
                    out.append((s, self.unknown(t, ck)))
            return out
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, v in self.ev(src, st):
                if isinstance(v, LV):
                    out.append((s, Ptr(v.root, v.path, ZERO)))
                else:
                    out.append((s, Unk('array')))
            return out
        if ck == 'FunctionToPointerDecay':
            return self.ev(src, st)
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck in ('BitCast',):
            return [(s, self.bitcast(v, src['t'], t)) for s, v in self.rv(src, st)]
        if ck == 'LValueBitCast':
            out = []
            for s, v in self.ev(src, st):
                if isinstance(v, LV):
                    p = self.bitcast(Ptr(v.root, v.path), src['t'], t, elems=True)
                    out.append((s, p.lv() if isinstance(p, Ptr) else p))
                else:
                    out.append((s, Unk('bitcast')))
            return out
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(src, st)
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer':
            return [(s, self.unknown(t, ck)) for s, _ in self.ev(src, st)]
        return [(s.imprecise('cast ' + ck), self.unknown(t, 'cast')) for s, _ in self.ev(src, st)]

    def convert_loaded(self, v, t):
        """containers of bytes and characters hold raw unsigned values"""
        if isinstance(v, T) and t is not None and t.k in ('int', 'enum') and not t.bool:
            if v.lo is None or v.hi is None or True:
                lo, hi = irange(t)
                if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
                    return v
                if t.w == 8 or t.n.endswith('wchar_t'):
                    return wrap(v, t.w, t.signed)
        return v

    def to_int(self, st, v, t):
        if not isinstance(v, T):
            return self.unknown(t, 'integral cast')
        if t.bool:
            return truth(v)
        return wrap(v, t.w, t.signed, st.facts.iv(v))

    def bitcast(self, v, ft, tt, elems=False):
        if isinstance(v, Unk) or not isinstance(v, Ptr) or v.root is None:
            return v
        fe = ft.e if ft.k == 'ptr' else ft
        te = tt.e if tt.k == 'ptr' else tt.deref()
        if fe is None or te is None or te.k == 'void' or fe.k == 'void':
            if te is not None and te.k == 'void':
                vw = self.view_of(fe) if v.view is None else None
                if vw and v.view is None:
                    return Ptr(v.root, v.path, scale(v.idx, vw[0]) if v.idx is not None else ZERO, ('v',) + vw if False else vw)
                return v
            # void* -> T*
            return self.review(v, te)
        if v.view is not None:
            return self.review(v, te)
        fv, tv = self.view_of(fe), self.view_of(te)
        if fv is None:
            if fe.k == 'array' and self.view_of(fe.e):
                fv = self.view_of(fe.e)
                v = v.but(idx=ZERO)
            else:
                return Unk('reinterpret_cast from ' + fe.n)
        if tv is None:
            return Unk('reinterpret_cast to ' + te.n)
        if fv[0] == tv[0] and fv[3] is None and tv[3] is None and fv[0] == 1:
            return v        # byte to byte
        if fv == tv:
            return v
        if tv[0] == 1 and tv[3] is None:
            return Ptr(v.root, v.path, scale(v.idx, fv[0]) if v.idx is not None else ZERO, fv)
        return Unk('reinterpret_cast to ' + te.n)

    def review(self, v, te):
        tv = self.view_of(te)
        if v.view is None:
            return v
        if tv == v.view:
            return Ptr(v.root, v.path, div(v.idx, C(tv[0])))
        if tv is not None and tv[0] == 1:
            return v
        return Unk('reinterpret_cast to ' + te.n)

    def ev_un(self, e, st):
        op = e['op']
        t = e['t']
        if op in ('++', '--'):
            out = []
            for s, lv in self.ev(e['e'], st):
                old = self.load(s, lv, t)
                if isinstance(old, T):
                    new = add(old, ONE if op == '++' else C(-1))
                    if t.k == 'int' and not t.signed:
                        new = wrap(new, t.w, False, s.facts.iv(new))
                    elif t.k == 'int' and (t.w or 32) < 32:
                        new = wrap(new, t.w, True, s.facts.iv(new))
                elif isinstance(old, Ptr) and old.root is not None:
                    new = old.moved(C(self.pstep(old, t) if op == '++' else -self.pstep(old, t)))
                else:
                    new = self.unknown(t, 'increment')
                s = self.store(s, lv, new)
                out.append((s, old if e.get('post') else lv))
            return out
        out = []
        if op == '&':
            for s, v in self.ev(e['e'], st):
                if isinstance(v, LV):
                    out.append((s, self.addr(v)))
                elif isinstance(v, FnV):
                    out.append((s, v))
                else:
                    out.append((s, Unk('address')))
            return out
        for s, v in self.rv(e['e'], st) if op != '*' else self.rv(e['e'], st):
            if op == '*':
                out.append(self.deref(s, v, e))
            elif op == '!':
                out.append((s, not_(truth(v)) if isinstance(v, T) else self.unknown(t, '!')))
            elif op == '-':
                if isinstance(v, T) and t.k == 'int':
                    r = neg(v)
                    out.append((s, r if t.signed else wrap(r, t.w, False, s.facts.iv(r))))
                else:
                    out.append((s, self.unknown(t, 'neg')))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                if isinstance(v, T):
                    r = sub(C(-1), v)
                    out.append((s, r if t.signed else wrap(r, t.w, False)))
                else:
                    out.append((s, self.unknown(t, '~')))
            else:
                out.append((s.imprecise('operator ' + op), self.unknown(t, op)))
        return out

    def addr(self, lv):
        if lv.path and lv.path[-1][0] == 'x':
            return Ptr(lv.root, lv.path[:-1], lv.path[-1][1])
        if lv.path and lv.path[-1][0] == 'b':
            return Ptr(lv.root, lv.path[:-1], lv.path[-1][2], lv.path[-1][1])
        return Ptr(lv.root, lv.path)

    def pstep(self, p, t):
        return 1

    def deref(self, s, v, e):
        if isinstance(v, Ptr) and v.root is not None:
            self.check_ptr(s, v, e)
            lv = v.lv()
            return s, lv
        if isinstance(v, (FnV, Lam)):
            return s, v
        return s.imprecise('dereference of unknown pointer at ' + self.where(e)), self.unknown(e['t'], 'deref')

    def check_ptr(self, s, p, e):
        if p.idx is None or not self.rec:
            return
        c = self.container_len(s, p)
        if c is not None:
            self.oblige(s, and_(ge0(p.idx), lt(p.idx, c)), 'bounds', e, 'element %r of %r' % (p.idx, c))

    def container_len(self, s, p):
        v = self.load(s, LV(p.root, p.path))
        if isinstance(v, Seq):
            n = v.length()
            if p.view is not None:
                n = scale(n, p.view[0])
            return n
        if p.view is not None and isinstance(v, T):
            return C(p.view[0])
        return None

    def ev_bin(self, e, st):
        op = e['op']
        t = e['t']
        if op in ('&&', '||'):
            out = []
            for s, a in self.rv(e['a'], st):
                for s1, tk in self.branch(s, a):
                    if tk == (op == '||'):
                        out.append((s1, TRUE if op == '||' else FALSE))
                    else:
                        for s2, b in self.rv(e['b'], s1):
                            if isinstance(b, T):
                                b = truth(b)
                            else:
                                b, s2 = self.undecided_branch(s2, op)
                            out.append((s2, b))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(e['a'], st):
                out.extend(self.ev(e['b'], s))
            return out
        out = []
        for s, vs in self.evs([e['a'], e['b']], st):
            a, b = (self.load(s, v, x['t']) if isinstance(v, LV) else v for v, x in zip(vs, (e['a'], e['b'])))
            out.append((s, self.binop(s, op, a, b, t, e['a']['t'], e['b']['t'], e)))
        return out

    def binop(self, s, op, a, b, t, ta=None, tb=None, e=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            r = self.ptrop(s, op, a, b, t)
            if r is not None:
                return r
            return self.unknown(t, 'pointer ' + op)
        if not (isinstance(a, T) and isinstance(b, T)):
            return self.unknown(t, op)
        if ta is not None and ta.k == 'float':
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return fn('f' + op, a, b, lo=0, hi=1)
            return fn('f' + op + t.n, a, b, lo=0, hi=(1 << (t.w or 64)) - 1)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return ne(a, b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        w = t.w or 64
        iv = s.facts.iv
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = sub(a, b)
        elif op == '*':
            r = mul(a, b)
        elif op in ('/', '%'):
            la, lb = iv(a)[0], iv(b)[0]
            if b.op == 'c' and b.a[0] > 0 and la is not None and la >= 0:
                x = a if a.lo is not None and a.lo >= 0 else max_(a, ZERO)
                return div(x, b) if op == '/' else mod(x, b)
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                self.oblige(s, ne(b, ZERO), 'division', e or {}, 'division by zero')
                f = s.facts
                return div(a, b) if op == '/' else mod(a, b)
            return div(a, b) if op == '/' else mod(a, b)
        elif op == '&':
            r = bitand(a, b)
        elif op == '|':
            r = bitor(a, b)
        elif op == '^':
            if a.lo is not None and a.lo < 0 or b.lo is not None and b.lo < 0:
                a2, b2 = slice_(a, 0, w), slice_(b, 0, w)
                r = xor_(a2, b2)
                return sx(r, w) if t.signed else r
            r = xor_(a, b)
        elif op == '<<':
            k = b.const
            if k is None:
                return self.shift_var(s, a, b, t)
            r = scale(a, 1 << k) if 0 <= k < 128 else self.unknown(t, 'shift')
        elif op == '>>':
            k = b.const
            if k is None or not 0 <= k < 128:
                l, h = iv(b)
                if l is not None and l == h and l >= 0:
                    return shr(a, l)
                return fn('shr', a, b, lo=0 if a.lo is not None and a.lo >= 0 else None, hi=a.hi)
            la = iv(a)[0]
            return shr(a, k)
        else:
            return self.unknown(t, op)
        if t.bool:
            return truth(r)
        if t.signed:
            # overflow is undefined; bit operations are reduced
            if op in ('<<', '|', '&') and (r.lo is None or r.hi is None or r.hi >= 1 << (w - 1) or r.lo < -(1 << (w - 1))):
                return wrap(r, w, True, iv(r))
            return r
        return wrap(r, w, False, iv(r))

    def shift_var(self, s, a, b, t):
        l, h = s.facts.iv(b)
        if l is not None and l == h and l >= 0:
            r = scale(a, 1 << l)
            return wrap(r, t.w, t.signed)
        return fn('shl', a, b, lo=irange(t)[0], hi=irange(t)[1])

    def ptrop(self, s, op, a, b, t):
        if op == '+':
            if isinstance(a, T):
                a, b = b, a
            if isinstance(a, Ptr) and isinstance(b, T) and a.root is not None:
                return a.moved(b)
            return None
        if op == '-':
            if isinstance(a, Ptr) and isinstance(b, T) and a.root is not None:
                return a.moved(neg(b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.path == b.path and a.view == b.view:
                i = a.idx if a.idx is not None else ZERO
                j = b.idx if b.idx is not None else ZERO
                return sub(j, i) if a.rev else sub(i, j)
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root is None or b.root is None:
                same = a.root is None and b.root is None
                if op == '==':
                    return TRUE if same else FALSE
                if op == '!=':
                    return FALSE if same else TRUE
                return None
            if a.root == b.root and a.path == b.path and a.view == b.view:
                i = a.idx if a.idx is not None else ZERO
                j = b.idx if b.idx is not None else ZERO
                if a.rev:
                    i, j = j, i
                return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': lambda x, y: lt(y, x), '>=': lambda x, y: le(y, x)}[op](i, j)
            if op == '==' and (a.root != b.root or a.path != b.path) and a.root[0] in 'lto' and b.root[0] in 'lto':
                return FALSE
            if op == '!=' and (a.root != b.root or a.path != b.path) and a.root[0] in 'lto' and b.root[0] in 'lto':
                return TRUE
        return None

    def ev_assign(self, e, st):
        out = []
        t = e['a']['t']
        for s, b in self.ev(e['b'], st):
            for s2, a in self.ev(e['a'], s):
                v = self.load(s2, b, e['b']['t']) if isinstance(b, LV) else b
                s3 = self.assign(s2, a, v, t)
                out.append((s3, a))
        return out

    def assign(self, s, lv, v, t):
        if not isinstance(lv, LV):
            return s.imprecise('assignment to unknown location')
        return self.store(s, lv, self.stored(v, t))

    def stored(self, v, t):
        """representation of a value inside an object of type t"""
        if isinstance(v, T) and t is not None and t.k == 'int' and t.signed and not t.bool and self.rawbyte(t):
            return slice_(v, 0, t.w)
        return v

    def rawbyte(self, t):
        return t.n.replace('const ', '') in ('char', 'wchar_t')

    def ev_cassign(self, e, st):
        out = []
        t = e['a']['t']
        for s, b in self.rv(e['b'], st):
            for s2, a in self.ev(e['a'], s):
                old = self.load(s2, a, t)
                if isinstance(old, T):
                    old = self.convert_loaded(old, t)
                if isinstance(old, Ptr) and isinstance(b, T) and old.root is not None:
                    v = old.moved(b if e['op'] == '+' else neg(b))
                else:
                    ct = e.get('ct') or t
                    clt = e.get('clt') or ct
                    if isinstance(old, T):
                        old = self.to_int(s2, old, clt) if clt.k == 'int' else old
                    v = self.binop(s2, e['op'], old, b, ct, clt, e['b']['t'], e)
                    if isinstance(v, T) and t.k in ('int', 'enum'):
                        v = self.to_int(s2, v, t)
                out.append((self.assign(s2, a, v, t), a))
        return out

    def ev_cond(self, e, st):
        outs = []
        for s, c in self.rv(e['x'], st):
            for s1, tk in self.branch(s, c):
                outs.extend(self.ev(e['a'] if tk else e['b'], s1))
        return outs

    def ev_idx(self, e, st):
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st):
            a = self.load(s, a) if isinstance(a, LV) and e['a']['t'].k == 'ptr' else a
            b = self.load(s, b) if isinstance(b, LV) else b
            if isinstance(b, Ptr):
                a, b = b, a
            if isinstance(a, LV) and isinstance(b, T):
                p = Ptr(a.root, a.path, b)
            elif isinstance(a, Ptr) and a.root is not None and isinstance(b, T):
                p = a.moved(b)
            else:
                out.append((s.imprecise('index of unknown array'), self.unknown(e['t'], 'index')))
                continue
            self.check_ptr(s, p, e)
            out.append((s, p.lv()))
        return out

    def ev_list(self, e, st):
        t = e['t']
        out = []
        if t.k == 'rec' and t.q == 'std::array':
            args = e['args']
            if len(args) == 1 and args[0]['t'].k == 'array':
                return self.ev(args[0], st)
        if t.k == 'rec' and t.union:
            for s, vs in self.evs(e['args'], st):
                m = self.zero(t)
                if vs:
                    v = self.load(s, vs[0]) if isinstance(vs[0], LV) else vs[0]
                    r = self.P.recs.get(t.rec)
                    uf = e.get('uf')
                    ft = next((f['t'] for f in r['fields'] if f['n'] == uf), r['fields'][0]['t'])
                    if isinstance(v, T):
                        m = self.update(s, m, (('u', ((ft.w or 8) // 8, bool(ft.signed), 'int')),), v)
                    else:
                        m = Unk('union')
                out.append((s, m))
            return out
        for s, vs in self.evs(e['args'], st):
            vs = [self.load(s, v) if isinstance(v, LV) and not self.is_ref_field(t, i) else v for i, v in enumerate(vs)]
            if t.k == 'array':
                parts = [('e', self.stored(v, t.e)) for v in vs]
                if t.len is not None and len(vs) < t.len:
                    f = self.zero(t.e)
                    if e.get('filler'):
                        fs = self.rv(e['filler'], s)
                        if len(fs) == 1:
                            f = fs[0][1]
                    parts.append(('r', f, C(t.len - len(vs))))
                out.append((s, Seq(parts)))
            elif t.k == 'rec':
                r = self.P.recs.get(t.rec)
                if t.q == 'std::pair':
                    out.append((s, Rec('std::pair', (('first', vs[0]), ('second', vs[1])))))
                elif t.q == 'std::array':
                    out.append((s, Seq([('e', v) for v in vs])))
                elif r and not (t.q or '').startswith('std::'):
                    fs = r['fields']
                    nb = len(r.get('bases') or ())
                    vals = vs[nb:] if nb else vs
                    f = []
                    for i, fd in enumerate(fs):
                        f.append((fd['n'], self.stored(vals[i], None) if i < len(vals) else self.zero(fd['t'])))
                    out.append((s, Rec(t.rec, tuple(f))))
                else:
                    out.append((s.imprecise('list of ' + t.n), Unk('list')))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            elif not vs:
                out.append((s, self.zero(t)))
            else:
                out.append((s.imprecise('list'), self.unknown(t, 'list')))
        return out

    def is_ref_field(self, t, i):
        if t.k != 'rec':
            return False
        r = self.P.recs.get(t.rec)
        if not r or not r.get('fields') or i >= len(r['fields']):
            return False
        return r['fields'][i]['t'].k == 'ref'

    def ev_initlist_std(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            v = self.load(s, v) if isinstance(v, LV) else v
            out.append((s, v))
        return out

    def ev_lambda(self, e, st):
        outs = [(st, ())]
        for c in e.get('caps') or ():
            nxt = []
            for s, caps in outs:
                if c.get('this'):
                    nxt.append((s, caps + (('this', self.stack[-1]['this']),)))
                    continue
                if c.get('e') is not None:
                    for s2, v in self.ev(c['e'], s):
                        if not c.get('ref'):
                            v = self.load(s2, v) if isinstance(v, LV) else v
                        nxt.append((s2, caps + ((c['d'], v),)))
                else:
                    for s2, v in self.ev_ref({'d': c['d'], 't': None}, s):
                        if not c.get('ref'):
                            v = self.load(s2, v)
                        nxt.append((s2, caps + ((c['d'], v),)))
            outs = nxt
        return [(s, Lam(e['fn']['m'] if isinstance(e['fn'], dict) else e['fn'], caps)) for s, caps in outs]

    def ev_throw(self, e, st):
        if e.get('e') is None:
            q = self.stack[-1].get('exc') or '?'
            self.throws[-1].append((st, Exc(q), self.where(e)))
            return []
        for s, v in self.ev(e['e'], st):
            self.throws[-1].append((s, Exc(e['e']['t'].deref().q or e['e']['t'].n), self.where(e)))
        return []

    def raise_(self, st, q, e):
        self.throws[-1].append((st, Exc(q), self.where(e)))

    def ev_new(self, e, st):
        root = ('h', id(e))
        t = e.get('at') or (e['t'].e if e['t'].k == 'ptr' else None)
        outs = []
        if e.get('n') is not None:
            for s, n in self.rv(e['n'], st):
                v = Seq((('s', base('uninit:new#%d' % next(_unk)), ZERO, n),)) if isinstance(n, T) else Unk('new')
                if e.get('init') is not None:
                    v = Seq((('r', self.zero(t), n),)) if isinstance(n, T) else v
                outs.append((s.put(root, v), Ptr(root, (), ZERO)))
            return outs
        if e.get('init') is not None:
            for s, v in self.rv(e['init'], st):
                outs.append((s.put(root, v), Ptr(root)))
            return outs
        return [(st.put(root, self.uninit(t, 'new')), Ptr(root))]

    def ev_delete(self, e, st):
        return [(s, VOID) for s, _ in (self.ev(e['e'], st) if e.get('e') else [(st, None)])]

    # -------------------------------------------------------------------- calls
    def ev_call(self, e, st):
        fnd = e.get('fn')
        if fnd is None:
            out = []
            for s, c in self.rv(e['callee'], st):
                for s2, args in self.evs(e['args'], s):
                    out.extend(self.call_value(c, args, e, s2))
            return out
        out = []
        for s, args in self.evs(e['args'], st):
            out.extend(self.dispatch(fnd, None, args, e, s))
        return out

    def call_value(self, c, args, e, st):
        """call of a function value"""
        if isinstance(c, FnV):
            f = self.P.fns.get(c.m)
            if f is not None:
                return self.invoke(f, None, args, st, e)
        if isinstance(c, Lam):
            f = self.P.fns.get(c.m)
            if f is not None:
                return self.invoke(f, None, args, st, e, caps=dict(c.caps))
        if isinstance(c, LV):
            return self.call_value(self.load(st, c), args, e, st)
        st = self.havoc_args(st, args)
        return [(st.imprecise('call of an unknown function'), self.unknown(e.get('t'), 'call'))]

    def ev_mcall(self, e, st):
        fnd = e['fn'] if isinstance(e.get('fn'), dict) else None
        out = []
        for s, o in self.ev(e['o'], st):
            if e.get('arrow'):
                o = self.load(s, o) if isinstance(o, LV) else o
                if isinstance(o, Ptr):
                    o = o.lv() if o.root is not None else o
            if not isinstance(o, LV):
                root = ('t', self.depth, (id(e), 'o'))
                s = s.put(root, o)
                o = LV(root)
            for s2, args in self.evs(e['args'], s):
                out.extend(self.dispatch(fnd, o, args, e, s2))
        return out

    def ev_ocall(self, e, st):
        fnd = e.get('fn')
        out = []
        for s, args in self.evs(e['args'], st):
            if fnd is None:
                out.append((s.imprecise('operator call'), self.unknown(e['t'], 'ocall')))
                continue
            f = self.P.fns.get(fnd['m'])
            member = len(fnd.get('pt') or ()) == len(args) - 1 if f is None else (f.get('rec') or f.get('lambda')) and not f.get('static')
            if member:
                o = args[0]
                if f is not None and f.get('lambda'):
                    c = self.load(s, o) if isinstance(o, LV) else o
                    if isinstance(c, Lam):
                        out.extend(self.invoke(f, o if isinstance(o, LV) else None, args[1:], s, e, caps=dict(c.caps)))
                        continue
                if not isinstance(o, LV):
                    root = ('t', self.depth, (id(e), 'o'))
                    s = s.put(root, o)
                    o = LV(root)
                out.extend(self.dispatch(fnd, o, args[1:], e, s))
            else:
                out.extend(self.dispatch(fnd, None, args, e, s))
        return out

    def ev_ctor(self, e, st):
        fnd = e.get('fn')
        t = e['t']
        out = []
        for s, args in self.evs(e['args'], st):
            out.extend(self.construct(fnd, t, args, e, s))
        return out

    def construct(self, fnd, t, args, e, st):
        f = self.P.fns.get(fnd['m']) if fnd else None
        isstd = (t.q or '').startswith(('std::', '__gnu_cxx::'))
        if fnd and f is not None and not (f.get('copy') or f.get('move')):
            h = self.opaque.get(strip_targs(fnd['q']))
            if h is not None:
                r = h(self, st, None, args, e)
                if r is not None:
                    return r
        if isstd:
            r = self.models.construct(self, t, fnd, args, e, st)
            if r is not None:
                return r
            return [(self.havoc_args(st, args).imprecise('constructor of ' + t.n), self.unknown(t, 'ctor'))]
        if f is None or f.get('body') is None:
            if args and len(args) == 1 and isinstance(args[0], LV):
                v = self.load(st, args[0])
                mv = fnd and fnd.get('pt') and fnd['pt'][0].rv
                if mv:
                    st = self.store(st, args[0], self.moved_from(v))
                return [(st, v)]
            if not args:
                if e.get('zero'):
                    return [(st, self.zero(t))]
                return self.default_fields(t, e, st)
            if isinstance(args[0], Rec):
                return [(st, args[0])]
            return [(st.imprecise('constructor of ' + t.n), self.unknown(t, 'ctor'))]
        if (f.get('copy') or f.get('move')) and (f.get('dflt') or f.get('implicit')) and args:
            v = self.load(st, args[0]) if isinstance(args[0], LV) else args[0]
            if f.get('move') and isinstance(args[0], LV):
                st = self.store(st, args[0], self.moved_from(v))
            return [(st, v)]
        root = ('t', self.depth, (id(e), 'c'))
        st = st.put(root, self.uninit(t, t.n) if not e.get('zero') else self.zero(t))
        out = []
        for s, _ in self.invoke(f, LV(root), args, st, e):
            v = s.store[root]
            out.append((s.drop(lambda k: k == root), v))
        return out

    def default_fields(self, t, e, st):
        return [(st, self.uninit(t, t.n))]

    def moved_from(self, v):
        if isinstance(v, Seq):
            return whole(self.mbase())
        if isinstance(v, Rec):
            return Rec(v.t, tuple((k, self.moved_from(x)) for k, x in v.f))
        if isinstance(v, MapV):
            return MapV(Obj('moved', (next(_unk),)), ())
        return v

    def mbase(self):
        return base('H:moved#%d' % next(_unk))

    def havoc_args(self, st, args):
        for a in args:
            if isinstance(a, Ptr) and a.root is not None:
                a = LV(a.root, a.path)
            if isinstance(a, LV) and a.root is not None and a.root[0] in ('l', 't', 'h', 'o'):
                st = st.put(a.root, Unk('passed to unknown function'))
        return st

    def dispatch(self, fnd, this, args, e, st):
        q = fnd['q']
        short = strip_targs(q)
        h = self.opaque.get(short) or self.opaque.get(fnd['n'] if not q.startswith('std::') else None)
        if h is not None:
            r = h(self, st, this, args, e)
            if r is not None:
                return r
        f = self.P.fns.get(fnd['m'])
        if f is not None and f.get('body') is not None and not ((f.get('copyassign') or f.get('moveassign')) and (f.get('dflt') or f.get('implicit'))):
            return self.invoke(f, this, args, st, e)
        if f is not None and (f.get('copyassign') or f.get('moveassign')) and (f.get('dflt') or f.get('implicit')) or \
           (f is None and short.endswith('::operator=') and not short.startswith('std::') and this is not None):
            v = self.load(st, args[0]) if isinstance(args[0], LV) else args[0]
            if isinstance(args[0], LV) and fnd.get('pt') and fnd['pt'][0].rv:
                st = self.store(st, args[0], self.moved_from(v))
            return [(self.store(st, this, v), this)]
        r = self.models.call(self, short, fnd, this, args, e, st)
        if r is not None:
            return r
        if DEBUG:
            print('NO MODEL', [st.store.get(a.root) for a in ([this] if this is not None else []) + list(args) if isinstance(a, LV)], short, self.where(e), this, [self.load(st, a) if isinstance(a, LV) else a for a in ([this] if this is not None else []) + list(args)])
        if this is not None:
            args = [this] + list(args)
        st = self.havoc_args(st, args)
        return [(st.imprecise('call of ' + short), self.unknown(e.get('t'), 'call ' + short))]

    def invoke(self, f, this, args, st, e, caps=None):
        """analyse a call of f in place"""
        if len(self.stack) > self.inl_limit or sum(1 for x in self.stack if x['m'] == f['m']) > 6:
            raise GiveUp('recursion through ' + f['q'])
        hook = self.hooks.get(f['m'])
        self.seen_fns.add(f['m'])
        self.depth += 1
        fr = dict(m=f['m'], q=f['q'], this=this, caps=caps)
        if caps and 'this' in caps:
            fr['this'] = caps['this']
        self.stack.append(fr)
        try:
            d = self.depth
            for p, a in zip(f['params'], args):
                if p['t'].k != 'ref' and isinstance(a, LV):
                    a = self.load(st, a)
                elif p['t'].k == 'ref' and not isinstance(a, LV):
                    root = ('t', d, ('arg', p['d']))
                    st = st.put(root, a)
                    a = LV(root)
                if p.get('d') is not None:
                    st = st.put(self.local(p['d']), a)
                    self.ltypes[self.local(p['d'])] = p['t']
            outs = [('N', st, None)]
            if f.get('ctor'):
                outs = self.ctor_inits(f, this, st)
            res = []
            for k, s, v in outs:
                res.extend(self.exec(f['body'], s))
            rets = [(s, v if k == 'R' else VOID) for k, s, v in res if k in ('N', 'R')]
            out = []
            pop = lambda k: k[0] in ('l', 't', 'bind') and k[1] >= d
            for s, v in rets:
                if f.get('rt') is not None and f['rt'].k != 'ref' and isinstance(v, LV):
                    v = self.load(s, v)
                if f.get('rt') is not None and f['rt'].k in ('int', 'enum') and isinstance(v, T):
                    v = self.convert_loaded(v, f['rt'])
                if f.get('dtor'):
                    pass
                out.append((s, v))
            th = self.throws[-1]
            if not self.split:
                out = self.merge([s for s, _ in out], [v for _, v in out])
            res = []
            for s, v in out:
                if isinstance(v, LV) and v.root is not None and pop(v.root):
                    # a temporary or parameter returned by reference: keep it alive
                    nr = ('t', d - 1, (id(e) if e else 0, 'ret'))
                    s = s.put(nr, s.store.get(v.root))
                    v = LV(nr, v.path)
                res.append((s.drop(pop), v))
            return res
        finally:
            self.stack.pop()
            self.depth -= 1

    def ctor_inits(self, f, this, st):
        outs = [st]
        for i in f.get('inits') or ():
            nxt = []
            for s in outs:
                if i.get('deleg') or i.get('base'):
                    ce = i['e']
                    while ce['k'] in ('full',):
                        ce = ce['e']
                    if ce['k'] == 'ctor':
                        g = self.P.fns.get(ce['fn']['m'])
                        for s2, args in self.evs(ce['args'], s):
                            if g is not None and g.get('body') is not None:
                                for s3, _ in self.invoke(g, this, args, s2, ce):
                                    nxt.append(s3)
                            else:
                                nxt.append(s2)
                    else:
                        nxt.extend(s2 for s2, _ in self.ev(ce, s))
                    continue
                for s2, v in self.ev(i['e'], s):
                    ft = i['ft']
                    if ft.k != 'ref' and isinstance(v, LV):
                        v = self.load(s2, v, ft)
                    nxt.append(self.store(s2, this.f(i['f']), self.stored(v, ft)))
            outs = nxt
        return [('N', s, None) for s in outs]

    # --------------------------------------------------------------- statements
    def exec(self, n, st):
        """-> [(kind, st, value)] with kind N, B(reak), C(ontinue), R(eturn)"""
        self.step()
        k = n['k']
        if n.get('l'):
            self.nloc = n['l']
        m = getattr(self, 'ex_' + k, None)
        if m is None:
            return [('N', st.imprecise('statement ' + k), None)]
        return m(n, st)

    def exec_list(self, ns, st):
        outs = [('N', st, None)]
        done = []
        for x in ns:
            nxt = []
            for kk, s, v in outs:
                nxt.extend(self.exec(x, s))
            outs = []
            for o in nxt:
                (outs if o[0] == 'N' else done).append(o)
            if not outs:
                break
            outs = self.merge_out(outs)
        return self.merge_out(outs + done)

    def ex_block(self, n, st):
        decls = []
        for x in n['b']:
            if x['k'] == 'decl':
                decls.extend(x['v'])
        dtors = [v for v in decls if self.dtor_of(v['t'])]
        if not dtors:
            outs = self.exec_list(n['b'], st)
        else:
            self.throws.append([])
            try:
                outs = self.exec_list(n['b'], st)
            finally:
                th = self.throws.pop()
            for s, x, w in th:
                for s2 in self.run_dtors(dtors, s):
                    self.throws[-1].append((s2, x, w))
            o2 = []
            for k, s, v in outs:
                if k == 'R' and isinstance(v, LV):
                    pass
                for s2 in self.run_dtors(dtors, s):
                    o2.append((k, s2, v))
            outs = o2
        ids = {self.local(v['d']) for v in decls if v.get('d') is not None}
        files = [self.local(v['d']) for v in decls if v.get('d') is not None and v['t'].q == 'std::basic_ofstream']
        for r in files:
            # what became of a file stays known
            outs = [(k, s.put(('file', r), s.store[r]) if isinstance(s.store.get(r), OStr) else s, v) for k, s, v in outs]
        if ids:
            outs = [(k, s.drop(lambda r: r in ids) if k != 'R' else s, v) for k, s, v in outs]
            outs = self.merge_out(outs)
        return outs

    def dtor_of(self, t):
        if t.k != 'rec' or (t.q or '').startswith('std::'):
            return None
        r = self.P.recs.get(t.rec)
        d = r and r.get('dtor')
        if not d:
            return None
        f = self.P.fns.get(d if isinstance(d, str) else d.get('m'))
        return f if f is not None and f.get('body') is not None else None

    def run_dtors(self, vs, st):
        outs = [st]
        for v in reversed(vs):
            root = self.local(v['d'])
            nxt = []
            for s in outs:
                if root in s.store:
                    for s2, _ in self.invoke(self.dtor_of(v['t']), LV(root), [], s, v):
                        nxt.append(s2.drop(lambda k: k == root))
                else:
                    nxt.append(s)
            outs = nxt
        return outs

    def ex_expr(self, n, st):
        return self.merge_out([('N', s, None) for s, _ in self.ev(n['e'], st)])

    def ex_null(self, n, st):
        return [('N', st, None)]

    def ex_break(self, n, st):
        return [('B', st, None)]

    def ex_continue(self, n, st):
        return [('C', st, None)]

    def ex_decl(self, n, st):
        outs = [st]
        for v in n['v']:
            nxt = []
            for s in outs:
                nxt.extend(self.declare(v, s))
            outs = nxt
        return self.merge_out([('N', s, None) for s in outs])

    def declare(self, v, st):
        t = v['t']
        if v.get('d') is None:
            return [st]
        root = self.local(v['d'])
        self.ltypes[root] = t
        out = []
        if v.get('static') and not t.const:
            st = st.imprecise('static local ' + v.get('n', ''))
        if v.get('init') is None:
            return [st.put(root, self.uninit(t, v.get('n', 'v')))]
        for s, x in self.ev(v['init'], st):
            if t.k == 'ref':
                if not isinstance(x, LV):
                    r2 = ('t', self.depth, ('ref', v['d']))
                    s = s.put(r2, x)
                    x = LV(r2)
                s = s.put(root, x)
            else:
                if isinstance(x, LV):
                    x = self.load(s, x, t)
                if t.k == 'array' and isinstance(x, Seq) and v['init'].get('k') == 'str':
                    pass
                s = s.put(root, self.stored(x, t))
            for i, b in enumerate(v.get('bind') or ()):
                s = self.bind(s, b, i, LV(root) if t.k != 'ref' else x, t)
            out.append(s)
        return out

    def bind(self, s, b, i, lv, t):
        v = self.load(s, lv)
        if isinstance(v, Rec) and i < len(v.f):
            name, fv = v.f[i]
            return s.put(('bind', self.depth, b['d']), fv if isinstance(fv, LV) else lv.f(name))
        if isinstance(v, Seq):
            return s.put(('bind', self.depth, b['d']), lv.x(C(i)))
        return s.imprecise('structured binding')

    def ex_ret(self, n, st):
        if n.get('e') is None:
            return [('R', st, VOID)]
        return self.merge_out([('R', s, v) for s, v in self.ev(n['e'], st)])

    def cond_branches(self, n, st):
        """evaluate n['x'] (with init / condition variable)"""
        outs = [st]
        if n.get('init') is not None:
            outs = [s for _, s, _ in self.exec(n['init'], st)]
        if n.get('cv') is not None:
            nxt = []
            for s in outs:
                if n['cv'].get('k') == 'decl':
                    nxt.extend(s2 for _, s2, _ in self.exec(n['cv'], s))
                else:
                    nxt.extend(self.declare(n['cv'], s))
            outs = nxt
        res = []
        for s in outs:
            if n.get('x') is None:
                res.append((s, True))
                continue
            for s2, c in self.rv(n['x'], s):
                res.extend(self.branch(s2, c))
        return res

    def ex_if(self, n, st):
        outs = []
        for s, tk in self.cond_branches(n, st):
            b = n['a'] if tk else n.get('b')
            if b is None:
                outs.append(('N', s, None))
            else:
                outs.extend(self.exec(b, s))
        return self.merge_out(outs)

    def ex_switch(self, n, st):
        if n.get('init') is not None:
            st = self.exec(n['init'], st)[0][1]
        body = n['b']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten labels
        flat = []

        def flatten(x):
            if x['k'] in ('case', 'default'):
                flat.append(x)
                if x.get('b') is not None:
                    flatten(x['b'])
            else:
                flat.append(x)
        for x in items:
            flatten(x)
        outs = []
        for s, v in self.rv(n['x'], st):
            rest = s
            starts = []
            dflt = None
            for i, x in enumerate(flat):
                if x['k'] == 'case':
                    cs = self.rv(x['v'], rest)
                    cv = cs[0][1]
                    c = eq(v, cv) if isinstance(v, T) and isinstance(cv, T) else None
                    if x.get('v2') is not None and isinstance(v, T):
                        c = and_(le(cv, v), le(v, self.rv(x['v2'], rest)[0][1]))
                    if c is None:
                        c, rest = self.undecided_branch(rest, 'switch')
                    br = self.branch(rest, c)
                    nr = None
                    for s2, tk in br:
                        if tk:
                            starts.append((i, s2))
                        else:
                            nr = s2
                    rest = nr
                    if rest is None:
                        break
                elif x['k'] == 'default':
                    dflt = i
            if rest is not None:
                if dflt is not None:
                    starts.append((dflt, rest))
                else:
                    outs.append(('N', rest, None))
            for i, s2 in starts:
                seq = [x for x in flat[i:] if x['k'] not in ('case', 'default')]
                for k, s3, w in self.exec_list(seq, s2):
                    outs.append(('N' if k == 'B' else k, s3, w))
        return self.merge_out(outs)

    def ex_case(self, n, st):
        return self.exec(n['b'], st) if n.get('b') else [('N', st, None)]

    ex_default = ex_case

    def ex_label(self, n, st):
        return self.exec(n['b'], st) if n.get('b') else [('N', st, None)]

    def ex_goto(self, n, st):
        raise GiveUp('goto')

    def ex_try(self, n, st):
        self.throws.append([])
        try:
            outs = self.exec(n['b'], st)
        finally:
            th = self.throws.pop()
        for s, x, w in th:
            handled = False
            for h in n['h']:
                if self.catches(h, x.q):
                    handled = True
                    s2 = s.drop(lambda k: k[0] in ('l', 't', 'bind') and k[1] > self.depth)
                    v = h.get('v')
                    if v and v.get('d') is not None:
                        s2 = s2.put(self.local(v['d']), Obj('exception', (x.q,)))
                    old = self.stack[-1].get('exc')
                    self.stack[-1]['exc'] = x.q
                    outs.extend(self.exec(h['b'], s2))
                    self.stack[-1]['exc'] = old
                    break
            if not handled:
                self.throws[-1].append((s, x, w))
        return self.merge_out(outs)

    EXC_PARENT = {
        'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception',
        'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
        'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
        'std::underflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error', 'std::ios_base::failure': 'std::system_error',
    }

    def catches(self, h, q):
        ct = h.get('ct')
        if ct is None:
            return True
        want = ct.deref().q or ct.deref().n.replace('const ', '')
        while q:
            if q == want:
                return True
            r = next((r for r in self.P.recs.values() if r['q'] == q), None)
            nq = self.EXC_PARENT.get(q)
            if nq is None and r is not None and r.get('bases'):
                b = r['bases'][0]
                bt = b.get('t') if isinstance(b, dict) else b
                nq = getattr(bt, 'q', None)
            q = nq
        return False

    # loops ----------------------------------------------------------------
    def ex_while(self, n, st):
        from . import loops
        return loops.run(self, n, st, 'while')

    def ex_do(self, n, st):
        from . import loops
        return loops.run(self, n, st, 'do')

    def ex_for(self, n, st):
        from . import loops
        return loops.run(self, n, st, 'for')

    def ex_rfor(self, n, st):
        from . import loops
        return loops.run(self, n, st, 'rfor')

    # ---------------------------------------------------------- symbolic inputs
    def symval(self, t, name, args=()):
        """an arbitrary value of type t, called `name` (a function of args)"""
        t = t.deref()
        mkv = (lambda lo, hi: fn(name, *args, lo=lo, hi=hi)) if args else (lambda lo, hi: sym(name, lo, hi))
        if t.k == 'enum':
            vs = self.P.enums.get(t.n.replace('const ', ''))
            if vs:
                return mkv(min(vs.values()), max(vs.values()))
            return mkv(*irange(t))
        if t.k == 'int':
            if self.rawbyte(t):
                return mkv(0, (1 << t.w) - 1)
            if name in self.ranges:
                lo, hi = self.ranges[name]
                return fn('%s<=%d' % (name, hi), *args, lo=lo, hi=hi) if args else sym('%s<=%d' % (name, hi), lo, hi)
            return mkv(*irange(t))
        if t.k == 'float':
            return mkv(0, (1 << t.w) - 1)
        if t.k == 'rec':
            if t.q == 'std::complex':
                return mkv(0, (1 << (8 * t.size)) - 1)
            if t.q in ('std::vector', 'std::basic_string', 'std::array', 'std::initializer_list'):
                self.symseq(t.targ(0), name)
                b = base(name, *args)
                if t.q == 'std::array':
                    return Seq((('s', b, ZERO, C(int(t.targ(1)))),))
                return whole(b)
            if t.q in ('std::map', 'std::unordered_map'):
                self.mapval[name] = t.targ(1)
                return MapV(Obj('mapsym', (name,) + tuple(args)), ())
            if t.q == 'std::pair':
                return Rec('std::pair', (('first', self.symval(t.targ(0), name + '.first', args)), ('second', self.symval(t.targ(1), name + '.second', args))))
            if t.q in ('std::basic_ostream', 'std::basic_ostringstream'):
                return OStr('x' if t.q == 'std::basic_ostream' else 's', whole(base(name + '.before')), failed=mkv(0, 1) if t.q == 'std::basic_ostream' else FALSE, name=name)
            if t.q == 'std::basic_ofstream':
                return OStr('f', whole(base(name + '.before')), failed=mkv(0, 1), open=sym(name + '.open', 0, 1), name=(sym(name + '.path'), None))
            if t.q in ('std::basic_istream', 'std::basic_istringstream', 'std::basic_ifstream'):
                k = {'std::basic_istream': 'x', 'std::basic_istringstream': 's', 'std::basic_ifstream': 'f'}[t.q]
                return IStr(k, whole(base(name)), pos=sym(name + '.pos', 0, 1 << 60), bad=sym(name + '.bad', 0, 1), eof=sym(name + '.eof', 0, 1),
                            open=TRUE if k == 's' else sym(name + '.open', 0, 1), name=name)
            if (t.q or '').startswith('std::'):
                return Obj('sym', (name,) + tuple(args))
            r = self.P.recs.get(t.rec)
            if r is None:
                return Obj('sym', (name,) + tuple(args))
            if t.union:
                return Mem(tuple(sym('%s#%d' % (name, i), 0, 255) for i in range(t.size)), 1, t.size)
            return Rec(t.rec, tuple((f['n'], self.symval(f['t'], name + '.' + f['n'], args)) for f in r['fields']))
        return Unk('symbolic ' + t.n)

    def symseq(self, et, name):
        if name in BASES:
            return
        if et.k in ('int', 'enum', 'float') or et.q == 'std::complex':
            x = self.symval(et, name + '[]')
            BASES[name] = dict(lo=x.lo, hi=x.hi)
            if x.lo is not None and -128 <= x.lo < 0:
                BASES[name]['signed8'] = True
        else:
            self.symval(et, name + '[]', (ZERO,))
            BASES[name] = dict(elem=lambda b, i: self.symval(et, name + '[]', b.a[1:] + (i,)))

    # -------------------------------------------------------------- entry point
    def analyse(self, f, this, args, st):
        """all ways of leaving f: ([(st, value)], [(st, Exc, where)])"""
        self.throws = [[]]
        self.depth = 0
        self.stack = [dict(m='', q='', this=None, caps=None)]
        rets = self.invoke(f, this, args, st, None)
        return rets, self.throws[0]


# --------------------------------------------------------------------- joins
def separator(f1, f2):
    """a condition that holds on the first path and not on the second"""
    d1 = [x for x in f1.lits if x not in f2.set]
    d2 = [x for x in f2.lits if x not in f1.set]
    s2 = set(d2)
    for x in d1:
        if not_(x) in s2:
            return x
    s1 = set(d1)
    for y in d2:
        ny = not_(y)
        if all(z in s1 or z in f1.set for z in (ny.a if ny.op == 'and' else (ny,))):
            return ny
    for x in d1:
        nx = not_(x)
        if all(z in s2 or z in f2.set for z in (nx.a if nx.op == 'and' else (nx,))):
            return x
    for x in d1:
        if f2.decide(x) is False:
            return x
    for y in d2:
        if f1.decide(y) is False:
            return not_(y)
    if d1:
        c = and_(*d1)
        if f2.decide(c) is False:
            return c
        # exclusive as a whole?
        n = f2
        for x in d1:
            n = n.add(x)
        if n.infeasible():
            return c
    return None


def join_facts(f1, f2, c=None):
    common = [x for x in f1.lits if x in f2.set]
    d1 = [x for x in f1.lits if x not in f2.set]
    d2 = [x for x in f2.lits if x not in f1.set]
    out = list(common)
    if d1 and d2:
        # literals implied by the other side
        for x in d1:
            if f2.decide(x, False) is True:
                out.append(x)
        for y in d2:
            if f1.decide(y, False) is True:
                out.append(y)
        if c is not None:
            nc = not_(c)
            for x in d1:
                if x is not c and x not in (c.a if c.op == 'and' else ()):
                    r = or_(nc, x)
                    if r is not TRUE:
                        out.append(r)
            for y in d2:
                if y is not nc and y not in (nc.a if nc.op == 'and' else ()):
                    r = or_(c, y)
                    if r is not TRUE:
                        out.append(r)
        else:
            r = or_(and_(*d1), and_(*d2))
            if r is not TRUE:
                out.extend(r.a if r.op == 'and' else (r,))
    elif (d1 or d2) and c is not None:
        nc = not_(c)
        for x in d1:
            r = or_(nc, x)
            if r is not TRUE:
                out.append(r)
        for y in d2:
            r = or_(c, y)
            if r is not TRUE:
                out.append(r)
    al = [x for x in f1.all_ if x in f2.all_]
    if c is not None:
        for f, g, n in ((f1, f2, not_(c)), (f2, f1, c)):
            for j, m, ls in f.all_:
                if (j, m, ls) not in al:
                    al.append((j, m, tuple(or_(n, x) for x in ls)))
    return Facts(dict.fromkeys(out), al)


_restore = {}


def remember(c, v, x, y):
    """v is x where c holds and y elsewhere"""
    if x is y or v is x and v is y or isinstance(v, T):
        return
    if isinstance(v, (Seq, V)):
        _restore[(c, x, y)] = v
        if isinstance(v, V) and type(x) is type(v) and type(y) is type(v):
            if isinstance(v, Rec):
                for k, w in v.f:
                    p, q = x.get(k), y.get(k)
                    if p is not None and q is not None:
                        remember(c, w, p, q)
            else:
                for k in v._k:
                    remember(c, getattr(v, k), getattr(x, k), getattr(y, k))


def unify(c, x, y):
    """c ? x : y, or None"""
    if x is y or x == y:
        return x
    if isinstance(x, (Seq, V)) and isinstance(c, T):
        r = _restore.get((c, x, y))
        if r is None:
            r = _restore.get((not_(c), y, x))
        if r is not None:
            return r
    if isinstance(x, T) and isinstance(y, T):
        return ite(c, x, y)
    if isinstance(x, Seq) and isinstance(y, Seq):
        return seq_ite(c, x, y)
    if isinstance(x, Unk) or isinstance(y, Unk):
        return Unk('join')
    if isinstance(x, Rec) and isinstance(y, Rec) and x.t == y.t and [k for k, _ in x.f] == [k for k, _ in y.f]:
        f = []
        for (k, a), (_, b) in zip(x.f, y.f):
            u = unify(c, a, b)
            if u is None:
                return None
            f.append((k, u))
        return Rec(x.t, tuple(f))
    if type(x) is type(y) and isinstance(x, (IStr, OStr, Ptr, Mem)):
        ch = {}
        for k in x._k:
            a, b = getattr(x, k), getattr(y, k)
            if a is b or a == b:
                continue
            if isinstance(a, (T, Seq)) and isinstance(b, (T, Seq)):
                u = unify(c, a, b)
            elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and isinstance(x, Mem):
                u = tuple(unify(c, p, q) for p, q in zip(a, b))
                if any(p is None for p in u):
                    u = None
            else:
                u = None
            if u is None:
                return None
            ch[k] = u
        return x.but(**ch)
    if isinstance(x, MapV) and isinstance(y, MapV) and x.base == y.base:
        n = 0
        while n < len(x.entries) and n < len(y.entries) and x.entries[n] == y.entries[n]:
            n += 1
        return None
    return None


def seq_ite(c, x, y):
    if not isinstance(c, T):
        return None
    a, b = list(x.parts), list(y.parts)
    # arrays of the same known length: element by element
    ea = [p[1] for p in a] if all(p[0] == 'e' for p in a) else None
    eb = [p[1] for p in b] if all(p[0] == 'e' for p in b) else None
    if ea is not None and eb is not None and len(ea) == len(eb) and len(ea) <= 32:
        out = []
        for p, q in zip(ea, eb):
            u = unify(c, p, q)
            if u is None:
                break
            out.append(('e', u))
        else:
            return Seq(out)
    pre = []
    while a and b and a[0] == b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    # a shared prefix of a slice
    if a and b and a[0][0] == 's' and b[0][0] == 's' and a[0][1] is b[0][1] and a[0][2] is b[0][2]:
        pass
    post = []
    while a and b and a[-1] == b[-1]:
        post.insert(0, a.pop())
        b.pop()
    if len(a) == len(b) and all(p[0] == 'e' and q[0] == 'e' and not isinstance(p[1], T) for p, q in zip(a, b)):
        mid = []
        for p, q in zip(a, b):
            u = unify(c, p[1], q[1])
            if u is None:
                break
            mid.append(('e', u))
        else:
            return Seq(pre + mid + post)
    return Seq(pre + [('i', c, tuple(a), tuple(b))] + post)


def seq_put(s, i, v, dec):
    """s with element i replaced"""
    c = i.const
    # known leading elements
    if c is not None and c < len(s.parts) and all(p[0] == 'e' for p in s.parts[:c + 1]):
        parts = list(s.parts)
        parts[c] = ('e', v)
        return Seq(parts)
    n = s.length()
    a = s.slice(ZERO, i, dec)
    b = s.slice(add(i, ONE), sub(sub(n, i), ONE), dec)
    if i is ZERO:
        a = EMPTY
    return Seq(a.parts + (('e', v),) + b.parts)
