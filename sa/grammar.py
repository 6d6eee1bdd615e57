"""The language a parser accepts, read off the paths between the cuts of its analysis, as a
finite automaton over bytes; and the comparison of such languages."""
from collections import deque

from . import loops, models as md
from .drive import *
from .elements import *

END = 256                    # the symbol after the last byte
ALL = frozenset(range(256))
ANY = frozenset(range(257))
DIGITS = frozenset(range(48, 58))
SPACE = frozenset((9, 10, 11, 12, 13, 32))
STEPS = 400000


# ------------------------------------------------------------------ automata
class NFA:
    """edges: node -> [(set of symbols, node, consumes)]; a symbol set may hold END"""

    def __init__(self):
        self.edges = {}
        self.n = 0
        self.final = set()

    def node(self):
        self.n += 1
        return self.n

    def eat(self, a, cls, b):
        self.edges.setdefault(a, []).append((cls, b, True))

    def test(self, a, cls, b):
        self.edges.setdefault(a, []).append((cls, b, False))

    def eps(self, a, b):
        self.edges.setdefault(a, []).append((None, b, False))

    def closure(self, nodes, c):
        """what can be reached before the next symbol, known to be c"""
        seen = set(nodes)
        todo = list(nodes)
        while todo:
            x = todo.pop()
            for cls, y, eats in self.edges.get(x, ()):
                if not eats and y not in seen and (cls is None or c in cls):
                    seen.add(y)
                    todo.append(y)
        return seen

    def step(self, nodes, c):
        """END: whether the word may end here"""
        cl = self.closure(nodes, c)
        if c == END:
            return bool(cl & self.final)
        return frozenset(y for x in cl for cls, y, eats in self.edges.get(x, ()) if eats and c in cls)

    def sets(self):
        return {cls for es in self.edges.values() for cls, _, _ in es if cls is not None}


def symbols(*nfas):
    """one byte of every kind the automata distinguish, printable where possible"""
    sets = [s for n in nfas for s in n.sets()]
    kinds = {}
    for c in sorted(range(256), key=lambda c: (not 33 <= c < 127, c)):
        kinds.setdefault(tuple(c in s for s in sets), c)
    return sorted(kinds.values())


def only_in(a, start_a, b, start_b):
    """a shortest word of a that is not one of b: (word, nodes of a passed) or None.  a is
    followed path by path, b all at once"""
    syms = symbols(a, b)
    first = (start_a, frozenset((start_b,)))
    parent = {first: None}
    todo = deque([first])
    memo = {}
    n = 0
    while todo:
        cur = todo.popleft()
        x, ys = cur
        n += 1
        if n > STEPS:
            raise GiveUp('languages too large to compare')
        k = (x, END)
        if k not in memo:
            memo[k] = a.step((x,), END)
        if memo[k] and not b.step(ys, END):
            word, path = [], [x]
            while parent[cur] is not None:
                cur, c = parent[cur]
                word.append(c)
                path.append(cur[0])
            return bytes(reversed(word)), path[::-1]
        for c in syms:
            k = (x, c)
            if k not in memo:
                memo[k] = a.step((x,), c)
            if not memo[k]:
                continue
            ny = b.step(ys, c)
            for z in memo[k]:
                nxt = (z, ny)
                if nxt not in parent:
                    parent[nxt] = (cur, c)
                    todo.append(nxt)
    return None


def build(nfa, a, r, b):
    """regular expression r from node a to node b: bytes, ('set', s), ('star', r),
    ('seq', ...), ('or', ...), ('opt', r)"""
    if isinstance(r, bytes):
        cur = a
        for i, c in enumerate(r):
            nxt = b if i == len(r) - 1 else nfa.node()
            nfa.eat(cur, frozenset((c,)), nxt)
            cur = nxt
        if not r:
            nfa.eps(a, b)
    elif r[0] == 'set':
        nfa.eat(a, r[1], b)
    elif r[0] == 'star':
        m = nfa.node()
        nfa.eps(a, m)
        build(nfa, m, r[1], m) if r[1][0] == 'set' else _loop(nfa, m, r[1])
        nfa.eps(m, b)
    elif r[0] == 'seq':
        cur = a
        for x in r[1:]:
            nxt = nfa.node()
            build(nfa, cur, x, nxt)
            cur = nxt
        nfa.eps(cur, b)
    elif r[0] == 'or':
        for x in r[1:]:
            build(nfa, a, x, b)
    elif r[0] == 'opt':
        build(nfa, a, r[1], b)
        nfa.eps(a, b)


def _loop(nfa, m, r):
    k = nfa.node()
    build(nfa, m, r, k)
    nfa.eps(k, m)


def regex(r):
    n = NFA()
    a, b = n.node(), n.node()
    build(n, a, r, b)
    n.final.add(b)
    return n, a


def nothing():
    n = NFA()
    return n, n.node()


# ------------------------------------------------------------------ facts about bytes
def bytes_in(t, src):
    """positions of src whose bytes occur in t"""
    out = set()
    for x in tm.walk(t):
        if x.op == 'at' and x.a[0] is src:
            out.add(x)
    return out


def index_of(x):
    return x.a[1] if isinstance(x.a[1], T) else C(x.a[1])


_sets = {}


def allowed(lit, at):
    """the bytes for which a condition on that byte alone holds"""
    k = (lit, at)
    if k not in _sets:
        ok = set()
        for c in range(256):
            v = subst(lit, {at: C(c)})
            if v is TRUE:
                ok.add(c)
            elif v is not FALSE:
                ok = None
                break
        _sets[k] = None if ok is None else frozenset(ok)
    return _sets[k]


def ends(facts):
    """with what the ranges say about where they end"""
    more = []
    for j, n, ls in facts.all_:
        for l in ls:
            if l.op != 'ge0':
                continue
            c, p = poly_parts(l.a[0])
            if p.get((j,)) != -1 or any(j in m and m != (j,) for m in p):
                continue
            last = subst(l, {j: sub(n, ONE)})
            if facts.decide(subst(l, {j: C(-1)})) is True:
                more.append(last)
            else:
                more.append(or_(le(n, ZERO), last))
    return together(facts, more) if more else facts


class Unclear(Exception):
    pass


class Split(Exception):
    """the path is to be taken apart: one of the conditions holds"""

    def __init__(self, ways):
        self.ways = ways


class Same(Exception):
    pass


class Text:
    """what a path says about the text from `start` on: segments in order"""

    def __init__(self, st, src, start, end=None, before=None, control=()):
        self.src, self.start, self.end = src, start, end
        self.st = st
        self.exact = True          # nothing known of the path was left out
        self.why = []
        self.L = len_base(src)
        self.control = []
        self.sub = {}
        self.order_of = None
        old = before.facts.set if before is not None else frozenset()
        oldall = before.facts.all_ if before is not None else ()
        facts = st.facts
        self.facts = facts
        lits = [l for l in facts.lits if l not in old]
        alls = [a for a in facts.all_ if a not in oldall]
        self.numbers = []
        self.facts = facts = ends(facts)
        # lengths that other facts determine
        for l in lits:
            if l.op == 'eq0' and not bytes_in(l, src):
                self.equation(l)
        marks = []        # (position, set of symbols or None)
        runs = []         # (from, to, set)
        while True:
            marks, runs, self.left = [], [], []
            keep = (self.exact, list(self.why), list(self.control), list(self.numbers))
            for l in lits:
                self.single(l, marks, control)
            for j, n, ls in alls:
                for l in ls:
                    self.range_(j, n, l, runs)
            weak = [(x, c) for x, c in marks if len(c & ALL) > 128]
            marks = [(x, c) for x, c in marks if len(c & ALL) <= 128]
            try:
                self.build(marks, runs)
                more = True
                while more:
                    # what the rest does not say already
                    more = [m for m in weak if not self.said(*m)]
                    if more:
                        weak = [m for m in weak if m not in more]
                        marks = marks + more
                        self.exact, self.why = keep[0], list(keep[1])
                        self.build(marks, runs)
                break
            except Same:
                self.exact, self.why, self.control, self.numbers = keep
        for l in self.left:
            self.clause(l, marks, runs)

    def clause(self, l, marks, runs):
        """a condition on several places: met anyway, or a reason to split the path"""
        if l.op != 'or':
            self.lose('condition on several bytes %s' % str(l)[:200])
            return
        if any(self.met(d) for d in l.a):
            return
        raise Split(l.a)

    def met(self, d):
        if d.op == 'and':
            return all(self.met(x) for x in d.a)
        if d.op == 'or':
            return any(self.met(x) for x in d.a)
        ats = bytes_in(d, self.src)
        if not ats:
            return self.facts.decide(d) is True
        if len(ats) == 1:
            at = next(iter(ats))
            cls = allowed(d, at)
            return cls is not None and self.known(index_of(at)) - {END} <= cls
        return False

    def known(self, x):
        """what the symbol at x can be"""
        out = frozenset()
        for a, b, least, open_, cls in self.segs:
            if cls <= out or not (least or open_):
                continue
            before, within = self.le(add(x, ONE), a), self.le(add(x, ONE), b)
            if before is not True and within is not False:
                out |= cls
        last = self.s(self.end) if self.end is not None else self.stop
        if last is None or self.le(add(x, ONE), last) is not True:
            past = True if last is None else self.le(add(last, ONE), x)
            if last is None or past is not False:
                out |= ANY
            else:
                out |= self.ahead if self.end is not None else frozenset((END,))
        return out

    def said(self, x, cls):
        return self.known(x) <= cls

    def lose(self, why):
        self.exact = False
        self.why.append(why)

    def equation(self, l):
        t = self.s(l.a[0])
        c, p = poly_parts(t)
        best = None
        for m, k in p.items():
            if len(m) == 1 and abs(k) == 1 and m[0].op == 'sym' and m[0].a[0].startswith('N#') and not any(len(o) > 1 and m[0] in o for o in p):
                num = int(m[0].a[0].split('#')[1].split('^')[0].split('<')[0])
                if best is None or num < best[0]:
                    best = (num, m[0], k)
        if best is None:
            return False
        _, x, k = best
        v = sub(x, scale(t, k))        # k*x + rest == 0  =>  x == -k*rest
        if occurs(x, v):
            return False
        self.sub = {y: subst(w, {x: v}) for y, w in self.sub.items()}
        self.sub[x] = v
        more = [l for l in (subst(l, {x: v}) for l in self.facts.lits if any(y is x for y in tm.walk(l)) and not bytes_in(l, self.src)) if l.op != 'c']
        if more:
            self.facts = together(self.facts, more)
        return True

    def s(self, t):
        return subst(t, self.sub) if self.sub else t

    def single(self, l, marks, control):
        l = self.s(l)
        if l.op == 'c':
            return
        ats = bytes_in(l, self.src)
        if not ats:
            if any(x is self.L for x in tm.walk(l)):
                if l.op == 'ge0':
                    d = l.a[0]
                    c, p = poly_parts(d)
                    k = p.get((self.L,))
                    if k == 1:          # L - X - 1 >= 0: there is a byte at X
                        marks.append((sub(sub(self.L, d), ONE), ALL))
                        return
                    if k == -1:         # X - L >= 0: there is none
                        marks.append((add(d, self.L), frozenset((END,))))
                        return
                if l.op == 'eq0':
                    c, p = poly_parts(l.a[0])
                    if abs(p.get((self.L,), 0)) == 1:
                        x = sub(self.L, scale(l.a[0], p[(self.L,)]))
                        marks.append((x, frozenset((END,))))
                        marks.append((sub(x, ONE), ALL))
                        return
                self.lose('condition on the length')
                return
            syms = free_syms(l)
            if any(x in control for x in syms):
                self.control.append(l)
                return
            if any(x.op == 'fn' and x.a[0] == 'decimal' for x in tm.walk(l)):
                self.numbers.append(l)
                return
            if all(x.a[0].split('#')[0] in ('N', 'j') for x in syms):
                return      # on lengths of runs
            self.lose('condition on other state: %s' % str(l)[:60])
            return
        if len(ats) > 1:
            self.left.append(l)
            return
        at = next(iter(ats))
        x = index_of(at)
        cls = allowed(l, at)
        if cls is not None:
            marks.append((x, cls))
            return
        # together with whether there is a byte at all
        inside = lt(x, self.L)
        here, past = self.given(l, inside, TRUE), self.given(l, inside, FALSE)
        a = allowed(here, at) if here.op != 'c' else (ALL if here is TRUE else frozenset())
        if a is None or past.op != 'c':
            self.left.append(l)
            return
        marks.append((x, a | (frozenset((END,)) if past is TRUE else frozenset())))

    def given(self, l, c, v):
        env = {c: v, not_(c): not_(v)}
        return subst(l, {k: w for k, w in env.items() if k.op != 'c'})

    def range_(self, j, n, l, runs):
        l = self.s(l)
        n = self.s(n)
        ats = bytes_in(l, self.src)
        if not ats:
            return
        if len(ats) > 1:
            self.lose('relation between bytes')
            return
        at = next(iter(ats))
        d = sub(index_of(at), j)
        if occurs(j, d):
            self.lose('bytes at some distance')
            return
        cls = allowed(l, at)
        if cls is None:
            inside = lt(index_of(at), self.L)
            here, past = self.given(l, inside, TRUE), self.given(l, inside, FALSE)
            cls = allowed(here, at) if here.op != 'c' else (ALL if here is TRUE else frozenset())
            if cls is None:
                self.lose('mixed condition %s' % l)
                return
        runs.append((d, add(d, n), cls))

    # order of the positions
    def le(self, x, y):
        d = sub(y, x)
        c, p = poly_parts(d)
        if c >= 0 and all(k > 0 and all(z.op == 'sym' and z.lo is not None and z.lo >= 0 for z in m) for m, k in p.items()):
            return True
        if c < 0 and all(k < 0 and all(z.op == 'sym' and z.lo is not None and z.lo >= 0 for z in m) for m, k in p.items()):
            return False
        return self.ge(d)

    def ge(self, d):
        """is d >= 0"""
        if self.order_of is not self.facts:
            # conditions on lengths only
            self.order_of, self.memo = self.facts, {}
            f = Facts()
            for l in self.facts.lits:
                if l.op in ('ge0', 'eq0') and not any(z is self.L or z.op == 'at' for z in tm.walk(l)):
                    f = f.add(l)
            self.lengths = f
        r = self.memo.get(d, self)
        if r is self:
            f = self.facts if any(z is self.L for z in tm.walk(d)) else self.lengths
            r = self.memo[d] = f.decide(ge0(d))
        return r

    def build(self, marks, runs):
        start, end = self.s(self.start), self.s(self.end) if self.end is not None else None
        bounds = [start]
        if end is not None:
            bounds.append(end)
        for x, cls in marks:
            bounds += [x, add(x, ONE)] if END not in cls else [x]
        for a, b, cls in runs:
            bounds += [a, b]
        uniq = []
        for x in bounds:
            if x not in uniq:
                uniq.append(x)
        # drop what lies before the start
        later = []
        for x in uniq:
            r = self.le(start, x)
            if r is None:
                raise Unclear('position %s against the start' % str(x)[:60])
            if r:
                later.append(x)
        order = []
        for x in later:
            i = len(order)
            while i > 0:
                r = self.le(order[i - 1], x)
                if r is True:
                    if self.le(x, order[i - 1]) is True and self.equation(eq(x, order[i - 1])):
                        raise Same
                    break
                if r is None and self.le(x, order[i - 1]) is not True:
                    y = order[i - 1]
                    raise Split((lt(x, y), eq(x, y), lt(y, x)))
                i -= 1
            order.insert(i, x)
        # what is known between them; equal ones share a rank
        rank = {}
        for i, x in enumerate(order):
            rank[x] = 0 if not i else rank[order[i - 1]] + (0 if self.le(x, order[i - 1]) is True else 1)
        segs = []
        stop = None
        ahead = ANY
        here_of, end_of = {}, set()
        for p, c in marks:
            if p in rank:
                here_of[rank[p]] = here_of.get(rank[p], ANY) & c
                if c == frozenset((END,)):
                    end_of.add(rank[p])
        for i, x in enumerate(order):
            nxt = order[i + 1] if i + 1 < len(order) else None
            if rank[x] in end_of:
                stop = x
            if nxt is None:
                break
            if rank[nxt] == rank[x]:
                continue
            d = sub(nxt, x)
            cls = ALL
            if rank[x] in here_of and self.le(add(x, ONE), nxt) is True:
                cls = cls & here_of[rank[x]]
            for a, b, c in runs:
                if rank.get(a, -1) <= rank[x] and rank.get(b, -1) >= rank[nxt]:
                    cls = cls & c
            segs.append((x, nxt, d, cls))
        self.order = order
        out = []       # (from, to, least number, open ended, set)
        seen = {}
        for x, nxt, d, cls in segs:
            if end is not None and rank[end] <= rank[x]:
                # after the end: only the next symbol
                break
            c, p = poly_parts(d)
            least, open_ = max(c, 0), bool(p)
            if open_:
                while least < 24 and self.ge(sub(d, C(least + 1))) is True:
                    least += 1
                if least == 24 or self.ge(sub(C(1 << 20), d)) is True:
                    self.lose('bounded length')
            for m in p:
                if m in seen:
                    self.lose('lengths that depend on each other')
                seen[m] = True
            out.append((x, nxt, least, open_, cls))
        if end is not None:
            ahead = ahead & here_of.get(rank[end], ANY)
            for q, c in marks:
                if rank.get(q, -1) > rank[end] and c != ALL:
                    self.lose('looks further ahead')
            for a, b, c in runs:
                if rank.get(b, -1) > rank[end] and c != ALL:
                    self.lose('looks further ahead')
        self.segs = out
        self.ahead = ahead
        self.stop = stop
        if stop is not None:
            self.segs = [s for s in out if rank[s[1]] <= rank[stop]]

    def dead(self):
        """no text takes this path"""
        return any(least and not cls for _, _, least, _, cls in self.segs) or self.end is not None and not self.ahead

    def regex(self):
        out = ['seq']
        for x, nxt, least, open_, cls in self.segs:
            out += [('set', cls)] * least
            if open_:
                out.append(('star', ('set', cls)))
        if self.end is None:
            if self.stop is None:
                out.append(('star', ('set', ALL)))
        return tuple(out)

    def add(self, nfa, a, b):
        m = nfa.node()
        build(nfa, a, self.regex(), m)
        cls = self.ahead if self.end is not None else ANY
        if self.end is None and self.stop is not None:
            cls = frozenset((END,))
        if cls == ANY:
            nfa.eps(m, b)
        else:
            nfa.test(m, cls, b)


# ------------------------------------------------------------------ the paths of a parser
CUT = ('o', '#cut')


class Way:
    """a path from one place of the automaton to another"""

    def __init__(self, src, dst, st, before, start, end):
        self.src, self.dst, self.st, self.before, self.start, self.end = src, dst, st, before, start, end


class Parser:
    """a function given the text of `src`, its outermost loops cut"""

    def __init__(self, P, f, this, args, st, text, peel=(3, 3), opaque=None):
        self.P, self.f, self.text = P, f, text
        I = self.I = Interp(P, opaque=opaque or {})
        I.split = I.scans = I.cutting = True
        I.peel = peel
        I.cuts = []
        st = st.put(CUT, C(0))
        t = P.recs[f['rect'].rec if not isinstance(f['rect'], str) else f['rect']]['t'] if f.get('ctor') else None
        if t is not None:
            I.ltypes[('o', 'this')] = t
        self.rets, self.throws = I.analyse(f, this, args, st)
        self.cuts = [c for c in I.cuts if c.id]
        self.ways = []
        self.unclear = []
        heads = {c.id: c for c in self.cuts}
        for c in self.cuts:
            self.way(c.st0, c.id, heads)
            for s in c.it.conts:
                self.way(s, c.id, heads)
        for s, v in self.rets:
            self.way(s, 'return', heads)

    def position(self, cut):
        """the position in the text at the head of a cut loop: (leaf, value)"""
        for l, v in cut.M.items():
            if l[1] and l[1][-1] == ('a', 'pos'):
                s = loops.get_leaf(cut.head, (l[0], l[1][:-1]))
                if isinstance(s, IStr) and s.src == whole(self.text):
                    return l, v
        return None

    def way(self, s, dst, heads):
        k = s.store[CUT].const
        src = heads.get(k)
        if src is None:
            start, before = ZERO, None
        else:
            p = self.position(src)
            if p is None:
                self.unclear.append('position in the text at %s' % src.where)
                return
            start, before = p[1], src.head
        end = None
        if dst != 'return':
            p = self.position(heads[dst])
            end = loops.get_leaf(s, p[0]) if p is not None else None
            if end is None:
                self.unclear.append('position in the text at %s' % heads[dst].where)
                return
        self.ways.append(Way(k, dst, s, before, start, end))

    def place(self, k):
        for c in self.cuts:
            if c.id == k:
                return 'the loop at %s' % c.where
        return 'the beginning' if k == 0 else 'the %s' % k

    def texts(self):
        """[(way, Text)]; ways split where their conditions concern several places"""
        out = []
        heads = {c.id: c for c in self.cuts}
        todo = list(self.ways)[::-1]
        n = 0
        while todo:
            w = todo.pop()
            n += 1
            if n > 600:
                raise GiveUp('too many ways through the text')
            control = set()
            if w.src in heads:
                for l, v in heads[w.src].M.items():
                    if not (l[1] and l[1][-1][0] == 'a'):
                        control |= {x for t in gterms(v) for x in tm.walk(t)} if not isinstance(v, loops.Fixed) else set()
            try:
                t = Text(w.st, self.text, w.start, w.end, w.before, control)
                if not t.dead():
                    out.append((w, t))
            except Split as e:
                not_so = []     # of the conditions on lengths alone, which come first
                for d in sorted(e.ways, key=lambda d: len(bytes_in(d, self.text))):
                    f = together(w.st.facts, not_so + (list(d.a) if d.op == 'and' else [d]))
                    if not clash(f):
                        todo.append(Way(w.src, w.dst, w.st.with_facts(f), w.before, w.start, w.end))
                    if d.op in ('ge0', 'eq0', 'ne0') and not bytes_in(d, self.text):
                        not_so = not_so + [not_(d)]
            except Unclear as e:
                self.unclear.append(str(e))
        return out


# ------------------------------------------------------------------ their language
class Language:
    """the texts for which the parser returns: an automaton whose states are the heads of
    its loops together with what its flags hold there"""

    LIMIT = 512

    def __init__(self, G, texts, exact):
        self.G, self.exact = G, exact
        self.nfa = NFA()
        self.edge = {}                   # first and last node of the text of a way -> way
        self.missing = []                # why some ways are left out
        heads = self.heads = {c.id: c for c in G.cuts}
        self.by = {}
        for w, t in texts:
            if exact and (not t.exact or w.st.imp):
                self.missing.append((t.why or [x for x in w.st.imp])[0])
                continue
            self.by.setdefault(w.src, []).append((w, t))
        self.tracked = {k: self.flags(c) for k, c in heads.items()}
        n = self.nfa
        self.start = n.node()
        self.end = n.node()
        n.final.add(self.end)
        self.nodes = {(0, ()): self.start}
        todo = [(0, ())]
        while todo:
            k, val = todo.pop()
            env = dict(zip([s for _, s in self.tracked.get(k, ())], val))
            for w, t in self.by.get(k, ()):
                v = self.possible(t, env)
                if v is False or v is None and exact:
                    continue
                if w.dst == 'return':
                    self.put(self.nodes[k, val], w, t, self.end)
                    continue
                new = tuple(self.after(w, l, env) for l, _ in self.tracked[w.dst])
                at = (w.dst, new)
                if at not in self.nodes:
                    if len(self.nodes) > self.LIMIT:
                        raise GiveUp('the flags of the parser take too many values')
                    self.nodes[at] = n.node()
                    todo.append(at)
                self.put(self.nodes[k, val], w, t, self.nodes[at])

    def put(self, a, w, t, b):
        x = self.nfa.node()
        self.nfa.eps(a, x)
        t.add(self.nfa, x, b)
        self.edge[x, self.nfa.n] = (w, t)

    def flags(self, cut):
        """the leaves of the head's state that decide where the paths go"""
        of = {}
        for l, v in cut.M.items():
            if isinstance(v, T) and v.op == 'sym' and not (l[1] and l[1][-1][0] == 'a'):
                of[v] = l
        need = set()
        for w, t in self.by.get(cut.id, ()):
            for c in t.control:
                need |= {x for x in tm.walk(c) if x in of}
        grown = True
        while grown:
            grown = False
            for w, t in self.by.get(cut.id, ()):
                if w.dst != cut.id:
                    continue
                for x in list(need):
                    v = loops.get_leaf(w.st, of[x])
                    if isinstance(v, T):
                        for y in tm.walk(v):
                            if y in of and y not in need:
                                need.add(y)
                                grown = True
        return sorted(((of[x], x) for x in need), key=lambda p: str(p[1]))

    def after(self, w, l, env):
        v = loops.get_leaf(w.st, l)
        if isinstance(v, T):
            v = subst(v, env)
            if v.const is not None:
                return v
        raise GiveUp('the value of %s is not followed' % (l,))

    def possible(self, t, env):
        """do the flags allow it: True, False, None"""
        out = True
        for c in t.control:
            v = subst(c, env)
            if v is FALSE:
                return False
            if v is not TRUE:
                out = None
        return out

    def ways(self, path):
        """the ways a path through the automaton takes"""
        out = []
        for x in path:
            for (a, b), wt in self.edge.items():
                if a <= x <= b and (not out or out[-1] is not wt):
                    out.append(wt)
        return out


def spell(word):
    return ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in word)
