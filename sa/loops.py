"""Loops: bounded ones are unrolled as long as their condition is decided; the
others are replaced by closed forms of the recurrences one iteration defines."""
from .terms import *
from . import terms as tm
from .seq import *
from . import seq as sq
from .facts import Facts, clauses
from .values import *
from . import interp as ip
import itertools

UNROLL = 300
PARTS = 6
JMAX = 1 << 60


class Iter:
    """the outcome of one iteration"""

    def __init__(self):
        self.conts = []
        self.exits = []     # (st, how)
        self.others = []    # (kind, st, val)
        self.throws = []


def iterate(I, n, kind, st):
    r = Iter()
    I.throws.append([])
    I.nest += 1
    try:
        if kind == 'py':
            nxt = []
            for s, tk in n['cond'](st):
                if not tk:
                    r.exits.append((s, 'cond'))
                    continue
                for k, s2, v in n['body'](s):
                    if k == 'N':
                        nxt.append(s2)
                    else:
                        r.exits.append((s2, 'break'))
            for s, _ in I.merge(nxt):
                r.conts.extend(n['inc'](s))
            r.conts = [s for s, _ in I.merge(r.conts)]
            return r
        if kind == 'do':
            bodies = [st]
        else:
            bodies = []
            for s, tk in I.cond_branches(dict(n, init=None), st) if kind != 'rfor' else _rcond(I, n, st):
                if tk:
                    bodies.append(s)
                else:
                    r.exits.append((s, 'cond'))
        nxt = []
        for s in bodies:
            if kind == 'rfor':
                for _, s1, _ in I.exec(n['var'], s) if n['var'].get('k') == 'decl' else [('N', s2, None) for s2 in I.declare(n['var'], s)]:
                    _body(I, n['b'], s1, r, nxt)
            else:
                _body(I, n['b'], s, r, nxt)
        nxt = [s for s, _ in I.merge(nxt)]
        if kind == 'do':
            for s in nxt:
                for s2, tk in I.cond_branches(dict(n, init=None), s):
                    if tk:
                        r.conts.append(s2)
                    else:
                        r.exits.append((s2, 'cond'))
        else:
            inc = n.get('inc')
            if inc is not None:
                for s in nxt:
                    r.conts.extend(s2 for s2, _ in I.ev(inc, s))
            else:
                r.conts.extend(nxt)
    finally:
        I.nest -= 1
        r.throws = I.throws.pop()
    r.conts = [s for s, _ in I.merge(r.conts)]
    return r


def _rcond(I, n, st):
    out = []
    for s, c in I.rv(n['x'], st):
        out.extend(I.branch(s, c))
    return out


def _body(I, b, s, r, nxt):
    keep = set(s.store)
    for k, s2, v in I.exec(b, s):
        if k in ('N', 'C'):
            nxt.append(s2.drop(lambda q: q[0] == 't' and q[1] == I.depth and q not in keep and not isinstance(q[2], tuple)))
        elif k == 'B':
            r.exits.append((s2, 'break'))
        else:
            r.others.append((k, s2, v))


def run(I, n, st, kind):
    outs = [st]
    decls = []
    if n.get('init') is not None:
        if n['init'].get('k') == 'decl':
            decls += n['init']['v']
        outs = [s for _, s, _ in I.exec(n['init'], st)]
    if kind == 'rfor':
        for part in ('range', 'begin', 'end'):
            p = n.get(part)
            if p is None:
                continue
            nxt = []
            for s in outs:
                if p.get('k') == 'decl':
                    decls += p['v']
                    nxt.extend(s2 for _, s2, _ in I.exec(p, s))
                else:
                    decls.append(p)
                    nxt.extend(I.declare(p, s))
            outs = nxt
        v = n['var']
        decls += v['v'] if v.get('k') == 'decl' else [v]
    if n.get('cv') is not None:
        decls += n['cv']['v'] if n['cv'].get('k') == 'decl' else [n['cv']]
    res = []
    for s in outs:
        res.extend(_run(I, n, kind, s))
    ids = {I.local(v['d']) for v in decls if v.get('d') is not None}
    res = [(k, s.drop(lambda r: r in ids) if k != 'R' else s, v) for k, s, v in res]
    return I.merge_out(res)


def const_cond(n):
    if n['k'] == 'py':
        return False
    x = n.get('x')
    return x is None or ('c' in x)


def _run(I, n, kind, st, parted=0):
    if I.split:
        return split_loop(I, n, kind, st)
    cur = st
    res = []
    throws = []
    cc = const_cond(n)
    nobl = len(I.obls)
    for k in range(UNROLL):
        r = iterate(I, n, kind, cur)
        und = r.conts and any(h == 'cond' for _, h in r.exits)
        if cc and r.conts and r.exits:
            und = True
        if und or len(r.conts) > 1:
            c = deciding(st, cur, r) if und and parted < PARTS and kind in ('for', 'while', 'rfor') else None
            if c is not None:
                del I.obls[nobl:]
                return partition(I, n, kind, st, c, parted)
            if __import__("os").environ.get("DBGL"): print("NOTUNROLLED", I.where(n), k, und, len(r.conts), [h for _, h in r.exits], [list(map(repr,s.facts.lits))[:6] for s in r.conts][:2])
            break
        res += [('N', s, 'broke' if h == 'break' and kind == 'py' else None) for s, h in r.exits] + r.others
        throws += r.throws
        if not r.conts:
            I.throws[-1].extend(throws)
            I.loops_unrolled += 1
            return I.merge_out(res)
        cur = r.conts[0]
    del I.obls[nobl:]
    I.loops_summarised += 1
    return summarise(I, n, kind, st)


# ------------------------------------------------------------------- leaves
def deciding(st, cur, r):
    """a condition of the state before the loop on which it depends how often the
    loop is executed, when there is nothing else this depends on"""
    new = {x for s, h in r.exits if h == 'cond' for x in s.facts.lits if x not in cur.facts.set}
    new |= {x for s in r.conts for x in s.facts.lits if x not in cur.facts.set and not any(ip.is_h(y) for y in free_syms(x))}
    for l in new:
        cs = []
        choices(l, cs, True)
        cs = [c for c in cs if not tm.loose(c)]
        if not cs or len(cs) > PARTS:
            continue
        if all(gsubst(l, dict(zip(cs, v)), {}).op == 'c' for v in itertools.product((TRUE, FALSE), repeat=len(cs))):
            for c in cs:
                if st.facts.decide(c) is None:
                    return c
    held = set()
    for v in st.store.values():
        held_conds(v, held)
    for l in new:
        if l in held or not_(l) in held:
            return l
    return None


def held_conds(v, out):
    """the conditions lengths of sequences depend on"""
    if isinstance(v, Seq):
        for p in v.parts:
            if p[0] == 'i':
                c = p[1]
                out.update(c.a if c.op in ('and', 'or') else (c,))
                held_conds(Seq(p[2]), out)
                held_conds(Seq(p[3]), out)
    elif isinstance(v, V):
        for k in v._k:
            held_conds(getattr(v, k), out)
    elif isinstance(v, tuple):
        for x in v:
            held_conds(x, out)


def choices(x, out, top=False):
    """the conditions a comparison of numbers chosen by conditions depends on"""
    if top:
        while x.op == 'not':
            x = x.a[0]
    elif x.op in ('ge0', 'eq0', 'not', 'and', 'or'):
        for y in (x.a if x.op in ('and', 'or') else (x,)):
            if y not in out:
                out.append(y)
        return
    if x.op == 'ite':
        choices(x.a[0], out)
        choices(x.a[1], out)
        choices(x.a[2], out)
        return
    for y in tm.kids(x):
        choices(y, out)


def partition(I, n, kind, st, c, parted):
    out = []
    for l in (c, not_(c)):
        s = st.assume(l)
        if s.facts.infeasible():
            continue
        env = {l: TRUE, not_(l): FALSE}
        memo = {}
        s = ip.St({k: gsubst(v, env, memo) for k, v in s.store.items()}, s.facts, s.imp, s.log)
        out += _run(I, n, kind, s, parted + 1)
    return I.merge_out(out)


def leaves(v, path=()):
    """(path, leaf) of a value; leaves are terms and sequences"""
    if isinstance(v, T) or isinstance(v, MapV):
        yield path, v
    elif isinstance(v, Seq):
        es = v.parts if all(p[0] == 'e' for p in v.parts) and 0 < len(v.parts) <= 32 else None
        if es and any(isinstance(p[1], (V, Seq)) for p in es):
            for i, p in enumerate(es):
                yield from leaves(p[1], path + (('e', i),))
        elif 1 < len(v.parts) <= 32 and any(p[0] == 'e' and isinstance(p[1], (V, Seq)) for p in v.parts):
            for i, p in enumerate(v.parts):
                if p[0] == 'e' and isinstance(p[1], (V, Seq)):
                    yield from leaves(p[1], path + (('e', i),))
                else:
                    yield path + (('=p', i),), Fixed(p)
        else:
            yield path, v
    elif isinstance(v, Rec):
        for k, x in v.f:
            yield from leaves(x, path + (('f', k),))
    elif isinstance(v, (IStr, OStr, Ptr)):
        for k in v._k:
            x = getattr(v, k)
            if isinstance(x, (T, Seq)):
                yield path + (('a', k),), x
            else:
                yield path + (('=', k),), Fixed(x)
    elif isinstance(v, Mem):
        for i, b in enumerate(v.bytes):
            yield path + (('m', i),), b
    else:
        yield path, Fixed(v)


class Fixed:
    def __repr__(self):
        return "Fixed(%r)" % (self.v,)

    """a part that has no recurrences: must stay as it is"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Fixed) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


def replace(v, path, x):
    if not path:
        return x
    k, i = path[0]
    if k == 'e':
        parts = list(v.parts)
        parts[i] = ('e', replace(parts[i][1], path[1:], x))
        return Seq(parts)
    if k == 'f':
        return v.put(i, replace(v.get(i), path[1:], x))
    if k == '=p':
        return v
    if k in ('a', '='):
        return v.but(**{i: x})
    if k == 'm':
        b = list(v.bytes)
        b[i] = x
        return Mem(tuple(b), v.leaf, v.size)
    raise ip.GiveUp('leaf')


def diff(root, path, v, w, out):
    if isinstance(v, Rec) and isinstance(w, Rec) and [k for k, _ in v.f] == [k for k, _ in w.f]:
        for (k, x), (_, y) in zip(v.f, w.f):
            if x is not y and x != y:
                diff(root, path + (('f', k),), x, y, out)
        return
    a, b = dict(leaves(v, path)), dict(leaves(w, path))
    if a.keys() != b.keys():
        out[(root, path)] = (v, w)
        return
    for p in a:
        if a[p] is not b[p] and a[p] != b[p]:
            out[(root, p)] = (a[p], b[p])


def changed(st, s2):
    """leaves that differ between two states: {(root, path): (old, new)}"""
    out = {}
    for root, v in st.store.items():
        w = s2.store.get(root)
        if w is v or w is None or w == v:
            continue
        diff(root, (), v, w, out)
    return out


# ------------------------------------------------------------------ summaries
def summarise(I, n, kind, st0, strict=False):
    j = fresh('j', 0, JMAX)
    where = I.where(n)
    M = {}           # leaf -> havoc value
    solved = {}      # leaf -> closed form (function of the iteration number)
    initial = {}
    dead = set()
    rec, I.rec = I.rec, False
    nobl = len(I.obls)
    saved = (I.loops_summarised, I.loops_unrolled)
    try:
        for rnd in range(14):
            sh = head(I, st0, M, solved, j)
            r = iterate(I, n, kind, sh)
            progress = False
            if strict and len(r.conts) != 1:
                raise NotAScan
            if not r.conts:
                break
            ch = {}
            for s in r.conts:
                for l, (o, w) in changed(sh, s).items():
                    ch.setdefault(l, []).append(w)
            for l in ch:
                root = l[0]
                if l not in M and l not in solved:
                    old = initial.get(l) or get_leaf(st0, l)
                    if old is None:
                        continue
                    initial[l] = old
                    M[l] = havoc(I, old, l, st0)
                    progress = True
            if progress:
                continue
            # solve
            unsolved = {}
            for l, h in M.items():
                if l not in solved:
                    unsolved[l] = h
            hs = {}
            for l, h in unsolved.items():
                for s_ in havoc_syms(h):
                    hs[s_] = l
            got = {}
            for l, h in unsolved.items():
                if l in dead:
                    continue
                ws = ch.get(l) or [h]
                after = ws[0] if len(ws) == 1 and len(r.conts) == 1 else None
                if after is None and len(ws) == len(r.conts) and all(w == ws[0] for w in ws):
                    after = ws[0]
                if after is None:
                    continue
                cf = solve(I, initial[l], h, after, j, hs, sh)
                if cf is not None:
                    got[l] = (cf, foreign(after, h, sh))
            clean = {l: c for l, (c, fo) in got.items() if not fo}
            if got:
                progress = True
                for l, c in (clean or {l: c for l, (c, fo) in got.items()}).items():
                    solved[l] = c
            if not progress:
                break
    finally:
        I.rec = rec
        del I.obls[nobl:]
        I.loops_summarised, I.loops_unrolled = saved
    # the iteration j in terms of the closed forms
    sh = head(I, st0, M, solved, j)
    nobl = len(I.obls)
    r = iterate(I, n, kind, sh)
    res = []
    trips = []
    ends = []
    base_lits = sh.facts.set
    # facts every continuing iteration establishes
    inv = []
    always = []    # what holds as soon as there was one iteration
    lossy = False
    if len(r.conts) == 1:
        always = [x for x in r.conts[0].facts.lits if x not in base_lits and not occurs(j, x)]
        inv = [x for x in r.conts[0].facts.lits if x not in base_lits and (occurs(j, x))]
        # of an inner loop: what its last iteration established (the earlier
        # ones are usually implied)
        old = sh.facts.all_
        for jj_, m, ls in r.conts[0].facts.all_:
            if (jj_, m, ls) in old:
                continue
            for x in ls:
                if not last_implies(x, jj_):
                    if implied_first(x, jj_):
                        z = or_(lt(m, ONE), subst(x, {jj_: ZERO}))
                        (inv if occurs(j, z) else always).append(z)
                    else:
                        lossy = True
                y = or_(lt(m, ONE), subst(x, {jj_: sub(m, ONE)}))
                if y.op != 'c':
                    (inv if occurs(j, y) else always).append(y)
        always = [x for x in always if x.op != 'c' and not any(ip.is_h(y) for y in free_syms(x))]
    unsolved = [l for l in M if l not in solved]
    if strict and (unsolved or lossy or len(r.conts) != 1):
        if __import__("os").environ.get("DBGL"): print("NOSCAN", where, len(r.conts), [(l, repr(M[l])[:60]) for l in M if l not in solved][:4])
        raise NotAScan
    import os
    if unsolved and os.environ.get("DBGL"): print("UNSOLVED", where, [(l, repr(M[l])[:60], [repr(w)[:300] for w in ch.get(l, ())]) for l in unsolved])
    # values that could not be solved stay visible as unknowns; what is lost here
    # is only what several ways round the loop establish
    why = 'loop at %s' % where if len(r.conts) > 1 else None
    exact = len(r.exits) == 1 and r.exits[0][1] == 'cond'
    for s, how in r.exits:
        new = [x for x in s.facts.lits if x not in base_lits]
        N = trip_count(sh.facts, new, j, s) if how == 'cond' and kind != 'do' else None
        if kind == 'do' and how == 'cond':
            # j counts the completed iterations before this one
            N = trip_count(sh.facts, new, j, s)
        if N is not None:
            s2 = subst_state(s, {j: N}, st0, drop=None)
            jj = N
        else:
            jj = fresh('N', 0, JMAX)
            s2 = subst_state(s, {j: jj}, st0, drop=None)
        trips.append((how, N))
        ends.append(jj)
        if lossy:
            s2 = s2.imprecise('facts of an inner loop at %s' % where)
        for x in always:
            s2 = s2.assume(or_(lt(jj, ONE), x))
        if inv:
            ls = [x for x in inv if not any(ip.is_h(y) for y in free_syms(x))]
            if ls:
                s2 = s2.with_facts(s2.facts.forall(j, jj, ls))
        if why:
            s2 = s2.imprecise(why)
        res.append(('N', s2, 'broke' if how == 'break' and kind == 'py' else None))
    if I.cuts is not None and I.rec:
        cut = Cut(where, I.stack[-1]['q'] if I.stack else '', j, st0, sh, r, trips, dict(M), dict(solved))
        cut.ends = ends
        I.cuts.append(cut)
        record(I, n, kind, cut)
    for k, s, v in r.others:
        for x in always:
            s = s.assume(or_(lt(j, ONE), x))
        if lossy:
            s = s.imprecise('facts of an inner loop at %s' % where)
        if inv:
            s = s.with_facts(s.facts.forall(fresh_bound(j), j, [subst(x, {j: fresh_bound(j)}) for x in inv]))
        res.append((k, s.imprecise(why) if why else s, v))
    for s, x, w in r.throws:
        for x in always:
            s = s.assume(or_(lt(j, ONE), x))
        if lossy:
            s = s.imprecise('facts of an inner loop at %s' % where)
        if inv:
            s = s.with_facts(s.facts.forall(fresh_bound(j), j, [subst(x2, {j: fresh_bound(j)}) for x2 in inv]))
        I.throws[-1].append((s.imprecise(why) if why else s, x, w))
    return I.merge_out(res)


def last_implies(x, k):
    """x at some k implies x at every smaller one"""
    if x.op in ('or', 'and'):
        return all(last_implies(y, k) for y in x.a)
    if not occurs(k, x):
        return True
    if x.op == 'ge0':
        d = sub(x.a[0], subst(x.a[0], {k: add(k, ONE)}))
        return d.lo is not None and d.lo >= 0
    return False


def implied_first(x, k):
    """x is implied by what it says of the first and of the last iteration"""
    return all(last_implies(c, k) or first_implies(c, k) for c in clauses(x))


def first_implies(x, k):
    """x at some k >= 0 implies x at every larger one"""
    if x.op in ('or', 'and'):
        return all(first_implies(y, k) for y in x.a)
    if not occurs(k, x) or x.op == 'not' and x.a[0] is eq(k, ZERO):
        return True
    if x.op == 'ge0':
        d = sub(subst(x.a[0], {k: add(k, ONE)}), x.a[0])
        return d.lo is not None and d.lo >= 0
    return False


def foreign(after, h, sh):
    """does the new value depend on something this round did not know?"""
    known = set()
    for v in sh.store.values():
        for t in gterms(v):
            known |= {x for x in free_syms(t)}
    own = havoc_syms(h)
    if ip.has_unk(after):
        return True
    for t in gterms(after) if not isinstance(after, Fixed) else ():
        for x in tm.walk(t):
            if (ip.is_h(x) or x.op == 'base' and x.a[0].startswith('H:')) and x not in own and x not in known:
                return True
    return False


def relevant(l):
    return l[0][0] != 't'


_fb = {}


def fresh_bound(j):
    if j not in _fb:
        _fb[j] = fresh('i', 0, JMAX)
    return _fb[j]


def get_leaf(st, l):
    v = st.store.get(l[0])
    if v is None:
        return None
    for p, x in leaves(v):
        if p == l[1]:
            return x
    return v if l[1] == () else None


def head(I, st0, M, solved, j):
    s = st0
    for l, h in M.items():
        v = s.store.get(l[0])
        if v is None:
            continue
        x = solved[l](j) if l in solved else h
        if isinstance(x, Fixed):
            x = Unk('loop')
        s = s.put(l[0], replace(v, l[1], x))
    return s


def havoc(I, old, l, st):
    tag = 'loop'
    if isinstance(old, T):
        # the leaf's own type range
        lo, hi = None, None
        p = l[1][-1] if l[1] else None
        if p == ('a', 'pos') or p == ('a', 'gcount'):
            lo, hi = 0, JMAX
        elif p and p[0] == 'a' and p[1] in ('bad', 'eof', 'failed', 'pending', 'open', 'closed'):
            lo, hi = 0, 1
        elif p and p == ('a', 'idx'):
            lo, hi = -JMAX, JMAX
        else:
            lo, hi = leaf_range(I, l, st)
        return fresh('H:' + tag, lo, hi)
    if isinstance(old, Seq):
        b = I.hbase(tag)
        d = elem_bounds(I, old, l)
        if d is not None:
            ip.BASES[b.a[0]] = d
        return whole(b)
    if isinstance(old, MapV):
        return MapV(Obj('H:map', (fresh('H:map', 0, 0),)), ())
    return Fixed(Unk('loop'))


def elem_bounds(I, old, l):
    """what the elements of the sequence at l may be, from its declared type (None: bytes)"""
    et = elem_type(I, l)
    if et is not None:
        if et.k in ('int', 'enum'):
            lo, hi = ip.irange(et)
            return None if hi <= 255 else dict(lo=lo, hi=hi)
        if et.k == 'float' or et.q == 'std::complex':
            w = et.w or 8 * et.size
            return dict(lo=0, hi=(1 << w) - 1)
        if et.k == 'rec':
            name = 'H:element#%d' % next(ip._unk)
            return dict(elem=lambda b, i: I.symval(et, name, (i,)))
        return dict(lo=None, hi=None)
    # the type is not known here: what the contents so far say
    for p in old.parts:
        if p[0] == 's':
            d = ip.BASES.get(p[1].a[0], {})
            if 'elem' in d:
                return dict(lo=None, hi=None)
            if d.get('lo', 0) is None or d.get('hi', 255) is None or d.get('hi', 255) > 255:
                # all of it known by the range of its declared type
                return dict(lo=d['lo'], hi=d['hi']) if len(old.parts) == 1 and 'lo' in d and 'hi' in d else dict(lo=None, hi=None)
        elif p[0] in ('e', 'r', 'c'):
            v = p[1] if p[0] != 'c' else sq.part_at(p, ZERO, const_dec)
            if not isinstance(v, T) or v.lo is None or v.hi is None or v.lo < 0 or v.hi > 255:
                return dict(lo=None, hi=None)
    return None


def elem_type(I, l):
    t = I.ltypes.get(l[0])
    for s in l[1]:
        if t is None:
            return None
        t = t.deref()
        if s[0] == 'f' and t.k == 'rec':
            r = I.P.recs.get(t.rec)
            t = next((f['t'] for f in (r or {}).get('fields') or () if f['n'] == s[1]), None)
        else:
            return None
    if t is None:
        return None
    t = t.deref()
    if t.k == 'rec' and t.q == 'std::basic_string':
        return None if t.targ(0) is None else t.targ(0)
    if t.k == 'rec' and t.q in ('std::vector', 'std::array'):
        return t.targ(0)
    return None


def leaf_range(I, l, st):
    """range of the integer variable the leaf is; from its declared type"""
    t = I.ltypes.get(l[0]) if hasattr(I, 'ltypes') else None
    if t is not None and not l[1]:
        t = t.deref()
        if t.k in ('int', 'enum'):
            return ip.irange(t)
    if t is not None and len(l[1]) == 1 and l[1][0][0] == 'f' and t.deref().k == 'rec':
        r = I.P.recs.get(t.deref().rec)
        for f in (r or {}).get('fields') or ():
            if f['n'] == l[1][0][1] and f['t'].k in ('int', 'enum'):
                return ip.irange(f['t'])
    old = get_leaf(st, l)
    return None, None


def havoc_syms(h):
    out = set()
    for t in gterms(h) if not isinstance(h, Fixed) else ():
        for x in tm.walk(t):
            if ip.is_h(x) or (x.op == 'base' and x.a[0].startswith('H:')):
                out.add(x)
    return out


def mentions(v, syms):
    for t in gterms(v):
        for x in tm.walk(t):
            if x in syms:
                return True
    return False


def vsub(v, env):
    return gsubst(v, env, {})


def solve(I, v0, h, after, j, hs, sh):
    """closed form of the recurrence leaf' = after(leaf, j), leaf_0 = v0"""
    if isinstance(h, Fixed) or isinstance(after, Fixed):
        return None
    own = havoc_syms(h)
    others = {s for s in hs if s not in own}
    if mentions(after, others):
        return None
    if after is h or after == h:
        return lambda n: v0
    if not mentions(after, own):
        # the value of the last iteration
        if not any(occurs(j, t) for t in gterms(after)):
            if after == v0:
                return lambda n: v0

            def last(n, v0=v0, after=after):
                u = ip.unify(eq(n, ZERO), v0, after)
                return u
            if last(j) is None:
                return None
            return last

        if vsub(after, {j: C(-1)}) == v0:
            return lambda n: vsub(after, {j: sub(n, ONE)})

        def lastj(n):
            a = vsub(after, {j: sub(n, ONE)})
            return ip.unify(eq(n, ZERO), v0, a)
        if lastj(j) is None:
            return None
        return lastj
    if isinstance(h, T):
        return solve_term(v0, h, after, j, sh)
    if isinstance(h, Seq):
        return solve_seq(I, v0, h, after, j, sh)
    if isinstance(h, MapV):
        return solve_map(v0, h, after, j)
    return None


def solve_term(v0, h, after, j, sh):
    w = None
    core = after
    if after.op == 'slice' and after.a[1] == 0:
        core, w = after.a[0], ('u', after.a[2])
    elif after.op == 'sx':
        core, w = after.a[1], ('s', after.a[0])
        if core.op == 'slice' and core.a[1] == 0 and core.a[2] == w[1]:
            core = core.a[0]

    def wr(x):
        if w is None:
            return x
        return wrap(x, w[1], w[0] == 's')
    # value of h modulo the wrap: look through slices of h
    d = sub(core, h)
    if not occurs(h, d):
        i = fresh('i', 0, JMAX)
        return lambda n: wr(add(v0, rsum(i, n, subst(d, {j: i}))))
    c, p = poly_parts(core)
    # linear in h:  a*h + b
    a, b = ZERO, C(c)
    ok = True
    for m, k in p.items():
        if h in m:
            rest = list(m)
            rest.remove(h)
            if any(occurs(h, x) for x in rest):
                ok = False
                break
            t = C(k)
            for x in rest:
                t = mul(t, x)
            a = add(a, t)
        elif any(occurs(h, x) for x in m):
            ok = False
            break
        else:
            t = C(k)
            for x in m:
                t = mul(t, x)
            b = add(b, t)
    if ok:
        i = fresh('i', 0, JMAX)
        return lambda n: wr(lrec(v0, i, n, subst(a, {j: i}), subst(b, {j: i})))
    if after.op == 'max' and h in after.a:
        rest = [x for x in after.a if x is not h]
        if not any(occurs(h, x) for x in rest):
            m = rest[0]
            for x in rest[1:]:
                m = max_(m, x)
            i = fresh('i', 0, JMAX)
            return lambda n: rmax(v0, i, n, subst(m, {j: i}))
    if after.op == 'or' and h in after.a:
        g = or_(*[x for x in after.a if x is not h])
        if not occurs(h, g) and monotone(g, j):
            def cf(n):
                last = subst(g, {j: sub(n, ONE)})
                # nothing happened before the first iteration
                z = subst(g, {j: C(-1)})
                if sh.facts.decide(or_(not_(z), v0)) is True:
                    return or_(v0, last)
                return or_(v0, and_(ge0(sub(n, ONE)), last))
            return cf
    if after.op in ('and', 'or') and h.op == 'sym':
        # the same change every time: it happens in the first iteration
        up, down = subst(after, {h: TRUE}), subst(after, {h: FALSE})
        if not any(occurs(x, t) for x in (h, j) for t in (up, down)) and or_(not_(down), up) is TRUE:
            return lambda n: or_(down if down is FALSE else and_(ge0(sub(n, ONE)), down), and_(v0, or_(le(n, ZERO), up)))
        if after.op == 'and' and h in after.a:
            g = not_(and_(*[x for x in after.a if x is not h]))
            if not occurs(h, g) and monotone(g, j):
                return lambda n: and_(v0, or_(le(n, ZERO), not_(subst(g, {j: sub(n, ONE)}))))
    if after.op == 'ite':
        c, x, y = after.a
        if not occurs(h, c):
            dx, dy = sub(x, h), sub(y, h)
            if not occurs(h, dx) and not occurs(h, dy):
                i = fresh('i', 0, JMAX)
                e = ite(c, dx, dy)
                return lambda n: add(v0, rsum(i, n, subst(e, {j: i})))
        # keeps the last value that satisfied the condition
        if y is h and not occurs(h, c) and not occurs(h, x):
            return last_such(v0, c, x, j)
        if x is h and not occurs(h, c) and not occurs(h, y):
            return last_such(v0, not_(c), y, j)
    return None


def last_such(v0, c, x, j):
    """the value x(i) of the last i < n with c(i), else v0"""
    return lambda n: tm.rlast(v0, j, n, c, x)


def monotone(g, j):
    """g(j) implies g(j+1)"""
    if g.op == 'or' or g.op == 'and':
        return all(monotone(x, j) for x in g.a)
    if not occurs(j, g):
        return True
    if g.op == 'ge0':
        d = sub(subst(g.a[0], {j: add(j, ONE)}), g.a[0])
        return d.lo is not None and d.lo >= 0
    return False


def solve_seq(I, v0, h, after, j, sh):
    H = h.parts[0][1]
    ps = after.parts
    L = len_base(H)
    # append
    if ps and ps[0] == h.parts[0]:
        rest = ps[1:]
        if not mentions(Seq(rest, False), {H}):
            return lambda n: v0 + comp(j, n, rest)
        return None
    # prepend
    if ps and ps[-1] == h.parts[0]:
        rest = ps[:-1]
        if not mentions(Seq(rest, False), {H}):
            def pre(n):
                i = fresh('i', 0, JMAX)
                return comp(i, n, psubst(rest, {j: sub(sub(n, ONE), i)}, {})) + v0
            return pre
        return None
    # elements written one after the other:  H[0:f) new H[f+m:)
    k = [i for i, p in enumerate(ps) if not mentions(Seq((p,), False), {H})]
    # locate the written run
    return solve_writes(I, v0, h, H, L, ps, j, sh)


def solve_writes(I, v0, h, H, L, ps, j, sh):
    pre = ps[0] if ps and ps[0][0] == 's' and ps[0][1] is H and ps[0][2] is ZERO else None
    post = ps[-1] if ps and ps[-1][0] == 's' and ps[-1][1] is H else None
    if pre is post:
        # a single slice: it is the part before or after
        if pre is not None and len(ps) > 1 and ps[-1] is not pre:
            pass
        elif pre is not None and len(ps) == 1:
            return None
    mid = list(ps)
    start = ZERO
    if pre is not None:
        start = pre[3]
        mid = mid[1:]
    if post is not None and post is not pre:
        mid = mid[:-1]
    else:
        post = None
    mid = [q for p in mid for q in ([('e', at_base(p[1], add(p[2], C(i)))) for i in range(p[3].const)]
                                    if p[0] == 's' and p[3].const is not None and p[3].const <= 16 else [p])]
    if not mid or any(p[0] not in ('e',) for p in mid):
        return None
    m = len(mid)
    if post is not None:
        if add(post[2], post[3]) is not L or sub(post[2], start) is not C(m):
            return None
    step = lin_coeff(start, j)
    if step is None or step == 0 or mentions(start, {H}):
        return None
    # reads of the old contents at the written positions see the initial values
    new = []
    for p in mid:
        e = p[1]
        if mentions(e, {H}):
            env = {}
            okk = True
            for t in gterms(e):
                for x in tm.walk(t):
                    if x.op == 'at' and x.a[0] is H:
                        idx = x.a[1]
                        d = sub(idx, start)
                        if d.const is not None and 0 <= d.const < m:
                            y = v0.at(idx, I.dec(sh))
                            if isinstance(y, T):
                                env[x] = y
                                continue
                        okk = False
            if not okk:
                return None
            e = vsub(e, env)
            if mentions(e, {H}):
                return None
        new.append(('e', e))
    L0 = v0.length()
    s0 = subst(start, {j: ZERO})
    dec = I.dec(sh)
    if step == m:
        def asc(n):
            a = v0.slice(ZERO, s0, dec) if s0 is not ZERO else EMPTY
            done = add(s0, scale(n, m))
            return a + comp(j, n, tuple(new)) + v0.slice(done, sub(L0, done), dec)
        return asc
    if step == -m:
        def desc(n):
            lo = add(s0, scale(sub(n, ONE), -m))      # start of the last run written
            i = fresh('i', 0, JMAX)
            body = psubst(tuple(new), {j: sub(sub(n, ONE), i)}, {})
            end = add(s0, C(m))
            a = v0.slice(ZERO, lo, dec)
            return a + comp(i, n, body) + (v0.slice(end, sub(L0, end), dec) if sub(L0, end) is not ZERO else EMPTY)
        return desc
    return None


def comp(j, n, parts):
    return Seq((('c', j, n, tuple(parts)),))


def solve_map(v0, h, after, j):
    if after.base != h.base or mentions(tuple(after.entries), havoc_syms(h)):
        return None
    es = after.entries[len(h.entries):]
    if after.entries[:len(h.entries)] != h.entries:
        return None

    def cf(n):
        J, cc = j, None
        b = Obj('mapc', (v0, j, n, es))
        return MapV(b, ())
    return cf


def subst_state(s, env, st0, drop=None):
    memo = {}
    d = {}
    for k, v in s.store.items():
        d[k] = gsubst(v, env, memo)
    f = s.facts.subst(env, memo)
    log = gsubst(s.log, env, memo)
    return ip.St(d, Facts(dict.fromkeys(f.lits), f.all_), s.imp, log)


def trip_count(facts, new, j, s):
    """the only iteration number at which the exit literals hold (given that
    earlier iterations continued), when it has a closed form"""
    js = [x for x in new if occurs(j, x)]
    if len(js) != 1:
        return None
    x = js[0]
    if x.op == 'ge0':
        # b*j + a >= 0: first j with it
        p = x.a[0]
        b = lin_coeff(p, j)
        if b is None or b <= 0:
            return None
        a = subst(p, {j: ZERO})
        if occurs(j, a):
            return None
        # j >= -a/b
        need = neg(a)
        if b == 1:
            if facts.decide(ge0(need)) is True or (need.lo is not None and need.lo >= 0):
                return need
            if facts.decide(ge0(neg(need))) is True:
                return ZERO
            return max_(need, ZERO)
        up = add(need, C(b - 1))
        if facts.decide(ge0(up)) is True:
            y = up if up.lo is not None and up.lo >= 0 else max_(up, ZERO)
            return div(y, C(b))
        return None
    if x.op == 'eq0':
        p = x.a[0]
        if p.op == 'slice' and p.a[1] == 0:
            # a counter that runs to zero modulo a power of two
            b = lin_coeff(p.a[0], j)
            if b not in (1, -1):
                return None
            a = sub(p.a[0], scale(j, b))
            return None if occurs(j, a) else slice_(scale(a, -b), 0, p.a[2])
        b = lin_coeff(p, j)
        if b not in (1, -1):
            return None
        a = sub(p, scale(j, b))
        if occurs(j, a):
            return None
        N = scale(a, -b)
        if facts.decide(ge0(N)) is True:
            return N
        return None
    return None


# --------------------------------------------------------- split exploration
def split_loop(I, n, kind, st):
    """every path by itself; loops whose condition is open are followed for I.peel
    iterations only, what would come after that is left out"""
    if I.scans:
        r = scan(I, n, kind, st)
        if r is not None:
            return r
    if I.cutting and I.within == 0:
        I.within += 1
        try:
            return cut_loop(I, n, kind, st)
        finally:
            I.within -= 1
    peel = I.peel if isinstance(I.peel, tuple) else (I.peel,)
    peel = peel[min(I.within, len(peel) - 1)]
    I.within += 1
    try:
        return split_steps(I, n, kind, st, peel)
    finally:
        I.within -= 1


class NotAScan(Exception):
    pass


def scan(I, n, kind, st):
    """a loop every iteration of which goes the same way, in closed form"""
    if kind == 'py' or const_cond(n) and kind != 'for':
        return None
    # nothing open to begin with: just run it
    saved = (I.split, I.rec, len(I.obls), len(I.left), len(I.marks), list(I.throws[-1]), I.loops_summarised)
    I.within += 1
    try:
        r = iterate(I, n, kind, st)
        if len(r.conts) > 1 or not r.exits and not r.conts:
            return None
        if not r.conts or not r.exits:
            return None
        del I.throws[-1][len(saved[5]):]
        res = summarise(I, n, kind, st, strict=True)
        I.loops_summarised += 1
        return res
    except NotAScan:
        I.throws[-1][:] = saved[5]
        return None
    finally:
        I.within -= 1
        I.rec = saved[1]
        if I.loops_summarised == saved[6]:
            del I.obls[saved[2]:]
            del I.left[saved[3]:]
            del I.marks[saved[4]:]


def cut_loop(I, n, kind, st0):
    """one iteration, path by path, in a state the loop can be in at its head or not"""
    M = {}
    key = next(_ncut)
    st00, st0 = st0, st0.put(('o', '#cut'), C(key))
    rec, I.rec = I.rec, False
    marks = (len(I.obls), len(I.left), len(I.marks))
    try:
        for rnd in range(8):
            sh = head(I, st0, M, {}, None)
            r = iterate(I, n, kind, sh)
            new = {}
            for s in r.conts:
                for l in changed(sh, s):
                    if l not in M and get_leaf(st0, l) is not None:
                        new[l] = arbitrary(I, get_leaf(st0, l), l, st0)
            if not new:
                break
            M.update(new)
    finally:
        I.rec = rec
        del I.obls[marks[0]:]
        del I.left[marks[1]:]
        del I.marks[marks[2]:]
    sh = head(I, st0, M, {}, None)
    r = iterate(I, n, kind, sh)
    if I.cuts is not None:
        c = Cut(I.where(n), I.stack[-1]['q'] if I.stack else '', None, st00, sh, r, [], dict(M), {})
        c.id = key
        I.cuts.append(c)
    res = [('N', s, 'broke' if how == 'break' and kind == 'py' else None) for s, how in r.exits] + r.others
    I.throws[-1].extend(r.throws)
    return res


def arbitrary(I, old, l, st):
    name = 'cut' + ''.join('.' + str(i) for k, i in l[1]) + '#%d' % next(_ncut)
    if not l[1] or l[1][-1][0] == 'f':
        t = leaf_type(I, l, st)
        if t is not None and t.k in ('int', 'enum', 'bool', 'float'):
            return I.symval(t, name)
        if t is not None and t.q in ('std::vector', 'std::basic_string'):
            return I.symval(t, name)
    if isinstance(old, T):
        lo, hi = old.lo, old.hi
        p = l[1][-1] if l[1] else None
        if p in (('a', 'pos'), ('a', 'gcount')):
            lo, hi = 0, JMAX
        elif p and p[0] == 'a' and p[1] in ('bad', 'eof', 'failed', 'pending', 'open', 'closed'):
            lo, hi = 0, 1
        else:
            lo, hi = leaf_range(I, l, st)
            if lo is None and old.lo == 0 and old.hi == 1:
                lo, hi = 0, 1
        return sym(name, lo, hi)
    return havoc(I, old, l, st)


def leaf_type(I, l, st):
    t = I.ltypes.get(l[0]) if hasattr(I, 'ltypes') else None
    if t is None:
        return None
    t = t.deref()
    for k, i in l[1]:
        r = I.P.recs.get(t.rec) if t.k == 'rec' else None
        t = None
        for f in (r or {}).get('fields') or ():
            if k == 'f' and f['n'] == i:
                t = f['t'].deref()
        if t is None:
            return None
    return t


_ncut = iter(range(1, 1 << 60))


def split_steps(I, n, kind, st, peel):
    res = []
    cur = [(st, 0)]
    cc = const_cond(n)
    for k in range(UNROLL):
        nxt = []
        for s, d in cur:
            if d >= peel and kind in ('for', 'while') and not cc:
                br = I.cond_branches(dict(n, init=None), s)
                if len({tk for _, tk in br}) > 1:
                    res += [('N', x, None) for x, tk in br if not tk]
                    I.left += [(I.where(n), x, I.within) for x, tk in br if tk]
                    continue
            r = iterate(I, n, kind, s)
            res += [('N', x, 'broke' if h == 'break' and kind == 'py' else None) for x, h in r.exits] + r.others
            I.throws[-1].extend(r.throws)
            open_ = r.conts and (r.exits or len(r.conts) > 1)
            if open_ and d >= peel:
                I.left.append((I.where(n), s, I.within))
                continue
            nxt += [(x, d + 1 if open_ else d) for x in r.conts]
        cur = nxt
        if not cur:
            return res
    I.left += [(I.where(n), s, I.within) for s, _ in cur]
    return res


class Cut:
    """a loop that was summarised: one iteration in an arbitrary state, and the first
    ones, path by path, with positions in streams arbitrary"""

    def __init__(self, where, fn, j, st0, head, it, trips, M, solved):
        self.where, self.fn, self.j, self.st0, self.head, self.it, self.trips, self.M, self.solved = where, fn, j, st0, head, it, trips, M, solved
        self.first = []
        self.id = 0
        self.ends = []      # the number of iterations at each exit


def record(I, n, kind, cut):
    """the first iterations"""
    if not I.cut_first or I.nest:
        return
    st = cut.st0
    saved = (I.split, I.rec, I.cuts, len(I.left), len(I.obls), len(I.marks))
    I.split, I.rec, I.cuts = True, False, None
    try:
        cur = [st]
        for k in range(I.cut_first):
            its = [iterate(I, n, kind, s) for s in cur]
            cut.first.append(its)
            cur = [s for r in its for s in r.conts]
    finally:
        I.split, I.rec, I.cuts = saved[:3]
        del I.left[saved[3]:]
        del I.obls[saved[4]:]
        del I.marks[saved[5]:]
