"""Running the value-flow analysis from a check, and comparing what it found with
what a property demands."""
import os
DEBUG = os.environ.get('SA_LEAF')
import functools
import time
from .project import load
from .interp import *
from . import evalt
from .facts import Facts, clauses
from . import terms as tm
from .seq import Seq, EMPTY, whole, base, lits, lit, elems, len_base, at_base
from .values import *
from .interp import seq_ite
from .pool import pmap


def program(debug=False):
    return load(debug=debug)


def find(P, q):
    """the functions with this qualified name, template arguments left out"""
    out = []
    for qq, fs in P.by_q.items():
        if strip_targs(qq) == q:
            out.extend(fs)
    out.sort(key=lambda f: f['m'])
    return [f for f in out if f.get('body')]


def ptypes(f):
    return tuple(p['t'].n for p in f['params'])


def where(P, f):
    return P.rel(f['l'])


def prepare(I, f, st=None, **over):
    """symbolic arguments named after the parameters' positions, objects placed in
    the store: -> (args, st); over: values by parameter index ('a0'...)"""
    st = st or St()
    args = []
    for i, p in enumerate(f['params']):
        k = 'a%d' % i
        v = over[k] if k in over else I.symval(p['t'], over.get('n%d' % i, k))
        if p['t'].k in ('ref',) or p['t'].k == 'rec':
            if isinstance(v, LV):
                args.append(v)
                continue
            st = st.put(('o', k), v)
            args.append(LV(('o', k)) if p['t'].k == 'ref' else v)
        else:
            args.append(v)
    return args, st


def outcomes(I, f, this, args, st):
    r, t = I.analyse(f, this, args, st)
    return r, t


# ------------------------------------------------------------------ comparison
def conds(v, out, lim=12):
    """the conditions on which v still depends"""
    if isinstance(v, T):
        for x in tm.walk(v):
            if x.op == 'ite':
                c = x.a[0]
                for y in (c.a if c.op in ('and', 'or') else (c,)):
                    if y not in out and not tm.loose(y):
                        out.append(y)
            if len(out) >= lim:
                return
    elif isinstance(v, Seq):
        pconds(v.parts, out, lim)
    elif isinstance(v, V):
        for k in v._k:
            conds(getattr(v, k), out, lim)
    elif isinstance(v, tuple):
        for x in v:
            conds(x, out, lim)


def pconds(ps, out, lim):
    for p in ps:
        if p[0] == 'i':
            c = p[1]
            for y in (c.a if c.op in ('and', 'or') else (c,)):
                if y not in out and not tm.loose(y):
                    out.append(y)
            pconds(p[2], out, lim)
            pconds(p[3], out, lim)
        elif p[0] == 'c':
            pconds(p[3], out, lim)
            conds(p[2], out, lim)
        else:
            for x in p[1:]:
                conds(x, out, lim)
        if len(out) >= lim:
            return


def bounds_in(v, lim=20):
    out = []

    def go(v):
        if isinstance(v, T):
            for x in tm.walk(v):
                if x.op in ('max', 'min') and x not in out and len(out) < lim and not tm.loose(x):
                    out.append(x)
        elif isinstance(v, Seq):
            go(v.parts)
        elif isinstance(v, V):
            for k in v._k:
                go(getattr(v, k))
        elif isinstance(v, tuple):
            for x in v:
                go(x)
    go(v)
    return out


def simplified(v, facts, equations=True):
    """v with the conditions decided by the facts replaced"""
    cs = []
    conds(v, cs, 60)
    env = {}
    for c in cs:
        d = facts.decide(c)
        if d is not None:
            env[c] = C(int(d))
            n = not_(c)
            if n.op != 'c':
                env[n] = C(int(not d))
    for m in bounds_in(v):
        # a maximum or minimum one side of which is known to decide it
        for x in m.a:
            if all(y is x or facts.decide(le(y, x) if m.op == 'max' else le(x, y)) is True for y in m.a):
                env[m] = x
                break
    v = gsubst(v, env, {}) if env else v
    env = {}
    for x in (tm.walk(v) if isinstance(v, T) else ()):
        if x.op == 'ite' and x.a[0].op in ('and', 'or') and x.a[0] not in env:
            c = x.a[0]
            d = facts.decide(c)
            if d is not None:
                env[c] = C(int(d))
    v = gsubst(v, env, {}) if env else v
    if not equations:
        return v
    env = {}
    for l in facts.lits:
        if l.op == 'eq0':
            # an equation that determines a symbol
            c, d = poly_parts(subst(l.a[0], env) if env else l.a[0])
            ms = sorted((m[0].a[0], m, k) for m, k in d.items() if len(m) == 1 and k in (1, -1) and m[0].op == 'sym' and not m[0].a[0].startswith(('$', 'b#', 'k#')))
            for _, m, k in ms:
                rest = sub(tm._mkpoly(c, d), scale(m[0], k))
                if not occurs(m[0], rest):
                    e = scale(rest, -k)
                    env = {x: subst(y, {m[0]: e}) for x, y in env.items()}
                    env[m[0]] = e
                    break
    return gsubst(v, env, {}) if env else v


def same(facts, a, b, depth=8):
    """True: equal under the facts.  None: not established"""
    if a == b:
        return True
    a, b = simplified(a, facts), simplified(b, facts)
    if a == b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        if is_bool(a) and is_bool(b):
            x, y = facts.decide(a), facts.decide(b)
            if x is not None and x == y:
                return True
            if x is None and y is None or True:
                # a <-> b
                if facts.add(a).decide(b) is True and facts.add(not_(a)).decide(b) is False:
                    return True
        elif facts.decide(eq(a, b)) is True:
            return True
    if depth <= 0:
        return None
    cs = []
    conds(a, cs)
    conds(b, cs)
    if isinstance(a, T) and is_bool(a):
        cs.extend(x for x in blits(a) if x not in cs)
    if isinstance(b, T) and is_bool(b):
        cs.extend(x for x in blits(b) if x not in cs)
    for c in cs:
        if facts.decide(c) is not None:
            continue
        ok = True
        for l in (c, not_(c)):
            f = facts.add(l)
            if f.infeasible():
                continue
            if same(f, known(a, l), known(b, l), depth - 1) is not True:
                ok = False
                break
        return True if ok else None
    if isinstance(a, T) and isinstance(b, T):
        if a.op == b.op == 'slice' and a.a[1:] == b.a[1:]:
            return same(facts, a.a[0], b.a[0], depth - 1)
        return same_sums(facts, a, b)
    return pairwise(facts, a, b, depth)


def same_sums(facts, a, b):
    """sums over the same range are equal when their summands are"""
    c, d = tm.poly_parts(sub(a, b))
    sums = [(m[0], k) for m, k in d.items() if len(m) == 1 and m[0].op == 'rsum']
    if c or not sums:
        return None
    n = sums[0][0].a[1]
    J = fresh('k', 0, None)
    total = ZERO
    for m, k in d.items():
        if len(m) == 1 and m[0].op == 'rsum' and m[0].a[1] is n:
            total = add(total, scale(subst(m[0].a[2], {m[0].a[0]: J}), k))
        elif m.count(n) == 1:
            total = add(total, scale(functools.reduce(mul, [x for x in m if x is not n], ONE), k))
        else:
            return None
    return same(facts.add(lt(J, n)), total, ZERO)


def blits(t):
    if t.op in ('and', 'or'):
        out = []
        for x in t.a:
            out.extend(blits(x))
        return out
    if t.op == 'not':
        return blits(t.a[0])
    return [] if t.op == 'c' else [t]


def known(v, l):
    env = {l: TRUE}
    n = not_(l)
    env[n] = FALSE
    env.pop(TRUE, None)
    env.pop(FALSE, None)
    return gsubst(v, env, {}) if not isinstance(v, T) or v.op != 'c' else v


def pairwise(facts, a, b, depth):
    """componentwise"""
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.t != b.t or [k for k, _ in a.f] != [k for k, _ in b.f]:
            return None
        return all_true(same(facts, x, y, depth - 1) for (_, x), (_, y) in zip(a.f, b.f))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.parts) == len(b.parts):
            return all_true(same_part(facts, p, q, depth) for p, q in zip(a.parts, b.parts))
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all_true(same(facts, x, y, depth - 1) for x, y in zip(a, b))
    if isinstance(a, V) and type(a) is type(b):
        return all_true(same(facts, getattr(a, k), getattr(b, k), depth - 1) if isinstance(getattr(a, k), (T, V, Seq, tuple)) else getattr(a, k) == getattr(b, k) for k in a._k)
    return None


def all_true(it):
    for x in it:
        if x is not True:
            return None
    return True


def same_part(facts, p, q, depth):
    if p == q:
        return True
    if p[0] != q[0]:
        return None
    k = p[0]
    if k == 'e':
        return same(facts, p[1], q[1], depth - 1)
    if k == 's':
        if same(facts, p[3], q[3], depth - 1) is not True:
            return None
        if p[1] is not q[1]:
            if p[1].op == 'base' and q[1].op == 'base' and p[1].a[0] == q[1].a[0] and len(p[1].a) == len(q[1].a):
                if all_true(x == y or (isinstance(x, T) and isinstance(y, T) and same(facts, x, y, depth - 1) is True) for x, y in zip(p[1].a[1:], q[1].a[1:])) is not True:
                    return None
            else:
                return None
        return same(facts, p[2], q[2], depth - 1)
    if k == 'r':
        return all_true((same(facts, p[1], q[1], depth - 1), same(facts, p[2], q[2], depth - 1)))
    if k == 'c':
        if same(facts, p[2], q[2], depth - 1) is not True:
            return None
        J = fresh('k', 0, None)
        x = psub(p[3], {p[1]: J})
        y = psub(q[3], {q[1]: J})
        return same(facts.add(lt(J, p[2])), Seq(x, False), Seq(y, False), depth - 1)
    return None


def psub(ps, env):
    from .seq import psubst
    return psubst(ps, env, {})


def hidden(v):
    return has_h(v) or has_unk(v)


class Judge:
    """compares outcomes with demands and records the verdicts"""

    def __init__(self, rep, P):
        self.rep = rep
        self.P = P
        self.refuted = set()
        self.spent = 0.0
        self.most = getattr(rep, 'budget', 150)

    def search(self, key, what, f):
        """a refutation, unless one is known for this obligation on another path, or too
        much time has gone into it"""
        if key in self.refuted or self.spent > self.most:
            return None
        t = time.time()
        r = f()
        self.spent += time.time() - t
        if r is not None:
            self.refuted.add(key)
        return r

    def agree(self, key, st, got, want, what, where, extra=()):
        """on this path, the value must be `want`"""
        rep = self.rep
        facts = st.facts
        for x in extra:
            facts = facts.add(x)
        if same(facts, got, want) is True:
            rep.ok(key, what, where)
            return True
        if isinstance(got, T) and isinstance(want, T) and entails(facts, le(got, want)) and entails(facts, le(want, got)):
            rep.ok(key, what, where)
            return True
        if st.imp:
            rep.unsure(key, what + ': not decided (%s)' % why(st, got), where)
            return None
        w = self.search(key, what, lambda: evalt.differs(facts, got, want, seed=rep.seed))
        if w is None and (hidden(got) or hidden(want)):
            rep.unsure(key, what + ': not decided (%s)' % why(st, got), where)
            return None
        if w is None:
            rep.unsure(key, what + ': normal forms differ, no refutation: %s vs %s' % (short(got), short(want)), where)
            return None
        rep.bad(key, what, where, 'found    %s\nrequired %s\nthey differ, e.g. for %s:\n  found    %s\n  required %s\npath: %s' % (
            short(got), short(want), w[0], short(w[1]), short(w[2]), ' & '.join(map(repr, facts.lits))[:600]))
        return False

    def holds(self, key, st, cond, what, where, extra=()):
        """on this path, cond must hold"""
        rep = self.rep
        facts = st.facts
        for x in extra:
            facts = facts.add(x)
        if entails(facts, cond) or entails(facts, simplified(cond, facts, equations=False)):
            rep.ok(key, what, where)
            return True
        if st.imp:
            rep.unsure(key, what + ': not decided (%s)' % why(st, cond), where)
            return None
        w = self.search(key, what, lambda: evalt.satisfiable(facts, (not_(cond),), seed=rep.seed))
        if w is None:
            rep.unsure(key, what + ': neither entailed nor refuted: %s' % short(cond), where)
            return None
        rep.bad(key, what, where, 'does not follow: %s\ne.g. %s\npath: %s' % (short(cond), w, ' & '.join(map(repr, facts.lits))[:600]))
        return False

    def oracle(self, key, st, bad, what, where, extra=(), tries=60, quiet=False):
        """no normal form settles it: look for a valuation of the path under which the
        closed form denotes something wrong; bad(ev) says what is wrong, or None"""
        rep = self.rep
        facts = st.facts
        if st.imp:
            if not quiet:
                rep.unsure(key, what + ': not decided (%s)' % why(st, TRUE), where)
            return None
        def wrong():
            for ev in evalt.valuations(tuple(facts.lits) + tuple(extra), rep.seed, tries, alls=facts.all_):
                try:
                    e = bad(ev)
                    if e and all(ev.t(l) for l in facts.lits) and all(ev.t(l) for l in extra) and evalt.all_hold(ev, facts.all_):
                        return e, evalt.describe(ev)
                except (evalt.NoValue, OverflowError, RecursionError):
                    continue
            return None
        w = self.search(key, what, wrong)
        if w is not None:
            rep.bad(key, what, where, '%s\ne.g. for %s\npath: %s' % (w[0], w[1], ' & '.join(map(repr, facts.lits))[:600]))
            return False
        if not quiet:
            rep.unsure(key, what + ': another closed form than the expected one; no valuation is wrong', where)
        return None

    def impossible(self, key, st, what, where, extra=(), focus=None):
        """the path cannot be taken: its facts contradict each other"""
        rep = self.rep
        facts = st.facts
        facts = together(facts, extra)
        if contradictory(facts, focus=focus):
            rep.ok(key, what, where)
            return True
        if st.imp:
            rep.unsure(key, what + ': not decided (%s)' % why(st, TRUE), where)
            return None
        w = self.search(key, what, lambda: evalt.satisfiable(facts, (), seed=rep.seed))
        if w is None:
            rep.unsure(key, what + ': neither entailed nor refuted', where)
            return None
        rep.bad(key, what, where, 'the path can be taken, e.g. for %s\npath: %s' % (w, ' & '.join(map(repr, facts.lits))[:600]))
        return False

    def unreachable(self, key, st, what, where, extra=()):
        return self.holds(key, st, FALSE, what, where, extra)


def determined(facts):
    """symbols the equations among the facts determine"""
    env = {}
    for l in facts.lits:
        if l.op != 'eq0':
            continue
        c, d = poly_parts(subst(l.a[0], env) if env else l.a[0])
        ms = sorted((m[0].a[0], m, k) for m, k in d.items() if len(m) == 1 and k in (1, -1) and m[0].op == 'sym' and not m[0].a[0].startswith(('$', 'b#', 'k#')))
        for _, m, k in ms:
            rest = sub(tm._mkpoly(c, d), scale(m[0], k))
            if not occurs(m[0], rest):
                e = scale(rest, -k)
                env = {x: subst(y, {m[0]: e}) for x, y in env.items()}
                env[m[0]] = e
                break
    return env


def together(facts, extra):
    """the facts and further ones, simplified by what is known"""
    for x in extra:
        x = simplified(x, facts, equations=False)
        facts = facts.add(x)
        if x is FALSE:
            break
    return facts


def clash(facts):
    """a disjunction none of whose parts is possible"""
    return any(l.op == 'or' and all(facts.decide(y) is False for y in l.a) for l in facts.lits)


def atoms_of(t):
    return {x for x in tm.walk(t) if x.op in ('at', 'len') or x.op == 'sym' and not x.a[0].startswith(('$', 'b#'))}


def contradictory(facts, depth=10, spent=None, focus=None, done=frozenset()):
    """do the facts contradict each other?  The paths are partitioned further by the
    conditions of choices and disjunctions; quantified facts are used at the elements
    mentioned; each part is refuted by interval and linear reasoning"""
    spent = spent if spent is not None else [0]
    spent[0] += 1
    if focus is None:
        focus = atoms_of(facts.lits[-1]) if facts.lits else set()
    if spent[0] > 400:
        return False
    if clash(facts):
        return True
    for _ in range(4):
        if facts.infeasible() or any(l is FALSE for l in facts.lits):
            return True
        env = determined(facts)
        if env:
            bounds = []
            for x, e in env.items():
                if x.lo is not None:
                    bounds.append(ge0(sub(e, C(x.lo))))
                if x.hi is not None:
                    bounds.append(ge0(sub(C(x.hi), e)))
            f = facts.subst(env)
            facts = Facts((), f.all_)
            for l in list(f.lits) + bounds:
                if l is FALSE:
                    return True
                facts = facts.add(l)
        inst = [c for c in facts.instances(facts.lits) if c not in done and c not in facts.set and c is not TRUE]
        done = done | frozenset(inst)
        n = facts.set
        for c in inst:
            if c is FALSE:
                return True
            facts = facts.add(c)
        if facts.set == n and not env:
            break
    # simplify by what is known
    env = {}
    for l in facts.lits:
        if l.op not in ('or', 'and') and not (l.op == 'sym'):
            continue
    units = [l for l in facts.lits if l.op != 'or']
    known_ = {}
    for l in units:
        if l.op == 'sym':
            known_[l] = TRUE
        elif l.op == 'not' and l.a[0].op == 'sym':
            known_[l.a[0]] = FALSE
    cs = []
    for l in facts.lits:
        conds(l, cs, 40)
    for c in cs:
        d = facts.decide(c)
        if d is not None:
            known_[c] = C(int(d))
            if not_(c).op != 'c':
                known_[not_(c)] = C(int(not d))
    for l in facts.lits:
        for x in tm.walk(l):
            if x.op == 'slice' and x.a[1] == 0 and x.a[0].lo is not None and x.a[0].lo < 0 and x not in known_:
                y, _, n = x.a
                if y.lo >= -(1 << n) and y.hi is not None and y.hi < (2 << n):
                    d, u = facts.decide(ge0(y)), facts.decide(lt(y, C(1 << n)))
                    if d is False:
                        known_[x] = add(y, C(1 << n))
                    elif u is False:
                        known_[x] = sub(y, C(1 << n))
                    elif d and u:
                        known_[x] = y
                    else:
                        c = ge0(y) if d is None else lt(y, C(1 << n))
                        if c not in cs:
                            cs.append(c)
    if known_:
        f = Facts((), Facts((), facts.all_).subst(known_).all_)
        changed = False
        for l in facts.lits:
            y = l if l in known_ or (l.op == 'not' and l.a[0] in known_) else subst(l, known_)
            if y is FALSE:
                return True
            if y is not l and y is not TRUE:
                changed = True
                if DEBUG:
                    print('  ' * (10 - depth) + 'KNOWN', l, '=>', y)
            f = f.add(y)
        facts = f
        if changed:
            return contradictory(f, depth - 1, spent, focus, done) if depth > 0 else False
    if facts.infeasible():
        return True
    for l in facts.lits:
        if l.op in ('ge0', 'eq0') or l.op == 'not' and l.a[0].op == 'eq0':
            rest = Facts([x for x in facts.lits if x is not l], ())
            if rest.decide(l) is False:
                return True
    if depth <= 0:
        if DEBUG:
            print('LEAF', facts.lits, facts.all_)
        return False
    # first what decides most: a condition occurring in many disjunctions, then the
    # disjuncts of the shortest
    n = {}
    for l in facts.lits:
        if l.op == 'or':
            for y in l.a:
                y = y.a[0] if y.op == 'not' else y
                n[y] = n.get(y, 0) + 1
    for l in facts.lits:
        if l.op == 'or':
            cs.extend(y for y in l.a if y not in cs)

    def rank(c):
        a = atoms_of(c)
        return (len(a - focus), -len(a & focus))
    cs.sort(key=rank)
    cs = sorted((y for y in n if n[y] > 1 and y.op == 'sym'), key=lambda y: -n[y]) + cs
    for c in cs:
        if facts.decide(c) is None:
            for l in (c, not_(c)):
                f = facts.add(l)
                if DEBUG:
                    print('  ' * (10 - depth) + 'SPLIT', l, len(facts.lits), len(f.lits))
                if not contradictory(f, depth - 1, spent, focus, done):
                    return False
            return True
    if DEBUG:
        print('LEAF', facts.lits, facts.all_)
    return False


def entails(facts, c):
    """does the conjunction of facts imply c?"""
    if facts.decide(c) is True:
        return True
    if c.op == 'and':
        return all(entails(facts, x) for x in c.a)
    return contradictory(facts.add(not_(c)))


def is_h_lit(l):
    return any(is_h(x) for x in tm.walk(l))


def why(st, v):
    if st.imp:
        return '; '.join(sorted(st.imp))[:200]
    if isinstance(v, T):
        for x in tm.walk(v):
            if is_h(x):
                return 'depends on %r' % x
    return 'unknown value ' + short(v)


def short(v, n=int(os.environ.get("SA_SHORT", "400"))):
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'seq':
        v = v[1]
    if isinstance(v, (tuple, list)) and v and all(isinstance(x, int) and 0 <= x < 256 for x in v):
        s = bytes(v)
        s = repr(s)[1:]
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + '...'
