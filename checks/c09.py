"""C09: every element access is checked."""
from sa.tensors import *
from checks.c10 import Access, jobs, label

INVALID = 'std::invalid_argument'


def run(rep):
    rep.rule = ('For every element access function of every built-in tensor type, applied to every valid tensor and every index: on each path that returns or '
                'stores, the number of indices was compared with the rank and each index found within its extent (facts of the path, quantified over the '
                'dimensions); every path that throws does so with std::invalid_argument, for an index that is not valid, the tensor being unchanged.')
    rep.assumptions += ['ranks below 2^50', 'standard library functions behave as specified']
    P = program()
    js = list(jobs(P))
    pmap(rep, lambda r, j: check(r, P, *j), js, names=[label(j[0], j[3]) for j in js])
    if not js:
        raise AnalysisBroken('no element access function found')
    return 1


def check(rep, P, t, et, ms, f):
    J = Judge(rep, P)
    key = label(t, f)
    w = where(P, f)
    a = Access(P, t, et, ms, f)
    rep.count('functions')
    for s, v in a.rets:
        rep.count('paths')
        J.holds(key + ' rank', s, eq(a.rank, a.count), 'access needs as many indices as there are dimensions', w)
        if a.name:
            j = fresh('dim', 0)
            J.holds(key + ' index', s, a.valid(j), 'access needs every index to be within its extent', w, (lt(j, a.rank),))
        else:
            for k in range(len(a.idx)):
                J.holds(key + ' index %d' % k, s, a.valid(C(k)), 'access needs every index to be within its extent', w)
    if not a.rets:
        rep.bad(key, 'access is possible', w, 'no path returns')
    for s, x, w2 in a.throws:
        rep.count('paths')
        tw = w2 or w
        if x.q != INVALID and not x.q.startswith('H'):
            J.unreachable(key + ' exception', s, 'an invalid index is reported as std::invalid_argument, not %s' % x.q, tw)
        else:
            rep.ok(key + ' exception', 'an invalid index is reported as std::invalid_argument', tw)
        J.impossible(key + ' refusal', s.with_facts(valid_facts(a, s.facts)), 'a valid index is not refused', tw, focus=atoms_of(s.facts.lits[-1]) if s.facts.lits else None)
        J.agree(key + ' unchanged', s, s.store[('o', 'this')], a.before, 'a refused access changes nothing', tw)


def valid_facts(a, facts):
    facts = facts.add(eq(a.rank, a.count))
    if a.name:
        j = fresh('j', 0)
        return facts.forall(j, a.rank, tuple(conjuncts(a.valid(j))))
    for k in range(len(a.idx)):
        facts = facts.add(a.valid(C(k)))
    return facts


def conjuncts(c):
    return c.a if c.op == 'and' else (c,)
