"""C27: the checksum is PKZIP's CRC-32 of all bytes; the code tables are DEFLATE's."""
import binascii
import random

from sa.elements import *
from sa.gf2 import Bits, NotAffine, crc_step
from sa.loops import get_leaf
from sa import terms as tm
from sa.constprop import filled

# ------------------------------------------------------------------ RFC 1951, 3.2.5
LEN_EXTRA = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
LEN_BASE = []
_b = 3
for _e in LEN_EXTRA[:-1]:
    LEN_BASE.append(_b)
    _b += 1 << _e
LEN_BASE.append(258)
DIST_EXTRA = [0, 0] + [k // 2 for k in range(28)]
DIST_BASE = []
_b = 1
for _e in DIST_EXTRA:
    DIST_BASE.append(_b)
    _b += 1 << _e
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
FIXED = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8


def length_code(n):
    if n == 258:
        return 28
    return max(k for k in range(28) if LEN_BASE[k] <= n)


def dist_code(n):
    return max(k for k in range(30) if DIST_BASE[k] <= n)


X = None    # entries no stream and no match reaches
TABLES = [
    ('base of the length codes', 'decompressing', LEN_BASE + [X, X], 8),
    ('extra bits of the length codes', 'decompressing', LEN_EXTRA + [X, X], 8),
    ('base of the distance codes', 'decompressing', DIST_BASE + [X, X], 8),
    ('extra bits of the distance codes', 'decompressing', DIST_EXTRA + [X, X], 8),
    ('order of the code lengths', 'both', ORDER, 8),
    ('least numbers of codes', 'decompressing', [257, 1, 4], 2),
    ('code of each length', 'compressing', [257 + length_code(n) for n in range(3, 259)], 200),
    ('extra bits of each length', 'compressing', [LEN_EXTRA[length_code(n)] for n in range(3, 259)], 200),
    ('code of each distance up to 512', 'compressing', [dist_code(n + 1) for n in range(512)], 400),
    ('extra bits of each distance up to 512', 'compressing', [DIST_EXTRA[dist_code(n + 1)] for n in range(512)], 400),
    ('code of each distance above 512', 'compressing', [X, X] + [dist_code((n << 8) + 1) for n in range(2, 128)], 100),
    ('extra bits of each distance above 512', 'compressing', [X, X] + [DIST_EXTRA[dist_code((n << 8) + 1)] for n in range(2, 128)], 100),
    ('masks of the low bits', 'compressing', [(1 << n) - 1 for n in range(17)], 13),
]
TEXTS = [('widths of the numbers of codes', [5, 5, 4]), ('extra bits of the repeat codes', [2, 3, 7]), ('bases of the repeat codes', [3, 3, 11])]


def run(rep):
    rep.rule = ('npy_crc32 is interpreted abstractly on an arbitrary byte string through the checksum function it calls; the loop over the bytes is summarised by one '
                'iteration in an arbitrary state, whose effect on the register, as affine forms over GF(2), must be that of one byte (or several in order) on the '
                'register of PKZIP; what it starts from, the bytes it covers and what is returned are compared likewise. Every constant table of the codec is '
                'compared entry by entry with the table of RFC 1951 it stands for.')
    rep.assumptions += ['a constant array is taken for the table of the same size most of whose entries it has; tables laid out differently are not compared',
                        'that the codec uses its tables as the specification says is part of C30']
    P = program()
    checksum(rep, P)
    tables(rep, P)
    fixed_codes(rep, P)
    return 1500


# --------------------------------------------------------------------- the checksum
def checksum(rep, P):
    fs = [f for f in P.fns.values() if f['n'] == 'npy_crc32' and f.get('body')]
    if not fs:
        raise AnalysisBroken('npy_crc32 not found')
    J = Judge(rep, P)
    for f in fs:
        rep.count('functions')
        I = Interp(P, be=False)
        I.cuts = []
        args, st = prepare(I, f, n0='bytes')
        data = args[0]
        if isinstance(data, LV):
            data = I.load(st, data)
        w = where(P, f)
        if not hasattr(data, 'length') and not isinstance(data, Seq):
            rep.unsure('npy_crc32', 'the argument is not a string of bytes', w)
            continue
        size = data.length()
        st = st.assume(ge0(size)).assume(le(size, C(1 << 59)))
        r, t = I.analyse(f, None, args, st)
        if not r:
            rep.unsure('npy_crc32', 'no path returns', w)
        for s, v in r:
            for s2, v2 in cases(I, s, v):
                rep.count('paths')
                one_path(rep, J, I, s2, v2, size, w)
        for s, x, w2 in t:
            J.unreachable('npy_crc32 throws', s, 'the checksum of any string is computed', w2)


def cases(I, s, v, depth=5):
    """the value case by case, as far as it depends on conditions other than the bits of
    the register"""
    hs = {h for c in I.cuts for l, h in c.M.items() if isinstance(h, T)}
    if isinstance(v, T) and depth:
        for x in tm.walk(v):
            if x.op == 'ite' and not any(y in hs or y.op == 'at' for y in tm.walk(x.a[0])):
                out = []
                for c in (x.a[0], not_(x.a[0])):
                    s2 = s.assume(c)
                    if FALSE in s2.facts.lits or contradictory(s2.facts):
                        continue
                    v2 = simplified(tm.subst(v, {x: x.a[1] if c is x.a[0] else x.a[2]}), s2.facts, equations=False)
                    out.extend(cases(I, s2, v2, depth - 1))
                return out
    return [(s, v)]


def loop_of(I, v):
    """the loop a value is the outcome of: (cut, leaf, symbol)"""
    for c in I.cuts:
        for l, h in c.M.items():
            if l not in c.solved and isinstance(h, T) and occurs(h, v):
                return c, l, h
    return None


def one_path(rep, J, I, s, v, size, w):
    key = 'npy_crc32'
    if not isinstance(v, T):
        rep.unsure(key, 'the result is not a number', w)
        return
    if v.op == 'c':
        if entails(s.facts, eq(size, ZERO)):
            (rep.ok if v.a[0] == 0 else rep.bad)(key + ' of nothing', 'the checksum of no bytes is 0', w)
        elif not s.imp and not any(x.op == 'at' for l in s.facts.lits for x in tm.walk(l)) and evalt.satisfiable(s.facts, (lt(ZERO, size),), seed=rep.seed):
            rep.bad(key, 'the checksum depends on the bytes', w, 'the same value %s for all of them, where %s' % (v, ' & '.join(map(repr, s.facts.lits))[:400]))
        else:
            rep.unsure(key, 'a constant result', w)
        return
    # what is done with the register at the end, back to where it starts
    chain = []
    cur = v
    while cur.op != 'c':
        got = loop_of(I, cur)
        if got is None or len(chain) > 4:
            break
        c, l, h = got
        chain.append((c, l, h, cur))
        cur = get_leaf(c.st0, l)
        if not isinstance(cur, T):
            break
    if not chain or not isinstance(cur, T) or cur.op != 'c':
        rep.unsure(key, 'the result is not the outcome of loops over the bytes from a constant: %s' % short(v), w)
        return
    steps = []
    pos = ZERO
    for c, l, h, after in reversed(chain):
        rep.count('loops')
        if len(c.it.conts) != 1 or len(c.it.exits) != 1 or c.it.exits[0][1] != 'cond' or c.it.others:
            rep.unsure(key, 'the loop at %s has several ways round' % c.where, c.where)
            return
        new = get_leaf(c.it.conts[0], l)
        if not isinstance(new, T):
            rep.unsure(key, 'the register in the loop at %s is not followed' % c.where, c.where)
            return
        at = reads(new)
        if not at:
            rep.unsure(key, 'the bytes the loop at %s reads' % c.where, c.where)
            return
        n = len(at)
        first = tm.subst(at[0].a[1], {c.j: ZERO})
        if any(lin_coeff(x.a[1], c.j) != n for x in at):
            rep.unsure(key + ' bytes of one iteration', 'bytes %s in one iteration' % ', '.join(short(x, 60) for x in at), c.where)
            return
        if same(s.facts, first, pos) is not True:
            rep.unsure(key + ' place', 'where the loop at %s takes up: %s' % (c.where, short(first)), c.where)
            return
        pos = add(pos, scale(c.ends[0], n))
        rest = [x for x in free_syms(new) if x is not h and x is not c.j and x.op == 'sym']
        if rest:
            rep.unsure(key, 'the step of the loop at %s depends on %s' % (c.where, rest[:2]), c.where)
            return
        steps.append((c, h, new, at))
    # between the loops the register is handed on as it is
    plain = all(chain[i + 1][3] is chain[i + 1][2] for i in range(len(chain) - 1))
    start, final = cur.a[0], chain[0][3]
    top = chain[0][2]
    tail = reads(final)
    if tail is None or (tail and same(s.facts, plain_sum(tail[0].a[1], s.facts), plain_sum(pos, s.facts)) is not True):
        rep.unsure(key + ' tail', 'the bytes after the loops', w)
        return
    pos = plain_sum(add(pos, C(len(tail))), s.facts)
    proven, why_ = plain and not s.imp, 'several registers'
    if proven:
        proven, why_ = algebra(start, final, top, tail, steps)
    what = 'the checksum is taken over all bytes'
    if proven:
        J.agree(key + ' covers every byte', s, pos, size, what, w)
        rep.ok(key + ' register', 'one byte does to the register what the polynomial of PKZIP prescribes', w)
        rep.ok(key + ' start', 'the register starts from the complement of zero', w)
        rep.ok(key + ' end', 'the complement of the register is returned', w)
        return
    if plain and not s.imp and same(s.facts, pos, size) is True:
        rep.ok(key + ' covers every byte', what, w)
        x = counterexample(rep, s, size, start, final, top, tail, steps)
        if x:
            rep.bad(key + ' register', 'the checksum is the CRC-32 of PKZIP', steps[0][0].where, x)
            return
    rep.unsure(key + ' register', 'not compared: %s' % why_, w)


def plain_sum(t, facts):
    """without the wraps that cannot happen"""
    for x in list(tm.walk(t)):
        if x.op == 'slice' and x.a[1] == 0 and entails(facts, ge0(x.a[0])) and entails(facts, lt(x.a[0], C(1 << x.a[2]))):
            t = tm.subst(t, {x: x.a[0]})
    return t


def reads(t):
    """the bytes a term reads, in order, if they are neighbours; None if not"""
    xs = sorted({x for x in tm.walk(t) if x.op == 'at'}, key=lambda x: x.id)
    if not xs:
        return []
    if len({x.a[0] for x in xs}) != 1:
        return None
    ds = [sub(x.a[1], xs[0].a[1]) for x in xs]
    if any(d.op != 'c' for d in ds):
        return None
    xs = [x for _, x in sorted(zip(ds, xs), key=lambda y: y[0].a[0])]
    ds = sorted(d.a[0] for d in ds)
    return xs if ds == list(range(ds[0], ds[0] + len(ds))) else None


def algebra(start, final, top, tail, steps):
    """start, steps and end against the register of PKZIP, perhaps kept complemented"""
    why_ = ''
    for flip in (0, 0xFFFFFFFF):
        try:
            if start ^ flip != 0xFFFFFFFF:
                why_ = why_ or 'starts from %#x' % start
                continue
            good = True
            for c, h, new, ats in steps:
                B = Bits()
                r = tm.sym('register', 0, 0xFFFFFFFF)
                w = max(32, (h.hi or 0xFFFFFFFF).bit_length())
                new = tm.subst(new, {h: r})
                got = B.bits(new, w)
                reg = [b ^ ((flip >> i) & 1) for i, b in enumerate(B.bits(r, 32))]
                for x in ats:
                    reg = crc_step(reg, B.bits(x, 8))
                reg = [b ^ ((flip >> i) & 1) for i, b in enumerate(reg)]
                if got != reg + [0] * (w - 32):
                    good = False
                    why_ = 'another step in the loop at %s' % c.where
            B = Bits()
            r = tm.sym('register', 0, 0xFFFFFFFF)
            got = B.bits(tm.subst(final, {top: r}), 64)
            reg = [b ^ ((flip >> i) & 1) for i, b in enumerate(B.bits(r, 32))]
            for x in tail:
                reg = crc_step(reg, B.bits(x, 8))
            want = [b ^ 1 for b in reg] + [0] * 32
            if got != want:
                good = False
                why_ = why_ or 'another end'
            if good:
                return True, ''
        except NotAffine as e:
            why_ = 'not affine: %s' % e
    return False, why_


def counterexample(rep, s, size, start, final, top, tail, steps):
    """bytes of which the closed form denotes another number"""
    rnd = random.Random(rep.seed)

    def num(t, env):
        x = tm.subst(t, env)
        return x.a[0] if x.op == 'c' else None
    for k in range(500):
        m = k % 7
        data = bytes(rnd.randrange(256) if k % 2 else rnd.choice((0, 1, 0x80, 0xff)) for _ in range(m))
        env0 = {size: C(m)}
        ends = [num(c.ends[0], env0) for c, h, new, ats in steps]
        if None in ends:
            if len(steps) > 1 or tail:
                return None
            if m % len(steps[0][3]):
                continue
            ends = [m // len(steps[0][3])]       # it covers the bytes exactly
        elif not all(num(l, env0) in (None, 1) for l in s.facts.lits):
            continue

        def byte(x, env):
            i = num(x.a[1], env)
            return C(data[i]) if i is not None and 0 <= i < m else None
        reg = start
        for (c, h, new, ats), n in zip(steps, ends):
            for i in range(n):
                env = {h: C(reg), c.j: C(i), size: C(m)}
                bs = {x: byte(x, env) for x in ats}
                if None in bs.values():
                    return None
                env.update(bs)
                reg = num(new, env)
                if reg is None:
                    return None
        env = {top: C(reg), size: C(m)}
        bs = {x: byte(x, env) for x in tail}
        if None in bs.values():
            continue
        env.update(bs)
        x = num(final, env)
        if x is None:
            return None
        if x != binascii.crc32(data):
            return 'of the bytes %s the checksum is %#010x and not %#010x' % (list(data), x, binascii.crc32(data))
    return None


# ----------------------------------------------------------------------- the tables
def tables(rep, P):
    I = Interp(P, be=False)
    arrays = []
    for k, g in P.globals.items():
        t = g['t']
        if t.k != 'array' or t.e.k not in ('int', 'enum') or g.get('init') is None or 'miniz' not in k:
            continue
        vs = constants(I, g)
        if vs is not None:
            arrays.append((g, vs))
            rep.count('constant arrays')
    found = {}
    for g, vs in arrays:
        best = None
        for name, side, want, least in TABLES:
            if not len([x for x in want if x is not X]) <= len(vs) <= len(want) + 3:
                continue
            n = sum(1 for a, b in zip(vs, want) if b is not X and a == b)
            if n >= least and (best is None or n > best[0]):
                best = (n, name, side, want)
        if best is None:
            continue
        n, name, side, want = best
        found[name] = found.get(name, 0) + 1
        w = '%s:%s' % (P.rel(g['l']) if g.get('l') else '', '')
        w = P.rel(g['l']) if g.get('l') else ''
        for i, b in enumerate(want):
            if b is X:
                continue
            a = vs[i] if i < len(vs) else 0
            if a == b:
                rep.ok('%s (%s) entry %d' % (name, g['n'], i), 'the entry is that of RFC 1951', w)
            else:
                rep.bad('%s (%s) entry %d' % (name, g['n'], i), 'the entry is that of RFC 1951', w, 'found %s, required %s' % (a, b))
    for name, side, want, least in TABLES:
        if not found.get(name):
            rep.unsure(name, 'no constant array has this content')
    for f in P.fns.values():
        if 'miniz' not in str(f.get('l')) or not f.get('body'):
            continue
        for e in strings(f['body']):
            b = literal(e)
            if b is None or len(b) != 3:
                continue
            for name, want in TEXTS:
                n = sum(1 for a, c in zip(b, want) if a == c)
                if n >= 2:
                    w = P.rel(e['l']) if e.get('l') else ''
                    (rep.ok if n == 3 else rep.bad)('%s in %s' % (name, f['n']), 'the numbers are those of RFC 1951', w, *(() if n == 3 else ('found %s, required %s' % (b, want),)))


def constants(I, g):
    init = g['init']
    while init.get('k') in ('cast', 'full', 'mat') and init.get('e'):
        init = init['e']
    if init.get('k') == 'list' and all(a.get('c') is not None for a in init['args']):
        return [int(a['c']) for a in init['args']]
    try:
        rs = I.ev(g['init'], St())
        v = rs[0][1]
        if isinstance(v, LV):
            v = I.load(rs[0][0], v)
        out = []
        for p in v.parts:
            if p[0] == 'e' and p[1].op == 'c':
                out.append(p[1].a[0])
            elif p[0] == 'r' and p[1].op == 'c' and p[2].op == 'c':
                out.extend([p[1].a[0]] * p[2].a[0])
            else:
                return None
        return out
    except Exception:
        return None


def strings(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get('k') == 'str':
                yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(y)


def literal(e):
    for k in ('v', 's', 'bytes', 'text'):
        v = e.get(k)
        if isinstance(v, str):
            try:
                return list(v.encode('latin-1'))
            except UnicodeEncodeError:
                return None
        if isinstance(v, list):
            return [int(i) & 255 for i in v]
    return None


# ------------------------------------------------------------------ the fixed codes
def fixed_codes(rep, P):
    """the blocks that lay down the code lengths of the fixed Huffman codes"""
    done = set()
    for f in sorted(P.fns.values(), key=lambda f: f['m']):
        if 'miniz' not in str(f.get('l')) or not f.get('body'):
            continue
        for b in blocks(f['body']):
            got = filled(P, b)
            for name, vs, l in got:
                n = sum(1 for x, y in zip(vs, FIXED) if x == y)
                if n < 200 or len(vs) < 250 or l in done:
                    continue
                done.add(l)
                rep.count('fixed codes')
                key = 'fixed code of literals and lengths in %s' % f['n']
                w = P.rel(l)
                wrong = [i for i in range(288) if i >= len(vs) or vs[i] != FIXED[i]]
                if wrong:
                    rep.bad(key, 'the lengths are those of RFC 1951, 3.2.6', w, 'symbol %d: found %s, required %d' % (wrong[0], vs[wrong[0]] if wrong[0] < len(vs) else 'nothing', FIXED[wrong[0]]))
                else:
                    rep.ok(key, 'the lengths are those of RFC 1951, 3.2.6', w)
                ds = [(m, us, k) for m, us, k in got if 28 <= len(us) <= 40 and sum(1 for u in us if u == us[0]) > 26]
                key = 'fixed code of distances in %s' % f['n']
                if len(ds) != 1:
                    rep.unsure(key, 'no array of distance code lengths beside it', w)
                elif ds[0][1][:30] == [5] * 30:
                    rep.ok(key, 'every distance code has five bits', w)
                else:
                    rep.bad(key, 'every distance code has five bits', w, 'found %s' % ds[0][1])
    for name in ('compressing', 'decompressing')[len(done):]:
        rep.unsure('fixed codes', 'the statements that lay down the fixed codes were not all found')


def blocks(x):
    """the statement lists with a loop directly inside, outermost first"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get('k') == 'block' and any(s.get('k') in ('for', 'while') for s in y['b']):
                yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(y)
