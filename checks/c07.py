"""C07: a parsed header says what the dictionary says."""
from sa.header import *

FIELDS = ('dtype', 'endianness', 'fortran_order', 'shape', 'max_element_length')
GAP = ('star', ('set', SPACE | frozenset(b',{')))


def run(rep):
    rep.rule = ('The grammar that the dictionary parser accepts is extracted from its source; it contains every dictionary NumPy or this library writes, keys in any order. '
                'On every path of the parser that reads an item, the fields the item names have the values it names (numbers are the decimal values of the digits read) and '
                'no other field changes; the header returned holds the values at the last loop head. Every other constructor sets every field. read_npy_header hands out '
                'the header of exactly the bytes the length field covers and leaves the stream right after them; peek and load use it as it is.')
    rep.assumptions += ['standard library streams and strings behave as specified', 'tuples of more than three extents are parsed by the same loop as shorter ones']
    P = program()
    jobs = [('dictionary', f) for f in parsers(P)]
    if not jobs:
        raise AnalysisBroken('the header parser was not found')
    jobs += [('fields', f) for f in constructors(P) if f not in parsers(P)]
    jobs += [('prefix', f) for f in find(P, 'npy::read_npy_header')]
    jobs += [('caller', f) for f in find(P, 'npy::peek') + find(P, 'npy::load') if len(f['params']) == 1]
    pmap(rep, lambda r, j: JOBS[j[0]](r, P, Judge(r, P), j[1]), jobs, limit=660, names=['%s %d' % (j[0], i) for i, j in enumerate(jobs)])
    return 2


def set_(v):
    """the value does not come from memory never written"""
    return isinstance(v, T) and not any(x.op == 'sym' and x.a[0].startswith('uninit:') for x in tm.walk(v))


def field(v, n):
    return dict(v.f).get(n) if isinstance(v, Rec) else None


# ------------------------------------------------------------------ the parser
def dictionary_(rep, P, J, f):
    w = where(P, f)
    G = parse(P, f)
    texts = G.texts()
    rep.count('functions')
    rep.count('loop heads', len(G.cuts))
    rep.count('paths between loop heads', len(texts))
    key = 'dictionary'
    what = 'every dictionary as NumPy and this library write them is accepted'
    try:
        L = Language(G, texts, True)
        spec, s0 = usual_dictionaries()
        miss = only_in(spec, s0, L.nfa, L.start)
    except GiveUp as e:
        rep.unsure(key + ' accepted', what + ': not decided (%s)' % e, w)
    else:
        rep.count('states of the automaton', L.nfa.n)
        if miss is None:
            rep.ok(key + ' accepted', what, w)
        elif L.missing or G.unclear or any(s.imp for s, _, _ in G.throws):
            rep.unsure(key + ' accepted', what + ': not decided (%s), perhaps not %s' % ((L.missing + G.unclear + ['throwing paths'])[0][:200], spell(miss[0])), w)
        else:
            rep.bad(key + ' accepted', what, w, 'not accepted by any path: %s' % spell(miss[0]))
    this = ('o', 'this')
    r = header_record(P)
    heads = {c.id: c for c in G.cuts}
    # where each field comes from, at each loop head
    comes = {}
    for wy, t in texts:
        if wy.dst != 'return':
            continue
        rep.count('paths returning')
        for n in FIELDS:
            v = G.I.load(wy.st, LV(this, (('f', n),)))
            k = key + ' returned ' + n
            if wy.src not in heads:
                rep.unsure(k, 'not decided: no loop over the items', w)
                continue
            leaf = leaf_of(G, heads[wy.src], v, this, n)
            if leaf is None:
                rep.unsure(k, 'not decided: the field is computed after the items were read', w)
                continue
            rep.ok(k, 'the field holds what the items said', w)
            comes.setdefault((wy.src, n), set()).add(leaf)
    kinds = {(k, v): regex(('seq', GAP, quote(k), GAP, b':', GAP, e, GAP)) for k in KEYS for v, e in usual_values(k).items()}
    loose = {k: regex(('seq', GAP, quoted(k.encode()), GAP, b':', ('star', ('set', ALL)))) for k in KEYS}
    seen = {}
    for wy, t in texts:
        if wy.src not in heads or wy.dst != wy.src:
            continue
        n, s0 = NFA(), None
        s0, e = n.node(), n.node()
        n.final.add(e)
        build(n, s0, t.regex(), e)
        kind = [kv for kv, (m, s1) in kinds.items() if meets(n, s0, m, s1)]
        if not kind:
            continue
        rep.count('paths reading an item')
        if len(kind) > 1:
            rep.unsure('item ' + kind[0][0], 'not decided: one path for %s' % ' and '.join(k[1] for k in kind), w)
            continue
        if not t.exact:
            rep.unsure('item %s %s' % kind[0], 'not decided: %s' % t.why[0][:100], w)
            continue
        for kv in kind:
            seen[kv] = seen.get(kv, 0) + 1
            item(rep, P, J, G, heads[wy.src], wy, t, kv, comes, this, w)
    for kv in kinds:
        if kv not in seen:
            rep.unsure('item %s %s' % kv, 'not decided: no path found that reads it', w)


def leaf_of(G, cut, v, this, n):
    """where at this loop head the value v is kept"""
    own = (this, (('f', n),))
    for l in [own] + [l for l in cut.M]:
        x = cut.M.get(l)
        if x is not None and not isinstance(x, loops.Fixed) and (x is v or x == v):
            return l
    h = G.I.load(cut.head, LV(this, (('f', n),)))
    if h == v:
        return own
    # a vector: the leaf may be its contents
    for l in cut.M:
        try:
            if G.I.load(cut.head, LV(l[0], l[1])) == v:
                return l
        except Exception:
            continue
    return None


def meets(a, sa, b, sb):
    """some text belongs to both"""
    syms = symbols(a, b)
    todo = [(frozenset((sa,)), frozenset((sb,)))]
    seen = set(todo)
    while todo:
        x, y = todo.pop()
        if a.step(x, END) and b.step(y, END):
            return True
        for c in syms:
            nx, ny = a.step(x, c), b.step(y, c)
            if nx and ny and (nx, ny) not in seen:
                seen.add((nx, ny))
                todo.append((nx, ny))
    return False


def item(rep, P, J, G, cut, wy, t, kv, comes, this, w):
    k, v = kv
    from .c03 import required
    key = 'item %s %s' % kv
    st = wy.st

    def new(n):
        out = []
        for l in comes.get((cut.id, n), ()):
            out.append((G.I.load(st, LV(l[0], l[1])), G.I.load(cut.head, LV(l[0], l[1]))))
        return out

    def agree(n, want, what):
        for got, _ in new(n):
            got = simplify_at(t, got)
            J.agree(key + ' ' + n, st, got, want, what, w)

    named = {'descr': ('dtype', 'endianness', 'max_element_length'), 'fortran_order': ('fortran_order',), 'shape': ('shape',)}[k]
    for n in FIELDS:
        if n in named:
            continue
        for got, old in new(n):
            J.agree(key + ' keeps ' + n, st, got, old, 'the item changes no other field', w)
    numbers = digits(t)
    for l in t.numbers:
        for x in {y for y in tm.walk(l) if y.op == 'fn' and y.a[0] == 'decimal'}:
            lim = (1 << 31) - 1 if k == 'descr' else (1 << 64) - 1
            if all(subst(l, {x: C(c)}) is TRUE for c in (0, 1, lim)):
                rep.ok(key + ' range', 'every number of the field\'s type is accepted', w)
            else:
                rep.unsure(key + ' range', 'not decided: a condition on the number read', w)
    if k == 'descr':
        if v.endswith('U'):
            agree('dtype', C(enum(P, DTYPE, 'UNICODE_STRING')), 'the element type is the one named')
            agree('endianness', C(enum(P, ENDIAN, {'<': 'LITTLE', '>': 'BIG'}[v[0]])), 'the byte order is the one named')
            if len(numbers) != 1:
                rep.unsure(key, 'not decided: the number is not found in the text', w)
            for x in numbers[:1]:
                number(J, key + ' max_element_length', wy, t, new('max_element_length'), x, 'the element length is the number read', w)
            return
        d, o = required()[v]
        agree('dtype', C(enum(P, DTYPE, d)), 'the element type is the one named')
        if o is not None:
            agree('endianness', C(enum(P, ENDIAN, o)), 'the byte order is the one named')
        else:
            for got, _ in new('endianness'):
                (rep.ok if set_(got) else rep.unsure)(key + ' endianness', 'the byte order is set', w)
        for got, _ in new('max_element_length'):
            (rep.ok if set_(got) else rep.unsure)(key + ' max_element_length', 'the element length is set', w)
    elif k == 'fortran_order':
        agree('fortran_order', C(int(v == 'True')), 'the order is the one named')
    else:
        r = 0 if v == '()' else int(v.split()[1])
        if len(numbers) != r:
            rep.unsure(key, 'not decided: the numbers are not found in the text', w)
            return
        for got, _ in new('shape'):
            if not isinstance(got, Seq):
                rep.unsure(key + ' shape', 'not decided: the extents are not followed', w)
                continue
            J.agree(key + ' rank', st, got.length(), C(r), 'there are as many extents as numbers', w)
            if got.length().const == r:
                for i, x in enumerate(numbers):
                    number(J, key + ' extent %d' % i, wy, t, [(got.at(C(i)), None)], x, 'the extents are the numbers, in order', w, [y for y in numbers if y is not x])


def simplify_at(t, v):
    return v


def digits(t):
    """the numbers in the text of a path: (from, to)"""
    out = []
    after_letter = False
    for a, b, least, open_, cls in t.segs:
        if cls <= DIGITS and cls:
            if out and (out[-1][1] is a or t.le(out[-1][1], a) is True and t.le(a, out[-1][1]) is True):
                out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
    return [x for x in out if x]


def free(t):
    """the numbers of the text can be zero and one, in any combination"""
    for l in t.numbers:
        xs = {y for y in tm.walk(l) if y.op == 'fn' and y.a[0] == 'decimal'}
        if len(xs) > 2:
            return False
        for v in range(1 << len(xs)):
            if subst(l, {x: C(v >> i & 1) for i, x in enumerate(xs)}) is not TRUE:
                return False
    return True


VALUES = (1, 2, 7, 10, 127, 128, 200, 255, 256, 300, 1000, 32768, 65535, 65536, 70000, 1 << 30, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 63)


def wrong_for(t, wy, got, want, numbers, read):
    """numbers for which the value differs from the one required"""
    decs = {}
    for y in numbers:
        a, b = y
        segs = [s for s in t.segs if t.le(a, s[0]) is True and t.le(s[1], b) is True]
        if sum(s[2] for s in segs) > 1 or not all(s[4] >= DIGITS for s in segs) or not any(s[3] for s in segs):
            return None
        decs[t.s(read(y))] = y
    dec = lambda v: {y for y in tm.walk(v) if y.op == 'fn' and y.a[0] == 'decimal'}
    if not dec(got) | dec(want) <= set(decs):
        return None
    lits = [l for l in set(t.numbers) | {t.s(l) for l in wy.st.facts.lits} if dec(l)]
    main = t.s(read(numbers[0]))
    for v in VALUES:
        env = {d: C(v if d is main else 1) for d in decs}
        if all(subst(t.s(l), env) is TRUE for l in lits):
            g, r = subst(got, env).const, subst(want, env).const
            if g is not None and r is not None and g != r:
                return 'for the number %d it is %d' % (r, g)
    return None


def number(J, key, wy, t, values, x, what, w, others=()):
    a, b = x

    def read(y):
        return fn('decimal', md.sterm(Seq((('s', base(t.src.name) if hasattr(t.src, 'name') else t.src, y[0], sub(y[1], y[0])),))))
    for got, _ in values:
        got = t.s(got) if isinstance(got, T) else got
        want = read(x)
        facts = t.facts
        got2, want2 = t.s(got), t.s(want)
        if got2 is want2 or facts.decide(eq(got2, want2)) is True:
            J.rep.ok(key, what, w)
        elif got2.const is not None or got2.op == 'sym' or not any(y.op == 'fn' and y.a[0] == 'decimal' for y in tm.walk(got2)):
            J.agree(key, wy.st.with_facts(facts), got2, want2, what, w)
        elif t.exact and free(t) and not wy.st.imp and any(t.s(read(y)) is got2 for y in others):
            J.rep.bad(key, what, w, 'it is another number of the text, e.g. for two different ones')
        elif t.exact and not wy.st.imp and wrong_for(t, wy, got2, want2, [x] + list(others), read):
            J.rep.bad(key, what, w, wrong_for(t, wy, got2, want2, [x] + list(others), read))
        else:
            J.rep.unsure(key, what + ': not decided: %s instead of %s' % (str(got2)[:150], str(want2)[:150]), w)


# ------------------------------------------------------------------ the other constructors
def fields(rep, P, J, f):
    w = where(P, f)
    r = header_record(P)
    I = Interp(P)
    I.ltypes[('o', 'this')] = r['t']
    args, st = prepare(I, f, St().put(('o', 'this'), I.uninit(r['t'], 'header')))
    names = [p['n'] for p in f['params']]
    rets, t = I.analyse(f, LV(('o', 'this')), args, st)
    key = 'header_info(%s)' % ', '.join(p['t'].deref().n.split('<')[0] for p in f['params'])
    for s, _ in rets:
        v = s.store[('o', 'this')]
        rep.count('paths')
        for n in FIELDS:
            x = field(v, n)
            if isinstance(x, T) and x.op == 'sym' and x.a[0].startswith('uninit:') and not s.imp:
                rep.bad(key + ' ' + n, 'no field is left uninitialised', w, 'on a path that returns, %s holds what was in memory before' % n)
            elif set_(x) or isinstance(x, Seq) and n == 'shape':
                rep.ok(key + ' ' + n, 'no field is left uninitialised', w)
            else:
                rep.unsure(key + ' ' + n, 'no field is left uninitialised: not decided', w)
        for i, p in enumerate(f['params']):
            if p['n'] in FIELDS and len({p['n'] for p in f['params']}) == len(f['params']):
                want = I.load(st, args[i]) if isinstance(args[i], LV) else args[i]
                J.agree(key + ' takes ' + p['n'], s, field(v, p['n']), want, 'a field is the one given', w)


# ------------------------------------------------------------------ the file around it
def prefix(rep, P, J, f):
    w = where(P, f)
    key = 'read_npy_header of ' + f['params'][0]['t'].deref().targ(0).n
    st, pos = input_stream(St(), failed=FALSE)
    given = []

    def header(I, st, this, args, e):
        d = I.load(st, args[0]) if isinstance(args[0], LV) else args[0]
        if len(args) != 1 or not isinstance(d, Seq):
            return None
        return [(st, Obj('header', (d,)))]
    I = Interp(P, opaque={'npy::header_info::header_info': header})
    r, t = I.analyse(f, None, [LV(('o', 'in'))], st)
    rep.count('functions')
    at = lambda i: file_byte('input', add(pos, C(i)))
    L = len_base(base('input'))
    for s, v in r:
        rep.count('paths')
        if not (isinstance(v, Obj) and v.name == 'header'):
            rep.unsure(key, 'not decided: the header is not made from a dictionary', w)
            continue
        # version 1 has two bytes of length, later ones four
        for name, nb in (('1', 2), ('2', 4)):
            fs = together(s.facts, [eq(at(6), C(int(name)))])
            if clash(fs):
                continue
            s2 = s.with_facts(fs)
            n = add(*[scale(at(8 + i), 1 << (8 * i)) for i in range(nb)])
            want = Seq((('s', base('input'), add(pos, C(8 + nb)), n),))
            J.agree('%s version %s dictionary' % (key, name), s2, v.args[0], want, 'the dictionary is the bytes the length field covers', w)
            J.agree('%s version %s position' % (key, name), s2, s2.store[('o', 'in')].pos, add(pos, C(8 + nb), n), 'the data follows the dictionary', w)
    magic = [eq(at(i), C(c)) for i, c in enumerate(b'\x93NUMPY')]
    for a, nb in ((1, 2), (2, 4)):
        n = add(*[scale(at(8 + i), 1 << (8 * i)) for i in range(nb)])
        good = magic + [eq(at(6), C(a)), eq(at(7), ZERO), ge0(sub(L, add(pos, C(8 + nb), n)))]
        for s, x, w2 in t:
            J.impossible('%s version %d refused' % (key, a), s.with_facts(together(s.facts, good)), 'a header of the format is not refused', w2)
        if not t:
            rep.ok('%s version %d refused' % (key, a), 'a header of the format is not refused', w)


def caller(rep, P, J, f):
    w = where(P, f)
    t0 = f['params'][0]['t'].deref()
    if t0.q not in ('std::basic_string', 'std::basic_istream'):
        return
    key = '%s(%s)' % (f['n'], 'path' if t0.q == 'std::basic_string' else 'stream') + (' of ' + f['rt'].n if f.get('targs') else '')
    H = [None]

    def header(I, st, this, args, e):
        H[0] = I.symval(header_record(P)['t'], 'header')
        s = args[0] if not isinstance(args[0], LV) else I.load(st, args[0])
        return [(st.event('header', s), H[0])]

    def make(I, st, this, args, e):
        info = I.load(st, args[1]) if isinstance(args[1], LV) else args[1]
        return [(st, Obj('tensor', (info,)))]
    I = Interp(P, opaque={'npy::read_npy_header': header, 'npy::tensor::load': make, 'verif::custom::load': make, 'verif::opaque::load': make})
    st = St()
    if t0.q == 'std::basic_istream':
        st, _ = input_stream(st)
        a = LV(('o', 'in'))
    else:
        BASES['path'] = dict(lo=0, hi=255)
        st = st.put(('o', 'path'), whole(base('path')))
        a = LV(('o', 'path'))
    r, t = I.analyse(f, None, [a], st)
    rep.count('functions')
    for s, v in r:
        rep.count('paths')
        got = v.args[0] if isinstance(v, Obj) and v.name == 'tensor' else v
        if H[0] is None or not isinstance(got, Rec):
            rep.unsure(key, 'not decided: the header does not come from read_npy_header', w)
            continue
        for n in FIELDS:
            J.agree(key + ' ' + n, s, field(got, n), field(H[0], n), 'the header used is the one in the stream', w)
    if not r:
        (rep.unsure if I.left or not t else rep.bad)(key, 'no path returns', w)


JOBS = dict(dictionary=dictionary_, fields=fields, prefix=prefix, caller=caller)
