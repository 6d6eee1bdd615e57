"""C12: PKZIP structure of the archives written."""
from sa.arch import *
from sa import arch


def run(rep):
    rep.rule = ('Every write appends to the stream, in every state of the writer and for every name and tensor, a local header, the name, the ZIP64 extra field where a '
                'size needs one, and the data; closing appends one directory header per entry and then the end record. The closed forms of the bytes appended are '
                'those PKZIP prescribes; a form spelled differently is parsed by PKZIP\'s rules on valuations of it.')
    rep.assumptions += ['fewer than 2^40 entries', 'standard library streams behave as specified', 'names in the list of entries have at most 65535 bytes (shown for every write under C14)']
    P = program()
    jobs = []
    for cls in WRITERS:
        jobs += [(cls, 'write'), (cls, 'close')]
    pmap(rep, lambda r, j: (write if j[1] == 'write' else close)(r, P, Judge(r, P), j[0]), jobs, names=['%s::%s' % j for j in jobs])
    return 1


def write(rep, P, J, cls):
    R = Run(P, cls, 'write')
    rep.count('functions')
    rep.count('loops summarised', R.I.loops_summarised)
    what = 'exactly a local header, the name, the extra field and the data are appended'
    for s, v in R.rets:
        rep.count('paths')
        appended(rep, J, R, s, R.pushed(s), what)
    if not R.rets:
        rep.bad(R.key, 'nothing is ever written', R.where)


def appended(rep, J, R, s, e, what, about=lambda f: f):
    """the bytes appended on this path are the local header of entry e and its data"""
    W, key, w = R.W, R.key, R.where
    o, es, c = W.of(s)
    if e is None or not isinstance(o, OStr) or not isinstance(o.content, Seq):
        rep.unsure(key, what + ': the state after writing is not known', w)
        return
    data = stored(e)
    L = next((L for L, h in candidates(o.content, W, e) if same(s.facts, o.content, W.before + h + data) is True), None)
    if L is not None:
        rep.ok(key, what, w)
        at = W.before.length()
        version(J, key, s, w, [o.content.at(add(at, C(4 + i))) for i in range(2)], L, e, ('compressed_size', 'uncompressed_size'))
        return
    evalt.VIRTUAL = frozenset(VIRTUAL)
    pay, deflated = len_base(base(PAYLOAD)), len_base(base(DEFLATED, payload()))
    cases = big_cases([pay, deflated], o.content) + [(eq(len_base(base('name')), C(x)),) for x in (0x102, 0x1203)]
    verdicts = [J.oracle(key, s, about(lambda ev: bad_local(ev, o.content, e, data)), what, w, extra=x, tries=8, quiet=True) for x in cases]
    if False not in verdicts:
        rep.unsure(key, what + ': another closed form than the expected one; no valuation is wrong', w)


def stored(e):
    m = entry_field(e, 'compression_method')
    return seq_ite(eq(m, ZERO), payload(), whole(base(DEFLATED, payload())))


def candidates(got, W, e):
    at = W.before.length()
    try:
        for L in limits(got):
            yield L, arch.local_header(got, at, e, L, None)
    except ValueError:
        return


def version(J, key, s, w, bs, L, e, fields):
    v = add(bs[0], scale(bs[1], 256))
    big = or_(*[lt(C(L), entry_field(e, k)) for k in fields])
    J.holds(key, s, and_(le(C(10), v), le(v, C(45)), or_(not_(big), eq(v, C(45)))), 'the version needed to extract is that of the features used: 4.5 with ZIP64 fields, at most that without', w)


def bad_local(ev, got, e, data):
    en = entry_value(ev, e)
    b = Bytes(ev.val(got)[1])
    want = Bytes(ev.val(data)[1])
    try:
        n = b.run()
        if (n and n[1][1]) not in (None, BEFORE):
            return 'the stream starts with %r' % (n,)
        read_local(b, en)
        rest = b.xs[b.i:]
        if rest != want.xs:
            return 'the header is followed by %r, not by the data %r' % (rest[:3], want.xs[:3])
    except Bad as x:
        return str(x)
    return None


def close(rep, P, J, cls, what='exactly one directory header per entry and the end record are appended', about=lambda f: f):
    R = Run(P, cls, 'close')
    W, key, w, I = R.W, R.key, R.where, R.I
    rep.count('functions')
    rep.count('loops summarised', I.loops_summarised)
    for s, v in R.rets:
        rep.count('paths')
        o, es, c = W.of(s)
        if not isinstance(o, OStr) or not isinstance(o.content, Seq):
            rep.unsure(key, what + ': the state after closing is not known', w)
            continue
        got = o.content
        m = next((x[1:] for x in directories(got, W, I, s) if same(s.facts, got, x[0]) is True), None)
        if m is not None:
            rep.ok(key, what, w)
            L, vs, e, j, dn = m
            for x, lim, name in ((W.n, U16, 'number of entries'), (dn, U32, 'size of the directory'), (W.before.length(), U32, 'position of the directory')):
                J.holds('%s %s' % (key, name), s, le(x, C(lim)), 'the %s fits the end record' % name, w)
            version(J, key, s.assume(lt(j, W.n)), w, vs, L, e, ('compressed_size', 'uncompressed_size', 'offset'))
            continue
        evalt.VIRTUAL = frozenset(VIRTUAL)
        e0 = at_entry(I, None, ZERO)
        cases = [(eq(W.n, ONE),) + x for x in big_cases([entry_field(e0, k) for k in ('uncompressed_size', 'compressed_size', 'offset')], got)] + [(), (eq(W.n, C(3)),)] + [(eq(W.n, ONE), eq(entry_field(e0, 'filename').length(), C(x))) for x in (0x102, 0x1203)]
        verdicts = [J.oracle(key, s, about(lambda ev: bad_directory(ev, got, W, I)), what, w, extra=x, tries=6, quiet=True) for x in cases]
        if False not in verdicts:
            rep.unsure(key, what + ': another closed form than the expected one; no valuation is wrong', w)
    if not R.rets:
        rep.bad(key, 'closing never succeeds', w)


def directories(got, W, I, s):
    """what the directory must look like, with free fields as found"""
    loop = [p for p in got.parts if p[0] == 'c']
    if len(loop) != 1:
        return
    c = loop[0]
    found = Seq(c[3], False)
    e = at_entry(I, None, c[1])

    def free_bytes(n, o, k):
        out = []
        for i in range(k):
            v = found.at(C(o + i))
            if v is None:
                raise ValueError
            out.append(('e', v))
        return tuple(out)
    for L in limits(got):
        try:
            h = arch.central_header(e, L, free_bytes)
        except ValueError:
            return
        d = Seq((('c', c[1], W.n, h.parts),))
        J = fresh('j', 0)
        yield (W.before + d + arch.end_record(W.n, d.length(), W.before.length()), L, [subst(found.at(C(6 + i)), {c[1]: J}) for i in range(2)],
               at_entry(I, None, J), J, sub(got.length(), add(W.before.length(), C(22))))


def bad_directory(ev, got, W, I):
    n = ev.val(W.n)
    if n > 20:
        raise evalt.NoValue
    b = Bytes(ev.val(got)[1])
    es = [entry_value(ev, at_entry(I, None, C(i))) for i in range(n)]
    try:
        r = b.run()
        start = r[3] if r else 0
        for e in es:
            read_central(b, e)
        read_end(b, n, b.pos - start, start)
    except Bad as x:
        return str(x)
    return None
