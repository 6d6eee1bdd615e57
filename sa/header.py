"""The NPY dictionary: what the format allows, and the parser of it in the sources."""
from .grammar import *

KEYS = ('descr', 'fortran_order', 'shape')
WS = ('star', ('set', SPACE))
NUM = ('seq', ('set', DIGITS), ('star', ('set', DIGITS)))


def quoted(x):
    return ('or', ('seq', b"'", x, b"'"), ('seq', b'"', x, b'"'))


def text_code():
    return ('seq', ('or', ('set', frozenset(b'<>=|')), b''), b'U', NUM)


def values():
    """what may follow each key"""
    from checks.c03 import required, synonyms
    codes = [c.encode() for c in list(required()) + list(synonyms())]
    return {'descr': quoted(('or', text_code(), *codes)),
            'fortran_order': ('or', b'True', b'False'),
            'shape': ('seq', b'(', WS, ('opt', ('seq', NUM, WS, ('star', ('seq', b',', WS, NUM, WS)), ('opt', ('seq', b',', WS)))), b')')}


def dictionary(item, sep, full=True):
    """dictionaries with these three items in any order: item(key) is the expression of an
    item, sep what may stand between tokens"""
    n = NFA()
    start, end = n.node(), n.node()
    n.final.add(end)
    opened = {}
    for m in range(8):
        opened[m] = n.node()
    build(n, start, ('seq', b'{', sep), opened[0])
    for m in range(8):
        for i, k in enumerate(KEYS):
            if full and m >> i & 1:
                continue
            after = n.node()
            build(n, opened[m], ('seq', item(k), sep), after)
            build(n, after, ('seq', b',', sep), opened[m | 1 << i])
            if m | 1 << i == 7:
                build(n, after, ('seq', b'}', sep), end)
    build(n, opened[7], ('seq', b'}', sep), end)
    return n, start


def allowed_dictionaries():
    """everything a reader may accept: NumPy reads the dictionary as a Python literal"""
    v = values()
    return dictionary(lambda k: ('seq', quoted(k.encode()), WS, b':', WS, v[k]), WS, full=False)


def usual_values(key, ranks=3):
    """spellings as NumPy and this library write them, with any amount of blank space"""
    from checks.c03 import required
    sp = ('star', ('set', frozenset(b' ')))
    digit = ('set', frozenset(b'123456789'))
    num = ('or', b'0', ('seq', digit, ('star', ('set', DIGITS))))
    if key == 'descr':
        out = {c: ('seq', b"'", c.encode(), b"'") for c in required()}
        for o in '<>':
            out[o + 'U'] = ('seq', b"'", o.encode() + b'U', num, b"'")
        return out
    if key == 'fortran_order':
        return {'True': b'True', 'False': b'False'}
    out = {'()': b'()'}
    for r in range(1, ranks + 1):
        x = ['seq', b'(', sp, num, sp]
        for i in range(r - 1):
            x += [b',', sp, num, sp]
        out['rank %d' % r] = tuple(x + ([b',', sp, b')'] if r == 1 else [b')']))
    return out


def usual_dictionaries(ranks=3):
    sp = ('star', ('set', frozenset(b' \n')))
    return dictionary(lambda k: ('seq', quote(k), sp, b':', sp, ('or', *usual_values(k, ranks).values())), sp)


def quote(k):
    return b"'" + k.encode() + b"'"


# ------------------------------------------------------------------ the sources
def constructors(P):
    return [f for f in find(P, 'npy::header_info::header_info') if f.get('ctor') and not f.get('copy') and not f.get('move')]


def parsers(P):
    return [f for f in constructors(P) if len(f['params']) == 1 and f['params'][0]['t'].deref().q == 'std::basic_string']


def header_record(P):
    for q, r in P.recs.items():
        if r['q'] == 'npy::header_info':
            return r
    raise AnalysisBroken('npy::header_info not found')


def parse(P, f):
    """the paths of the constructor from a dictionary"""
    text = base('dictionary')
    BASES['dictionary'] = dict(lo=0, hi=255)
    r = header_record(P)
    I = Interp(P)
    st = St().put(('o', 'd'), whole(text)).put(('o', 'this'), I.uninit(r['t'], 'header'))
    if f['params'][0]['t'].k == 'ref':
        a = LV(('o', 'd'))
    else:
        a = whole(text)
    return Parser(P, f, LV(('o', 'this')), [a], st, text)
