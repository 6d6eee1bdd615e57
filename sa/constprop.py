"""Constant propagation over the statements that fill tables in place: local integers,
pointers into named storage, loops whose condition is known.  It stops at the first
statement whose course is not known."""


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def peel(e):
    while e.get('k') in ('full', 'mat') or (e.get('k') == 'cast' and 'e' in e):
        e = e['e']
    return e


class Fill:
    def __init__(self, P, steps=20000):
        self.P = P
        self.vars = {}
        self.mem = {}       # storage -> {offset: value}
        self.places = {}    # storage -> where it was first written
        self.steps = steps
        self.depth = 0

    # ------------------------------------------------------------- storage
    def place(self, e):
        """the storage an lvalue or decayed array denotes: (name, offset) or None"""
        e = peel(e)
        k = e.get('k')
        if k == 'ref':
            v = self.vars.get(e['d'])
            if isinstance(v, tuple) and v[0] == 'ptr' and e['t'].k in ('ptr', 'ref'):
                return v[1:]
            return ('v%s' % (e['d'],), 0)
        if k == 'mem':
            if e.get('arrow'):
                b = self.val(e['b'])
                b = b[1:] if isinstance(b, tuple) and b[0] == 'ptr' else None
            else:
                b = self.place(e['b'])
            return ('%s+%s.%s' % (b[0], b[1], e['f']), 0) if b else None
        if k == 'idx':
            b = self.val(e['a']) if peel(e['a'])['t'].k == 'ptr' else self.place(e['a'])
            if isinstance(b, tuple) and b[0] == 'ptr':
                b = b[1:]
            i = self.val(e['b'])
            if b is None or not isinstance(b, tuple) or not isinstance(i, int):
                return None
            if e['t'].k == 'array':       # a row of a matrix is storage of its own
                return ('%s+%s[%d]' % (b[0], b[1], i), 0)
            return (b[0], b[1] + i)
        if k == 'un' and e['op'] == '*':
            v = self.val(e['e'])
            return v[1:] if isinstance(v, tuple) and v[0] == 'ptr' else None
        return None

    def store(self, e, v):
        x = peel(e)
        if x.get('k') == 'ref' and x['t'].k != 'ref' and x['t'].k != 'array':
            self.vars[x['d']] = self.fit(v, x['t'])
            return
        p = self.place(x)
        if p is None:
            raise Stop
        self.mem.setdefault(p[0], {})[p[1]] = self.fit(v, x['t'])
        self.places.setdefault(p[0], e.get('l'))

    @staticmethod
    def fit(v, t):
        if isinstance(v, int) and t.k in ('int', 'enum') and t.w:
            v &= (1 << t.w) - 1
            if t.signed and v >> (t.w - 1):
                v -= 1 << t.w
        return v

    # --------------------------------------------------------------- values
    def val(self, e):
        self.steps -= 1
        if self.steps < 0:
            raise Stop
        k = e.get('k')
        if e.get('c') is not None and k != 'str':
            try:
                return int(e['c'])
            except ValueError:
                return None
        if k == 'cast':
            if e.get('ck') == 'ArrayToPointerDecay':
                p = self.place(e['e'])
                return ('ptr',) + p if p else None
            v = self.val(e['e'])
            return self.fit(v, e['t'])
        if k in ('full', 'mat'):
            return self.val(e['e'])
        if k == 'ref':
            if e['t'].k == 'array':
                return ('ptr',) + self.place(e)
            if e['d'] not in self.vars and e['t'].k == 'ptr':
                return ('ptr', 'p%s' % (e['d'],), 0)
            return self.vars.get(e['d'])
        if k in ('mem', 'idx') or (k == 'un' and e['op'] == '*'):
            p = self.place(e)
            if p is None:
                return None
            if e['t'].k == 'array':
                return ('ptr',) + p
            return self.mem.get(p[0], {}).get(p[1])
        if k == 'un':
            op = e['op']
            if op == '&':
                p = self.place(e['e'])
                return ('ptr',) + p if p else None
            if op in ('++', '--'):
                v = self.val(e['e'])
                d = 1 if op == '++' else -1
                w = v + d if isinstance(v, int) else ('ptr', v[1], v[2] + d) if isinstance(v, tuple) else None
                self.store(e['e'], w)
                return v if e.get('post') else w
            v = self.val(e['e'])
            if not isinstance(v, int):
                return None
            return self.fit({'-': -v, '~': ~v, '!': int(not v), '+': v}.get(op), e['t'])
        if k == 'assign':
            v = self.val(e['b'])
            self.store(e['a'], v)
            return v
        if k in ('bin', 'cassign'):
            op = e['op'][:-1] if k == 'cassign' else e['op']
            if op in ('&&', '||'):
                a = self.val(e['a'])
                if not isinstance(a, int):
                    raise Stop
                if bool(a) == (op == '||'):
                    return int(bool(a))
                b = self.val(e['b'])
                return int(bool(b)) if isinstance(b, int) else None
            a = self.val(e['a'])
            b = self.val(e['b'])
            r = None
            if op == ',':
                r = b
            elif isinstance(a, int) and isinstance(b, int):
                r = self.arith(op, a, b)
            elif isinstance(a, tuple) and isinstance(b, int) and op in '+-':
                r = ('ptr', a[1], a[2] + (b if op == '+' else -b))
            elif isinstance(b, tuple) and isinstance(a, int) and op == '+':
                r = ('ptr', b[1], b[2] + a)
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]:
                r = self.arith(op, a[2], b[2])
            r = self.fit(r, e['t'])
            if k == 'cassign':
                self.store(e['a'], r)
            return r
        if k == 'cond':
            c = self.val(e['c_'] if 'c_' in e else e.get('x') or e.get('cond') or {})
            if not isinstance(c, int):
                raise Stop
            return self.val(e['a'] if c else e['b'])
        if k in ('call', 'mcall', 'ocall'):
            return self.call(e)
        raise Stop

    @staticmethod
    def arith(op, a, b):
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b,
                    '|': lambda: a | b, '^': lambda: a ^ b, '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b),
                    '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b),
                    '/': lambda: int(a / b) if abs(a) < 1 << 50 else None, '%': lambda: a - b * int(a / b)}[op]()
        except (KeyError, ZeroDivisionError, ValueError):
            return None

    def call(self, e):
        fn = e.get('fn')
        if not fn:
            raise Stop
        args = [self.val(a) for a in e['args']]
        n = fn.get('n') or fn['q'].split('::')[-1]
        if n in ('memset', '__builtin_memset'):
            p, c, m = args
            if not (isinstance(p, tuple) and isinstance(c, int) and isinstance(m, int)) or m > 5000:
                raise Stop
            d = self.mem.setdefault(p[1], {})
            for i in range(m):
                d[p[2] + i] = c & 255
            self.places.setdefault(p[1], e.get('l'))
            return p
        f = self.P.fns.get(fn['m'])
        if f is None or not f.get('body') or self.depth > 3:
            raise Stop
        for p, v in zip(f['params'], args):
            self.vars[p['d']] = v
        self.depth += 1
        try:
            self.stmt(f['body'])
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ----------------------------------------------------------- statements
    def truth(self, e):
        c = self.val(e)
        if not isinstance(c, int):
            raise Stop
        return c

    def stmt(self, s):
        k = s.get('k')
        if k == 'block':
            for x in s['b']:
                self.stmt(x)
        elif k == 'decl':
            for v in s['v']:
                self.vars[v['d']] = self.val(v['init']) if v.get('init') and v['t'].k != 'array' and not v.get('static') else None
                if self.vars[v['d']] is None:
                    del self.vars[v['d']]
        elif k == 'expr':
            self.val(s['e'])
        elif k in ('for', 'while', 'do'):
            if s.get('init'):
                self.stmt(s['init'])
            first = k == 'do'
            n = 0
            while first or s.get('x') is None or self.truth(s['x']):
                first = False
                n += 1
                if n > 2000:
                    raise Stop
                self.stmt(s['b'])
                if s.get('inc'):
                    self.val(s['inc'])
        elif k == 'if':
            c = self.truth(s.get('x') or s.get('c'))
            y = s.get('a') if c else s.get('b')
            if y:
                self.stmt(y)
        elif k == 'ret':
            raise Ret(self.val(s['e']) if s.get('e') else None)
        elif k == 'null':
            pass
        else:
            raise Stop


def filled(P, block):
    """what the statements of a block, from the first, put into arrays"""
    F = Fill(P)
    try:
        F.stmt(block)
    except (Stop, Ret):
        pass
    except (KeyError, TypeError, AttributeError, ValueError, RecursionError):
        pass
    out = []
    for name, d in F.mem.items():
        n = 0
        vs = []
        while n in d and isinstance(d[n], int):
            vs.append(d[n])
            n += 1
        if vs:
            out.append((name, vs, F.places.get(name)))
    return out
