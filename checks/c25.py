"""C25: compile-fail witnesses and the constness of every public member's result."""
from sa import project, witness

# (name, statement that must not compile, statement that must)
CONST = [
    ('element assignment by one index', '%s(0) = v;'),
    ('element assignment by two indices', '%s(0, 1) = v;'),
    ('element assignment by index vector', '%s(mi) = v;'),
    ('assignment through begin()', '*%s.begin() = v;'),
    ('assignment through end()', '*(%s.end() - 1) = v;'),
    ('assignment in a range for', 'for (auto &x : %s) x = v;'),
    ('assignment through data()', '*%s.data() = v;'),
    ('set()', '%s.set(si, v);'),
    ('copy_from(pointer)', '%s.copy_from(&v, 1);'),
    ('copy_from(vector)', '%s.copy_from(vec);'),
    ('move_from(vector)', '%s.move_from(std::move(vec));'),
    ('copy assignment', '%s = other;'),
    ('move assignment', '%s = std::move(other);'),
    ('mutable pointer to the data', '{ E *p = %s.data(); (void)p; }'),
    ('mutable iterator to the data', '{ std::vector<E>::iterator p = %s.begin(); (void)p; }'),
    ('mutable element reference', '{ E &x = %s(0); (void)x; }'),
]
NEVER = [
    ('assignment through get()', '%s.get(si) = v;'),
    ('assignment through values()', '%s.values()[0] = v;'),
    ('mutable reference to the values', '{ std::vector<E> &x = %s.values(); (void)x; }'),
    ('growing the values', '%s.values().push_back(v);'),
    ('mutable reference to an element by get()', '{ E &x = %s.get(si); (void)x; }'),
    ('assignment to an extent of the shape', '%s.shape()[0] = 1;'),
    ('growing the shape', '%s.shape().push_back(1);'),
    ('mutable reference to the shape', '{ std::vector<size_t> &x = %s.shape(); (void)x; }'),
    ('assignment to an extent', '%s.shape(0) = 1;'),
    ('assignment to the number of dimensions', '%s.ndim() = 1;'),
    ('assignment to the size', '%s.size() = 1;'),
    ('assignment to the storage order', '%s.fortran_order() = true;'),
    ('assignment to the data type', '%s.dtype() = npy::data_type_t::INT8;'),
]
USE = [  # the reading counterparts, which must compile on a const tensor
    'E x = %s(0); (void)x;', 'E x = %s(mi); (void)x;', 'E x = *%s.begin(); (void)x;', 'E x = *%s.data(); (void)x;',
    'E x = %s.get(si); (void)x;', 'E x = %s.values()[0]; (void)x;', 'size_t x = %s.shape()[0] + %s.shape(0) + %s.ndim() + %s.size(); (void)x;',
    'bool x = %s.fortran_order() && %s.dtype() == npy::data_type_t::INT8; (void)x;', 'for (auto &x : %s) (void)x;',
]
OWNERS = ('npzstringwriter', 'npzfilewriter', 'npzstringreader', 'npzfilereader')
PRE = '''using E = %s;
void f(%s npy::tensor<E> &c, npy::tensor<E> &other, std::vector<E> &vec, E v,
       const std::vector<std::size_t> &mi, const std::vector<std::int32_t> &si) { %s }
'''


def run(r):
    r.rule = ('programs that modify a tensor through a const reference, obtain a mutable handle from one, or copy an archive '
              'reader or writer are rejected by the type checker, their legal counterparts accepted; and no public const member '
              'function of the tensor returns a reference, pointer or iterator through which elements or metadata can be changed')
    progs = []
    expect = {}

    def add(name, src, ok):
        progs.append((name, src))
        expect[name] = ok

    types = ('std::int32_t', 'double', 'std::wstring', 'npy::boolean', 'std::complex<float>')
    for t in types[:1] if r.tier == 'quick' else types:
        for n, s in CONST:
            add('%s: const tensor, %s' % (t, n), PRE % (t, 'const', s % 'c'), False)
            add('%s: tensor, %s' % (t, n), PRE % (t, '', s % 'c'), True)
        for n, s in NEVER:
            add('%s: const tensor, %s' % (t, n), PRE % (t, 'const', s % 'c'), False)
            add('%s: non-const tensor, %s' % (t, n), PRE % (t, '', s % 'c'), False)
        for i, s in enumerate(USE):
            add('%s: reading a const tensor (%d)' % (t, i), PRE % (t, 'const', s.replace('%s', 'c')), True)
    for o in OWNERS:
        add('copying a %s' % o, 'void f(npy::%s &a) { npy::%s b(a); }' % (o, o), False)
        add('copying a const %s' % o, 'void f(const npy::%s &a) { npy::%s b(a); }' % (o, o), False)
        add('copy-assigning a %s' % o, 'void f(npy::%s &a, const npy::%s &b) { a = b; }' % (o, o), False)
        add('using a %s' % o, 'void f(npy::%s &a) { npy::%s &b = a; (void)b; }' % (o, o), True)
    res = witness.compile_all(progs)
    for n, src in progs:
        ok, err = res[n]
        r.count('client programs')
        if ok == expect[n]:
            r.ok(n, 'accepted' if ok else 'rejected: ' + err)
        elif expect[n]:
            if n.startswith('using'):
                r.unsure(n, 'a legal counterpart is rejected: ' + err)
            else:
                r.bad(n, 'a program that only does what the interface allows is rejected: ' + err, err.split(': ')[0], src)
        else:
            r.bad(n, 'a program that must not compile is accepted', 'include/npy/npy.h', src)
    # every public member function of every instance of the tensor class
    p = project.load()
    seen = 0
    for rec in p.recs.values():
        if rec['q'] != 'npy::tensor':
            continue
        seen += 1
        for m in rec['methods']:
            if m['access'] != 0 or m['deleted']:
                continue
            if m['n'].startswith(('operator=', '~')):
                continue
            r.count('member functions')
            k = '%s::%s%s' % (rec['t'].n, m['n'], ' const' if m['const'] else '')
            h = handle(m['rt'])
            fn = p.fns.get(m['m'])
            where = p.rel(fn['l']) if fn else 'include/npy/npy.h'
            if m['const'] and h:
                r.bad(k, 'a const member function hands out a mutable %s' % h, where)
            elif not m['const'] and h and m['n'] not in ('operator()', 'begin', 'end', 'data', 'rbegin', 'rend', 'operator[]', 'at', 'front', 'back'):
                r.bad(k, 'hands out a mutable %s' % h, where)
            else:
                r.ok(k, 'result %s' % m['rt'].n, where)
    if seen < 10:
        raise project.AnalysisBroken('only %d instances of npy::tensor found' % seen)
    return len(progs) // 2


def handle(t):
    if t.k == 'ref' and not t.e.const:
        return 'reference (%s)' % t.n
    if t.k == 'ptr' and not t.e.const and t.e.k != 'void':
        return 'pointer (%s)' % t.n
    if t.k == 'rec' and t.q == '__gnu_cxx::__normal_iterator':
        x = t.targ(0)
        if x is not None and x.k == 'ptr' and not x.e.const:
            return 'iterator (%s)' % t.n
    if t.k == 'rec' and t.q == 'std::reverse_iterator':
        return handle(t.targ(0))
    return None
