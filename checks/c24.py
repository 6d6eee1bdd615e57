"""C24: compile witnesses with tensor archetypes that have the documented members only."""
from sa import witness

ARCH = '''
namespace {
%s struct %s {
  %s() = delete;
  static %s load(std::basic_istream<char> &input, const npy::header_info &info);
  void save(std::basic_ostream<char> &output, npy::endian_t endianness) const;
  %s shape(int index) const;
  %s ndim() const;
  std::string dtype(npy::endian_t endianness) const;
  bool fortran_order() const;
};
}
'''
MONO = ARCH % ('', 'mono', 'mono', 'mono', 'size_t', 'size_t')
TMPL = ARCH % ('template <typename T>', 'tmpl', 'tmpl', 'tmpl', 'size_t', 'size_t')

OPS = [
    ('save to stream', MONO, 'void f(std::ostream &o, %s mono &t) { npy::save(o, t); npy::save(o, t, npy::endian_t::BIG); npy::save<mono>(o, t); }'),
    ('save to path', MONO, 'void f(const std::string &p, %s mono &t) { npy::save(p, t); npy::save("x", t); npy::save(p, t, npy::endian_t::BIG); npy::save<mono>(p, t); }'),
    ('save by element type and template to stream', TMPL, 'void f(std::ostream &o, %s tmpl<int> &t) { npy::save<int, tmpl>(o, t); npy::save<int, tmpl>(o, t, npy::endian_t::BIG); }'),
    ('save by element type and template to path', TMPL, 'void f(const std::string &p, %s tmpl<int> &t) { npy::save<int, tmpl>(p, t); npy::save<int, tmpl>(p, t, npy::endian_t::BIG); }'),
    ('save template instance to stream', TMPL, 'void f(std::ostream &o, %s tmpl<int> &t) { npy::save(o, t); npy::save(o, t, npy::endian_t::BIG); npy::save<tmpl<int>>(o, t); }'),
    ('save template instance to path', TMPL, 'void f(const std::string &p, %s tmpl<int> &t) { npy::save(p, t); npy::save<tmpl<int>>(p, t); }'),
    ('write to an in-memory archive', MONO, 'void f(npy::npzstringwriter &w, %s mono &t) { w.write("n", t); w.write<mono>("n", t); }'),
    ('write to an archive file', MONO, 'void f(npy::npzfilewriter &w, %s mono &t) { w.write("n", t); w.write<mono>("n", t); }'),
    ('write template instance to an in-memory archive', TMPL, 'void f(npy::npzstringwriter &w, %s tmpl<int> &t) { w.write("n", t); w.write<tmpl<int>>("n", t); }'),
    ('write template instance to an archive file', TMPL, 'void f(npy::npzfilewriter &w, %s tmpl<int> &t) { w.write("n", t); w.write<tmpl<int>>("n", t); }'),
]
LOADS = [
    ('load from stream', MONO, 'void f(std::istream &i) { mono t = npy::load<mono>(i); (void)t; }'),
    ('load from path', MONO, 'void f(const std::string &p) { mono t = npy::load<mono>(p); (void)t; }'),
    ('load by element type and template from path', TMPL, 'void f(const std::string &p) { tmpl<int> t = npy::load<int, tmpl>(p); (void)t; }'),
    ('load template instance from stream', TMPL, 'void f(std::istream &i) { tmpl<int> t = npy::load<tmpl<int>>(i); (void)t; }'),
    ('read from an in-memory archive', MONO, 'void f(npy::npzstringreader &r) { mono t = r.read<mono>("n"); (void)t; }'),
    ('read from an archive file', MONO, 'void f(npy::npzfilereader &r) { mono t = r.read<mono>("n"); (void)t; }'),
    ('read by element type and template from an in-memory archive', TMPL, 'void f(npy::npzstringreader &r) { tmpl<int> t = r.read<int, tmpl>("n"); (void)t; }'),
    ('read by element type and template from an archive file', TMPL, 'void f(npy::npzfilereader &r) { tmpl<int> t = r.read<int, tmpl>("n"); (void)t; }'),
]
BUILTIN = [
    ('built-in tensor: save const by path', 'void f(const npy::tensor<int> &t) { npy::save("p", t); npy::save<npy::tensor<int>>("p", t); npy::save<int, npy::tensor>("p", t); }'),
    ('built-in tensor: save const to stream', 'void f(std::ostream &o, const npy::tensor<int> &t) { npy::save(o, t); npy::save<int, npy::tensor>(o, t); t.save(o, npy::endian_t::BIG); }'),
    ('built-in tensor: save by path', 'void f(npy::tensor<int> &t) { npy::save("p", t); t.save("p"); npy::save<int, npy::tensor>("p", t); }'),
    ('built-in tensor: write const to archives', 'void f(npy::npzfilewriter &a, npy::npzstringwriter &b, const npy::tensor<int> &t) { a.write("n", t); b.write("n", t); }'),
    ('built-in tensor: load and read', 'void f(std::istream &i, npy::npzfilereader &a, npy::npzstringreader &b) { npy::tensor<int> t = npy::load<npy::tensor<int>>(i); t = npy::load<int, npy::tensor>("p"); t = a.read<npy::tensor<int>>("n"); t = b.read<int, npy::tensor>("n"); }'),
]


def run(r):
    r.rule = ('type-checking a client of every templated operation, whose tensor type has exactly the documented members '
              '(no default constructor, no further members), succeeds for const and non-const arguments')
    progs = []
    for n, arch, op in OPS:
        for c in ('const', ''):
            progs.append(('%s%s' % (n, ' (const)' if c else ''), arch + op % c))
    for n, arch, op in LOADS:
        progs.append((n, arch + op))
    progs.extend(BUILTIN)
    # the archetype without a member must be rejected: the witnesses do test something
    broken = [('neg: ' + m, MONO.replace(m, '') + OPS[0][2] % 'const' + '\n' + LOADS[0][2].replace('void f(', 'void g('))
              for m in ('  static mono load(std::basic_istream<char> &input, const npy::header_info &info);\n',
                        '  std::string dtype(npy::endian_t endianness) const;\n')]
    res = witness.compile_all(progs + broken)
    for n, _ in broken:
        if res[n][0]:
            r.unsure(n, 'the archetype lacking a documented member is accepted')
    for n, src in progs:
        ok, err = res[n]
        r.count('client programs')
        if ok:
            r.ok(n, 'accepted')
        else:
            r.bad(n, 'a client that uses documented members only does not compile: ' + err,
                  err.split(': ')[0], src)
    return len(progs)
