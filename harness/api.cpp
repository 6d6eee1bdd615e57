// Parsed, never run: names every public operation of the library so that the
// front end instantiates the templates behind it.
#include <complex>
#include <cstdint>
#include <filesystem>
#include <sstream>
#include <string>
#include <vector>

#include "npy/npy.h"

namespace verif {

// A tensor type with the documented members only, whose behaviour is opaque.
template <typename T> class custom {
public:
  static custom<T> load(std::basic_istream<char> &input, const npy::header_info &info);
  void save(std::basic_ostream<char> &output, npy::endian_t endianness) const;
  size_t shape(int index) const;
  size_t ndim() const;
  std::string dtype(npy::endian_t endianness) const;
  bool fortran_order() const;
};

struct opaque {
  static opaque load(std::basic_istream<char> &input, const npy::header_info &info);
  void save(std::basic_ostream<char> &output, npy::endian_t endianness) const;
  size_t shape(int index) const;
  size_t ndim() const;
  std::string dtype(npy::endian_t endianness) const;
  bool fortran_order() const;
};

template <typename T> void use_tensor(npy::tensor<T> &t, const npy::tensor<T> &c, const std::vector<std::size_t> &mi,
                const std::vector<std::int32_t> &si, const T &v, const std::string &path,
                std::istream &in, std::ostream &out, npy::endian_t e,
                std::vector<T> &vec) {
  npy::tensor<T> a(mi), b(mi, true), d(c), f(std::move(t));
  a = c;
  b = std::move(d);
  t(0);
  t(0, 1);
  t(0, 1, 2);
  c(0);
  c(0, 1);
  c(0, 1, 2);
  t(mi);
  c(mi);
  t.set(si, v);
  c.get(si);
  t.begin();
  t.end();
  c.begin();
  c.end();
  c.ravel(si);
  c.ravel(mi);
  t.copy_from(&v, mi.size());
  t.copy_from(vec);
  t.move_from(std::move(vec));
  t.data();
  c.data();
  c.values();
  c.size();
  c.shape();
  c.shape(0);
  c.ndim();
  c.fortran_order();
  c.dtype();
  c.dtype(e);
  t.save(path);
  c.save(out, e);
  npy::tensor<T>::from_file(path);
  npy::save(path, t);
  npy::save(path, c);
  npy::save(out, c);
  npy::load<npy::tensor<T>>(path);
  npy::load<npy::tensor<T>>(in);
  npy::load<T, npy::tensor>(path);
  npy::tensor<T>::load(in, npy::peek(in));
  npy::write_values(out, &v, mi.size(), e);
  npy::read_values(in, t.data(), mi.size(), npy::peek(in));
  npy::write_npy_header(out, path, true, mi);
}

template <typename R> void use_reader(R &r, const std::string &name) {
  r.keys();
  r.contains(name);
  r.peek(name);
  r.template read<npy::tensor<std::int32_t>>(name);
  r.template read<std::int32_t, npy::tensor>(name);
  r.template read<opaque>(name);
  r.template read<int, custom>(name);
}

template <typename W> void use_writer(W &w, const std::string &name, const opaque &o) {
  w.template write<opaque>(name, o);
  w.close();
}

// what is asked for when no options are given
void default_npzstringwriter() { npy::npzstringwriter w; }
void default_npzfilewriter(const std::string &path) { npy::npzfilewriter w(path); }
void default_npzfilewriter(const char *path) { npy::npzfilewriter w(path); }
void default_npzfilewriter(const std::filesystem::path &path) { npy::npzfilewriter w(path); }

void drive(std::istream &in, std::ostream &out, const std::string &s, npy::endian_t e,
           const opaque &o) {
#define USE(T)                                                                 \
  {                                                                            \
    npy::tensor<T> t({1});                                                     \
    std::vector<T> v;                                                          \
    use_tensor<T>(t, t, mi, si, T(), s, in, out, e, v);                        \
  }
  std::vector<std::size_t> mi;
  std::vector<std::int32_t> si;
  USE(std::int8_t);
  USE(std::uint8_t);
  USE(std::int16_t);
  USE(std::uint16_t);
  USE(std::int32_t);
  USE(std::uint32_t);
  USE(std::int64_t);
  USE(std::uint64_t);
  USE(float);
  USE(double);
  USE(std::complex<float>);
  USE(std::complex<double>);
  USE(npy::boolean);
  USE(std::wstring);

  npy::save(out, o);
  npy::save(s, o);
  npy::load<opaque>(in);
  npy::load<opaque>(s);
  npy::load<int, custom>(s);
  npy::peek(s);
  npy::peek(in);
  npy::to_dtype(npy::data_type_t::INT8, e);
  npy::from_dtype(s);
  npy::header_info h(s);

  npy::npzstringwriter sw;
  use_writer(sw, s, o);
  sw.str();
  npy::npzfilewriter fw(s), fw2(s.c_str()), fw3((std::filesystem::path(s)));
  use_writer(fw, s, o);
  fw.is_open();
  npy::npzstringreader sr(s), sr2(std::string{});
  use_reader(sr, s);
  npy::npzfilereader fr(s), fr2(s.c_str()), fr3((std::filesystem::path(s)));
  use_reader(fr, s);
  fr.is_open();
  fr.close();

  npy::boolean b0, b1(true), b2(b1), b3(3), b4(-1), b5(2.5);
  b0 = 7;
  b0 = -7;
  b0 = true;
  b0 = 2.5;
  npy::boolean b7(std::uint64_t(256)), b8(0.5f), b9('c'), b10((long double)0.25);
  b0 = std::uint64_t(1) << 40;
  b0 = 0.5f;

  b0 = b1;
  bool x = b0;
  (void)x;
}
} // namespace verif
