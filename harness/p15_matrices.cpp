// P15: vector and matrix parameters: text and audio-file import, copying, sizes, alignment.
#include "flow.hpp"
#include "pbt.hpp"

#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libvisr/constants.hpp>

#include <complex>
#include <sys/mman.h>
#include <unistd.h>

using namespace visr;

namespace
{
template <typename T> double re(T v) { return v; }
template <typename T> double re(std::complex<T> v) { return v.real(); }
template <typename T> double im(T) { return 0; }
template <typename T> double im(std::complex<T> v) { return v.imag(); }
template <typename T> double eps() { return 1e-6; }
template <> double eps<double>() { return 1e-12; }
template <> double eps<std::complex<double>>() { return 1e-12; }

// file that exists only in memory
struct MemFile
{
  int fd;
  explicit MemFile(std::string const& data) : fd(memfd_create("verif", 0))
  {
    if (fd < 0) throw std::runtime_error("memfd_create");
    for (std::size_t p = 0; p < data.size();) { ssize_t const n = write(fd, data.data() + p, data.size() - p); if (n <= 0) throw std::runtime_error("write"); p += (std::size_t)n; }
  }
  ~MemFile() { close(fd); }
  std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};

std::string blank(pbt::Case& c) { return c.pick<std::string>({" ", "  ", "\t", " \t"}); }
std::string maybe(pbt::Case& c) { return c.chance(25) ? blank(c) : ""; }
double anyNumber(pbt::Case& c)
{
  switch (c.weighted({4, 3, 1, 1}))
  {
  case 0: return c.sym(10);
  case 1: return (double)c.range(-20, 20);
  case 2: return c.sym(1) * std::pow(10.0, (double)c.range(-20, 20));
  default: return 0;
  }
}
std::string numText(pbt::Case& c, double& v)
{
  char b[60];
  static char const* fmt[] = {"%.7g", "%g", "%.3f", "%e", "%+.4g", "%.12g"};
  std::snprintf(b, sizeof b, fmt[c.draw(6)], v);
  v = std::strtod(b, nullptr);
  return b;
}
std::string lineText(pbt::Case& c, std::vector<double>& v)
{
  std::string s = maybe(c);
  for (std::size_t i = 0; i < v.size(); ++i)
  {
    if (i) s += c.flag() ? maybe(c) + "," + maybe(c) : blank(c);
    s += numText(c, v[i]);
  }
  return s + maybe(c);
}
char const* const junk[] = {"x", "1 a", "1,,2", ",1", "1,", "1:2", "1 # c", "--1", "1;,", "(1,2)", "\"1\"", "1 2 /", "1e"};
std::string anyJunk(pbt::Case& c, std::string const& before)
{
  std::string const j = junk[c.draw(13)];
  if (before.empty() || j[0] == ',' || c.flag()) return j; // ",1" continues a list
  return before + " " + j;
}
char const* const comments[] = {"%", "% comment", "%%", "% 1 2 3", "% a,b % c", "%1"};

template <typename T> void compareValue(T got, double ref, std::string const& where)
{
  PBT_CHECK(std::abs(re(got) - ref) <= eps<T>() * std::abs(ref) + (eps<T>() < 1e-9 ? 0 : 1e-37) && im(got) == 0, where << " is " << re(got) << " instead of " << ref);
}
template <typename M> void checkLayout(M const& m)
{
  std::size_t const al = m.alignmentElements();
  for (std::size_t r = 0; r < m.numberOfRows(); ++r)
    PBT_CHECK((std::uintptr_t)m.row(r) % (al * sizeof(*m.data())) == 0, "row " << r << " is not aligned to " << al << " elements");
  PBT_CHECK(m.stride() >= m.numberOfColumns() && m.stride() % al == 0, "stride " << m.stride() << " does not fit " << m.numberOfColumns() << " columns");
}

template <typename T> void matrixTextT(pbt::Case& c)
{
  std::size_t const rows = c.wide(0, 5, 60), cols = c.wide(1, 5, 60);
  std::size_t const al = c.pick<std::size_t>({0, 1, 4, 8, 16});
  std::string t;
  std::vector<std::vector<double>> ref;
  int const fault = rows && c.chance(30) ? (int)c.range(1, 2) : 0;
  std::size_t const fr = fault ? c.draw(rows) : rows;
  bool bad = false;
  std::string const nl = c.chance(15) ? "\r\n" : "\n";
  for (std::size_t r = 0; r < rows; ++r)
  {
    std::size_t n = cols;
    if (r == fr && fault == 1 && rows > 1) { n = cols > 1 && c.flag() ? cols - 1 : cols + 1; bad = true; }
    std::vector<double> v(n);
    for (auto& x : v) x = anyNumber(c);
    std::string line = lineText(c, v);
    if (r == fr && fault == 2) { line = anyJunk(c, line); bad = true; }
    ref.push_back(v);
    t += line;
    bool const last = r + 1 == rows;
    bool comment = false;
    if (c.chance(15)) { t += comments[c.draw(6)]; comment = true; }
    if (!comment && c.chance(30)) t += ";" + (c.chance(30) ? nl : maybe(c));
    else if (!last || c.flag()) { t += nl; while (c.chance(15)) t += maybe(c) + (c.flag() ? comments[c.draw(6)] : "") + nl; }
  }
  if (rows == 0) while (c.chance(40)) t += maybe(c) + (c.flag() ? comments[c.draw(6)] : "") + nl;
  c.note() << "\"" << t << "\" alignment " << al;
  c.flushNote();
  if (rows > 1 || bad) c.nontrivial();
  std::string err;
  std::unique_ptr<pml::MatrixParameter<T>> m;
  std::size_t const way = c.draw(3);
  int const res = pbt::outcome([&] {
    if (way == 0) m.reset(new pml::MatrixParameter<T>(pml::MatrixParameter<T>::fromString(t, al)));
    else if (way == 1) { std::istringstream is(t); m.reset(new pml::MatrixParameter<T>(pml::MatrixParameter<T>::fromStream(is, al))); }
    else { MemFile f(t); m.reset(new pml::MatrixParameter<T>(pml::MatrixParameter<T>::fromTextFile(f.path(), al))); }
  }, &err);
  if (bad) { c.label("faulty"); PBT_CHECK(res == 1, (res == 0 ? std::string("faulty matrix text accepted") : "no std::exception: " + err)); return; }
  PBT_CHECK(res == 0, "valid matrix text rejected: " << err);
  PBT_CHECK(m->numberOfRows() == rows && m->numberOfColumns() == (rows ? cols : 0), "matrix has size " << m->numberOfRows() << "x" << m->numberOfColumns());
  PBT_CHECK(m->alignmentElements() == std::max<std::size_t>(al, 1), "alignment is " << m->alignmentElements());
  checkLayout(*m);
  for (std::size_t r = 0; r < rows; ++r)
    for (std::size_t k = 0; k < cols; ++k)
    {
      std::string const w = "element (" + std::to_string(r) + "," + std::to_string(k) + ")";
      compareValue((*m)(r, k), ref[r][k], w);
      PBT_CHECK(m->at(r, k) == (*m)(r, k) && m->row(r)[k] == (*m)(r, k), w << ": access functions differ");
    }
}
void matrixText(pbt::Case& c)
{
  switch (c.draw(4))
  {
  case 0: matrixTextT<float>(c); break;
  case 1: matrixTextT<double>(c); break;
  case 2: matrixTextT<std::complex<float>>(c); break;
  default: matrixTextT<std::complex<double>>(c);
  }
}

template <typename T> void vectorTextT(pbt::Case& c)
{
  std::size_t const n = c.wide(0, 9, 400), al = c.pick<std::size_t>({0, 1, 4, 8, 16});
  std::vector<double> v(n);
  for (auto& x : v) x = anyNumber(c);
  std::string t = lineText(c, v);
  for (auto& ch : t) if (ch == ' ' && c.chance(10)) ch = '\n';
  bool const bad = c.chance(25);
  if (bad) { t = anyJunk(c, n ? t : ""); }
  else if (c.chance(15)) t += comments[c.draw(6)];
  else if (c.chance(15)) t += "\n";
  c.note() << "\"" << t << "\" alignment " << al;
  c.flushNote();
  if (n > 1 || bad) c.nontrivial();
  std::string err;
  std::unique_ptr<pml::VectorParameter<T>> m;
  std::size_t const way = c.draw(3);
  int const res = pbt::outcome([&] {
    if (way == 0) m.reset(new pml::VectorParameter<T>(pml::VectorParameter<T>::fromString(t, al)));
    else if (way == 1) { std::istringstream is(t); m.reset(new pml::VectorParameter<T>(pml::VectorParameter<T>::fromStream(is, al))); }
    else { MemFile f(t); m.reset(new pml::VectorParameter<T>(pml::VectorParameter<T>::fromTextFile(f.path(), al))); }
  }, &err);
  if (bad) { c.label("faulty"); PBT_CHECK(res == 1, (res == 0 ? std::string("faulty vector text accepted") : "no std::exception: " + err)); return; }
  PBT_CHECK(res == 0, "valid vector text rejected: " << err);
  PBT_CHECK(m->size() == n, "vector has " << m->size() << " elements instead of " << n);
  for (std::size_t k = 0; k < n; ++k) compareValue((*m)[k], v[k], "element " + std::to_string(k));
}
void vectorText(pbt::Case& c)
{
  switch (c.draw(4))
  {
  case 0: vectorTextT<float>(c); break;
  case 1: vectorTextT<double>(c); break;
  case 2: vectorTextT<std::complex<float>>(c); break;
  default: vectorTextT<std::complex<double>>(c);
  }
}

// ---------------------------------------------------------------------------------------------
// WAV files written by the harness
void le(std::string& s, uint32_t v, int n) { for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); }
std::string wav(std::size_t ch, std::size_t frames, int format, std::vector<double>& x) // x: interleaved, quantised on return
{
  int const bytes = format == 0 ? 2 : format == 1 ? 3 : 4;
  std::string d;
  for (double& v : x)
    if (format == 2) { float f = (float)v; uint32_t u; std::memcpy(&u, &f, 4); le(d, u, 4); v = f; }
    else { double const q = format == 0 ? 32768.0 : 8388608.0; long const k = std::lround(std::max(-1.0, std::min(v, (q - 1) / q)) * q); le(d, (uint32_t)k, bytes); v = k / q; }
  std::string s = "RIFF";
  le(s, (uint32_t)(36 + d.size()), 4);
  s += "WAVEfmt ";
  le(s, 16, 4);
  le(s, format == 2 ? 3 : 1, 2);
  le(s, (uint32_t)ch, 2);
  le(s, 48000, 4);
  le(s, (uint32_t)(48000 * ch * bytes), 4);
  le(s, (uint32_t)(ch * bytes), 2);
  le(s, (uint32_t)(8 * bytes), 2);
  s += "data";
  le(s, (uint32_t)d.size(), 4);
  (void)frames;
  return s + d;
}
// leaves values on the stack that matter if a library reads memory it never wrote
__attribute__((noinline)) void dirtyStack()
{
  volatile uint32_t a[4096];
  for (auto& v : a) v = 0x00040004;
}
template <typename T> void audioFileT(pbt::Case& c)
{
  std::size_t const ch = c.wide(1, 5, 64), frames = c.wide(1, 40, 5000), al = c.pick<std::size_t>({0, 1, 4, 8});
  int const format = (int)c.draw(3);
  std::vector<double> x(ch * frames);
  pbt::Rng r = c.rng();
  for (auto& v : x) v = r.uniform(-1, 1);
  std::string data = wav(ch, frames, format, x);
  int const fault = c.chance(20) ? (int)c.range(1, 3) : 0;
  c.note() << ch << " channels, " << frames << " frames, format " << format << ", alignment " << al << ", fault " << fault;
  c.flushNote();
  c.nontrivial();
  if (fault == 1) data = data.substr(0, c.draw(12));
  if (fault == 2) for (std::size_t i = 0; i < 12; ++i) data[i] = 'x';
  std::string path = "/proc/self/fd/nonexistent";
  MemFile f(data);
  if (fault != 3) path = f.path();
  else if (c.flag()) path = "/proc/self";
  std::string err;
  std::unique_ptr<pml::MatrixParameter<T>> m;
  dirtyStack();
  int res = pbt::outcome([&] { m.reset(new pml::MatrixParameter<T>(pml::MatrixParameter<T>::fromAudioFile(path, al))); }, &err);
  if (fault) { PBT_CHECK(res == 1, (res == 0 ? std::string("unreadable audio file accepted") : "no std::exception: " + err)); }
  else
  {
    PBT_CHECK(res == 0, "audio file rejected: " << err);
    PBT_CHECK(m->numberOfRows() == ch && m->numberOfColumns() == frames, "matrix has size " << m->numberOfRows() << "x" << m->numberOfColumns());
    checkLayout(*m);
    for (std::size_t k = 0; k < ch; ++k) for (std::size_t i = 0; i < frames; ++i) compareValue((*m)(k, i), x[i * ch + k], "sample (" + std::to_string(k) + "," + std::to_string(i) + ")");
  }
  std::unique_ptr<pml::VectorParameter<T>> v;
  dirtyStack();
  res = pbt::outcome([&] { v.reset(new pml::VectorParameter<T>(pml::VectorParameter<T>::fromAudioFile(path, al))); }, &err);
  if (fault || ch != 1) { PBT_CHECK(res == 1, (res == 0 ? std::string(fault ? "unreadable audio file accepted" : "audio file with several channels accepted as a vector") : "no std::exception: " + err)); return; }
  PBT_CHECK(res == 0, "audio file rejected: " << err);
  PBT_CHECK(v->size() == frames, "vector has " << v->size() << " elements");
  for (std::size_t i = 0; i < frames; ++i) compareValue((*v)[i], x[i], "sample " + std::to_string(i));
}
void audioFile(pbt::Case& c)
{
  switch (c.draw(4))
  {
  case 0: audioFileT<float>(c); break;
  case 1: audioFileT<double>(c); break;
  case 2: audioFileT<std::complex<float>>(c); break;
  default: audioFileT<std::complex<double>>(c);
  }
}

// ---------------------------------------------------------------------------------------------
// histories of container operations
template <typename T> T val(double a, double) { return (T)a; }
template <> std::complex<float> val<std::complex<float>>(double a, double b) { return {(float)a, (float)b}; }
template <> std::complex<double> val<std::complex<double>>(double a, double b) { return {a, b}; }

template <typename T> struct MM // model of a matrix
{
  std::size_t r = 0, c = 0, al = 1;
  std::vector<T> v;
  T& at(std::size_t i, std::size_t j) { return v[i * c + j]; }
  void zero(std::size_t nr, std::size_t nc) { r = nr; c = nc; v.assign(nr * nc, T(0)); }
};
template <typename T> void compareM(pml::MatrixParameter<T> const& m, MM<T>& o, std::string const& what)
{
  PBT_CHECK(m.numberOfRows() == o.r && m.numberOfColumns() == o.c, what << ": size " << m.numberOfRows() << "x" << m.numberOfColumns() << " instead of " << o.r << "x" << o.c);
  PBT_CHECK(m.alignmentElements() == o.al, what << ": alignment " << m.alignmentElements() << " instead of " << o.al);
  if (o.r && o.c) checkLayout(m);
  for (std::size_t i = 0; i < o.r; ++i) for (std::size_t j = 0; j < o.c; ++j) PBT_CHECK(m(i, j) == o.at(i, j) && m.at(i, j) == o.at(i, j), what << ": element (" << i << "," << j << ") is " << m(i, j) << " instead of " << o.at(i, j));
}
template <typename T> void matrixOpsT(pbt::Case& c)
{
  using M = pml::MatrixParameter<T>;
  std::size_t const k = 3;
  std::vector<std::unique_ptr<M>> m;
  std::vector<MM<T>> o(k);
  auto dim = [&] { return c.chance(8) ? (std::size_t)0 : c.wide(1, 9, 60); };
  std::size_t const r0 = dim(), c0 = dim();
  for (std::size_t i = 0; i < k; ++i)
  {
    bool const same = c.chance(60);
    std::size_t const al = c.pick<std::size_t>({1, 0, 4, 8, 16});
    std::size_t const r = same ? r0 : dim(), q = same ? c0 : dim();
    if (c.chance(20)) { m.emplace_back(new M(static_cast<ParameterConfigBase const&>(pml::MatrixParameterConfig(r, q)))); o[i].al = cVectorAlignmentSamples; }
    else { m.emplace_back(new M(r, q, al)); o[i].al = al ? al : 1; }
    o[i].zero(r, q);
    compareM(*m[i], o[i], "after construction");
  }
  std::size_t const steps = c.wide(1, 12, 80);
  c.note() << steps << " operations on matrices of size " << r0 << "x" << c0;
  if (steps > 3) c.nontrivial();
  std::string err;
  for (std::size_t s = 0; s < steps; ++s)
  {
    std::size_t const a = c.draw(k), b = c.draw(k);
    std::string what;
    switch (c.draw(11))
    {
    case 0:
    {
      what = "after setting an element";
      std::size_t const i = c.draw(o[a].r + 1), j = c.draw(o[a].c + 1);
      T const x = val<T>(c.sym(3), c.sym(3));
      bool const ok = i < o[a].r && j < o[a].c;
      int r = pbt::outcome([&] { m[a]->at(i, j) = x; }, &err);
      PBT_CHECK(r == (ok ? 0 : 1), "checked access to element (" << i << "," << j << ") of a " << o[a].r << "x" << o[a].c << " matrix: " << (r ? err : "no error"));
      if (ok) o[a].at(i, j) = x;
      break;
    }
    case 1:
    case 2:
    {
      what = "after filling in values";
      for (std::size_t i = 0; i < o[a].r; ++i) for (std::size_t j = 0; j < o[a].c; ++j) (*m[a])(i, j) = o[a].at(i, j) = val<T>((double)(s * 100 + i * 10 + j), (double)i);
      break;
    }
    case 3:
    {
      what = "after setting a row";
      if (!o[a].r) break;
      std::size_t const i = c.draw(o[a].r);
      std::vector<T> x(o[a].c + 1);
      for (auto& y : x) y = val<T>(c.sym(3), c.sym(3));
      m[a]->setRow(i, x.data());
      for (std::size_t j = 0; j < o[a].c; ++j) o[a].at(i, j) = x[j];
      break;
    }
    case 4:
    {
      what = "after setting a column";
      if (!o[a].c) break;
      std::size_t const j = c.draw(o[a].c);
      std::vector<T> x(o[a].r + 1);
      for (auto& y : x) y = val<T>(c.sym(3), c.sym(3));
      m[a]->setColumn(j, x.data());
      for (std::size_t i = 0; i < o[a].r; ++i) o[a].at(i, j) = x[i];
      break;
    }
    case 5:
    {
      what = "after filling";
      if (c.flag()) { m[a]->zeroFill(); o[a].v.assign(o[a].v.size(), T(0)); }
      else { T const x = val<T>(c.sym(3), c.sym(3)); m[a]->fillValue(x); o[a].v.assign(o[a].v.size(), x); }
      break;
    }
    case 6:
    {
      what = "after resizing";
      std::size_t const r = c.chance(50) ? r0 : dim(), q = c.chance(50) ? c0 : dim();
      m[a]->resize(r, q);
      o[a].zero(r, q);
      break;
    }
    case 7:
    case 8:
    {
      what = "after copying";
      bool const ok = o[a].r == o[b].r && o[a].c == o[b].c;
      std::size_t const way = c.draw(3);
      int r = pbt::outcome([&] {
        if (way == 0) m[a]->copy(*m[b]);
        else if (way == 1) *m[a] = *m[b];
        else m[a]->assign(static_cast<ParameterBase const&>(*m[b]));
      }, &err);
      PBT_CHECK(r == (ok ? 0 : 1), "copying a " << o[b].r << "x" << o[b].c << " matrix to a " << o[a].r << "x" << o[a].c << " matrix: " << (r ? err : "no error"));
      if (ok) o[a].v = o[b].v;
      break;
    }
    case 9:
    {
      what = "after swapping";
      bool const size = o[a].r == o[b].r && o[a].c == o[b].c, ok = size && o[a].al == o[b].al;
      int r = pbt::outcome([&] { m[a]->swap(*m[b]); }, &err);
      PBT_CHECK(r == (ok ? 0 : 1), "swapping a " << o[b].r << "x" << o[b].c << " matrix with a " << o[a].r << "x" << o[a].c << " matrix: " << (r ? err : "no error"));
      if (ok) std::swap(o[a].v, o[b].v);
      break;
    }
    default:
    {
      what = "after cloning";
      std::unique_ptr<ParameterBase> p = m[b]->clone();
      M* n = dynamic_cast<M*>(p.get());
      PBT_CHECK(n, "clone has a different type");
      p.release();
      m[a].reset(new M(*n));
      delete n;
      o[a] = o[b];
      pml::ScalarParameter<float> other;
      pbt::mustThrow([&] { m[a]->assign(static_cast<ParameterBase const&>(other)); }, "assignment of a parameter of a different type");
    }
    }
    for (std::size_t i = 0; i < k; ++i) compareM(*m[i], o[i], what + ", matrix " + std::to_string(i));
  }
  pbt::mustThrow([&] { M bad(2, 2, (std::size_t)3); }, "alignment that is not a power of two");
}
void matrixOps(pbt::Case& c)
{
  switch (c.draw(4))
  {
  case 0: matrixOpsT<float>(c); break;
  case 1: matrixOpsT<double>(c); break;
  case 2: matrixOpsT<std::complex<float>>(c); break;
  default: matrixOpsT<std::complex<double>>(c);
  }
}

template <typename T> void vectorOpsT(pbt::Case& c)
{
  using V = pml::VectorParameter<T>;
  std::size_t const k = 3;
  std::vector<std::unique_ptr<V>> m;
  std::vector<std::vector<T>> o(k);
  std::vector<std::size_t> align(k);
  auto dim = [&] { return c.chance(8) ? (std::size_t)0 : c.wide(1, 20, 300); };
  std::size_t const n0 = dim();
  auto compare = [&](std::string const& what) {
    for (std::size_t i = 0; i < k; ++i)
    {
      V const& v = *m[i];
      PBT_CHECK(v.size() == o[i].size(), what << ", vector " << i << ": size " << v.size() << " instead of " << o[i].size());
      PBT_CHECK(v.alignmentElements() == align[i], what << ", vector " << i << ": alignment " << v.alignmentElements() << " instead of " << align[i]);
      PBT_CHECK((std::uintptr_t)v.data() % (align[i] * sizeof(T)) == 0, what << ": data not aligned");
      for (std::size_t j = 0; j < o[i].size(); ++j) PBT_CHECK(v[j] == o[i][j] && v.at(j) == o[i][j] && v.data()[j] == o[i][j], what << ", vector " << i << ": element " << j << " is " << v[j] << " instead of " << o[i][j]);
    }
  };
  for (std::size_t i = 0; i < k; ++i)
  {
    std::size_t const n = c.chance(60) ? n0 : dim(), al = c.pick<std::size_t>({1, 0, 4, 8, 16});
    o[i].assign(n, T(0));
    align[i] = al ? al : 1;
    if (c.chance(20)) { m.emplace_back(new V(static_cast<ParameterConfigBase const&>(pml::VectorParameterConfig(n)))); align[i] = cVectorAlignmentSamples; }
    else m.emplace_back(new V(n, al));
  }
  compare("after construction");
  std::size_t const steps = c.wide(1, 12, 80);
  c.note() << steps << " operations on vectors of size " << n0;
  if (steps > 3) c.nontrivial();
  std::string err;
  for (std::size_t s = 0; s < steps; ++s)
  {
    std::size_t const a = c.draw(k), b = c.draw(k);
    bool const size = o[a].size() == o[b].size();
    std::string what;
    switch (c.draw(9))
    {
    case 0:
    {
      what = "after setting an element";
      std::size_t const i = c.draw(o[a].size() + 1);
      T const x = val<T>(c.sym(3), c.sym(3));
      bool const ok = i < o[a].size();
      int r = pbt::outcome([&] { m[a]->at(i) = x; }, &err);
      PBT_CHECK(r == (ok ? 0 : 1), "checked access to element " << i << " of " << o[a].size() << ": " << (r ? err : "no error"));
      if (ok) o[a][i] = x;
      break;
    }
    case 1:
    case 2:
      what = "after filling in values";
      for (std::size_t i = 0; i < o[a].size(); ++i) (*m[a])[i] = o[a][i] = val<T>((double)(s * 100 + i), (double)i);
      break;
    case 3:
      what = "after filling";
      if (c.flag()) { m[a]->zeroFill(); o[a].assign(o[a].size(), T(0)); }
      else { T const x = val<T>(c.sym(3), c.sym(3)); m[a]->fillValue(x); o[a].assign(o[a].size(), x); }
      break;
    case 4:
    {
      what = "after resizing";
      std::size_t const n = c.chance(50) ? n0 : dim();
      m[a]->resize(n);
      o[a].assign(n, T(0));
      break;
    }
    case 5:
    case 6:
    {
      what = "after copying";
      std::size_t const way = c.draw(4);
      if (way == 3) // takes over the size
      {
        if (a != b) m[a]->efl::BasicVector<T>::assign(*m[b]);
        o[a] = o[b];
        break;
      }
      int r = pbt::outcome([&] {
        if (way == 0) m[a]->copy(*m[b]);
        else if (way == 1) *m[a] = *m[b];
        else static_cast<ParameterBase&>(*m[a]).assign(static_cast<ParameterBase const&>(*m[b]));
      }, &err);
      PBT_CHECK(r == (size ? 0 : 1), "copying a vector of size " << o[b].size() << " to one of size " << o[a].size() << ": " << (r ? err : "no error"));
      if (size) o[a] = o[b];
      break;
    }
    case 7:
    {
      what = "after swapping";
      bool const ok = size && align[a] == align[b];
      int r = pbt::outcome([&] { m[a]->swap(*m[b]); }, &err);
      PBT_CHECK(r == (ok ? 0 : 1), "swapping vectors of size " << o[b].size() << " and " << o[a].size() << ": " << (r ? err : "no error"));
      if (ok) std::swap(o[a], o[b]);
      break;
    }
    default:
    {
      what = "after cloning";
      std::unique_ptr<ParameterBase> p = m[b]->clone();
      V* n = dynamic_cast<V*>(p.get());
      PBT_CHECK(n, "clone has a different type");
      p.release();
      m[a].reset(new V(*n));
      delete n;
      o[a] = std::vector<T>(o[b]);
      align[a] = align[b];
      pml::ScalarParameter<float> other;
      pbt::mustThrow([&] { static_cast<ParameterBase&>(*m[a]).assign(static_cast<ParameterBase const&>(other)); }, "assignment of a parameter of a different type");
    }
    }
    compare(what);
  }
}
void vectorOps(pbt::Case& c)
{
  switch (c.draw(4))
  {
  case 0: vectorOpsT<float>(c); break;
  case 1: vectorOpsT<double>(c); break;
  case 2: vectorOpsT<std::complex<float>>(c); break;
  default: vectorOpsT<std::complex<double>>(c);
  }
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "text with more than one row or element or with a fault; any audio file; history of more than three operations";
  s.subs = {{"matrixText", matrixText, 60000, 1500000}, {"vectorText", vectorText, 40000, 1000000}, {"audioFile", audioFile, 12000, 300000}, {"matrixOps", matrixOps, 40000, 1000000}, {"vectorOps", vectorOps, 40000, 1000000}};
  s.assumptions = {"matrix comments contain no semicolon; vector comments end the text", "WAV files: PCM 16/24 bit and 32 bit float"};
  return pbt::run(argc, argv, s);
}
