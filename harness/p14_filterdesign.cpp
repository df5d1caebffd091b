// P14: filter coefficients: parametric equaliser design, exchange formats, containers.
#include "objects.hpp"
#include "pbt.hpp"

#include <librbbl/biquad_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>

#include <complex>
#include <iostream>

using namespace visr::rbbl;
using Type = ParametricIirCoefficientBase::Type;

namespace
{
struct Quiet
{
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
Type const allTypes[] = {Type::lowpass, Type::highpass, Type::bandpass, Type::bandstop, Type::highshelf, Type::lowshelf, Type::peak, Type::allpass};
char const* typeName(Type t)
{
  switch (t)
  {
  case Type::lowpass: return "lowpass";
  case Type::highpass: return "highpass";
  case Type::bandpass: return "bandpass";
  case Type::bandstop: return "bandstop";
  case Type::highshelf: return "highshelf";
  case Type::lowshelf: return "lowshelf";
  case Type::peak: return "peak";
  default: return "allpass";
  }
}
struct Eq { Type type; double f, q, gain; };
Eq anyEq(pbt::Case& c, double fs)
{
  Eq e;
  e.type = allTypes[c.draw(8)];
  e.f = (float)(c.chance(20) ? fs * c.real(0.0005, 0.4995) : c.real(fs * 0.002, fs * 0.45));
  e.q = (float)(c.chance(20) ? c.real(0.02, 0.2) : c.real(0.2, 12));
  e.gain = (float)(c.chance(20) ? 0.0 : c.sym(30));
  return e;
}

// analogue prototype, normalised to 1 rad/s:  (n2 s^2 + n1 s + n0) / (d2 s^2 + d1 s + d0)
struct Proto { double n[3], d[3]; };
Proto prototype(Eq const& e)
{
  double const A = std::pow(10.0, e.gain / 40), r = std::sqrt(A), iq = 1 / e.q;
  switch (e.type)
  {
  case Type::lowpass: return {{0, 0, 1}, {1, iq, 1}};
  case Type::highpass: return {{1, 0, 0}, {1, iq, 1}};
  case Type::bandpass: return {{0, iq, 0}, {1, iq, 1}};
  case Type::bandstop: return {{1, 0, 1}, {1, iq, 1}};
  case Type::allpass: return {{1, -iq, 1}, {1, iq, 1}};
  case Type::peak: return {{1, A * iq, 1}, {1, iq / A, 1}};
  case Type::lowshelf: return {{A, A * r * iq, A * A}, {A, r * iq, 1}};
  default: return {{A * A, A * r * iq, A}, {1, r * iq, A}};
  }
}
// bilinear transform with pre-warping to the centre frequency
void design(Eq const& e, double fs, double out[5])
{
  Proto p = prototype(e);
  double const K = std::tan(3.14159265358979323846 * e.f / fs);
  auto poly = [K](double const* n, double* z) {
    z[0] = n[0] + n[1] * K + n[2] * K * K;
    z[1] = -2 * n[0] + 2 * n[2] * K * K;
    z[2] = n[0] - n[1] * K + n[2] * K * K;
  };
  double b[3], a[3];
  poly(p.n, b);
  poly(p.d, a);
  out[0] = b[0] / a[0]; out[1] = b[1] / a[0]; out[2] = b[2] / a[0];
  out[3] = a[1] / a[0]; out[4] = a[2] / a[0];
}

template <typename T> void comparePeq(BiquadCoefficient<T> const& got, Eq const& e, double fs, std::string const& what)
{
  double ref[5];
  design(e, fs, ref);
  double mag = 1;
  for (double x : ref) mag = std::max(mag, std::abs(x));
  double const tol = (sizeof(T) == 4 ? 1e-5 : 1e-9) * mag * (1 + 0.05 / e.q);
  T const acc[5] = {got.b0(), got.b1(), got.b2(), got.a1(), got.a2()};
  for (int i = 0; i < 5; ++i)
  {
    PBT_CHECK(std::abs(acc[i] - ref[i]) <= tol, what << " " << typeName(e.type) << " f=" << e.f << " q=" << e.q << " gain=" << e.gain << " fs=" << fs << ": coefficient " << i << " is " << acc[i] << " instead of " << ref[i]);
    PBT_CHECK(got[i] == acc[i] && got.at(i) == acc[i] && got.data()[i] == acc[i], "coefficient access differs");
  }
}

template <typename T> void peqT(pbt::Case& c)
{
  double const fs = c.pick<double>({48000, 44100, 96000, 8000, 192000});
  std::size_t const n = c.wide(0, 5, 40);
  std::vector<Eq> eqs;
  ParametricIirCoefficientList<T> lst;
  lst.resize(n);
  for (std::size_t i = 0; i < n; ++i)
  {
    Eq e = anyEq(c, fs);
    eqs.push_back(e);
    c.note() << typeName(e.type) << " f=" << e.f << " q=" << e.q << " g=" << e.gain << "; ";
    ParametricIirCoefficient<T> p(e.type, (T)e.f, (T)e.q, (T)e.gain);
    if (c.flag())
    {
      ParametricIirCoefficient<T> d;
      PBT_CHECK(d.type() == Type::allpass && d.gain() == 0, "default section is not flat");
      d.setGain((T)e.gain); d.setQuality((T)e.q); d.setFrequency((T)e.f); d.setType(e.type);
      p = d;
    }
    PBT_CHECK(p.type() == e.type && p.frequency() == (T)e.f && p.quality() == (T)e.q && p.gain() == (T)e.gain, "parameters differ from those set");
    lst[i] = p;
    comparePeq(ParametricIirCoefficientCalculator::calculateIirCoefficients<T>(p, (T)fs), e, fs, "single section");
    BiquadCoefficient<T> out{1, 2, 3, 4, 5};
    ParametricIirCoefficientCalculator::calculateIirCoefficients<T>(p, out, (T)fs);
    comparePeq(out, e, fs, "single section");
  }
  std::size_t const m = c.size(0, 7);
  c.note() << m << " biquads, fs=" << fs;
  BiquadCoefficientList<T> bq(m);
  for (std::size_t i = 0; i < m; ++i) bq[i] = BiquadCoefficient<T>{(T)c.sym(1), (T)c.sym(1), (T)c.sym(1), (T)c.sym(1), (T)c.sym(1)};
  if (n > 0) c.nontrivial();
  std::string err;
  int r = pbt::outcome([&] { ParametricIirCoefficientCalculator::calculateIirCoefficients<T>(lst, bq, (T)fs); }, &err);
  if (n > m) { PBT_CHECK(r == 1, "a list of " << n << " sections was accepted for " << m << " biquads"); return; }
  PBT_CHECK(r == 0, "unexpected error: " << err);
  PBT_CHECK(bq.size() == m, "number of biquads changed");
  for (std::size_t i = 0; i < m; ++i)
  {
    if (i < n) comparePeq(bq[i], eqs[i], fs, "list element");
    else
      for (std::size_t k = 0; k < 5; ++k) PBT_CHECK(bq[i][k] == (k == 0 ? 1 : 0), "remaining section " << i << " is not flat");
  }
}
void peq(pbt::Case& c)
{
  if (c.flag()) peqT<double>(c);
  else peqT<float>(c);
}

std::string txt(double v)
{
  char b[50];
  std::snprintf(b, sizeof b, "%.9g", v);
  return b;
}
om::Json number(pbt::Case& c, double v) { return c.chance(15) ? om::Json::str(txt(v)) : om::Json::num(txt(v)); }
void shuffle(pbt::Case& c, om::Json& j)
{
  for (std::size_t i = j.kids.size(); i > 1; --i) std::swap(j.kids[i - 1], j.kids[c.draw(i)]);
}

// ---------------------------------------------------------------------------------------------
// exchange formats of parametric equalisers
template <typename T> bool same(ParametricIirCoefficient<T> const& p, Eq const& e)
{
  auto cl = [](double a, double b) { return std::abs(a - b) <= 2e-7 * (std::abs(b) + 1e-30); };
  return p.type() == e.type && cl(p.frequency(), e.f) && cl(p.quality(), e.q) && (cl(p.gain(), e.gain) || std::abs(p.gain() - e.gain) < 2.4e-7);
}
template <typename T> void compareList(ParametricIirCoefficientList<T> const& l, std::vector<Eq> const& e, std::string const& what)
{
  PBT_CHECK(l.size() == e.size() && l.empty() == e.empty(), what << ": " << l.size() << " sections instead of " << e.size());
  for (std::size_t i = 0; i < e.size(); ++i)
    PBT_CHECK(same(l.at(i), e[i]), what << ": section " << i << " is " << typeName(l[i].type()) << " " << l[i].frequency() << " " << l[i].quality() << " " << l[i].gain() << " instead of " << typeName(e[i].type) << " " << e[i].f << " " << e[i].q << " " << e[i].gain);
}
// damage: 0 none, 1 missing field, 2 unknown type, 3 not a number
om::Json peqJson(pbt::Case& c, Eq& e, int damage)
{
  om::Json j = om::Json::obj();
  j.add("type", om::Json::str(damage == 2 ? c.pick<std::string>({"lowpas", "", "Peak", "notch"}) : typeName(e.type)));
  bool const badF = damage == 3 && c.flag();
  j.add("f", badF ? om::Json::str("abc") : number(c, e.f));
  j.add("q", damage == 3 && !badF ? om::Json::str("1,5") : number(c, e.q));
  if (e.gain != 0 || c.flag()) j.add("gain", number(c, e.gain));
  if (damage == 1) j.erase(c.pick<std::string>({"type", "f", "q"}));
  shuffle(c, j);
  return j;
}
std::string peqXml(pbt::Case& c, Eq const& e, int damage)
{
  std::vector<std::string> a;
  int const drop = damage == 1 ? (int)c.draw(3) : -1;
  if (drop != 0) a.push_back(std::string("type=\"") + (damage == 2 ? c.pick<std::string>({"lowpas", "", "Peak"}) : typeName(e.type)) + "\"");
  bool const badF = damage == 3 && c.flag();
  if (drop != 1) a.push_back("f=\"" + (badF ? std::string("abc") : txt(e.f)) + "\"");
  if (drop != 2) a.push_back("q=\"" + (damage == 3 && !badF ? std::string("1,5") : txt(e.q)) + "\"");
  if (e.gain != 0 || c.flag()) a.push_back("gain=\"" + txt(e.gain) + "\"");
  for (std::size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[c.draw(i)]);
  std::string s = "<eq";
  for (auto const& x : a) s += " " + x;
  return s + (c.flag() ? "/>" : "></eq>");
}
template <typename T> void peqTextT(pbt::Case& c)
{
  Quiet q;
  std::size_t const n = c.wide(0, 4, 40);
  std::vector<Eq> e, old;
  for (std::size_t i = 0; i < n; ++i) e.push_back(anyEq(c, 48000));
  ParametricIirCoefficientList<T> l;
  std::size_t const n0 = c.size(0, 2);
  for (std::size_t i = 0; i < n0; ++i) old.push_back(anyEq(c, 48000));
  l.resize(n0);
  for (std::size_t i = 0; i < n0; ++i) l[i] = ParametricIirCoefficient<T>(old[i].type, (T)old[i].f, (T)old[i].q, (T)old[i].gain);
  int const damage = n && c.chance(30) ? (int)c.range(1, 3) : 0;
  std::size_t const which = damage ? c.draw(n) : n;
  bool const xml = c.flag();
  std::string t;
  if (xml)
    for (std::size_t i = 0; i < n; ++i) t += peqXml(c, e[i], i == which ? damage : 0) + (c.chance(20) ? "\n" : "");
  else
  {
    om::Json a = om::Json::arr();
    for (std::size_t i = 0; i < n; ++i) a.add("", peqJson(c, e[i], i == which ? damage : 0));
    std::ostringstream os;
    a.write(os, &c);
    t = os.str();
  }
  c.note() << t;
  c.flushNote();
  if (n) c.nontrivial();
  bool const viaStream = c.flag();
  std::istringstream is(t);
  std::string err;
  int r = pbt::outcome([&] {
    if (xml && viaStream) l.loadXml(is);
    else if (xml) l.loadXml(t);
    else if (viaStream) l.loadJson(is);
    else l.loadJson(t);
  }, &err);
  if (damage)
  {
    c.label("damaged");
    PBT_CHECK(r == 1, (r == 0 ? "faulty text accepted" : "no std::exception: " + err));
    compareList(l, old, "after a rejected text");
    return;
  }
  if (xml && n == 0 && r != 0) return; // an empty XML document
  PBT_CHECK(r == 0, "valid text rejected: " << err);
  compareList(l, e, "after reading");
  if (n && c.flag()) // single section
  {
    om::Json j = peqJson(c, e[0], 0);
    std::ostringstream os;
    j.write(os, &c);
    std::istringstream is1(os.str());
    auto const p = c.flag() ? ParametricIirCoefficient<T>::fromJson(os.str()) : ParametricIirCoefficient<T>::fromJson(is1);
    PBT_CHECK(same(p, e[0]), "single section read from JSON differs");
    std::string o;
    if (c.flag()) p.writeJson(o);
    else { std::ostringstream w; p.writeJson(w); o = w.str(); }
    ParametricIirCoefficient<T> back;
    int r1 = pbt::outcome([&] { back = ParametricIirCoefficient<T>::fromJson(o); }, &err);
    PBT_CHECK(r1 == 0 && same(back, e[0]), "single section is not restored from its own JSON text \"" << o << "\" " << err);
    std::string const x = peqXml(c, e[0], 0);
    bool const s = c.flag();
    r1 = pbt::outcome([&] { std::istringstream i(x); back = s ? ParametricIirCoefficient<T>::fromXml(i) : ParametricIirCoefficient<T>::fromXml(x); }, &err);
    PBT_CHECK(r1 == 0 && same(back, e[0]), "single section is not read from XML \"" << x << "\" " << err);
    if (s) p.writeXml(o);
    else { std::ostringstream w; p.writeXml(w); o = w.str(); }
    r1 = pbt::outcome([&] { back = ParametricIirCoefficient<T>::fromXml(o); }, &err);
    PBT_CHECK(r1 == 0 && same(back, e[0]), "single section is not restored from its own XML text \"" << o << "\" " << err);
    if (n > 1) // read into a section that has been used before
    {
      bool const x2 = c.flag();
      std::ostringstream os2;
      if (!x2) peqJson(c, e[1], 0).write(os2, &c);
      std::string const t2 = x2 ? peqXml(c, e[1], 0) : os2.str();
      std::istringstream is2(t2);
      bool const s2 = c.flag();
      r1 = pbt::outcome([&] { if (x2) { if (s2) back.loadXml(is2); else back.loadXml(t2); } else { if (s2) back.loadJson(is2); else back.loadJson(t2); } }, &err);
      PBT_CHECK(r1 == 0 && same(back, e[1]), "section is not read into one used before from \"" << t2 << "\" " << err);
    }
  }
  if (n == 0) return; // an empty list has no distinguishable text
  // round trips
  for (int k = 0; k < 2; ++k)
  {
    std::string o;
    ParametricIirCoefficientList<T> m;
    bool const s = c.flag();
    int w = pbt::outcome([&] {
      std::ostringstream os;
      if (k == 0) { if (s) { l.writeJson(os); o = os.str(); } else l.writeJson(o); m.loadJson(o); }
      else { if (s) { l.writeXml(os); o = os.str(); } else l.writeXml(o); m.loadXml(o); }
    }, &err);
    PBT_CHECK(w == 0, (k ? "XML" : "JSON") << " text written by the list cannot be read: " << err << "\n" << o);
    compareList(m, e, std::string(k ? "XML" : "JSON") + " round trip");
  }
}
void peqText(pbt::Case& c)
{
  if (c.flag()) peqTextT<double>(c);
  else peqTextT<float>(c);
}

// ---------------------------------------------------------------------------------------------
// exchange formats of biquads
struct Bq { double b[5]; };
Bq anyBq(pbt::Case& c)
{
  Bq b;
  for (double& x : b.b) x = (float)(c.chance(20) ? c.range(-2, 2) : c.chance(10) ? c.sym(1e-6) : c.sym(2));
  return b;
}
char const* key[5] = {"b0", "b1", "b2", "a1", "a2"};
template <typename T> void compareBq(BiquadCoefficient<T> const& g, Bq const& e, std::string const& what)
{
  for (std::size_t i = 0; i < 5; ++i)
    PBT_CHECK(std::abs(g[i] - e.b[i]) <= 1e-6 * std::abs(e.b[i]), what << ": " << key[i] << " is " << g[i] << " instead of " << e.b[i]);
}
om::Json bqJson(pbt::Case& c, Bq const& b, int damage)
{
  om::Json j = om::Json::obj();
  double const a0 = c.chance(30) ? c.pick<double>({2, 0.5, -1, 4, 0.25}) : 1;
  for (int i = 0; i < 5; ++i) j.add(key[i], damage == 2 && i == 2 ? om::Json::str("x1") : number(c, b.b[i] * a0));
  if (a0 != 1 || c.chance(20)) j.add("a0", number(c, a0));
  if (damage == 1) j.erase(key[c.draw(5)]);
  shuffle(c, j);
  return j;
}
std::string bqXml(pbt::Case& c, Bq const& b, int damage)
{
  double const a0 = c.chance(30) ? c.pick<double>({2, 0.5, -1, 4, 0.25}) : 1;
  std::vector<std::string> a;
  int const drop = damage == 1 ? (int)c.draw(5) : -1;
  for (int i = 0; i < 5; ++i) if (i != drop) a.push_back(std::string(key[i]) + "=\"" + (damage == 2 && i == 3 ? std::string("x1") : txt(b.b[i] * a0)) + "\"");
  if (a0 != 1 || c.chance(20)) a.push_back("a0=\"" + txt(a0) + "\"");
  for (std::size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[c.draw(i)]);
  std::string s = "<biquad";
  for (auto const& x : a) s += " " + x;
  return s + (c.flag() ? "/>" : "></biquad>");
}
template <typename T> void bqTextT(pbt::Case& c)
{
  std::string err;
  switch (c.draw(5))
  {
  case 0: // single
  {
    Bq b = anyBq(c);
    int const damage = c.chance(25) ? (int)c.range(1, 2) : 0;
    bool const xml = c.flag(), stream = c.flag();
    std::ostringstream os;
    if (xml) os << bqXml(c, b, damage);
    else bqJson(c, b, damage).write(os, &c);
    c.note() << os.str();
    c.nontrivial();
    BiquadCoefficient<T> g;
    int r = pbt::outcome([&] {
      std::istringstream is(os.str());
      g = xml ? (stream ? BiquadCoefficient<T>::fromXml(is) : BiquadCoefficient<T>::fromXml(os.str())) : (stream ? BiquadCoefficient<T>::fromJson(is) : BiquadCoefficient<T>::fromJson(os.str()));
    }, &err);
    if (damage) { PBT_CHECK(r == 1, (r == 0 ? "faulty text accepted" : "no std::exception: " + err)); return; }
    PBT_CHECK(r == 0, "valid text rejected: " << err);
    compareBq(g, b, "single section");
    std::string o;
    g.writeJson(o);
    auto h = BiquadCoefficient<T>::fromJson(o);
    for (std::size_t i = 0; i < 5; ++i) PBT_CHECK(h[i] == g[i], "round trip changes " << key[i] << " from " << g[i] << " to " << h[i]);
    break;
  }
  case 1:
  case 2: // list
  {
    std::size_t const n = c.wide(0, 5, 40);
    std::vector<Bq> b;
    for (std::size_t i = 0; i < n; ++i) b.push_back(anyBq(c));
    int const damage = n && c.chance(25) ? (int)c.range(1, 2) : 0;
    std::size_t const which = damage ? c.draw(n) : n;
    bool const xml = c.flag(), stream = c.flag();
    std::ostringstream os;
    if (xml)
    {
      os << "<filterSpec>";
      for (std::size_t i = 0; i < n; ++i) os << bqXml(c, b[i], i == which ? damage : 0) << (c.chance(20) ? "\n" : "");
      os << "</filterSpec>";
    }
    else
    {
      om::Json a = om::Json::arr();
      for (std::size_t i = 0; i < n; ++i) a.add("", bqJson(c, b[i], i == which ? damage : 0));
      a.write(os, &c);
    }
    c.note() << os.str();
    if (n) c.nontrivial();
    BiquadCoefficientList<T> g;
    int r = pbt::outcome([&] {
      std::istringstream is(os.str());
      g = xml ? (stream ? BiquadCoefficientList<T>::fromXml(is) : BiquadCoefficientList<T>::fromXml(os.str())) : (stream ? BiquadCoefficientList<T>::fromJson(is) : BiquadCoefficientList<T>::fromJson(os.str()));
    }, &err);
    if (damage) { PBT_CHECK(r == 1, (r == 0 ? "faulty text accepted" : "no std::exception: " + err)); return; }
    PBT_CHECK(r == 0, "valid text rejected: " << err);
    PBT_CHECK(g.size() == n, g.size() << " sections instead of " << n);
    for (std::size_t i = 0; i < n; ++i) compareBq(g[i], b[i], "section " + std::to_string(i));
    if (n)
    {
      std::string o;
      g.writeJson(o);
      auto h = BiquadCoefficientList<T>::fromJson(o);
      PBT_CHECK(h.size() == n, "round trip changes the number of sections");
      for (std::size_t k = 0; k < n; ++k) for (std::size_t i = 0; i < 5; ++i) PBT_CHECK(h[k][i] == g[k][i], "round trip changes section " << k);
    }
    break;
  }
  case 3: // matrix text
  {
    std::size_t const rows = c.wide(0, 4, 20), cols = c.wide(1, 3, 15);
    std::vector<std::vector<Bq>> b(rows);
    int const damage = rows && c.chance(35) ? (int)c.range(1, 3) : 0;
    std::size_t const dr = damage ? c.draw(rows) : rows;
    om::Json m = om::Json::arr();
    bool ragged = false;
    for (std::size_t r = 0; r < rows; ++r)
    {
      om::Json a = om::Json::arr();
      std::size_t n = cols;
      if (r == dr && damage == 3 && rows > 1) { n = c.flag() && cols > 1 ? cols - 1 : cols + 1; ragged = true; }
      for (std::size_t i = 0; i < n; ++i) { b[r].push_back(anyBq(c)); a.add("", bqJson(c, b[r][i], r == dr && i == 0 && damage < 3 ? damage : 0)); }
      m.add("", a);
    }
    std::ostringstream os;
    m.write(os, &c);
    c.note() << os.str();
    if (rows) c.nontrivial();
    BiquadCoefficientMatrix<T> g(0, 0);
    bool const stream = c.flag();
    int r = pbt::outcome([&] {
      std::istringstream is(os.str());
      if (stream) g.loadJson(is);
      else g = BiquadCoefficientMatrix<T>::fromJson(os.str());
    }, &err);
    if (ragged || damage == 1 || damage == 2) { PBT_CHECK(r == 1, (r == 0 ? std::string(ragged ? "matrix with rows of different lengths accepted" : "faulty text accepted") : "no std::exception: " + err)); return; }
    PBT_CHECK(r == 0, "valid text rejected: " << err);
    PBT_CHECK(g.numberOfFilters() == rows && g.numberOfSections() == (rows ? cols : 0), "matrix has size " << g.numberOfFilters() << "x" << g.numberOfSections());
    for (std::size_t x = 0; x < rows; ++x) for (std::size_t y = 0; y < cols; ++y) compareBq(g(x, y), b[x][y], "element"), compareBq(g[x][y], b[x][y], "element");
    break;
  }
  default: // matrix operations against a model
  {
    std::size_t rows = c.size(1, 4), cols = c.size(1, 4);
    BiquadCoefficientMatrix<T> g(rows, cols);
    Bq const flat{{1, 0, 0, 0, 0}};
    std::vector<std::vector<Bq>> m(rows, std::vector<Bq>(cols, flat));
    std::size_t const steps = c.size(1, 8);
    c.note() << rows << "x" << cols << " matrix, " << steps << " operations";
    if (steps > 2) c.nontrivial();
    for (std::size_t k = 0; k < steps; ++k)
    {
      switch (c.weighted({5, 2, 1}))
      {
      case 0:
      {
        std::size_t const row = c.draw(rows + 1), n = c.size(1, cols + 1);
        BiquadCoefficientList<T> l(n);
        std::vector<Bq> v;
        for (std::size_t i = 0; i < n; ++i) { v.push_back(anyBq(c)); for (int x = 0; x < 5; ++x) l[i][x] = (T)v[i].b[x]; }
        int r = pbt::outcome([&] { g.setFilter(row, l); }, &err);
        bool const valid = row < rows && n <= cols;
        PBT_CHECK(r == (valid ? 0 : 1), "setting filter " << row << " with " << n << " sections: " << (r ? err : "accepted"));
        if (valid) { v.resize(cols, flat); m[row] = v; }
        break;
      }
      case 1:
      {
        std::size_t const row = c.draw(rows), col = c.draw(cols);
        Bq b = anyBq(c);
        g(row, col) = BiquadCoefficient<T>((T)b.b[0], (T)b.b[1], (T)b.b[2], (T)b.b[3], (T)b.b[4]);
        m[row][col] = b;
        break;
      }
      default:
        rows = c.size(1, 4);
        cols = c.size(1, 4);
        g.resize(rows, cols);
        m.assign(rows, std::vector<Bq>(cols, flat));
      }
      PBT_CHECK(g.numberOfFilters() == rows && g.numberOfSections() == cols, "matrix has size " << g.numberOfFilters() << "x" << g.numberOfSections());
      for (std::size_t x = 0; x < rows; ++x) for (std::size_t y = 0; y < cols; ++y) compareBq(g(x, y), m[x][y], "element (" + std::to_string(x) + "," + std::to_string(y) + ")");
    }
  }
  }
}
void bqText(pbt::Case& c)
{
  if (c.flag()) bqTextT<double>(c);
  else bqTextT<float>(c);
}
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "at least one filter section in the list, text or history";
  s.subs = {{"peq", peq, 50000, 800000}, {"peqText", peqText, 35000, 600000}, {"bqText", bqText, 50000, 600000}};
  s.assumptions = {"0 < f < fs/2 and q > 0"};
  return pbt::run(argc, argv, s);
}
