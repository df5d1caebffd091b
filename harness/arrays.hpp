// Model of a loudspeaker array configuration, its XML text, and a generator of arrays with a
// valid (closed) triangulation.
#ifndef VERIF_ARRAYS_HPP
#define VERIF_ARRAYS_HPP
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace arr
{
using V3 = std::array<double, 3>;
double const PI = 3.14159265358979323846;
inline V3 operator-(V3 const& a, V3 const& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline V3 operator+(V3 const& a, V3 const& b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
inline V3 operator*(double k, V3 const& a) { return {{k * a[0], k * a[1], k * a[2]}}; }
inline double dot(V3 const& a, V3 const& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(V3 const& a, V3 const& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
inline double len(V3 const& a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 const& a) { double const l = len(a); return l > 0 ? (1 / l) * a : a; }
inline V3 direction(double az, double el) { return {{std::cos(az) * std::cos(el), std::sin(az) * std::cos(el), std::sin(el)}}; }

// file that exists only in memory
struct MemFile
{
  int fd;
  explicit MemFile(std::string const& data) : fd(memfd_create("verif", 0))
  {
    if (fd < 0) throw std::runtime_error("memfd_create");
    for (std::size_t p = 0; p < data.size();) { ssize_t const n = write(fd, data.data() + p, data.size() - p); if (n <= 0) throw std::runtime_error("write"); p += (std::size_t)n; }
  }
  ~MemFile() { close(fd); }
  std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
};

struct Quiet // silences std::cout and std::cerr
{
  std::ostringstream sink;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

struct Pos
{
  V3 p{};
  bool polar = false;
  V3 aer{}; // degrees, radius
};
struct Adjust
{
  int gainMode = 0; // 0 none, 1 linear, 2 dB
  double gain = 1;  // as written
  bool hasDelay = false;
  double delay = 0;
  std::string eq;
  double linear() const { return gainMode == 0 ? 1 : gainMode == 1 ? gain : std::pow(10.0, gain / 20); }
};
struct Spk { std::string id; std::size_t channel = 1; Pos pos; Adjust adj; };
struct Virt { std::string id; Pos pos; std::vector<std::pair<std::string, double>> routes; };
struct Sub { std::size_t channel = 1; std::vector<std::string> assigned; bool hasWeights = false; std::vector<double> weights; Adjust adj; };
struct Eq { std::string name; std::vector<std::array<double, 6>> biquads; }; // a0 a1 a2 b0 b1 b2
struct Array
{
  bool is2D = false, infinite = false, hasEq = false;
  std::vector<Spk> spk;
  std::vector<Virt> virt;
  std::vector<Sub> subs;
  std::vector<std::array<std::string, 3>> tri;
  std::size_t numBiquads = 0;
  std::vector<Eq> eqs;

  // definition index of the k-th regular loudspeaker (sorted by channel)
  std::vector<std::size_t> order() const
  {
    std::vector<std::size_t> o(spk.size());
    for (std::size_t i = 0; i < o.size(); ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [this](std::size_t a, std::size_t b) { return spk[a].channel < spk[b].channel; });
    return o;
  }
  std::vector<V3> positions() const // all loudspeakers in logical order
  {
    std::vector<V3> r;
    for (auto i : order()) r.push_back(spk[i].pos.p);
    for (auto const& v : virt) r.push_back(v.pos.p);
    return r;
  }
  std::vector<std::string> ids() const
  {
    std::vector<std::string> r;
    for (auto i : order()) r.push_back(spk[i].id);
    for (auto const& v : virt) r.push_back(v.id);
    return r;
  }
  std::size_t index(std::string const& id) const
  {
    auto const l = ids();
    return (std::size_t)(std::find(l.begin(), l.end(), id) - l.begin());
  }
};

// number text that reads back as exactly this float
inline std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.9g", (double)(float)v); return b; }
inline std::string esc(std::string const& s)
{
  std::string r;
  for (char ch : s) { if (ch == '&') r += "&amp;"; else if (ch == '<') r += "&lt;"; else if (ch == '"') r += "&quot;"; else if (ch == '\'') r += "&apos;"; else r += ch; }
  return r;
}

// ---------------------------------------------------------------------------------------------
// XML text
struct Elem
{
  std::string name;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<Elem> kids;
  Elem(std::string n = "") : name(n) {}
  Elem& a(std::string const& k, std::string const& v) { attr.push_back({k, v}); return *this; }
  bool drop(std::string const& k) { for (auto it = attr.begin(); it != attr.end(); ++it) if (it->first == k) { attr.erase(it); return true; } return false; }
  std::string* get(std::string const& k) { for (auto& x : attr) if (x.first == k) return &x.second; return nullptr; }
};
inline std::string space(pbt::Case& c) { return c.chance(85) ? c.pick<std::string>({"", "\n", " "}) : c.pick<std::string>({"\t", "\r\n", "<!-- note -->", "\n<!-- <loudspeaker id='zz'/> -->\n"}); }
inline void print(pbt::Case& c, Elem& e, std::string& out)
{
  for (std::size_t i = e.attr.size(); i > 1; --i) std::swap(e.attr[i - 1], e.attr[i - 1 - (c.chance(30) ? c.draw(i) : 0)]);
  out += "<" + e.name;
  for (auto const& a : e.attr) { std::string const q = c.chance(20) ? "'" : "\""; out += " " + a.first + (c.chance(10) ? " = " : "=") + q + esc(a.second) + q; }
  if (e.kids.empty() && !c.chance(10)) { out += "/>"; return; }
  out += ">";
  for (auto& k : e.kids) { out += space(c); print(c, k, out); }
  out += space(c) + "</" + e.name + ">";
}
inline std::string padded(pbt::Case& c, std::string const& id) { return c.chance(5) ? c.pick<std::string>({" ", "\t", "  "}) + id + c.pick<std::string>({"", " ", "\t "}) : id; }

inline Elem coord(Pos const& p, bool is2D, pbt::Case& c)
{
  if (p.polar)
  {
    Elem e("polar");
    e.a("az", num(p.aer[0]));
    if (!is2D || p.aer[1] != 0 || c.flag()) e.a("el", num(p.aer[1]));
    e.a("r", num(p.aer[2]));
    return e;
  }
  Elem e("cart");
  e.a("x", num(p.p[0])).a("y", num(p.p[1]));
  if (!is2D || p.p[2] != 0 || c.flag()) e.a("z", num(p.p[2]));
  return e;
}
inline void adjust(Adjust const& a, Elem& e)
{
  if (a.gainMode == 1) e.a("gain", num(a.gain));
  if (a.gainMode == 2) e.a("gainDB", num(a.gain));
  if (a.hasDelay) e.a("delay", num(a.delay));
  if (!a.eq.empty()) e.a("eq", a.eq);
}
inline Elem tree(pbt::Case& c, Array const& m)
{
  Elem root("panningConfiguration");
  if (m.is2D) root.a("dimension", "2");
  else if (c.flag()) root.a("dimension", "3");
  if (m.infinite || c.flag()) root.a("infinite", c.flag() ? (m.infinite ? "true" : "false") : (m.infinite ? "1" : "0"));
  std::vector<std::vector<Elem>> groups(5);
  for (auto const& s : m.spk) { Elem e("loudspeaker"); e.a("id", padded(c, s.id)).a("channel", std::to_string(s.channel)); adjust(s.adj, e); e.kids.push_back(coord(s.pos, m.is2D, c)); groups[0].push_back(e); }
  for (auto const& v : m.virt)
  {
    Elem e("virtualspeaker");
    e.a("id", padded(c, v.id));
    e.kids.push_back(coord(v.pos, m.is2D, c));
    for (auto const& r : v.routes) { Elem k("route"); k.a("lspId", padded(c, r.first)).a("gainDB", num(r.second)); e.kids.push_back(k); }
    if (c.flag()) std::swap(e.kids.front(), e.kids.back());
    groups[1].push_back(e);
  }
  for (auto const& s : m.subs)
  {
    Elem e("subwoofer");
    e.a("channel", std::to_string(s.channel));
    std::string l, w;
    for (std::size_t i = 0; i < s.assigned.size(); ++i) l += (i ? c.pick<std::string>({",", ", ", " ,"}) : "") + s.assigned[i];
    e.a("assignedLoudspeakers", l);
    if (s.hasWeights) { for (std::size_t i = 0; i < s.weights.size(); ++i) w += (i ? ", " : "") + num(s.weights[i]); e.a("weights", w); }
    adjust(s.adj, e);
    groups[2].push_back(e);
  }
  for (auto const& t : m.tri) { Elem e("triplet"); e.a("l1", padded(c, t[0])).a("l2", padded(c, t[1])); if (!m.is2D || c.chance(10)) e.a("l3", padded(c, t[2])); groups[3].push_back(e); }
  if (m.hasEq)
  {
    Elem e("outputEqConfiguration");
    e.a("type", "iir").a("numberOfBiquads", std::to_string(m.numBiquads));
    for (auto const& q : m.eqs)
    {
      Elem f("filterSpec");
      f.a("name", q.name);
      for (auto const& b : q.biquads)
      {
        Elem k("biquad");
        if (b[0] != 1 || c.flag()) k.a("a0", num(b[0]));
        k.a("a1", num(b[1])).a("a2", num(b[2])).a("b0", num(b[3])).a("b1", num(b[4])).a("b2", num(b[5]));
        f.kids.push_back(k);
      }
      e.kids.push_back(f);
    }
    groups[4].push_back(e);
  }
  // the kinds of elements may be mixed in any order
  bool const mix = c.chance(30);
  std::vector<std::size_t> at(5, 0);
  if (!mix) for (std::size_t g : {4, 0, 1, 2, 3}) for (auto& e : groups[g]) root.kids.push_back(e);
  else
    for (;;)
    {
      std::vector<std::size_t> open;
      for (std::size_t g = 0; g < 5; ++g) if (at[g] < groups[g].size()) open.push_back(g);
      if (open.empty()) break;
      std::size_t const g = c.pick(open);
      root.kids.push_back(groups[g][at[g]++]);
    }
  return root;
}
inline std::string text(pbt::Case& c, Elem& root)
{
  std::string s = c.flag() ? "<?xml version=\"1.0\" encoding=\"utf-8\"?>" : "";
  s += space(c);
  print(c, root, s);
  return s + space(c);
}
inline std::string text(pbt::Case& c, Array const& m) { Elem e = tree(c, m); return text(c, e); }

// ---------------------------------------------------------------------------------------------
// generators
inline std::string anyId(pbt::Case& c, std::vector<std::string> const& used)
{
  static char const chars[] = "aM0bZ9@&()+/:_-";
  for (;;)
  {
    std::string s;
    if (c.chance(60)) s = c.pick<std::string>({"L", "R", "C", "M+", "M-", "U+", "T+", "B-", "1", "2"}) + std::to_string(c.draw(200));
    else { std::size_t const n = c.size(1, 6); for (std::size_t i = 0; i < n; ++i) s += chars[c.draw(sizeof chars - 1)]; }
    while (std::find(used.begin(), used.end(), s) != used.end()) s += (char)('a' + used.size() % 26);
    if (std::find(used.begin(), used.end(), s) == used.end()) return s;
  }
}
inline void setPos(pbt::Case& c, Pos& p, V3 const& v, unsigned polarPct = 30)
{
  p.polar = c.chance(polarPct);
  if (p.polar)
  {
    double const r = len(v);
    p.aer = {{(double)(float)(std::atan2(v[1], v[0]) * 180 / PI), (double)(float)(std::atan2(v[2], std::hypot(v[0], v[1])) * 180 / PI), (double)(float)r}};
    if (std::abs(v[2]) < 1e-12) p.aer[1] = 0;
    p.p = p.aer[2] * direction(p.aer[0] * PI / 180, p.aer[1] * PI / 180);
  }
  else for (int i = 0; i < 3; ++i) p.p[i] = (float)v[i];
}
// gains and delays far outside the range that is useful for rendering, only to be read
inline bool& extreme() { static bool v = false; return v; }
inline Adjust anyAdjust(pbt::Case& c, Array const& m)
{
  Adjust a;
  a.gainMode = (int)c.draw(3);
  a.gain = (float)(a.gainMode == 1 ? c.real(0, 2) : c.sym(20));
  if (extreme() && c.chance(25)) a.gain = (float)(a.gainMode == 1 ? c.pick(std::vector<double>{0, 1e-6, -1, 50, c.sym(4)}) : c.pick(std::vector<double>{-160, -90, -60.5, 40, 0, c.sym(120)}));
  a.hasDelay = c.flag();
  a.delay = a.hasDelay ? (float)c.real(0, 0.02) : 0;
  if (a.hasDelay && extreme() && c.chance(25)) a.delay = (float)c.pick(std::vector<double>{0, 1e-6, 0.75, 3.5, 1.0 / 48000});
  if (!m.eqs.empty() && c.chance(60)) a.eq = c.pick(m.eqs).name;
  return a;
}

// positions and a closed triangulation (pairs in 2D) around the origin; false if ill-conditioned
struct Mesh { std::vector<V3> p; std::vector<std::array<std::size_t, 3>> t; };
inline bool hull(Mesh& m, double margin)
{
  std::size_t const n = m.p.size();
  m.t.clear();
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = i + 1; j < n; ++j)
      for (std::size_t k = j + 1; k < n; ++k)
      {
        V3 const nv = cross(m.p[j] - m.p[i], m.p[k] - m.p[i]);
        double const l = len(nv);
        if (l < 1e-9) return false;
        V3 const u = (1 / l) * nv;
        double const off = dot(u, m.p[i]);
        int pos = 0, neg = 0, near = 0;
        for (std::size_t q = 0; q < n; ++q)
        {
          if (q == i || q == j || q == k) continue;
          double const d = dot(u, m.p[q]) - off;
          if (d > margin) ++pos; else if (d < -margin) ++neg; else ++near;
        }
        if (near && (!pos || !neg)) return false; // nearly coplanar facet
        if (pos && neg) continue;
        if (std::abs(off) < 0.15) return false; // the origin is too near to the surface
        if ((pos && off > 0) || (neg && off < 0)) return false; // origin outside
        m.t.push_back({{i, j, k}});
      }
  return m.t.size() >= 4;
}
inline V3 rotateZ(V3 const& v, double a) { return {{std::cos(a) * v[0] - std::sin(a) * v[1], std::sin(a) * v[0] + std::cos(a) * v[1], v[2]}}; }
inline V3 rotateX(V3 const& v, double a) { return {{v[0], std::cos(a) * v[1] - std::sin(a) * v[2], std::sin(a) * v[1] + std::cos(a) * v[2]}}; }
inline Mesh mesh3D(pbt::Case& c)
{
  for (int attempt = 0; attempt < 20; ++attempt)
  {
    Mesh m;
    double const jit = attempt < 10 ? 0.25 : 0.12;
    pbt::Rng r(c.seed());
    auto add = [&](V3 v) { for (auto& x : v) x += r.uniform(-jit, jit); m.p.push_back(v); };
    switch (c.draw(3))
    {
    case 0: // tetrahedron
      for (V3 v : {V3{{1, 1, 1}}, V3{{1, -1, -1}}, V3{{-1, 1, -1}}, V3{{-1, -1, 1}}}) add(unit(v));
      break;
    case 1: // octahedron
      for (int i = 0; i < 3; ++i) for (int s : {-1, 1}) { V3 v{}; v[i] = s; add(v); }
      break;
    default: // rings with poles
    {
      std::size_t const n = c.size(3, 5), n2 = c.size(3, 5);
      double const ph = c.real(0, 6);
      for (std::size_t i = 0; i < n; ++i) add(direction(2 * PI * (double)i / (double)n + ph, -0.3));
      for (std::size_t i = 0; i < n2; ++i) add(direction(2 * PI * ((double)i + 0.5) / (double)n2 + ph, 0.5));
      add({{0, 0, 1}});
      add({{0, 0, -1}});
    }
    }
    double const a = c.real(0, 6), b = c.real(0, 6), sc = c.real(0.7, 3);
    for (auto& v : m.p) { v = (sc * (c.chance(50) ? r.uniform(0.9, 1.1) : 1)) * rotateZ(rotateX(v, a), b); for (auto& x : v) x = (float)x; }
    if (hull(m, 0.02 * sc)) return m;
  }
  Mesh m; // octahedron
  for (int i = 0; i < 3; ++i) for (int s : {-1, 1}) { V3 v{}; v[i] = s; m.p.push_back(v); }
  hull(m, 0.01);
  return m;
}
inline Mesh mesh2D(pbt::Case& c)
{
  Mesh m;
  std::size_t const n = c.size(3, 9);
  pbt::Rng r(c.seed());
  double const ph = c.real(0, 6), sc = c.real(0.7, 3);
  bool const even = c.flag();
  for (std::size_t i = 0; i < n; ++i)
  {
    V3 const v = (sc * (even ? 1 : r.uniform(0.9, 1.1))) * direction(ph + 2 * PI * ((double)i + (even ? 0 : r.uniform(-0.2, 0.2))) / (double)n, 0);
    m.p.push_back({{(double)(float)v[0], (double)(float)v[1], 0}});
  }
  for (std::size_t i = 0; i < n; ++i) m.t.push_back({{i, (i + 1) % n, 0}});
  return m;
}
struct Wish { bool virt = true, subs = true, eq = true; int dim = 0; /* 0 any */ };
// an array with a closed triangulation; loudspeakers are defined in random order
inline Array anyArray(pbt::Case& c, Wish const& w = Wish())
{
  Array m;
  m.is2D = w.dim ? w.dim == 2 : c.chance(35);
  m.infinite = c.chance(10);
  Mesh g = m.is2D ? mesh2D(c) : mesh3D(c);
  m.hasEq = w.eq && c.chance(35);
  std::vector<std::string> names;
  if (m.hasEq)
  {
    m.numBiquads = c.size(1, 4);
    std::size_t const n = c.size(0, 3);
    for (std::size_t i = 0; i < n; ++i)
    {
      Eq q;
      q.name = anyId(c, names);
      names.push_back(q.name);
      std::size_t const k = c.size(1, m.numBiquads);
      for (std::size_t j = 0; j < k; ++j) q.biquads.push_back({{c.flag() ? 1 : (double)(float)c.real(0.5, 2), (float)c.sym(1.5), (float)c.sym(0.9), (float)c.sym(2), (float)c.sym(2), (float)c.sym(2)}});
      m.eqs.push_back(q);
    }
  }
  std::size_t const n = g.p.size(), nv = w.virt && n > 3 ? c.draw(std::min<std::size_t>(3, n - 3) + 1) : 0;
  std::vector<std::size_t> idx(n);
  for (std::size_t i = 0; i < n; ++i) idx[i] = i;
  for (std::size_t i = n; i > 1; --i) std::swap(idx[i - 1], idx[c.draw(i)]);
  std::vector<std::string> ids(n), used;
  for (auto& s : ids) { s = anyId(c, used); used.push_back(s); }
  std::vector<std::size_t> channels;
  bool const dense = c.flag();
  auto channel = [&]() { for (;;) { std::size_t const k = dense ? 1 + c.draw(n + 3) : 1 + c.draw(64); if (std::find(channels.begin(), channels.end(), k) == channels.end()) { channels.push_back(k); return k; } } };
  for (std::size_t i = nv; i < n; ++i) { Spk s; s.id = ids[idx[i]]; s.channel = channel(); setPos(c, s.pos, g.p[idx[i]]); s.adj = anyAdjust(c, m); m.spk.push_back(s); }
  for (std::size_t i = 0; i < nv; ++i)
  {
    Virt v;
    v.id = ids[idx[i]];
    setPos(c, v.pos, g.p[idx[i]]);
    std::size_t const nr = c.draw(std::min<std::size_t>(m.spk.size(), 4) + 1);
    std::vector<std::size_t> o(m.spk.size());
    for (std::size_t k = 0; k < o.size(); ++k) o[k] = k;
    for (std::size_t k = 0; k < nr; ++k) { std::swap(o[k], o[k + c.draw(o.size() - k)]); v.routes.push_back({m.spk[o[k]].id, (double)(float)(extreme() && c.chance(25) ? c.pick(std::vector<double>{-160, -90, 0, 30}) : c.sym(12))}); }
    m.virt.push_back(v);
  }
  for (auto t : g.t)
  {
    for (std::size_t i = (m.is2D ? 2 : 3); i > 1; --i) std::swap(t[i - 1], t[c.draw(i)]);
    m.tri.push_back({{ids[t[0]], ids[t[1]], m.is2D ? "" : ids[t[2]]}});
  }
  for (std::size_t i = m.tri.size(); i > 1; --i) std::swap(m.tri[i - 1], m.tri[c.draw(i)]);
  if (w.subs)
  {
    std::size_t const ns = c.draw(3);
    for (std::size_t i = 0; i < ns; ++i)
    {
      Sub s;
      s.channel = channel();
      std::vector<std::size_t> o(m.spk.size());
      for (std::size_t k = 0; k < o.size(); ++k) o[k] = k;
      std::size_t const na = c.size(1, o.size());
      s.hasWeights = c.flag();
      for (std::size_t k = 0; k < na; ++k) { std::swap(o[k], o[k + c.draw(o.size() - k)]); s.assigned.push_back(m.spk[o[k]].id); if (s.hasWeights) s.weights.push_back((float)c.real(0, 2)); }
      s.adj = anyAdjust(c, m);
      m.subs.push_back(s);
    }
  }
  return m;
}
} // namespace arr
#endif
