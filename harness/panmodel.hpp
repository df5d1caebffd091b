// Double precision model of triplet-based amplitude panning for arrays with a closed triangulation.
#ifndef VERIF_PANMODEL_HPP
#define VERIF_PANMODEL_HPP
#include "arrays.hpp"

namespace pan
{
using namespace arr;
struct Gains
{
  std::vector<double> g; // regular loudspeakers, not normalised
  double tol = 0;        // absolute tolerance of g
  double norm(bool energy) const { double s = 0; for (double v : g) s += energy ? v * v : std::abs(v); return energy ? std::sqrt(s) : s; }
};
struct Panner
{
  bool is2D, infinite;
  std::size_t nr;
  std::vector<V3> pos;                                   // float-rounded by the loader
  std::vector<std::array<std::size_t, 3>> tri;
  std::vector<std::vector<double>> route;                // virtual x regular
  V3 L{};
  std::vector<std::array<V3, 3>> basis;

  explicit Panner(Array const& m) : is2D(m.is2D), infinite(m.infinite), nr(m.spk.size()), pos(m.positions())
  {
    for (auto& p : pos) for (auto& x : p) x = (float)x;
    for (auto const& t : m.tri) tri.push_back({{m.index(t[0]), m.index(t[1]), m.is2D ? 0 : m.index(t[2])}});
    for (auto const& v : m.virt)
    {
      std::vector<double> r(nr, 0);
      for (auto const& x : v.routes) r[m.index(x.first)] = std::pow(10.0, x.second / 20);
      route.push_back(r);
    }
    listener({{0, 0, 0}});
  }
  // smallest determinant of all triplets; > 0 if the listener is enclosed well
  double listener(V3 const& l)
  {
    L = l;
    basis.clear();
    double worst = 1;
    for (auto const& t : tri)
    {
      std::array<V3, 3> b;
      for (int k = 0; k < 3; ++k)
      {
        if (is2D && k == 2) { b[k] = V3{{0, 0, 1}}; continue; }
        V3 v = pos[t[k]];
        if (!infinite) v = v - L;
        if (is2D) v[2] = 0;
        if (len(v) < 0.05) worst = 0;
        b[k] = unit(v);
      }
      worst = std::min(worst, std::abs(dot(b[0], cross(b[1], b[2]))));
      basis.push_back(b);
    }
    return worst;
  }
  // panning gains before normalisation
  Gains gains(V3 src, bool planeWave) const
  {
    double const mag = len(src) + (planeWave ? 0 : len(L));
    if (!planeWave) src = src - L;
    if (is2D) src[2] = 0;
    Gains best;
    double bestMin = -1e300, bestDet = 1;
    std::array<double, 3> bg{};
    std::size_t bt = 0;
    for (std::size_t k = 0; k < tri.size(); ++k)
    {
      auto const& b = basis[k];
      double const det = dot(b[0], cross(b[1], b[2]));
      if (det == 0) continue;
      std::array<double, 3> const g = {{dot(src, cross(b[1], b[2])) / det, dot(b[0], cross(src, b[2])) / det, is2D ? 0 : dot(b[0], cross(b[1], src)) / det}};
      double const mn = is2D ? std::min(g[0], g[1]) : std::min({g[0], g[1], g[2]});
      if (mn > bestMin) { bestMin = mn; bg = g; bt = k; bestDet = std::abs(det); }
    }
    best.g.assign(nr, 0);
    for (int k = 0; k < (is2D ? 2 : 3); ++k)
    {
      double const v = std::max(bg[k], 0.0);
      std::size_t const i = tri[bt][k];
      if (i < nr) best.g[i] += v;
      else for (std::size_t j = 0; j < nr; ++j) best.g[j] += route[i - nr][j] * v;
    }
    double worst = bestDet;
    for (auto const& b : basis) worst = std::min(worst, std::abs(dot(b[0], cross(b[1], b[2]))));
    best.tol = 4e-6 * mag / worst;
    for (auto const& r : route) for (double x : r) best.tol = std::max(best.tol, 4e-6 * mag / worst * x);
    if (-bestMin > best.tol) pbt::fail("harness: no triplet contains the source");
    return best;
  }
};

// normalised gains with the tolerance that results; false if they are not determined
struct Normed { bool determined = true; std::vector<double> g; double tol = 0; };
inline Normed normalise(Gains const& u, bool energy, double level = 1)
{
  Normed n;
  double const s = u.norm(energy);
  double const k = energy ? std::sqrt((double)u.g.size()) : (double)u.g.size();
  n.determined = s > 100 * k * u.tol && s > 1e-5;
  for (double v : u.g) n.g.push_back(s > 0 ? level * v / s : 0);
  n.tol = s > 0 ? (1 + k) * u.tol / s * std::abs(level) + 2e-6 : 2e-6;
  return n;
}
// a listener position inside the array such that all triplets are well-conditioned
inline V3 anyListener(pbt::Case& c, Panner& p)
{
  V3 l{};
  for (auto const& v : p.pos) l = l + (c.real(0, 1) / (double)p.pos.size()) * v;
  for (auto& x : l) x = (float)x;
  if (p.is2D) l[2] = c.flag() ? 0 : (double)(float)c.sym(2);
  if (c.chance(15)) l = V3{};
  while (p.listener(l) < 0.04 && len(l) > 0) { if (len(l) < 1e-2) l = V3{}; else for (auto& x : l) x = (float)(0.5 * x); }
  return l;
}
// a source position; relative to the listener it is on loudspeakers, edges, facets, axes or anywhere
inline V3 anySource(pbt::Case& c, Panner const& p, bool planeWave)
{
  V3 d{};
  auto rel = [&](std::size_t i) { V3 v = p.pos[i]; if (!p.infinite) v = v - p.L; return unit(v); };
  auto const& t = p.tri[(std::size_t)c.draw(p.tri.size())];
  std::size_t const k = c.weighted({2, 2, 2, 1, 4, 1});
  if (k == 0) d = rel(t[0]);
  else if (k == 1) { double const w = c.flag() ? 0.5 : c.real(0, 1); d = w * rel(t[0]) + (1 - w) * rel(t[1]); }
  else if (k == 2) { double const w = c.real(0, 1), w2 = c.real(0, 1); d = w * rel(t[0]) + w2 * rel(t[1]) + 0.5 * rel(t[2]); }
  else if (k == 3) { d[(std::size_t)c.draw(3)] = c.flag() ? 1 : -1; }
  else if (k == 4) d = direction(c.real(0, 2 * PI), c.real(-PI / 2, PI / 2));
  else return planeWave ? V3{{1, 0, 0}} : p.L;
  if (len(d) < 1e-3) d = V3{{1, 0, 0}};
  double const r = c.chance(25) && k == 0 && !p.infinite ? len(p.pos[t[0]] - p.L) : c.pick<double>({1, 1, 0.1, 3, 25, 1000}) * c.real(0.5, 1);
  V3 s = (planeWave ? 1.0 : r) * unit(d);
  if (!planeWave) s = s + p.L;
  if (k == 0 && !planeWave && c.flag()) s = p.pos[t[0]]; // exactly the loudspeaker
  for (auto& x : s) x = (float)x;
  if (p.is2D && c.chance(30)) s[2] = (float)c.sym(3);
  // in 2D the distance within the plane counts
  V3 q = planeWave ? s : s - p.L;
  if (p.is2D) q[2] = 0;
  if (len(q) > 0 && len(q) < 1e-3) { s[0] += 1; s[0] = (float)s[0]; }
  return s;
}
inline std::string str(V3 const& v) { std::ostringstream s; s << "(" << v[0] << "," << v[1] << "," << v[2] << ")"; return s.str(); }
inline std::string str(std::vector<double> const& v) { std::ostringstream s; for (double x : v) s << x << " "; return s.str(); }
} // namespace pan
#endif
