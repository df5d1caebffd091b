// P19: rendering adapted to the listener pose (loudspeaker compensation and head-compensated panning).
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "panmodel.hpp"
#include "pbt.hpp"

#include <libpanning/CAP.h>
#include <libpanning/CAP_VBAP.h>
#include <libpanning/LoudspeakerArray.h>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/vector_parameter.hpp>
#include <librcl/cap_gain_calculator.hpp>
#include <librcl/listener_compensation.hpp>

using namespace visr;
using namespace pan;

namespace
{
void load(pbt::Case& c, panning::LoudspeakerArray& a, Array const& m) { a.loadXmlString(text(c, m)); }

void compensation(pbt::Case& c)
{
  Quiet q;
  Wish w; w.eq = false;
  Array m = anyArray(c, w);
  m.infinite = false;
  panning::LoudspeakerArray a;
  load(c, a, m);
  std::size_t const nr = m.spk.size();
  SignalFlowContext ctx(64, 48000);
  rcl::ListenerCompensation comp(ctx, "comp", nullptr, a);
  vflow::Rig rig(comp);
  auto const pos = m.positions();
  if (!m.virt.empty()) c.label("virtual loudspeakers");
  bool any = false;
  V3 l{};
  std::size_t const n = c.wide(1, 8, 50);
  for (std::size_t t = 0; t < n; ++t)
  {
    if (t == 0 || c.chance(70))
    {
      switch (c.draw(4))
      {
      case 0: l = V3{{c.sym(0.5), c.sym(0.5), c.sym(0.5)}}; break;
      case 1: l = pos[(std::size_t)c.draw(nr)]; break; // at a loudspeaker
      case 2: l = V3{{c.sym(20), c.sym(20), c.sym(20)}}; break;
      default: l = V3{};
      }
      for (auto& x : l) x = (float)x;
      c.note() << "[" << t << "] listener " << str(l) << "\n";
      rig.param<pml::ListenerPosition>("positionInput") = pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2], (float)c.sym(3), (float)c.sym(1), (float)c.sym(3));
      rig.dbl("positionInput").swapBuffers();
      if (any) c.nontrivial();
      any = true;
    }
    c.flushNote();
    rig.process({});
    auto const& g = dynamic_cast<pml::VectorParameter<float> const&>(rig.dblOut("gainOutput").data());
    auto const& d = dynamic_cast<pml::VectorParameter<float> const&>(rig.dblOut("delayOutput").data());
    PBT_CHECK(g.size() == nr && d.size() == nr, "size of gains and delays");
    double rmax = 0;
    for (std::size_t i = 0; i < nr; ++i) rmax = std::max(rmax, len(pos[i] - l));
    double const tol = 2e-6 * (1 + len(l) + rmax);
    // sound of all loudspeakers arrives at the same time and with the same level
    for (std::size_t i = 0; i < nr; ++i)
    {
      double const r = len(pos[i] - l);
      PBT_CHECK(std::abs(g[i] - r / rmax) <= tol / rmax, "period " << t << ": gain of loudspeaker " << i << " is " << g[i] << " instead of " << r / rmax);
      PBT_CHECK(std::abs(d[i] - (rmax - r) / 344) <= tol / 344, "period " << t << ": delay of loudspeaker " << i << " is " << d[i] << " instead of " << (rmax - r) / 344);
    }
  }
}

// ---------------------------------------------------------------------------------------------
V3 auralAxis(double y, double p, double r)
{
  return {{std::cos(y) * std::sin(p) * std::sin(r) - std::sin(y) * std::cos(r), std::sin(y) * std::sin(p) * std::sin(r) + std::cos(y) * std::cos(r), -std::cos(p) * std::sin(r)}};
}
struct Cap { bool determined = true; std::vector<double> g; double tol = 0; };
// Reference: gains of least energy such that the interaural cues are those of the source.
Cap capGains(std::vector<V3> const& spk, V3 const& L, V3 const& axis, V3 const& src, bool plane, bool hf, double maxGain = 10)
{
  Cap r;
  std::size_t const n = spk.size();
  r.g.assign(n, 0);
  double const r0 = len(src);
  V3 const rel = plane ? src : src - L;
  double const rI = len(rel);
  V3 const u = unit(rel);
  std::vector<double> a;
  for (auto const& s : spk) a.push_back(dot(axis, unit(s - L) - u));
  double const eps = 3e-6 * (1 + (len(src) + len(L)) / rI);
  if (n == 1) { r.g[0] = 1; r.tol = 0; return r; }
  if (n == 2)
  {
    // g0 a0 + g1 a1 = 0, |g0 + g1| = 1 (sign continuous through the singularity)
    double g0 = -a[1], g1 = a[0], d = std::abs(g0 + g1);
    if (std::abs(d) < 0.02) { r.determined = false; return r; }
    g0 /= d; g1 /= d;
    double t = 4 * eps / d * (1 + std::max(std::abs(g0), std::abs(g1)));
    if (hf)
    {
      if (std::abs(g0) < 10 * t || std::abs(g1) < 10 * t) { r.determined = false; return r; }
      if (g0 * g1 > 0)
      {
        g0 = std::sqrt(std::abs(g0)); g1 = std::sqrt(std::abs(g1));
        double const e = std::hypot(g0, g1);
        g0 /= e; g1 /= e;
        t = t / std::min(g0, g1);
      }
      else g0 = g1 = 0;
    }
    double mx = std::max(std::abs(g0), std::abs(g1));
    if (mx > 1.5) { g0 *= 1.5 / mx; g1 *= 1.5 / mx; }
    double const k = r0 / rI;
    g0 *= k; g1 *= k;
    t *= k;
    mx = std::max(std::abs(g0), std::abs(g1));
    if (mx > maxGain) { g0 *= maxGain / mx; g1 *= maxGain / mx; }
    r.g = {g0, g1};
    r.tol = t + 1e-5 * (std::abs(g0) + std::abs(g1));
    return r;
  }
  double b = 0, c2 = 0;
  for (double x : a) { b += x; c2 += x * x; }
  double const mean = b / (double)n, var = c2 / (double)n - mean * mean, scale = r0 / (rI + 0.01);
  if (var < 0.01) { r.determined = false; return r; }
  // orthogonal to 'a', sum = scale, in the span of (1, a)
  double mx = 0;
  for (std::size_t i = 0; i < n; ++i) { r.g[i] = scale / (double)n * (1 - mean * (a[i] - mean) / var); mx = std::max(mx, std::abs(r.g[i])); }
  r.tol = 10 * eps / var * (mx + scale / (double)n) + 1e-6;
  if (mx > maxGain) { for (auto& x : r.g) x *= maxGain / mx; r.tol = r.tol * maxGain / mx + 1e-4; }
  return r;
}

Array twoSpeakers(pbt::Case& c)
{
  Array m;
  m.is2D = true;
  double const mid = c.real(0, 6), open = c.real(0.3, 1.3);
  std::vector<std::string> used;
  std::size_t const ch = c.draw(2);
  for (int i = 0; i < 2; ++i)
  {
    Spk s;
    s.id = anyId(c, used);
    used.push_back(s.id);
    s.channel = 1 + (i + ch) % 2;
    setPos(c, s.pos, c.real(1, 3) * direction(mid + (i ? 1 : -1) * open, 0));
    m.spk.push_back(s);
  }
  m.tri.push_back({{used[0], used[1], ""}});
  return m;
}

void cap(pbt::Case& c)
{
  Quiet q;
  Wish w; w.subs = w.eq = false;
  bool const two = c.chance(25);
  Array m = two ? twoSpeakers(c) : anyArray(c, w);
  m.infinite = false;
  panning::LoudspeakerArray a;
  load(c, a, m);
  Panner p(m);
  std::size_t const nr = m.spk.size(), nObj = c.wide(1, 8, 40);
  bool const hfOut = c.chance(60), hfMode = c.chance(30);
  std::vector<V3> spk;
  for (std::size_t i = 0; i < nr; ++i) spk.push_back(p.pos[i]);
  c.note() << (m.is2D ? "2D" : "3D") << " array, " << nr << "+" << m.virt.size() << " loudspeakers, " << nObj << " object channels" << (hfOut ? ", HF output" : "") << (hfMode ? ", HF mode" : "") << "\n";
  SignalFlowContext ctx(64, 48000);
  using CG = rcl::CAPGainCalculator;
  CG comp(ctx, "cap", nullptr, nObj, a, hfMode ? CG::PanningMode::HF : CG::PanningMode::LF, hfOut);
  vflow::Rig rig(comp);
  V3 l{}, axis{};
  std::vector<om::Obj> scene;
  std::size_t const periods = c.wide(1, 6, 30);
  for (std::size_t t = 0; t < periods; ++t)
  {
    bool const move = t == 0 || c.chance(40);
    if (move)
    {
      if (two) { l = V3{{c.sym(0.3), c.sym(0.3), 0}}; for (auto& x : l) x = (float)x; p.listener(l); }
      else l = anyListener(c, p);
      float const y = (float)c.sym(PI), pi = c.flag() ? 0.f : (float)c.sym(1.5), r = c.flag() ? 0.f : (float)c.sym(PI);
      axis = auralAxis(y, pi, r);
      c.note() << "[" << t << "] listener " << str(l) << " orientation " << y << "," << pi << "," << r << "\n";
      rig.param<pml::ListenerPosition>("listenerPosition") = pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2], y, pi, r);
      rig.dbl("listenerPosition").swapBuffers();
    }
    if (t == 0 || c.chance(move ? 30 : 60))
    {
      scene.clear();
      std::vector<unsigned> ch(nObj + (c.chance(15) ? 2 : 0));
      for (std::size_t i = 0; i < ch.size(); ++i) ch[i] = (unsigned)i;
      for (std::size_t i = ch.size(); i > 1; --i) std::swap(ch[i - 1], ch[(std::size_t)c.draw(i)]);
      std::size_t used = 0;
      unsigned id = 0;
      while (used < ch.size() && c.chance(85))
      {
        int const kind = c.pick<int>({om::Point, om::Point, om::PointDiffuse, om::Plane, om::Diffuse, om::Hoa});
        om::Obj o = om::anyObject(c, id++, kind, 3);
        std::size_t const n = kind == om::Hoa ? o.channels.size() : 1;
        if (used + n > ch.size()) continue;
        o.channels.assign(ch.begin() + (std::ptrdiff_t)used, ch.begin() + (std::ptrdiff_t)(used + n));
        used += n;
        if (o.hasPos())
        {
          V3 s = anySource(c, p, false);
          for (int k = 0; k < 20 && (len(s) < 0.05 || len(s - l) < 0.05); ++k) for (auto& x : s) x = (float)(x + 0.07);
          o.x = (float)s[0]; o.y = (float)s[1]; o.z = (float)s[2];
        }
        o.diffuseness = c.flag() ? (float)c.real(0, 1) : (float)c.draw(2);
        if (kind == om::Plane) { o.az = (float)c.sym(360); o.el = (float)c.sym(m.is2D ? 60 : 90); }
        scene.push_back(o);
      }
      auto& ov = rig.param<pml::ObjectVector>("objectVectorInput");
      ov.clear();
      for (auto const& o : scene)
      {
        ov.insert(om::toLib(o));
        c.note() << "[" << t << "] object " << o.id << " " << om::kindName(o.kind) << " channels";
        for (unsigned x : o.channels) c.note() << " " << x;
        if (o.hasPos()) c.note() << " at " << str(V3{{o.x, o.y, o.z}});
        if (o.kind == om::Plane) c.note() << " from " << o.az << "," << o.el;
        c.note() << " diffuseness " << o.diffuseness << "\n";
      }
      rig.dbl("objectVectorInput").swapBuffers();
      if (!scene.empty()) c.nontrivial();
    }
    c.flushNote();
    // a source must not sit at the (moved) listener or the origin
    bool near = false;
    for (auto const& o : scene) if (o.hasPos() && (len(V3{{o.x, o.y, o.z}} - l) < 0.04 || len(V3{{o.x, o.y, o.z}}) < 0.04)) near = true;
    if (near) return;
    rig.process({});
    std::vector<bool> set(nObj, false);
    auto const& lf = rig.sharedOut<pml::MatrixParameter<float>>("gainOutput");
    PBT_CHECK(lf.numberOfRows() == nr && lf.numberOfColumns() == nObj, "size of the gain matrix");
    for (auto const& o : scene)
    {
      if (o.kind == om::Diffuse || o.kind == om::Hoa || o.channels[0] >= nObj) continue;
      std::size_t const ch = o.channels[0];
      set[ch] = true;
      double const level = o.kind == om::PointDiffuse ? 1 - (double)o.diffuseness : 1;
      bool const plane = o.kind == om::Plane;
      V3 const src = plane ? direction(o.az * PI / 180, o.el * PI / 180) : V3{{o.x, o.y, o.z}};
      std::ostringstream what;
      what << "period " << t << ", " << om::kindName(o.kind) << " object " << o.id << " on channel " << ch;
      Cap const e = capGains(spk, l, axis, src, plane, hfMode);
      std::string all;
      for (std::size_t i = 0; i < nr; ++i) all += std::to_string(lf(i, ch)) + " ";
      if (e.determined)
        for (std::size_t i = 0; i < nr; ++i)
          PBT_CHECK(std::abs(lf(i, ch) - level * e.g[i]) <= e.tol, what.str() << ": gain of loudspeaker " << i << " is " << lf(i, ch) << " instead of " << level * e.g[i] << " (tolerance " << e.tol << ", all: " << all << ")");
      if (!e.determined) c.label("singular");
      if (hfOut)
      {
        auto const& hf = rig.sharedOut<pml::MatrixParameter<float>>("hfGainOutput");
        std::vector<double> got;
        for (std::size_t i = 0; i < nr; ++i) { got.push_back(hf(i, ch)); PBT_CHECK(std::isfinite(hf(i, ch)), what.str() << ": HF gain is not finite"); }
        Gains u;
        bool inside = true;
        if (two)
        {
          // only sources between the two loudspeakers can be rendered
          auto const& bs = p.basis[0];
          V3 s = plane ? src : src - l;
          s[2] = 0;
          double const det = dot(bs[0], cross(bs[1], bs[2]));
          double const g0 = dot(s, cross(bs[1], bs[2])) / det, g1 = dot(bs[0], cross(s, bs[2])) / det;
          double const tl = 1e-4 * (len(src) + len(l)) / std::abs(det);
          if (std::abs(det) < 0.05 || std::abs(g0) < tl || std::abs(g1) < tl) continue; // at the border
          inside = g0 > 0 && g1 > 0;
          u.g.assign(2, 0);
          if (inside) { u.g[p.tri[0][0]] = g0; u.g[p.tri[0][1]] = g1; }
          u.tol = tl;
        }
        else u = p.gains(src, plane);
        Normed n = normalise(u, false, level * level);
        if (!n.determined && inside) continue;
        for (std::size_t i = 0; i < nr; ++i)
          PBT_CHECK(std::abs(got[i] * std::abs(got[i]) - n.g[i]) <= n.tol, what.str() << ": squared HF gain of loudspeaker " << i << " is " << got[i] * std::abs(got[i]) << " instead of " << n.g[i] << " (tolerance " << n.tol << ", gains: " << str(got) << ")");
      }
    }
    for (std::size_t ch = 0; ch < nObj; ++ch)
      if (!set[ch])
        for (std::size_t i = 0; i < nr; ++i)
        {
          bool const bad = lf(i, ch) != 0 || (hfOut && rig.sharedOut<pml::MatrixParameter<float>>("hfGainOutput")(i, ch) != 0);
          PBT_CHECK(!bad || !std::isfinite(lf(i, ch)), "period " << t << ": channel " << ch << " without rendered object has gain " << lf(i, ch));
        }
  }
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "compensation: a listener movement; cap: a non-empty scene";
  s.subs = {{"compensation", compensation, 8000, 800000}, {"cap", cap, 12000, 1000000}};
  s.assumptions = {"the loudspeakers differ in their direction along the interaural axis (variance at least 0.01), otherwise head-compensated gains are singular", "sources keep a distance of 4 cm from listener and origin"};
  return pbt::run(argc, argv, s);
}
