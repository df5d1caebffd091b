// P21: the complete object renderer against a sample-by-sample model of the reproduction.
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "panmodel.hpp"
#include "pbt.hpp"

#include <libefl/basic_matrix.hpp>
#include <libpanning/LoudspeakerArray.h>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <libsignalflows/core_renderer.hpp>

#include <cstring>
#include <set>

using namespace visr;
using namespace pan;

namespace
{
double const fs = 48000;
std::size_t const decay = 300; // samples after which the generated filters have faded

// ---------------------------------------------------------------------------------------------
char const* const regularText =
#include "libpanning/test/matlab/arrays/t-design_t8_P40.xml.cpp"
    ;
char const* const decoderText =
#include "libpanning/test/matlab/arrays/decode_N8_P40_t-design_t8_P40.txt.cpp"
    ;
struct Decoder // directions of the regular array and decoder matrix (values with six decimals)
{
  std::vector<V3> dir;
  std::vector<std::vector<double>> gain; // harmonic x direction
  Decoder()
  {
    std::string const s = regularText;
    for (std::size_t p = 0; (p = s.find("<cart", p)) != std::string::npos; ++p)
    {
      V3 v;
      char const* const names[3] = {" x=\"", " y=\"", " z=\""};
      for (int i = 0; i < 3; ++i) v[i] = std::atof(s.c_str() + s.find(names[i], p) + 4);
      dir.push_back(v);
    }
    std::string const t = decoderText;
    std::vector<double> row;
    for (std::size_t p = 0; p < t.size();)
    {
      if (t[p] == '\n') { if (!row.empty()) gain.push_back(row); row.clear(); ++p; continue; }
      if (t[p] == ' ' || t[p] == '\t') { ++p; continue; }
      std::size_t const d = t.find('.', p);
      row.push_back(std::atof(t.substr(p, d + 7 - p).c_str()));
      p = d + 7;
    }
    if (!row.empty()) gain.push_back(row);
    if (dir.size() != 40 || gain.size() != 81 || gain[7].size() != 40) pbt::fail("harness: decoder data");
  }
};
Decoder const& decoderData() { static Decoder const d; return d; }

// ---------------------------------------------------------------------------------------------
struct Biquad { double b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0; };
struct Section // state
{
  double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
  double step(Biquad const& q, double x)
  {
    double const y = q.b0 * x + q.b1 * x1 + q.b2 * x2 - q.a1 * y1 - q.a2 * y2;
    x2 = x1; x1 = x; y2 = y1; y1 = y;
    return y;
  }
};
Biquad design(om::Eq const& e)
{
  double const A = std::pow(10.0, e.gain / 40), r = std::sqrt(A), iq = 1.0 / e.q, K = std::tan(PI * e.f / fs);
  double n[3], d[3] = {1, iq, 1};
  auto set = [&n](double a, double b, double c_) { n[0] = a; n[1] = b; n[2] = c_; };
  std::string const t = om::eqName(e.type);
  if (t == "lowpass") set(0, 0, 1);
  else if (t == "highpass") set(1, 0, 0);
  else if (t == "bandpass") set(0, iq, 0);
  else if (t == "bandstop") set(1, 0, 1);
  else if (t == "allpass") set(1, -iq, 1);
  else if (t == "peak") { set(1, A * iq, 1); d[1] = iq / A; }
  else if (t == "lowshelf") { set(A, A * r * iq, A * A); d[0] = A; d[1] = r * iq; d[2] = 1; }
  else if (t == "highshelf") { set(A * A, A * r * iq, A); d[0] = 1; d[1] = r * iq; d[2] = A; }
  else pbt::fail("harness: unknown equaliser type " + t);
  auto poly = [K](double const* p, double* z) { z[0] = p[0] + p[1] * K + p[2] * K * K; z[1] = -2 * p[0] + 2 * p[2] * K * K; z[2] = p[0] - p[1] * K + p[2] * K * K; };
  double b[3], a[3];
  poly(n, b); poly(d, a);
  Biquad q;
  q.b0 = b[0] / a[0]; q.b1 = b[1] / a[0]; q.b2 = b[2] / a[0]; q.a1 = a[1] / a[0]; q.a2 = a[2] / a[0];
  return q;
}
om::Eq anyEq(pbt::Case& c)
{
  om::Eq e;
  e.type = (int)c.draw(8);
  e.f = (float)c.real(4000, 15000);
  e.q = (float)c.real(0.3, 1);
  e.gain = c.chance(30) ? 0.f : (float)c.sym(12);
  return e;
}
double l1(std::vector<Biquad> const& q)
{
  std::vector<Section> s(q.size());
  double r = 0;
  for (int i = 0; i < 600; ++i) { double v = i == 0; for (std::size_t k = 0; k < q.size(); ++k) v = s[k].step(q[k], v); r += std::abs(v); }
  return r;
}

struct Ramp // gain changing linearly
{
  double from = 0, to = 0;
  std::size_t t = 0, steps = 0;
  double reached() const { return t >= steps ? to : from + (to - from) * (double)t / (double)steps; }
  void set(double v) { from = reached(); to = v; t = 0; }
  double next() { ++t; return reached(); }
};
struct Matrix
{
  std::size_t rows, cols;
  std::vector<Ramp> g;
  std::vector<double> tol;
  Matrix(std::size_t r, std::size_t k, std::size_t steps) : rows(r), cols(k), g(r * k), tol(r * k, 0) { for (auto& x : g) { x.steps = steps; x.t = steps; } }
};
struct Part { std::vector<double> g, tol; bool known = true; }; // gains of one signal channel

// gains of one signal of an object in band k (0 low or full, 1 high, 2 diffuse)
Part gainsOf(om::Obj const& o, std::size_t i, int k, bool energy, Array const& m, Panner const& p)
{
  std::size_t const nr = m.spk.size();
  Part r;
  r.g.assign(nr, 0);
  r.tol.assign(nr, 1e-6);
  double const dif = o.kind == om::Channel || o.kind == om::PointDiffuse || o.kind == om::Extent ? o.diffuseness : 0;
  double level = k == 2 ? dif : 1 - dif;
  if (o.kind == om::Hoa)
  {
    if (k == 2) return r;
    Decoder const& d = decoderData();
    for (std::size_t j = 0; j < d.dir.size(); ++j)
    {
      Normed const n = normalise(p.gains(d.dir[j], false), true);
      double const w = d.gain[i][j];
      for (std::size_t l = 0; l < nr; ++l) { r.g[l] += w * n.g[l]; r.tol[l] += std::abs(w) * (n.tol + 1e-6); }
      if (!n.determined) r.known = false;
    }
    return r;
  }
  Gains u;
  u.tol = 1e-7;
  if (o.kind == om::Channel)
  {
    u.g.assign(nr, 0);
    for (auto const& s : o.outputs[i]) { std::size_t const x = m.index(s); if (x < nr) u.g[x] = 1; }
  }
  else if (o.kind == om::Diffuse) { u.g.assign(nr, k == 2 ? 1 : 0); level = 1; }
  else if (k == 2) u.g.assign(nr, dif > 0 ? 1 : 0);
  else u = o.kind == om::Plane ? p.gains(direction(o.az * PI / 180, o.el * PI / 180), true) : p.gains({{o.x, o.y, o.z}}, false);
  if (u.norm(false) == 0)
  {
    // rounding decides the gains of a source at an unrouted virtual loudspeaker
    if (o.kind != om::Channel && k < 2 && (o.kind == om::Plane || len(V3{{o.x, o.y, o.z}} - p.L) > 0)) r.known = o.kind == om::Diffuse;
    return r;
  }
  if (k == 1 && o.kind != om::Channel && energy)
  {
    Normed const n = normalise(u, false, level * level);
    if (!n.determined) r.known = false;
    for (std::size_t l = 0; l < nr; ++l) { double const s = std::sqrt(std::max(n.g[l], 0.0)); r.g[l] = s; r.tol[l] = std::min(2 * std::sqrt(n.tol), s > 0 ? 2 * n.tol / s : 1); }
    return r;
  }
  Normed const n = normalise(u, energy, level);
  if (!n.determined) r.known = false;
  r.g = n.g;
  r.tol.assign(nr, n.tol);
  return r;
}

std::string describe(Array const& m)
{
  std::ostringstream s;
  s << (m.is2D ? "2D" : "3D") << (m.infinite ? " infinite" : "") << " array, " << m.spk.size() << "+" << m.virt.size() << " loudspeakers, " << m.subs.size() << " subwoofers" << (m.hasEq ? ", equalisers" : "");
  return s.str();
}

void render(pbt::Case& c)
{
  Quiet q;
  Array m = anyArray(c);
  bool const tracking = c.chance(40), dual = c.chance(40);
  if (tracking) m.infinite = false;
  // delays are whole samples; equalisers have a short response
  auto adapt = [&c](Adjust& a) { if (a.hasDelay) a.delay = (float)((double)c.draw(120) / fs); };
  for (auto& s : m.spk) adapt(s.adj);
  for (auto& s : m.subs) adapt(s.adj);
  for (auto& e : m.eqs)
    for (auto& b : e.biquads)
    {
      Biquad const d = design(anyEq(c));
      double const v[6] = {1, d.a1, d.a2, d.b0, d.b1, d.b2};
      for (int i = 0; i < 6; ++i) b[(std::size_t)i] = (float)(v[i] * (i == 0 ? b[0] : b[0]));
    }
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  Panner p(m);
  auto const order = m.order();
  std::size_t const nr = m.spk.size(), ns = m.subs.size(), nOut = nr + ns;
  std::size_t maxCh = 0;
  for (auto const& s : m.spk) maxCh = std::max(maxCh, s.channel);
  for (auto const& s : m.subs) maxCh = std::max(maxCh, s.channel);
  std::size_t const nIn = c.wide(1, 12, 48), period = c.pick<std::size_t>({32, 16, 8, 64, 1, 20});
  std::size_t const steps = period * c.size(c.chance(10) ? 0 : 1, 4), sections = c.size(0, 3);
  std::size_t const channels = maxCh + (c.flag() ? 0 : c.size(0, 3));
  std::size_t const fl = c.chance(97) ? c.size(1, 40) : 0;
  efl::BasicMatrix<float> dm(nr + (c.flag() ? 0 : c.size(0, 2)), fl, cVectorAlignmentSamples);
  pbt::Rng rf(c.seed());
  std::vector<std::vector<double>> df(nr, std::vector<double>(fl));
  for (std::size_t i = 0; i < dm.numberOfRows(); ++i) for (std::size_t j = 0; j < fl; ++j) { dm(i, j) = (float)(rf.uniform(-1, 1) / std::sqrt((double)fl)); if (i < nr) df[i][j] = dm(i, j); }
  c.note() << describe(m) << ", " << nIn << " signals, period " << period << ", ramp " << steps << ", " << sections << " sections, " << channels << " output channels, diffusion filters " << fl << (tracking ? ", tracking" : "") << (dual ? ", dual-band" : "") << "\n";
  c.flushNote();
  c.label(std::string(tracking ? "tracking " : "") + (m.hasEq ? "eq " : "") + (ns ? "sub " : "") + (dual ? "dual" : ""));
  SignalFlowContext ctx(period, (SamplingFrequencyType)fs);
  if (c.chance(3))
  {
    std::string msg;
    PBT_CHECK(pbt::outcome([&] { signalflows::CoreRenderer r(ctx, "r", nullptr, a, nIn, maxCh - 1, steps, dm, tracking ? "t" : "", sections, "", dual); }, &msg) == 1, "too few output channels: " << (msg.empty() ? "accepted" : msg));
    return;
  }
  signalflows::CoreRenderer comp(ctx, "renderer", nullptr, a, nIn, channels, steps, dm, tracking ? "t" : "", sections, "", dual);
  vflow::Rig rig(comp);

  // output stage
  std::vector<std::vector<Biquad>> outEq(nOut);
  std::vector<double> outGain(nOut), outL1(nOut);
  std::vector<std::size_t> outDelay(nOut), outChannel(nOut);
  std::vector<std::vector<double>> sub(ns, std::vector<double>(nr, 0));
  for (std::size_t i = 0; i < nOut; ++i)
  {
    Adjust const& ad = i < nr ? m.spk[order[i]].adj : m.subs[i - nr].adj;
    outGain[i] = ad.linear();
    outDelay[i] = (std::size_t)std::lround(ad.delay * fs);
    outChannel[i] = (i < nr ? m.spk[order[i]].channel : m.subs[i - nr].channel) - 1;
    for (auto const& e : m.eqs)
      if (!ad.eq.empty() && e.name == ad.eq)
        for (auto const& b : e.biquads) { Biquad x; x.b0 = b[3] / b[0]; x.b1 = b[4] / b[0]; x.b2 = b[5] / b[0]; x.a1 = b[1] / b[0]; x.a2 = b[2] / b[0]; outEq[i].push_back(x); }
    outL1[i] = l1(outEq[i]);
  }
  for (std::size_t s = 0; s < ns; ++s)
    for (std::size_t k = 0; k < m.subs[s].assigned.size(); ++k)
      sub[s][m.index(m.subs[s].assigned[k])] += m.subs[s].hasWeights ? m.subs[s].weights[k] : 1;

  // state of the model
  std::vector<Ramp> level(nIn);
  for (auto& x : level) { x.steps = x.t = steps; x.from = x.to = 1; }
  std::vector<std::vector<Biquad>> eq(nIn, std::vector<Biquad>(sections));
  std::vector<bool> coloured(nIn, false), used(nIn, false);
  std::vector<std::vector<Section>> eqs(nIn, std::vector<Section>(sections)), oes(nOut);
  for (std::size_t i = 0; i < nOut; ++i) oes[i].resize(outEq[i].size());
  std::vector<Section> lo(nIn), hi(nIn);
  Biquad lp, hp;
  lp.b0 = lp.b2 = 0.001921697757295; lp.b1 = 0.003843395514590; lp.a1 = -1.824651307057289; lp.a2 = 0.832338098086468;
  hp.b0 = hp.b2 = -0.914247351285939; hp.b1 = 1.828494702571878; hp.a1 = lp.a1; hp.a2 = lp.a2;
  std::vector<Matrix> mat(3, Matrix(nr, nIn, steps));
  std::vector<std::vector<double>> target(3, std::vector<double>(nr * nIn, 0));
  std::size_t const settle = steps <= period ? steps : period * (std::size_t)std::ceil(std::log(1e-5) / std::log(1 - (double)period / (double)steps)); // unknown gains are forgotten
  std::vector<std::vector<double>> difHist(nr), mixHist(nr), outHist(nOut);
  std::vector<double> lGain(nr, 1);
  std::vector<std::size_t> lDelay(nr, 0);
  bool const energy[3] = {!dual, true, true};
  std::size_t unknownUntil = 0; // output samples before that are not compared
  std::vector<double> peak(nIn, 0);
  bool sceneKnown = true, poseKnown = !tracking;
  std::size_t const lag = *std::max_element(outDelay.begin(), outDelay.end());
  om::Scene scene;
  std::size_t const periods = c.size(1, std::min<std::size_t>(40, 1200 / period + 4));
  auto const ids = m.ids();
  std::size_t compared = 0;
  for (std::size_t t = 0; t < periods; ++t)
  {
    std::size_t const now = t * period;
    bool const move = tracking && (t == 0 || c.chance(8));
    V3 l = p.L;
    if (move)
    {
      l = t == 0 && c.flag() ? V3{} : anyListener(c, p);
      p.listener(l);
      c.note() << "[" << t << "] listener " << str(l) << "\n";
      rig.param<pml::ListenerPosition>("trackingPositionInput") = pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2]);
      rig.dbl("trackingPositionInput").swapBuffers();
      // distances
      double far = 0;
      for (std::size_t i = 0; i < nr; ++i) far = std::max(far, len(p.pos[i] - l));
      bool same = true;
      poseKnown = true;
      for (std::size_t i = 0; i < nr; ++i)
      {
        double const r = len(p.pos[i] - l), d = (far - r) / 344 * fs;
        if (std::abs(d - std::floor(d) - 0.5) < 0.02) poseKnown = false;
        std::size_t const dd = (std::size_t)std::floor(d + 0.5);
        if (dd != lDelay[i] || std::abs(r / far - lGain[i]) > 1e-9) same = false;
        lDelay[i] = dd;
        lGain[i] = r / far;
      }
      if (!same || t == 0) unknownUntil = std::max(unknownUntil, now + period + lag + (m.hasEq ? decay : 0));
    }
    bool const change = t == 0 || c.chance(10);
    if (change)
    {
      std::vector<unsigned> ch;
      if (c.chance(15)) scene.clear();
      std::size_t const ops = c.size(1, 4);
      for (std::size_t n = 0; n < ops; ++n)
      {
        if (!scene.empty() && c.chance(35)) { auto it = scene.begin(); std::advance(it, (long)c.draw(scene.size())); scene.erase(it); continue; }
        unsigned const id = (unsigned)c.draw(6);
        std::set<unsigned> taken;
        for (auto const& o : scene) if (o.first != id) taken.insert(o.second.channels.begin(), o.second.channels.end());
        ch.clear();
        for (unsigned i = 0; i < nIn; ++i) if (!taken.count(i)) ch.push_back(i);
        for (std::size_t i = ch.size(); i > 1; --i) std::swap(ch[i - 1], ch[(std::size_t)c.draw(i)]);
        int const kind = c.pick<int>({om::Point, om::PointDiffuse, om::Plane, om::Diffuse, om::Channel, om::Extent, om::Reverb, om::Hoa});
        om::Obj o = om::anyObject(c, id, kind, 3);
        std::size_t need = kind == om::Hoa ? o.channels.size() : kind == om::Channel ? c.wide(1, 3, 7) : 1;
        if (need > ch.size()) continue;
        o.channels.assign(ch.begin(), ch.begin() + (std::ptrdiff_t)need);
        if (kind != om::Hoa && c.chance(4)) o.channels[0] = (unsigned)(nIn + c.draw(3));
        o.level = c.chance(60) ? (float)c.real(0, 2) : (float)c.sym(2);
        o.lock = 0;
        o.eq.clear();
        if (sections && c.chance(40)) for (std::size_t i = c.size(1, sections); i > 0; --i) o.eq.push_back(anyEq(c));
        if (o.hasPos()) { V3 const s = anySource(c, p, false); o.x = (float)s[0]; o.y = (float)s[1]; o.z = (float)s[2]; }
        o.diffuseness = c.flag() ? (float)c.real(0, 1) : (float)c.draw(2);
        if (kind == om::Plane) { o.az = (float)c.sym(360); o.el = (float)c.sym(m.is2D ? 60 : 90); }
        if (kind == om::Channel)
        {
          o.outputs.clear();
          for (std::size_t i = 0; i < need; ++i)
          {
            std::vector<std::string> out;
            for (std::size_t j = c.chance(70) ? 1 : c.size(0, 3); j > 0; --j) out.push_back(c.chance(90) ? ids[(std::size_t)c.draw(nr)] : "nosuch" + std::to_string(j));
            std::sort(out.begin(), out.end());
            out.erase(std::unique(out.begin(), out.end()), out.end());
            o.outputs.push_back(out);
          }
        }
        scene[id] = o;
      }
      auto& ov = rig.param<pml::ObjectVector>("objectDataInput");
      ov.clear();
      for (auto const& e : scene)
      {
        om::Obj const& o = e.second;
        ov.insert(om::toLib(o));
        c.note() << "[" << t << "] object " << o.id << " " << om::kindName(o.kind) << " level " << o.level << " channels";
        for (unsigned x : o.channels) c.note() << " " << x;
        if (o.hasPos()) c.note() << " at " << str(V3{{o.x, o.y, o.z}});
        if (o.kind == om::Plane) c.note() << " from " << o.az << "," << o.el;
        for (auto const& x : o.outputs) { c.note() << " ->"; for (auto const& y : x) c.note() << " " << y; }
        for (auto const& x : o.eq) c.note() << " " << om::eqName(x.type) << "(" << x.f << "," << x.q << "," << x.gain << ")";
        c.note() << " diffuseness " << o.diffuseness << "\n";
      }
      rig.dbl("objectDataInput").swapBuffers();
      // levels and equalisers
      std::vector<bool> usedNow(nIn, false);
      std::vector<double> lv(nIn, 0);
      for (auto const& e : scene)
        for (unsigned x : e.second.channels)
        {
          if (x >= nIn) continue;
          usedNow[x] = true;
          lv[x] = e.second.level;
          for (std::size_t s = 0; s < sections; ++s)
          {
            Biquad const n = s < e.second.eq.size() ? design(e.second.eq[s]) : Biquad();
            Biquad& cur = eq[x][s];
            // the transient of a filter change depends on the structure of the filter
            if (n.b0 != cur.b0 || n.b1 != cur.b1 || n.b2 != cur.b2 || n.a1 != cur.a1 || n.a2 != cur.a2) { cur = n; if (t) unknownUntil = std::max(unknownUntil, now + decay + fl + lag); }
          }
          if (!e.second.eq.empty()) coloured[x] = true;
        }
      for (std::size_t i = 0; i < nIn; ++i)
      {
        level[i].set(lv[i]);
        if (!usedNow[i] && coloured[i]) unknownUntil = std::max(unknownUntil, now + steps + decay + fl + lag); // the filter of an unused signal is not specified
      }
      used = usedNow;
    }
    if (change || move)
    {
      // gain matrices; updated together
      bool known = true;
      std::vector<std::vector<double>> g(3, std::vector<double>(nr * nIn, 0)), tl(3, std::vector<double>(nr * nIn, 1e-6));
      for (auto const& e : scene)
        for (std::size_t i = 0; i < e.second.channels.size(); ++i)
          for (int k = 0; k < 3; ++k)
          {
            unsigned const x = e.second.channels[i];
            if (x >= nIn) continue;
            Part const r = gainsOf(e.second, i, k, energy[k], m, p);
            if (!r.known && (dual || k != 1)) known = false;
            for (std::size_t j = 0; j < nr; ++j) { g[(std::size_t)k][j * nIn + x] = r.g[j]; tl[(std::size_t)k][j * nIn + x] = r.tol[j]; }
          }
      for (std::size_t k = 0; k < 3; ++k)
      {
        for (std::size_t j = 0; j < nr * nIn; ++j)
        {
          target[k][j] = g[k][j];
          mat[k].tol[j] = std::max(mat[k].tol[j], tl[k][j]);
        }
      }
      if (!sceneKnown) unknownUntil = std::max(unknownUntil, now + settle + decay + fl + lag);
      sceneKnown = known;
      if (scene.size() >= 2) c.nontrivial();
    }
    c.flushNote();
    if (!sceneKnown || !poseKnown) unknownUntil = std::max(unknownUntil, now + period + decay + fl + lag);

    // in each block, a transition towards the current gains starts
    for (std::size_t k = 0; k < 3; ++k) for (std::size_t j = 0; j < nr * nIn; ++j) mat[k].g[j].set(target[k][j]);
    auto const in = vflow::noise(c, nIn, period);
    auto const out = rig.process(in);
    // model
    for (std::size_t n = 0; n < period; ++n)
    {
      std::vector<double> x(nIn), xl(nIn), xh(nIn);
      for (std::size_t i = 0; i < nIn; ++i)
      {
        double v = level[i].next() * in[i][n];
        for (std::size_t s = 0; s < sections; ++s) v = eqs[i][s].step(eq[i][s], v);
        x[i] = v;
        peak[i] = std::max(peak[i], std::abs(v));
        xl[i] = dual ? lo[i].step(lp, v) : v;
        xh[i] = dual ? hi[i].step(hp, v) : 0;
      }
      for (std::size_t j = 0; j < nr; ++j)
      {
        double direct = 0, dif = 0;
        for (std::size_t i = 0; i < nIn; ++i)
        {
          std::size_t const e = j * nIn + i;
          direct += mat[0].g[e].next() * xl[i];
          double const gh = mat[1].g[e].next();
          if (dual) direct += gh * xh[i];
          dif += mat[2].g[e].next() * x[i];
        }
        difHist[j].push_back(dif);
        std::size_t const T = difHist[j].size() - 1;
        for (std::size_t k = 0; k < fl && k <= T; ++k) direct += df[j][k] * difHist[j][T - k];
        mixHist[j].push_back(direct);
      }
      std::vector<double> y(nOut, 0);
      for (std::size_t j = 0; j < nr; ++j)
      {
        std::size_t const T = mixHist[j].size() - 1;
        y[j] = T >= lDelay[j] ? lGain[j] * mixHist[j][T - lDelay[j]] : 0;
      }
      for (std::size_t s = 0; s < ns; ++s) for (std::size_t j = 0; j < nr; ++j) y[nr + s] += sub[s][j] * y[j];
      for (std::size_t j = 0; j < nOut; ++j)
      {
        for (std::size_t s = 0; s < outEq[j].size(); ++s) y[j] = oes[j][s].step(outEq[j][s], y[j]);
        outHist[j].push_back(y[j]);
      }
    }
    // compare
    std::vector<double> tol(nOut, 1e-5);
    for (std::size_t j = 0; j < nr; ++j)
    {
      double h1 = 0;
      for (double v : df[j]) h1 += std::abs(v);
      for (std::size_t i = 0; i < nIn; ++i)
      {
        std::size_t const e = j * nIn + i;
        double const pk = 3 * peak[i];
        tol[j] += pk * (mat[0].tol[e] + (dual ? mat[1].tol[e] : 0) + h1 * mat[2].tol[e] + 4e-5 * (1 + h1));
      }
    }
    for (std::size_t s = 0; s < ns; ++s) for (std::size_t j = 0; j < nr; ++j) tol[nr + s] += std::abs(sub[s][j]) * tol[j];
    std::vector<int> src(channels, -1);
    for (std::size_t j = 0; j < nOut; ++j) src[outChannel[j]] = (int)j;
    for (std::size_t ch = 0; ch < channels; ++ch)
      for (std::size_t n = 0; n < period; ++n)
      {
        double const got = out[ch][n];
        std::size_t const T = now + n;
        if (src[ch] < 0) { PBT_CHECK(got == 0, "period " << t << ": unused output channel " << ch + 1 << " is not silent"); continue; }
        std::size_t const j = (std::size_t)src[ch];
        PBT_CHECK(std::isfinite(got), "period " << t << ": output channel " << ch + 1 << " is " << got);
        if (T < unknownUntil) continue;
        double const e = T >= outDelay[j] ? outGain[j] * outHist[j][T - outDelay[j]] : 0;
        double const tl = tol[j] * (1 + std::abs(outGain[j])) * (outL1[j] + 1);
        ++compared;
        PBT_CHECK(std::abs(got - e) <= tl, "period " << t << " (sample " << T << "): output channel " << ch + 1 << " (" << (j < nr ? "loudspeaker " : "subwoofer ") << (j < nr ? j : j - nr) << ") is " << got << " instead of " << e << " (tolerance " << tl << ")");
      }
  }
  if (!compared) c.label("nothing compared");
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "a scene with at least two objects is rendered";
  s.subs = {{"render", render, 4000, 400000}};
  s.assumptions = {"equalisers with a response shorter than 300 samples; output delays of whole samples", "transients of the listener delay (one block) and of equalisers of removed objects are not compared", "objects of a scene use distinct signal channels"};
  return pbt::run(argc, argv, s);
}
