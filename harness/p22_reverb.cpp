// P22: reverberant objects: slot allocation and parameters, late filters, rendered reflections and tails.
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "panmodel.hpp"
#include "pbt.hpp"

#include <libefl/basic_matrix.hpp>
#include <libpanning/LoudspeakerArray.h>
#include <libpml/biquad_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libreverbobject/late_reverb_filter_calculator.hpp>
#include <libreverbobject/late_reverb_parameter.hpp>
#include <libreverbobject/reverb_object_renderer.hpp>
#include <libreverbobject/reverb_parameter_calculator.hpp>
#include <libsignalflows/core_renderer.hpp>

#include <complex>
#include <deque>
#include <set>

using namespace visr;
using namespace pan;

namespace
{
double const fs = 48000;
std::size_t const decay = 300;
std::size_t const nBands = 9, nBiquads = 10;

// ---------------------------------------------------------------------------------------------
struct Biquad { double b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0; };
struct Section
{
  double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
  double step(Biquad const& q, double x)
  {
    double const y = q.b0 * x + q.b1 * x1 + q.b2 * x2 - q.a1 * y1 - q.a2 * y2;
    x2 = x1; x1 = x; y2 = y1; y1 = y;
    return y;
  }
};
Biquad toBiquad(std::array<float, 5> const& q) { Biquad r; r.b0 = q[0]; r.b1 = q[1]; r.b2 = q[2]; r.a1 = q[3]; r.a2 = q[4]; return r; }
double l1(std::vector<Biquad> const& q)
{
  std::vector<Section> s(q.size());
  double r = 0;
  for (int i = 0; i < 600; ++i) { double v = i == 0; for (std::size_t k = 0; k < q.size(); ++k) v = s[k].step(q[k], v); r += std::abs(v); }
  return r;
}
// a filter with a short response
std::array<float, 5> anyBiquad(pbt::Case& c)
{
  double const r = c.real(0, 0.75), w = c.real(0, PI);
  return {{(float)c.real(0.2, 1), (float)c.sym(0.5), (float)c.sym(0.5), (float)(-2 * r * std::cos(w)), (float)(r * r)}};
}
double at(std::vector<double> const& h, std::ptrdiff_t i) { return i < 0 || i >= (std::ptrdiff_t)h.size() ? 0.0 : h[(std::size_t)i]; }
// signal h at time t delayed by d samples (third order Lagrange interpolation, minimum delay 1.5 samples)
double delayed(std::vector<double> const& h, std::ptrdiff_t t, double d)
{
  double const pos = (double)t - std::max(d, 1.5);
  std::ptrdiff_t const base = (std::ptrdiff_t)std::floor(pos + 1e-9) - 1;
  double const x = pos - (double)base;
  double s = 0;
  for (int j = 0; j <= 3; ++j)
  {
    double w = 1;
    for (int m = 0; m <= 3; ++m) if (m != j) w *= (x - m) / (double)(j - m);
    s += w * at(h, base + j);
  }
  return s;
}
std::string desc(om::Obj const& o)
{
  std::ostringstream s;
  s << "object " << o.id << " " << om::kindName(o.kind) << " channels";
  for (unsigned x : o.channels) s << " " << x;
  s << " level " << o.level;
  if (o.kind == om::Reverb)
  {
    for (auto const& r : o.refl) { s << " reflection(" << r.level << ", " << r.delay * fs << " samples, " << str(V3{{r.x, r.y, r.z}}) << ", " << r.biquads.size() << " sections)"; }
    s << " late onset " << o.lateDelay << " levels";
    for (float x : o.lateLevel) s << " " << x;
    s << " attacks";
    for (float x : o.lateAttack) s << " " << x;
    s << " decays";
    for (float x : o.lateDecay) s << " " << x;
  }
  return s.str();
}
om::Refl anyRefl(pbt::Case& c, Panner const& p, std::size_t maxDelaySamples, bool determined)
{
  om::Refl r;
  for (int tries = 0;; ++tries)
  {
    V3 const s = anySource(c, p, false);
    r.x = (float)s[0]; r.y = (float)s[1]; r.z = (float)s[2];
    if (!determined || normalise(p.gains(s, false), true).determined) break;
    if (tries == 20) { r.x = (float)p.pos[0][0]; r.y = (float)p.pos[0][1]; r.z = (float)p.pos[0][2]; break; }
  }
  r.level = c.chance(70) ? (float)c.real(0, 2) : (float)c.sym(2);
  double const d = c.weighted({3, 1, 1}) == 0 ? c.real(0, (double)maxDelaySamples) : c.flag() ? (double)c.size(0, maxDelaySamples) : (double)maxDelaySamples;
  r.delay = (float)(d / fs);
  while (r.delay * (float)fs > (float)maxDelaySamples) r.delay = std::nextafter(r.delay, 0.f);
  std::size_t const nb = c.chance(10) ? nBiquads : c.size(0, 2);
  for (std::size_t b = 0; b < nb; ++b) r.biquads.push_back(anyBiquad(c));
  return r;
}
float grid(pbt::Case& c, int lo, int hi) { return (float)c.range(lo, hi) / 64.f; }
om::Obj reverbObject(pbt::Case& c, unsigned id, unsigned channel)
{
  om::Obj o;
  o.kind = om::Reverb;
  o.id = id;
  o.level = 1;
  o.channels = {channel};
  o.x = 1;
  (void)c;
  return o;
}
void anyLate(pbt::Case& c, om::Obj& o)
{
  o.lateDelay = grid(c, 0, 64);
  for (auto& v : o.lateLevel) v = grid(c, -64, 128);
  for (auto& v : o.lateAttack) v = grid(c, 0, 64);
  for (auto& v : o.lateDecay) v = grid(c, -640, 0);
}

// ---------------------------------------------------------------------------------------------
// one parameter calculator with its model
struct Late { float onset = 0; std::array<float, 9> level{}, attack{}, decay{}; };
struct Calc
{
  Array m;
  panning::LoudspeakerArray a;
  Panner p;
  std::size_t slots, R, signals;
  std::unique_ptr<SignalFlowContext> ctx;
  std::unique_ptr<reverbobject::ReverbParameterCalculator> comp;
  std::unique_ptr<vflow::Rig> rig;
  om::Scene scene;
  std::map<unsigned, std::size_t> slotOf;
  std::vector<Late> prev;
  std::vector<bool> known;
  bool dead = false;
  Calc(pbt::Case& c, int n) : m(anyArray(c, wish())), p(m), slots(c.size(0, 5)), R(c.size(0, 4)), signals(c.chance(70) ? 1000 : 25), prev(slots), known(slots, false)
  {
    a.loadXmlString(text(c, m));
    ctx.reset(new SignalFlowContext(16, (SamplingFrequencyType)fs));
    comp.reset(new reverbobject::ReverbParameterCalculator(*ctx, n ? "second" : "first", nullptr));
    if (c.chance(2))
    {
      pbt::mustThrow([&] { comp->setup(a, slots, R, nBiquads - 1, 0.1f, nBands); }, "unsupported number of filter sections");
    }
    if (signals == 1000) comp->setup(a, slots, R, nBiquads, 0.1f, nBands);
    else comp->setup(a, slots, R, nBiquads, 0.1f, nBands, signals);
    rig.reset(new vflow::Rig(*comp));
    c.note() << "calculator " << n << ": " << slots << " slots, " << R << " reflections, " << signals << " signals, " << m.spk.size() << "+" << m.virt.size() << " loudspeakers\n";
  }
  bool active(om::Obj const& o) const { return o.kind == om::Reverb && o.channels[0] < signals; }
  static Wish wish() { Wish w; w.subs = false; w.eq = false; return w; }
  std::size_t reverbs() const { std::size_t n = 0; for (auto const& o : scene) n += active(o.second); return n; }
  void edit(pbt::Case& c)
  {
    bool const over = c.chance(2);
    std::size_t const ops = c.size(0, 4);
    if (c.chance(8)) scene.clear();
    for (std::size_t n = 0; n < ops; ++n)
    {
      if (!scene.empty() && c.chance(30)) { auto it = scene.begin(); std::advance(it, (long)c.draw(scene.size())); scene.erase(it); continue; }
      unsigned const id = (unsigned)c.draw(9);
      auto it = scene.find(id);
      bool const reverb = c.chance(75);
      if (it != scene.end() && it->second.kind == om::Reverb && c.chance(60))
      {
        om::Obj& o = it->second; // modify a detail
        switch (c.draw(7))
        {
        case 0: o.lateDelay = grid(c, 0, 64); break;
        case 1: o.lateLevel[(std::size_t)c.draw(9)] = grid(c, -64, 128); break;
        case 2: o.lateAttack[(std::size_t)c.draw(9)] = grid(c, 0, 64); break;
        case 3: o.lateDecay[(std::size_t)c.draw(9)] = grid(c, -640, 0); break;
        case 4: if (active(o) || over) o.channels[0] = 10 + id + 10 * (unsigned)c.draw(3); break;
        case 5: if (!o.refl.empty()) o.refl.pop_back(); break;
        default: if (o.refl.size() < R) o.refl.push_back(anyRefl(c, p, 100, false)); else if (!o.refl.empty()) o.refl[(std::size_t)c.draw(o.refl.size())] = anyRefl(c, p, 100, false);
        }
        continue;
      }
      om::Obj o;
      if (reverb)
      {
        o = reverbObject(c, id, 10 + id + 10 * (unsigned)c.draw(3));
        if (!c.chance(15)) anyLate(c, o);
        for (std::size_t i = c.size(0, R); i > 0; --i) o.refl.push_back(anyRefl(c, p, 100, false));
        bool const was = it != scene.end() && active(it->second);
        if (!over && !was && active(o) && reverbs() >= slots) continue;
      }
      else o = om::anyObject(c, id, c.pick<int>({om::Point, om::Plane, om::Diffuse}), 5);
      scene[id] = o;
    }
    if (c.chance(1)) // more reflections than supported
      for (auto& e : scene) if (active(e.second)) { while (e.second.refl.size() <= R) e.second.refl.push_back(anyRefl(c, p, 100, false)); break; }
  }
  void send(pbt::Case& c, int n, std::size_t t)
  {
    auto& ov = rig->param<pml::ObjectVector>("objectInput");
    ov.clear();
    for (auto const& e : scene) { ov.insert(om::toLib(e.second)); c.note() << "[" << t << "] calculator " << n << " " << desc(e.second) << "\n"; }
    rig->dbl("objectInput").swapBuffers();
    c.flushNote();
  }
  // runs one period and compares
  void step(pbt::Case& c, int n, std::size_t t)
  {
    bool tooMany = reverbs() > slots;
    for (auto const& e : scene) if (active(e.second) && e.second.refl.size() > R) tooMany = true;
    std::string err;
    std::ostringstream w;
    w << "calculator " << n << ", period " << t << ": ";
    std::string const what = w.str();
    int const r = pbt::outcome([&] { rig->process(vflow::Audio()); }, &err);
    if (tooMany)
    {
      PBT_CHECK(r == 1, what << "too many objects or reflections: " << (r == 0 ? "accepted" : err));
      dead = true;
      c.label("too many");
      return;
    }
    PBT_CHECK(r == 0, what << err);
    auto& route = static_cast<pml::SignalRoutingParameter const&>(rig->dblOut("signalRoutingOut").data());
    auto& gain = static_cast<pml::VectorParameter<float> const&>(rig->dblOut("discreteGainOut").data());
    auto& delay = static_cast<pml::VectorParameter<float> const&>(rig->dblOut("discreteDelayOut").data());
    auto& eq = static_cast<pml::BiquadParameterMatrix<float> const&>(rig->dblOut("discreteEqOut").data());
    auto& pang = rig->sharedOut<pml::MatrixParameter<float>>("discretePanningGainOut");
    auto& lgain = static_cast<pml::VectorParameter<float> const&>(rig->dblOut("lateGainOut").data());
    auto& ldelay = static_cast<pml::VectorParameter<float> const&>(rig->dblOut("lateDelayOut").data());
    std::size_t const nr = m.spk.size();
    PBT_CHECK(gain.size() == slots * R && delay.size() == slots * R && (slots * R == 0 || (eq.numberOfFilters() == slots * R && eq.numberOfSections() == nBiquads)) && lgain.size() == slots && ldelay.size() == slots, what << "dimensions of the outputs");
    PBT_CHECK(slots * R == 0 || (pang.numberOfRows() == nr && pang.numberOfColumns() == slots * R), what << "dimensions of the panning matrix");
    // slots
    std::map<unsigned, std::size_t> now;
    std::vector<int> owner(slots, -1);
    for (auto const& e : slotOf) { auto it = scene.find(e.first); if (it != scene.end() && active(it->second)) { now[e.first] = e.second; owner[e.second] = (int)e.first; } }
    for (auto const& e : scene)
    {
      if (!active(e.second) || now.count(e.first)) continue;
      std::size_t s = 0;
      while (s < slots && !(owner[s] < 0 && route.getInput(s) == e.second.channels[0])) ++s;
      PBT_CHECK(s < slots, what << "no slot plays signal " << e.second.channels[0] << " of the new object " << e.first);
      now[e.first] = s;
      owner[s] = (int)e.first;
    }
    slotOf = now;
    PBT_CHECK(route.size() == now.size(), what << route.size() << " routings for " << now.size() << " objects");
    // late messages
    std::map<std::size_t, Late> msg;
    auto& q = rig->queueOut("lateSubbandOut");
    for (; !q.empty(); q.pop())
    {
      auto const& x = static_cast<reverbobject::LateReverbParameter const&>(q.front());
      PBT_CHECK(x.index() < slots, what << "late parameters for slot " << x.index());
      PBT_CHECK(!msg.count(x.index()), what << "slot " << x.index() << " receives late parameters twice");
      Late l;
      l.onset = x.getReverbParameters().onsetDelay();
      l.level = x.getReverbParameters().levels(); l.attack = x.getReverbParameters().attackTimes(); l.decay = x.getReverbParameters().decayCoeffs();
      msg[x.index()] = l;
    }
    for (std::size_t s = 0; s < slots; ++s)
    {
      om::Obj const* o = owner[s] < 0 ? nullptr : &scene[(unsigned)owner[s]];
      std::ostringstream ws;
      ws << what << "slot " << s << (o ? " (object " + std::to_string(owner[s]) + ")" : " (unused)");
      std::string const wh = ws.str();
      std::size_t const in = route.getInput(s);
      PBT_CHECK(in == (o ? o->channels[0] : pml::SignalRoutingParameter::cInvalidIndex), wh << " plays signal " << in << (o ? " instead of " + std::to_string(o->channels[0]) : ""));
      PBT_CHECK(lgain[s] == (o ? 1 : 0) && ldelay[s] == 0, wh << ": late gain " << lgain[s] << " delay " << ldelay[s]);
      for (std::size_t i = 0; i < R; ++i)
      {
        std::size_t const k = s * R + i;
        bool const on = o && i < o->refl.size();
        om::Refl const none;
        om::Refl const& f = on ? o->refl[i] : none;
        PBT_CHECK(gain[k] == f.level, wh << " reflection " << i << ": gain " << gain[k] << " instead of " << f.level);
        PBT_CHECK(delay[k] == f.delay, wh << " reflection " << i << ": delay " << delay[k] << " instead of " << f.delay);
        for (std::size_t b = 0; b < nBiquads; ++b)
        {
          std::array<float, 5> const flat = {{1, 0, 0, 0, 0}};
          std::array<float, 5> const& e = b < f.biquads.size() ? f.biquads[b] : flat;
          auto const& g = eq(k, b);
          PBT_CHECK(g.b0() == e[0] && g.b1() == e[1] && g.b2() == e[2] && g.a1() == e[3] && g.a2() == e[4], wh << " reflection " << i << ": filter section " << b);
        }
        if (!on) { for (std::size_t l = 0; l < nr; ++l) PBT_CHECK(pang(l, k) == 0, wh << " reflection " << i << ": unused, but panning gain " << pang(l, k)); continue; }
        V3 const pos = {{f.x, f.y, f.z}};
        Gains const u = p.gains(pos, false);
        Normed const g = normalise(u, true);
        for (std::size_t l = 0; l < nr; ++l)
        {
          if (g.determined) PBT_CHECK(std::abs(pang(l, k) - g.g[l]) <= g.tol, wh << " reflection " << i << " at " << str(pos) << ": gain " << pang(l, k) << " of loudspeaker " << l << " instead of " << g.g[l]);
          else PBT_CHECK(std::isfinite(pang(l, k)) && std::abs(pang(l, k)) <= 1 + 1e-5, wh << " reflection " << i << ": gain " << pang(l, k));
        }
      }
      // late parameters of the slot
      Late want;
      if (o) { want.onset = o->lateDelay; want.level = o->lateLevel; want.attack = o->lateAttack; want.decay = o->lateDecay; }
      bool const changed = want.onset != prev[s].onset || want.level != prev[s].level || want.attack != prev[s].attack || want.decay != prev[s].decay;
      auto const it = msg.find(s);
      if (it != msg.end())
      {
        PBT_CHECK(changed || !known[s], wh << ": late parameters are repeated");
        Late const& g = it->second;
        PBT_CHECK(g.level == want.level, wh << ": late levels");
        if (o) PBT_CHECK(g.onset == want.onset && g.attack == want.attack && g.decay == want.decay, wh << ": onset, attack or decay of the late part");
        known[s] = true;
      }
      else
      {
        PBT_CHECK(!changed && (known[s] || !o), wh << ": no late parameters are sent");
      }
      prev[s] = want;
    }
    if (now.size() >= 2) c.nontrivial();
  }
};
void parameters(pbt::Case& c)
{
  Quiet q;
  std::vector<std::unique_ptr<Calc>> calcs;
  std::size_t const n = c.chance(30) ? 2 : 1;
  for (std::size_t i = 0; i < n; ++i) calcs.emplace_back(new Calc(c, (int)i));
  std::size_t const periods = c.size(1, 12);
  for (std::size_t t = 0; t < periods; ++t)
    for (std::size_t i = 0; i < n; ++i)
    {
      Calc& k = *calcs[i];
      if (k.dead) continue;
      if (t == 0 || c.chance(80)) { k.edit(c); k.send(c, (int)i, t); }
      k.step(c, (int)i, t);
    }
}

// ---------------------------------------------------------------------------------------------
using IndexedFilter = pml::IndexedValueParameter<std::size_t, std::vector<float>>;
using LateReverb = objectmodel::PointSourceWithReverb::LateReverb;
// pole/zero form of the octave filters: peak at the centre frequency with unit gain
struct Fft
{
  static void run(std::vector<std::complex<double>>& x)
  {
    std::size_t const n = x.size();
    for (std::size_t i = 1, j = 0; i < n; ++i) { std::size_t bit = n >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) std::swap(x[i], x[j]); }
    for (std::size_t len = 2; len <= n; len <<= 1)
    {
      std::complex<double> const w = std::polar(1.0, -2 * PI / (double)len);
      for (std::size_t i = 0; i < n; i += len)
      {
        std::complex<double> f = 1;
        for (std::size_t j = 0; j < len / 2; ++j) { auto const u = x[i + j], v = x[i + j + len / 2] * f; x[i + j] = u + v; x[i + j + len / 2] = u - v; f *= w; }
      }
    }
  }
};
void filters(pbt::Case& c)
{
  Quiet q;
  std::size_t const objects = c.size(1, 4), U = c.size(0, 3);
  std::size_t const N = c.chance(8) ? 4096 : c.weighted({6, 1}) == 0 ? c.size(1, 300) : c.size(1, 3);
  float const len = c.chance(4) ? (N == 1 ? 0.f : (float)(((double)N - 0.5) / fs)) : (float)(((double)N - 0.5) / fs);
  SignalFlowContext const ctx(16, (SamplingFrequencyType)fs);
  if (c.chance(2)) pbt::mustThrow([&] { reverbobject::LateReverbFilterCalculator f(ctx, "f", nullptr, objects, len, c.flag() ? 8 : 10, U); }, "unsupported number of bands");
  reverbobject::LateReverbFilterCalculator comp(ctx, "calculator", nullptr, objects, len, nBands, U);
  vflow::Rig rig(comp);
  c.note() << objects << " objects, " << N << " samples, " << U << " updates per period\n";
  struct Msg { std::size_t index; Late p; int band; };
  std::deque<Msg> pending;
  std::vector<std::vector<std::vector<double>>> nz(objects, std::vector<std::vector<double>>(nBands));
  auto send = [&](Msg const& m)
  {
    LateReverb l;
    l.setOnsetDelay(m.p.onset);
    l.setLevels(m.p.level);
    l.setAttackTimes(m.p.attack);
    l.setDecayCoeffs(m.p.decay);
    rig.enqueue("subbandInput", reverbobject::LateReverbParameter(m.index, l));
    pending.push_back(m);
  };
  std::size_t t = 0;
  auto step = [&]
  {
    c.flushNote();
    std::size_t const before = pending.size();
    pbt::mustNotThrow([&] { rig.process(vflow::Audio()); }, "process");
    std::size_t got = 0;
    for (auto& o = rig.queueOut("lateFilterOutput"); !o.empty(); o.pop(), ++got)
    {
      PBT_CHECK(!pending.empty(), "period " << t << ": unexpected filter");
      Msg const m = pending.front();
      pending.pop_front();
      auto const& f = static_cast<IndexedFilter const&>(o.front());
      PBT_CHECK(f.index() == m.index, "period " << t << ": filter for object " << f.index() << " instead of " << m.index);
      PBT_CHECK(f.value().size() == N, "period " << t << ": " << f.value().size() << " filter coefficients instead of " << N);
      if (m.band >= 0) { nz[m.index][(std::size_t)m.band].assign(f.value().begin(), f.value().end()); continue; }
      for (std::size_t n = 0; n < N; ++n)
      {
        double e = 0, tol = 1e-6;
        for (std::size_t b = 0; b < nBands; ++b)
        {
          std::size_t const D = (std::size_t)std::lround(m.p.onset * fs), A = (std::size_t)std::lround(m.p.attack[b] * fs);
          double const env = n < D ? 0 : n < D + A ? (double)(n - D) / (double)A : std::exp((double)m.p.decay[b] / fs * (double)(n - D - A));
          e += m.p.level[b] * env * nz[m.index][b][n];
          tol += 1e-5 * std::abs(m.p.level[b] * env);
        }
        PBT_CHECK(std::abs(f.value()[n] - e) <= tol, "period " << t << ", object " << m.index << ": filter coefficient " << n << " is " << f.value()[n] << " instead of " << e);
      }
    }
    if (U) PBT_CHECK(got == std::min(before, U), "period " << t << ": " << got << " of " << before << " filters calculated with at most " << U << " per period");
    else PBT_CHECK(got == std::min(before, std::max<std::size_t>(before, 1)), "period " << t << ": " << got << " of " << before << " filters calculated");
    ++t;
  };
  // noise of all objects and bands
  for (std::size_t b = 0; b < nBands; ++b)
  {
    for (std::size_t i = 0; i < objects; ++i)
    {
      Msg m;
      m.index = i;
      m.band = (int)b;
      m.p.level[b] = 1;
      send(m);
    }
    while (!pending.empty()) step();
  }
  for (std::size_t i = 0; i < objects; ++i)
    for (std::size_t b = 0; b < nBands; ++b)
    {
      auto const& x = nz[i][b];
      double pk = 0, e = 0;
      for (double v : x) { pk = std::max(pk, std::abs(v)); e += v * v; }
      PBT_CHECK(std::isfinite(e) && pk < 4, "noise of object " << i << " band " << b);
      if (N >= 8) PBT_CHECK(pk > 0, "the noise of object " << i << " band " << b << " is zero");
      if (N < 32) continue;
      for (std::size_t i2 = 0; i2 < objects; ++i2)
        for (std::size_t b2 = 0; b2 < nBands; ++b2)
          if (i2 != i || b2 != b) PBT_CHECK(nz[i2][b2] != x, "objects " << i << " and " << i2 << " use the same noise (bands " << b << ", " << b2 << ")");
      if (N != 4096 || b < 4) continue;
      // energy is concentrated around the centre frequency
      std::vector<std::complex<double>> X(N);
      for (std::size_t n = 0; n < N; ++n) X[n] = x[n] * (0.5 - 0.5 * std::cos(2 * PI * (double)n / (double)N));
      Fft::run(X);
      double in = 0, all = 0;
      double const f0 = 62.5 * std::pow(2.0, (double)b);
      for (std::size_t k = 1; k < N / 2; ++k)
      {
        double const f = (double)k * fs / (double)N, p = std::norm(X[k]);
        all += p;
        if (f > f0 / 2 && f < f0 * 2) in += p;
      }
      PBT_CHECK(in > 0.5 * all, "object " << i << ": only " << 100 * in / all << " % of the noise of band " << b << " are within two octaves around " << f0 << " Hz");
      // uniform white noise in [-1,1] filtered with unit gain in one octave
      double const rms = std::sqrt(e / (double)N), bw = b < 8 ? f0 * 1.1 : fs / 2 - f0 * 0.75;
      double const expected = std::sqrt(bw / (fs / 2) / 3);
      PBT_CHECK(rms > expected / 1.9 && rms < expected * 1.9, "object " << i << " band " << b << ": noise level " << rms << ", expected about " << expected);
      c.label("spectrum");
    }
  std::size_t const rounds = c.size(1, 6);
  for (std::size_t r = 0; r < rounds; ++r)
  {
    std::vector<std::size_t> ix(objects);
    for (std::size_t i = 0; i < objects; ++i) ix[i] = i;
    for (std::size_t i = objects; i > 1; --i) std::swap(ix[i - 1], ix[(std::size_t)c.draw(i)]);
    std::size_t const k = c.size(0, objects);
    for (std::size_t i = 0; i < k && (U || pending.size() + i < objects); ++i)
    {
      Msg m;
      m.index = ix[i];
      m.band = -1;
      std::size_t const D = c.chance(30) ? 0 : c.size(0, N - 1);
      m.p.onset = (float)((double)D / fs);
      for (std::size_t b = 0; b < nBands; ++b)
      {
        std::size_t const A = c.chance(30) ? 0 : c.size(0, N - 1 - D);
        m.p.attack[b] = (float)((double)A / fs);
        m.p.level[b] = c.chance(30) ? 0 : (float)c.sym(4);
        m.p.decay[b] = c.chance(10) ? (float)c.real(0, 100) : (float)c.real(-5000, 0);
      }
      c.note() << "[" << t << "] object " << m.index << " onset " << D << " samples, band 0: level " << m.p.level[0] << " attack " << m.p.attack[0] << " decay " << m.p.decay[0] << "\n";
      send(m);
      c.nontrivial();
    }
    step();
  }
  while (!pending.empty()) step();
  if (c.chance(5))
  {
    rig.enqueue("subbandInput", reverbobject::LateReverbParameter(objects + (std::size_t)c.draw(3), LateReverb()));
    pbt::mustThrow([&] { rig.process(vflow::Audio()); }, "late parameters for an object that does not exist");
  }
}

// ---------------------------------------------------------------------------------------------
struct Config
{
  std::size_t slots, R, maxDelay, lateN = 1, updates = 1, crossfade = 0;
  bool hasGain = false;
  double gain = 0;
  std::string json(pbt::Case& c) const
  {
    std::ostringstream s;
    s << "{ \"numReverbObjects\": " << slots << ", \"discreteReflectionsPerObject\": " << R << ", \"maxDiscreteReflectionDelay\": " << om::num((float)((double)maxDelay / fs));
    if (lateN > 1 || c.flag()) s << ", \"lateReverbFilterLength\": " << om::num((float)(((double)lateN - 0.5) / fs));
    s << ", \"lateReverbCrossfadeTime\": " << om::num((float)((crossfade ? (double)crossfade - 0.5 : 0) / fs));
    if (updates != 1 || c.flag()) s << ", \"lateReverbFilterUpdatesPerPeriod\": " << updates;
    if (hasGain) s << ", \"lateReverbDecorrelationGain\": " << gain;
    s << " }";
    return s.str();
  }
};
// discrete reflections, sample by sample
struct Reflections
{
  Panner const& p;
  std::size_t nr;
  std::map<unsigned, std::vector<double>> signal; // of each object
  std::map<std::pair<unsigned, std::size_t>, std::vector<Section>> state;
  double tol = 0;
  Reflections(Panner const& p_, std::size_t nr_) : p(p_), nr(nr_) {}
  // input sample of each object -> loudspeaker signals
  std::vector<std::vector<double>> block(om::Scene const& scene, vflow::Audio const& in, double gain)
  {
    std::size_t const period = in.empty() ? 0 : in[0].size();
    std::vector<std::vector<double>> out(nr, std::vector<double>(period, 0));
    tol = 1e-5;
    for (auto const& e : scene)
    {
      om::Obj const& o = e.second;
      if (o.kind != om::Reverb || o.channels[0] >= in.size()) continue;
      auto& h = signal[e.first];
      std::ptrdiff_t const t0 = (std::ptrdiff_t)h.size();
      for (float x : in[o.channels[0]]) h.push_back(gain * o.level * x);
      for (std::size_t i = 0; i < o.refl.size(); ++i)
      {
        om::Refl const& r = o.refl[i];
        std::vector<Biquad> q;
        for (auto const& b : r.biquads) q.push_back(toBiquad(b));
        auto& st = state[{e.first, i}];
        st.resize(nBiquads);
        Normed const g = normalise(p.gains({{r.x, r.y, r.z}}, false), true);
        double const d = (double)r.delay * fs, k = l1(q);
        tol += std::abs(gain * o.level * r.level) * (k + 1) * (g.tol * 2 + 2e-4 + 2e-5 * (d + (double)period));
        for (std::size_t n = 0; n < period; ++n)
        {
          double v = r.level * delayed(h, t0 + (std::ptrdiff_t)n, d);
          for (std::size_t b = 0; b < q.size(); ++b) v = st[b].step(q[b], v);
          for (std::size_t l = 0; l < nr; ++l) out[l][n] += g.g[l] * v;
        }
      }
    }
    return out;
  }
};
void editScene(pbt::Case& c, om::Scene& scene, Panner const& p, Config const& k, std::size_t nIn, bool silentLate, std::size_t t)
{
  std::size_t const ops = c.size(1, 4);
  if (c.chance(10)) scene.clear();
  for (std::size_t n = 0; n < ops; ++n)
  {
    if (!scene.empty() && c.chance(25)) { auto it = scene.begin(); std::advance(it, (long)c.draw(scene.size())); scene.erase(it); continue; }
    unsigned const id = (unsigned)c.draw(6);
    std::size_t used = 0;
    std::set<unsigned> taken;
    for (auto const& o : scene) if (o.first != id) { used += o.second.kind == om::Reverb; taken.insert(o.second.channels.begin(), o.second.channels.end()); }
    std::vector<unsigned> ch;
    for (unsigned i = 0; i < nIn; ++i) if (!taken.count(i)) ch.push_back(i);
    if (ch.empty()) continue;
    unsigned const x = c.pick(ch);
    om::Obj o;
    if (used < k.slots && c.chance(85))
    {
      o = reverbObject(c, id, c.chance(4) ? (unsigned)(nIn + c.draw(2)) : x);
      for (std::size_t i = c.size(0, k.R); i > 0; --i) o.refl.push_back(anyRefl(c, p, k.maxDelay, true));
      if (c.flag()) { o.lateDelay = 0; for (auto& v : o.lateDecay) v = grid(c, -640, 0); }
      (void)silentLate;
    }
    else { o = om::anyObject(c, id, om::Point, 1); o.x = 1; o.y = o.z = 0; o.level = 1; o.lock = 0; o.eq.clear(); o.channels = {x}; }
    scene[id] = o;
  }
  for (auto const& e : scene) c.note() << "[" << t << "] " << desc(e.second) << "\n";
}
void fill(pml::ObjectVector& ov, om::Scene const& scene)
{
  ov.clear();
  for (auto const& e : scene) ov.insert(om::toLib(e.second));
}
Config anyConfig(pbt::Case& c)
{
  Config k;
  k.slots = c.size(c.chance(5) ? 0 : 1, 4);
  k.R = c.size(c.chance(5) ? 0 : 1, 4);
  k.maxDelay = c.size(0, 200);
  k.lateN = c.size(1, 40);
  k.updates = c.size(0, 2);
  k.crossfade = c.flag() ? 0 : c.size(1, 40);
  return k;
}
void render(pbt::Case& c)
{
  Quiet q;
  Array m = anyArray(c, Calc::wish());
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  Panner p(m);
  auto const order = m.order();
  std::size_t const nr = m.spk.size();
  Config const k = anyConfig(c);
  std::size_t const nIn = c.size(1, 6), period = c.pick<std::size_t>({32, 16, 64, 8, 20});
  SignalFlowContext const ctx(period, (SamplingFrequencyType)fs);
  std::string const json = k.json(c);
  c.note() << json << "\n" << nIn << " signals, " << nr << "+" << m.virt.size() << " loudspeakers, period " << period << "\n";
  c.flushNote();
  if (c.chance(2)) pbt::mustThrow([&] { reverbobject::ReverbObjectRenderer r(ctx, "r", nullptr, json.substr(0, json.size() - 2), a, nIn); }, "malformed configuration");
  reverbobject::ReverbObjectRenderer comp(ctx, "renderer", nullptr, json, a, nIn);
  vflow::Rig rig(comp);
  om::Scene scene;
  Reflections model(p, nr);
  std::size_t const segments = c.size(1, 4);
  std::size_t t = 0;
  for (std::size_t s = 0; s < segments; ++s)
  {
    editScene(c, scene, p, k, nIn, true, t);
    fill(rig.param<pml::ObjectVector>("objectIn"), scene);
    rig.dbl("objectIn").swapBuffers();
    c.flushNote();
    std::size_t const mask = (period + k.maxDelay + 4 + decay) / period + 1, n = mask + c.size(1, 3);
    for (std::size_t i = 0; i < n; ++i, ++t)
    {
      auto const in = vflow::noise(c, nIn, period);
      auto const out = rig.process(in);
      auto const e = model.block(scene, in, 1);
      for (std::size_t l = 0; l < nr; ++l)
        for (std::size_t j = 0; j < period; ++j)
        {
          PBT_CHECK(std::isfinite(out[l][j]), "period " << t << ": loudspeaker " << l << " is " << out[l][j]);
          if (i >= mask) PBT_CHECK(std::abs(out[l][j] - e[l][j]) <= model.tol, "period " << t << " sample " << j << ": loudspeaker " << l << " is " << out[l][j] << " instead of " << e[l][j] << " (tolerance " << model.tol << ")");
        }
    }
    std::size_t live = 0;
    for (auto const& e : scene) live += e.second.refl.size();
    if (live >= 2) c.nontrivial();
  }
}

// the difference between a renderer with and without reverberation
void core(pbt::Case& c)
{
  Quiet q;
  Array m = anyArray(c);
  auto adapt = [&c](Adjust& ad) { if (ad.hasDelay) ad.delay = (float)((double)c.draw(60) / fs); ad.eq.clear(); };
  for (auto& s : m.spk) adapt(s.adj);
  for (auto& s : m.subs) adapt(s.adj);
  m.eqs.clear();
  m.hasEq = false;
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  Panner p(m);
  auto const order = m.order();
  std::size_t const nr = m.spk.size(), ns = m.subs.size();
  Config const k = anyConfig(c);
  std::size_t channels = 0;
  for (auto const& s : m.spk) channels = std::max(channels, s.channel);
  for (auto const& s : m.subs) channels = std::max(channels, s.channel);
  std::size_t const nIn = c.size(1, 6), period = c.pick<std::size_t>({64, 32}), steps = period * c.size(1, 2);
  bool const dual = c.chance(30), tracking = c.chance(20) && !m.infinite;
  SignalFlowContext const ctx(period, (SamplingFrequencyType)fs);
  efl::BasicMatrix<float> dm(nr, 8, cVectorAlignmentSamples);
  dm.fillValue(0.f);
  std::string const json = k.json(c);
  c.note() << json << "\n" << nIn << " signals, " << nr << "+" << m.virt.size() << " loudspeakers, " << ns << " subwoofers, period " << period << (dual ? " dual-band" : "") << (tracking ? " tracking" : "") << "\n";
  c.flushNote();
  signalflows::CoreRenderer with(ctx, "with", nullptr, a, nIn, channels, steps, dm, tracking ? "t" : "", 0, json, dual);
  signalflows::CoreRenderer without(ctx, "without", nullptr, a, nIn, channels, steps, dm, tracking ? "t" : "", 0, "", dual);
  vflow::Rig r1(with), r0(without);
  om::Scene scene;
  Reflections model(p, nr);
  std::vector<std::vector<double>> hist(nr + ns);
  std::size_t const segments = c.size(1, 3);
  std::size_t t = 0;
  for (std::size_t s = 0; s < segments; ++s)
  {
    editScene(c, scene, p, k, nIn, true, t);
    for (auto& e : scene) e.second.level = (float)c.real(0.1, 2);
    for (auto* r : {&r1, &r0})
    {
      fill(r->param<pml::ObjectVector>("objectDataInput"), scene);
      r->dbl("objectDataInput").swapBuffers();
    }
    c.flushNote();
    std::size_t const mask = (steps + period + k.maxDelay + 4 + decay + 60) / period + 1, n = mask + c.size(1, 3);
    for (std::size_t i = 0; i < n; ++i, ++t)
    {
      auto const in = vflow::noise(c, nIn, period);
      auto const o1 = r1.process(in), o0 = r0.process(in);
      auto const e = model.block(scene, in, 1);
      for (std::size_t j = 0; j < period; ++j)
      {
        for (std::size_t l = 0; l < nr; ++l) hist[l].push_back(e[l][j]);
        for (std::size_t b = 0; b < ns; ++b)
        {
          double v = 0;
          for (std::size_t x = 0; x < m.subs[b].assigned.size(); ++x) v += (m.subs[b].hasWeights ? m.subs[b].weights[x] : 1) * e[m.index(m.subs[b].assigned[x])][j];
          hist[nr + b].push_back(v);
        }
      }
      if (i < mask) continue;
      for (std::size_t l = 0; l < nr + ns; ++l)
      {
        Adjust const& ad = l < nr ? m.spk[order[l]].adj : m.subs[l - nr].adj;
        std::size_t const ch = (l < nr ? m.spk[order[l]].channel : m.subs[l - nr].channel) - 1;
        std::ptrdiff_t const d = std::lround(ad.delay * fs);
        double w = 1;
        if (l >= nr) { w = 0; for (std::size_t x = 0; x < m.subs[l - nr].assigned.size(); ++x) w += std::abs(m.subs[l - nr].hasWeights ? m.subs[l - nr].weights[x] : 1); }
        double const tol = (model.tol + 1e-4) * (1 + w) * (1 + std::abs(ad.linear()));
        for (std::size_t j = 0; j < period; ++j)
        {
          double const got = (double)o1[ch][j] - o0[ch][j], want = ad.linear() * at(hist[l], (std::ptrdiff_t)(t * period + j) - d);
          PBT_CHECK(std::abs(got - want) <= tol, "period " << t << " sample " << j << ": reverberation adds " << got << " instead of " << want << " to output " << ch + 1 << " (tolerance " << tol << ")");
        }
      }
    }
    std::size_t live = 0;
    for (auto const& e : scene) live += e.second.refl.size();
    if (live >= 1) c.nontrivial();
  }
}

// the late part, measured with impulses
void late(pbt::Case& c)
{
  Quiet q;
  Array m = anyArray(c, Calc::wish());
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  Panner p(m);
  std::size_t const nr = m.spk.size();
  Config k = anyConfig(c);
  k.slots = c.size(1, 3);
  k.R = c.size(0, 1);
  k.maxDelay = 4;
  k.lateN = c.chance(15) ? 1 : c.size(1, 120);
  k.hasGain = c.chance(30);
  k.gain = c.pick<double>({0, -20, 6});
  std::size_t const nIn = k.slots + c.size(0, 2), period = c.pick<std::size_t>({64, 128, 32});
  SignalFlowContext const ctx(period, (SamplingFrequencyType)fs);
  std::string const json = k.json(c);
  c.note() << json << "\n" << nIn << " signals, " << nr << "+" << m.virt.size() << " loudspeakers, period " << period << "\n";
  c.flushNote();
  reverbobject::ReverbObjectRenderer comp(ctx, "renderer", nullptr, json, a, nIn);
  vflow::Rig rig(comp);
  std::size_t const N = k.lateN, total = N + 512 + 4;
  om::Scene scene;
  std::vector<std::size_t> onset(k.slots, 0);
  auto randomLate = [&](om::Obj& o, std::size_t i)
  {
    std::size_t const D = c.chance(30) ? 0 : c.size(0, N - 1);
    onset[i] = D;
    o.lateDelay = (float)((double)D / fs);
    for (std::size_t b = 0; b < nBands; ++b)
    {
      o.lateAttack[b] = (float)((double)(c.flag() ? 0 : c.size(0, N - 1 - D)) / fs);
      o.lateLevel[b] = c.chance(20) ? 0 : (float)c.sym(2);
      o.lateDecay[b] = (float)c.real(-2000, 0);
    }
  };
  std::size_t const count = c.size(1, k.slots);
  for (std::size_t i = 0; i < count; ++i)
  {
    om::Obj o = reverbObject(c, (unsigned)(i * 2 + 1), (unsigned)(nIn - 1 - i));
    randomLate(o, i);
    scene[o.id] = o;
  }
  std::size_t t = 0;
  auto settle = [&]
  {
    fill(rig.param<pml::ObjectVector>("objectIn"), scene);
    rig.dbl("objectIn").swapBuffers();
    for (auto const& e : scene) c.note() << "[" << t << "] " << desc(e.second) << "\n";
    c.flushNote();
    std::size_t const n = k.slots + (k.slots * (k.crossfade + 2 * period) + total) / period + 4;
    vflow::Audio const zero(nIn, std::vector<float>(period, 0));
    for (std::size_t i = 0; i < n; ++i, ++t) rig.process(zero);
  };
  // response of all loudspeakers to an impulse
  using Resp = std::vector<std::vector<double>>;
  auto measure = [&](std::size_t ch)
  {
    std::size_t const n = total / period + 2;
    Resp r(nr);
    std::size_t const at0 = (std::size_t)c.draw(period);
    for (std::size_t i = 0; i < n; ++i, ++t)
    {
      vflow::Audio x(nIn, std::vector<float>(period, 0));
      if (i == 0) x[ch][at0] = 1;
      auto const o = rig.process(x);
      for (std::size_t l = 0; l < nr; ++l) r[l].insert(r[l].end(), o[l].begin(), o[l].end());
    }
    for (std::size_t l = 0; l < nr; ++l)
    {
      for (std::size_t j = 0; j < at0; ++j) PBT_CHECK(std::abs(r[l][j]) < 1e-6, "loudspeaker " << l << " plays " << r[l][j] << " before the impulse");
      r[l].erase(r[l].begin(), r[l].begin() + (std::ptrdiff_t)at0);
      for (std::size_t j = total; j < r[l].size(); ++j) PBT_CHECK(std::abs(r[l][j]) < 1e-5, "the response of loudspeaker " << l << " is " << r[l][j] << " after " << j << " samples");
      r[l].resize(total);
    }
    return r;
  };
  auto peak = [](Resp const& r) { double s = 0; for (auto const& v : r) for (double x : v) s = std::max(s, std::abs(x)); return s; };
  settle();
  std::map<unsigned, Resp> resp;
  std::size_t idx = 0;
  for (auto const& e : scene)
  {
    Resp const r = measure(e.second.channels[0]);
    resp[e.first] = r;
    std::size_t const D = onset[idx++];
    double const pk = peak(r);
    for (std::size_t l = 0; l < nr; ++l) for (std::size_t j = 0; j < std::min(D, total); ++j) PBT_CHECK(std::abs(r[l][j]) <= 1e-5 * (1 + pk), "object " << e.first << ": loudspeaker " << l << " plays " << r[l][j] << " before the onset (sample " << j << ", onset " << D << ")");
    // the loudspeaker signals differ only by allpass filters
    std::vector<std::vector<double>> mag(nr);
    for (std::size_t l = 0; l < nr; ++l)
    {
      // the spectrum at multiples of fs/512
      std::vector<std::complex<double>> X(512, 0);
      for (std::size_t j = 0; j < total; ++j) X[j % 512] += r[l][j];
      Fft::run(X);
      for (std::size_t f = 0; f <= 256; ++f) mag[l].push_back(std::abs(X[f]));
      if (l) for (std::size_t f = 0; f <= 256; ++f) PBT_CHECK(std::abs(mag[l][f] - mag[0][f]) <= 2e-4 * (1 + pk), "object " << e.first << ": loudspeakers 0 and " << l << " differ in level at " << (double)f * fs / 512 << " Hz: " << mag[0][f] << ", " << mag[l][f]);
      if (l && pk > 1e-3) { double d = 0; for (std::size_t j = 0; j < total; ++j) d = std::max(d, std::abs(r[l][j] - r[0][j])); PBT_CHECK(d > 0.05 * pk, "loudspeakers 0 and " << l << " play the same reverberation"); }
    }
    if (pk > 1e-3) c.nontrivial();
  }
  for (std::size_t ch = 0; ch < nIn; ++ch)
  {
    bool used = false;
    for (auto const& e : scene) used = used || e.second.channels[0] == ch;
    if (!used && c.chance(30)) { double const pk = peak(measure(ch)); PBT_CHECK(pk < 1e-6, "signal " << ch << " belongs to no object, but is reverberated with level " << pk); }
  }
  auto check = [&](Resp const& got, Resp const& want, std::string const& what)
  {
    double const tol = 2e-5 * (1 + peak(want));
    for (std::size_t l = 0; l < nr; ++l) for (std::size_t j = 0; j < total; ++j) PBT_CHECK(std::abs(got[l][j] - want[l][j]) <= tol, what << ": response of loudspeaker " << l << " at sample " << j << " is " << got[l][j] << " instead of " << want[l][j]);
  };
  // repeated
  unsigned const id = std::next(scene.begin(), (long)c.draw(scene.size()))->first;
  om::Obj& o = scene[id];
  std::size_t const ch = o.channels[0];
  om::Obj const orig = o;
  if (c.flag()) check(measure(ch), resp[id], "repeated measurement of object " + std::to_string(id));
  // levels scale the response
  float const f = c.pick<float>({2.f, -1.f, 0.5f, 0.f});
  for (auto& v : o.lateLevel) v *= f;
  settle();
  Resp want = resp[id];
  for (auto& v : want) for (auto& x : v) x *= f;
  check(measure(ch), want, "levels of object " + std::to_string(id) + " scaled by " + om::num(f));
  // the bands add up
  std::size_t const cut = c.size(1, nBands - 1);
  Resp sum(nr, std::vector<double>(total, 0));
  for (int part = 0; part < 2; ++part)
  {
    o = orig;
    for (std::size_t b = 0; b < nBands; ++b) if ((b < cut) == (part == 1)) o.lateLevel[b] = 0;
    settle();
    Resp const r = measure(ch);
    for (std::size_t l = 0; l < nr; ++l) for (std::size_t j = 0; j < total; ++j) sum[l][j] += r[l][j];
  }
  check(sum, resp[id], "bands below and above " + std::to_string(cut) + " of object " + std::to_string(id));
  // any signal, all objects together
  o = orig;
  settle();
  std::size_t const n = c.size(1, 6);
  std::vector<std::vector<double>> h(nIn);
  for (std::size_t i = 0; i < n; ++i, ++t)
  {
    auto const in = vflow::noise(c, nIn, period);
    auto const out = rig.process(in);
    for (std::size_t x = 0; x < nIn; ++x) h[x].insert(h[x].end(), in[x].begin(), in[x].end());
    for (std::size_t l = 0; l < nr; ++l)
      for (std::size_t j = 0; j < period; j += 3)
      {
        double e = 0, tol = 1e-5;
        std::size_t const T = i * period + j;
        for (auto const& s : scene)
        {
          auto const& r = resp[s.first][l];
          auto const& x = h[s.second.channels[0]];
          for (std::size_t y = 0; y < total && y <= T; ++y) { e += r[y] * x[T - y]; tol += 2e-5 * std::abs(r[y]) + 1e-7; }
        }
        PBT_CHECK(std::abs(out[l][j] - e) <= tol, "sample " << T << ": loudspeaker " << l << " plays " << out[l][j] << " instead of " << e);
      }
  }
  // removed objects fall silent
  if (c.chance(30))
  {
    scene.erase(id);
    settle();
    double const pk = peak(measure(ch));
    PBT_CHECK(pk < 1e-6, "object " << id << " is removed, but still reverberated with level " << pk);
  }
}

// constructors of late parameters
void values(pbt::Case& c)
{
  static float const v[9] = {0.5f, 1, 2, 3, 4, 5, 6, 7, 8};
  float const on = (float)c.real(0, 2);
  std::size_t const k[3] = {c.size(0, 3), c.size(0, 3), c.size(0, 3)};
  auto list = [](std::size_t n) -> std::initializer_list<float>
  {
    static std::initializer_list<float> const a = {}, b = {0.25f}, d = {0.5f, 1, 2, 3, 4, 5, 6, 7, 8}, e = {1, 2, 3};
    return n == 0 ? a : n == 1 ? b : n == 2 ? d : e;
  };
  std::unique_ptr<LateReverb> l;
  std::string err;
  int const r = pbt::outcome([&] { l.reset(new LateReverb(on, list(k[0]), list(k[1]), list(k[2]))); }, &err);
  bool const bad = k[0] == 3 || k[1] == 3 || k[2] == 3;
  c.note() << "late parameters from lists of kind " << k[0] << " " << k[1] << " " << k[2];
  c.nontrivial();
  PBT_CHECK(r == (bad ? 1 : 0), (bad ? "lists of a wrong length are accepted" : "valid lists: " + err));
  if (bad) return;
  objectmodel::PointSourceWithReverb::LateReverbCoeffs const* g[3] = {&l->levels(), &l->decayCoeffs(), &l->attackTimes()};
  PBT_CHECK(l->onsetDelay() == on, "onset");
  for (int i = 0; i < 3; ++i) for (std::size_t b = 0; b < 9; ++b) PBT_CHECK((*g[i])[b] == (k[i] == 0 ? 0 : k[i] == 1 ? 0.25f : v[b]), "value " << b << " of list " << i << " is " << (*g[i])[b]);
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "at least two reverberant objects are tracked (parameters), a filter is predicted (filters), at least two reflections are rendered (render, core: one), a tail is audible (late)";
  s.subs = {{"parameters", parameters, 12000, 600000}, {"filters", filters, 2000, 60000}, {"render", render, 5000, 150000}, {"core", core, 1200, 50000}, {"late", late, 2500, 80000}, {"values", values, 300, 3000}};
  s.assumptions = {"reflection filters with a response shorter than 300 samples; transients after a change of the scene are not compared", "late parts whose onset and attack fit into the filter", "objects of a scene use distinct signal channels"};
  return pbt::run(argc, argv, s);
}
