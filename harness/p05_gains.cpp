// P05: gains, gain matrices, routing and mixing: output equals the exact weighted
// sum of the inputs, with linear transitions that start from the value reached.
#include "flow.hpp"

#include <libpml/matrix_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/gain_fader.hpp>
#include <librbbl/gain_matrix.hpp>
#include <librcl/add.hpp>
#include <librcl/gain_matrix.hpp>
#include <librcl/gain_vector.hpp>
#include <librcl/signal_routing.hpp>
#include <librcl/sparse_gain_matrix.hpp>

#include <set>

using namespace visr;
using pbt::Case;
using vflow::Audio;

namespace
{
std::size_t genBlock(Case& c) { return c.weighted({3, 1}) == 0 ? c.wide(1, 40, 1000) : (std::size_t)1 << c.range(0, 7); }
std::size_t genSteps(Case& c, std::size_t block)
{
  switch (c.weighted({2, 4, 2, 1}))
  {
  case 0: return 0;
  case 1: return c.wide(1, 5 * block + 3, 40 * block);
  case 2: return block * c.wide(1, 4, 40);
  default: return c.size(0, 3);
  }
}
float genGain(Case& c)
{
  switch (c.weighted({2, 6, 1, 1}))
  {
  case 0: return 0.0f;
  case 1: return (float)c.sym(2.0);
  case 2: return 1.0f;
  default: return (float)c.sym(50.0);
  }
}

// one linearly interpolated gain
struct Ramp
{
  double start = 0, target = 0;
  std::size_t t = 0; // samples into the transition
  std::size_t steps = 0;
  double at(std::size_t k) const // gain of the k-th sample from now
  {
    std::size_t n = t + k + 1;
    return n >= steps ? target : start + (target - start) * (double)n / (double)steps;
  }
  double reached() const { return t >= steps ? target : start + (target - start) * (double)t / (double)steps; }
  void set(double v) { start = reached(); target = v; t = 0; }
};

template <typename T> void fader(Case& c)
{
  std::size_t block = genBlock(c), steps = genSteps(c, block);
  std::size_t align = c.pick<std::size_t>({0, 1, 4, 8, 16});
  rbbl::GainFader<T> f(block, steps, align);
  std::size_t const periods = (steps + block - 1) / block;
  PBT_CHECK(f.interpolationSamples() == steps && f.interpolationPeriods() == periods, "reported ramp length");
  c.note() << "fader " << (sizeof(T) == 4 ? "float" : "double") << " block " << block << " steps " << steps << " align " << align << ";";
  double const eps = std::numeric_limits<T>::epsilon();
  for (std::size_t n = c.size(1, 4); n > 0; --n)
  {
    T g0 = (T)genGain(c), g1 = (T)genGain(c);
    std::size_t idx = c.weighted({5, 1}) == 0 ? c.size(0, periods + 1) : c.size(0, 1000);
    bool acc = c.flag();
    auto x = pbt::signal(c, block);
    efl::AlignedArray<T> in(block, align), out(block, align);
    std::vector<double> pre(block);
    pbt::Rng r(7);
    for (std::size_t i = 0; i < block; ++i) { in[i] = x[i]; pre[i] = out[i] = (T)r.uniform(-1, 1); }
    c.note() << (acc ? " acc" : " scale") << "(" << g0 << "->" << g1 << "," << idx << ")";
    if (acc) f.scaleAndAccumulate(in.data(), out.data(), g0, g1, idx);
    else f.scale(in.data(), out.data(), g0, g1, idx);
    for (std::size_t i = 0; i < block; ++i)
    {
      std::size_t k = idx * block + i + 1;
      double g = k >= steps ? (double)g1 : (double)g0 + ((double)g1 - g0) * (double)k / (double)steps;
      double want = g * in[i] + (acc ? pre[i] : 0.0);
      double tol = (8 + 2.0 * steps) * eps * (std::abs((double)g0) + std::abs((double)g1) + 1) * 2;
      PBT_CHECK(pbt::close(out[i], want, tol), "sample " << i << " of block " << idx << ": " << out[i] << " expected " << want);
    }
    if (steps > 0 && idx < periods && g0 != g1) c.nontrivial();
  }
  c.label(steps == 0 ? "immediate" : steps % block ? "ramp ends inside block" : "ramp multiple of block");
}

template <typename T> void rbblMatrix(Case& c)
{
  std::size_t block = genBlock(c), steps = genSteps(c, block), ni = c.wide(0, 4, 24), no = c.wide(0, 4, 24);
  std::size_t align = c.pick<std::size_t>({0, 1, 4, 8});
  std::vector<Ramp> g(ni * no);
  std::unique_ptr<rbbl::GainMatrix<T>> m;
  double big = 1;
  auto genMatrix = [&](efl::BasicMatrix<T>& M) {
    for (std::size_t o = 0; o < no; ++o) for (std::size_t i = 0; i < ni; ++i) { M(o, i) = (T)genGain(c); big = std::max(big, std::abs((double)M(o, i))); }
  };
  c.note() << "matrix " << no << "x" << ni << " block " << block << " steps " << steps << " align " << align << ":";
  if (c.flag())
  {
    T v = (T)genGain(c);
    big = std::max(big, std::abs((double)v));
    m.reset(new rbbl::GainMatrix<T>(ni, no, block, steps, v, align));
    for (auto& e : g) e.start = e.target = v;
  }
  else
  {
    efl::BasicMatrix<T> M(no, ni, align);
    genMatrix(M);
    m.reset(new rbbl::GainMatrix<T>(ni, no, block, steps, M, align));
    for (std::size_t o = 0; o < no; ++o) for (std::size_t i = 0; i < ni; ++i) g[o * ni + i].start = g[o * ni + i].target = M(o, i);
  }
  for (auto& e : g) { e.steps = steps; e.t = steps; }
  double const eps = std::numeric_limits<T>::epsilon();
  // the implementation may snap to the target when the change since the start of a
  // transition is below eps: error of the starting point at most eps/ratio
  double snap = steps == 0 ? 0 : eps * (double)steps / (double)block;
  efl::BasicMatrix<T> in(ni, block, align), out(no, block, align);
  std::size_t updates = 0;
  for (std::size_t blk = 0, nb = c.wide(1, 10, 80); blk < nb; ++blk)
  {
    bool withProcess = false;
    efl::BasicMatrix<T> M(no, ni, align);
    std::size_t nset = c.weighted({5, 4, 2});
    for (std::size_t s = 0; s < nset; ++s)
    {
      genMatrix(M);
      withProcess = s + 1 == nset && c.flag();
      if (!withProcess) m->setNewGains(M);
      for (std::size_t o = 0; o < no; ++o) for (std::size_t i = 0; i < ni; ++i) g[o * ni + i].set(M(o, i));
      c.note() << (withProcess ? " P+set" : " set");
      ++updates;
    }
    if (c.chance(10))
    {
      efl::BasicMatrix<T> W(no + 1, ni, align);
      pbt::mustThrow([&] { m->setNewGains(W); }, "gain matrix of wrong dimension");
    }
    pbt::Rng r(c.seed());
    for (std::size_t i = 0; i < ni; ++i) for (std::size_t k = 0; k < block; ++k) in(i, k) = (T)r.uniform(-1, 1);
    for (std::size_t i = 0; i < no; ++i) for (std::size_t k = 0; k < block; ++k) out(i, k) = (T)77;
    std::vector<T const*> ip(ni + 1, nullptr);
    std::vector<T*> op(no + 1, nullptr);
    for (std::size_t i = 0; i < ni; ++i) ip[i] = in.row(i);
    for (std::size_t i = 0; i < no; ++i) op[i] = out.row(i);
    if (withProcess) m->process(ip.data(), op.data(), M);
    else m->process(ip.data(), op.data());
    c.note() << " p";
    for (std::size_t o = 0; o < no; ++o) for (std::size_t k = 0; k < block; ++k)
    {
      double want = 0;
      for (std::size_t i = 0; i < ni; ++i) want += g[o * ni + i].at(k) * in(i, k);
      double tol = (double)(ni + 1) * ((16 + 2.0 * steps) * eps * big * 4 + (double)updates * snap * 4);
      PBT_CHECK(pbt::close(out(o, k), want, tol), "block " << blk << " output " << o << " sample " << k << ": " << out(o, k) << " expected " << want);
    }
    for (auto& e : g) e.t = std::min(e.t + block, e.steps + block);
  }
  if (updates > 1 && ni * no > 0 && steps > 0) c.nontrivial();
  c.label(updates > 1 ? "several updates" : "at most one update");
}

void gainVector(Case& c)
{
  std::size_t block = genBlock(c), steps = genSteps(c, block), n = c.wide(0, 5, 40);
  bool control = !c.chance(15);
  SignalFlowContext ctx(block, 48000);
  rcl::GainVector gv(ctx, "gv");
  std::vector<Ramp> g(n);
  double big = 1;
  if (c.flag())
  {
    float v = genGain(c);
    big = std::max(big, std::abs((double)v));
    gv.setup(n, steps, control, v);
    for (auto& e : g) e.start = e.target = v;
  }
  else
  {
    efl::BasicVector<float> v(n, 4);
    for (std::size_t i = 0; i < n; ++i) { v[i] = genGain(c); g[i].start = g[i].target = v[i]; big = std::max(big, std::abs((double)v[i])); }
    gv.setup(n, steps, control, v);
    if (c.chance(10))
    {
      rcl::GainVector bad(ctx, "bad");
      std::size_t const k = n && c.flag() ? n - 1 : n + 1 + c.size(0, 9);
      pbt::mustThrow([&] { bad.setup(k, steps, control, v); }, "initial gains of the wrong length");
    }
  }
  for (auto& e : g) { e.steps = steps; e.t = steps; }
  vflow::Rig rig(gv);
  c.note() << "GainVector n " << n << " block " << block << " steps " << steps << ":";
  std::size_t updates = 0;
  for (std::size_t blk = 0, nb = c.wide(1, 10, 80); blk < nb; ++blk)
  {
    if (control && c.chance(45))
    {
      auto& p = rig.param<pml::VectorParameter<float>>("gainInput");
      for (std::size_t i = 0; i < n; ++i) { p[i] = genGain(c); g[i].set(p[i]); big = std::max(big, std::abs((double)p[i])); }
      rig.dbl("gainInput").swapBuffers(false);
      c.note() << " set";
      ++updates;
    }
    auto in = vflow::noise(c, n, block);
    auto out = rig.process(in);
    c.note() << " p";
    for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < block; ++k)
    {
      double want = g[i].at(k) * in[i][k];
      PBT_CHECK(pbt::close(out[i][k], want, (20 + 2.0 * steps + 4.0 * updates) * 1.2e-7 * big * 4), "block " << blk << " channel " << i << " sample " << k << ": " << out[i][k] << " expected " << want);
    }
    for (auto& e : g) e.t = std::min(e.t + block, e.steps + block);
  }
  if (updates > 0 && n > 0) c.nontrivial();
}

void gainMatrix(Case& c)
{
  std::size_t block = genBlock(c), steps = genSteps(c, block), ni = c.wide(0, 4, 24), no = c.wide(0, 4, 24);
  bool control = c.chance(80);
  SignalFlowContext ctx(block, 48000);
  rcl::GainMatrix gm(ctx, "gm");
  std::vector<Ramp> g(ni * no);
  double big = 1;
  if (c.flag())
  {
    float v = genGain(c);
    big = std::max(big, std::abs((double)v));
    gm.setup(ni, no, steps, v, control);
    for (auto& e : g) e.start = e.target = v;
  }
  else
  {
    efl::BasicMatrix<float> M(no, ni, 4);
    for (std::size_t o = 0; o < no; ++o) for (std::size_t i = 0; i < ni; ++i)
    { M(o, i) = genGain(c); g[o * ni + i].start = g[o * ni + i].target = M(o, i); big = std::max(big, std::abs((double)M(o, i))); }
    gm.setup(ni, no, steps, M, control);
    if (c.chance(10))
    {
      rcl::GainMatrix bad(ctx, "bad");
      pbt::mustThrow([&] { bad.setup(ni + 1, no, steps, M, control); }, "initial matrix of wrong dimension");
    }
  }
  for (auto& e : g) { e.steps = steps; e.t = steps; }
  vflow::Rig rig(gm);
  c.note() << "GainMatrix " << no << "x" << ni << " block " << block << " steps " << steps << ":";
  std::size_t updates = 0;
  double snap = steps == 0 ? 0 : 1.2e-7 * (double)steps / (double)block;
  for (std::size_t blk = 0, nb = c.wide(1, 10, 80); blk < nb; ++blk)
  {
    if (control)
    {
      auto& M = rig.shared<pml::MatrixParameter<float>>("gainInput");
      if (blk == 0 || c.chance(45))
      {
        bool const one = blk > 0 && c.flag(); // only some of the gains
        for (std::size_t o = 0; o < no; ++o) for (std::size_t i = 0; i < ni; ++i)
        {
          if (one && c.flag()) continue;
          float const v = genGain(c);
          M(o, i) = v;
          big = std::max(big, std::abs((double)v));
        }
        c.note() << " set";
        ++updates;
      }
      // the current matrix is (re-)applied in every block
      for (std::size_t o = 0; o < no; ++o) for (std::size_t i = 0; i < ni; ++i) g[o * ni + i].set(M(o, i));
    }
    auto in = vflow::noise(c, ni, block);
    auto out = rig.process(in);
    c.note() << " p";
    for (std::size_t o = 0; o < no; ++o) for (std::size_t k = 0; k < block; ++k)
    {
      double want = 0;
      for (std::size_t i = 0; i < ni; ++i) want += g[o * ni + i].at(k) * in[i][k];
      double tol = (double)(ni + 1) * ((20 + 2.0 * steps) * 1.2e-7 * big * 4 + (double)(blk + 1) * snap * 4);
      PBT_CHECK(pbt::close(out[o][k], want, tol), "block " << blk << " output " << o << " sample " << k << ": " << out[o][k] << " expected " << want);
    }
    for (auto& e : g) e.t = std::min(e.t + block, e.steps + block);
  }
  if (updates > 0 && ni * no > 0) c.nontrivial();
}

void sparse(Case& c)
{
  using CP = rcl::SparseGainMatrix::ControlPortConfig;
  std::size_t block = genBlock(c), steps = genSteps(c, block), ni = c.wide(1, 4, 20), no = c.wide(1, 4, 20), maxR = c.wide(1, 8, 60);
  SignalFlowContext ctx(block, 48000);
  struct Entry { std::size_t row, col; double gain; };
  std::map<std::size_t, Entry> model; // entry index -> routing
  auto genList = [&](rbbl::SparseGainRoutingList& l) {
    std::map<std::size_t, Entry> m;
    for (std::size_t k = c.size(0, maxR); k > 0; --k)
    {
      Entry e{c.size(0, no - 1), c.size(0, ni - 1), genGain(c)};
      std::size_t idx = c.size(0, maxR - 1);
      if (m.count(idx)) continue;
      m[idx] = e;
      l.addRouting(rbbl::SparseGainRouting(idx, e.row, e.col, (float)e.gain));
    }
    return m;
  };
  rbbl::SparseGainRoutingList init;
  model = genList(init);
  int cfg = (int)c.size(0, 7);
  auto cp = static_cast<CP>(cfg);
  bool hasList = cfg & 2, hasGain = cfg & 4;
  if (c.chance(15))
  {
    rbbl::SparseGainRoutingList bad(init);
    switch (c.draw(3))
    {
    case 0: bad.addRouting(rbbl::SparseGainRouting(maxR + c.size(0, 2), 0, 0, 1.f)); break;
    case 1: bad.addRouting(rbbl::SparseGainRouting(c.size(0, maxR - 1), no + c.size(0, 2), 0, 1.f)); break;
    default: bad.addRouting(rbbl::SparseGainRouting(c.size(0, maxR - 1), 0, ni + c.size(0, 2), 1.f)); break;
    }
    // the bad entry may be dropped if its entry index is taken already
    bool really = false;
    for (auto const& r : bad) really |= r.entryIndex >= maxR || r.rowIndex >= no || r.columnIndex >= ni;
    if (really) pbt::mustThrow([&] { rcl::SparseGainMatrix s(ctx, "bad", nullptr, ni, no, steps, maxR, bad, cp); }, "routing outside the matrix");
    c.label("invalid list");
  }
  rcl::SparseGainMatrix sm(ctx, "sm", nullptr, ni, no, steps, maxR, init, cp);
  vflow::Rig rig(sm);
  c.note() << "Sparse " << no << "x" << ni << " max " << maxR << " block " << block << " steps " << steps << " ports " << cfg << ":";
  std::size_t const settle = (steps + block - 1) / block;
  std::map<std::size_t, double> prev; // start gains of a gain-only update from a settled state
  bool known = false;             // trajectory known (gain update from settled state)
  std::size_t since = 0;          // blocks since last update
  double big = 1;
  for (auto& e : model) big = std::max(big, std::abs(e.second.gain));
  std::size_t updates = 0;
  for (std::size_t blk = 0, nb = c.wide(1, 12, 80); blk < nb; ++blk)
  {
    bool settled = since >= settle;
    bool listUpd = hasList && c.chance(25), gainUpd = hasGain && !listUpd && c.chance(30);
    if (listUpd)
    {
      rbbl::SparseGainRoutingList l;
      model = genList(l);
      static_cast<rbbl::SparseGainRoutingList&>(rig.param<pml::SparseGainRoutingListParameter>("routingListInput")) = l;
      rig.dbl("routingListInput").swapBuffers(false);
      known = false; since = 0; ++updates;
      for (auto& e : model) big = std::max(big, std::abs(e.second.gain));
      c.note() << " list" << model.size();
    }
    if (gainUpd)
    {
      auto& p = rig.param<pml::VectorParameter<float>>("gainInput");
      known = settled;
      prev.clear();
      for (auto& e : model) prev[e.first] = e.second.gain;
      for (std::size_t i = 0; i < maxR; ++i)
      {
        p[i] = genGain(c);
        big = std::max(big, std::abs((double)p[i]));
        auto it = model.find(i);
        if (it != model.end()) it->second.gain = p[i];
      }
      rig.dbl("gainInput").swapBuffers(false);
      since = 0; ++updates;
      c.note() << " gains";
    }
    auto in = vflow::noise(c, ni, block);
    auto out = rig.process(in);
    c.note() << " p";
    bool const steady = since >= settle;
    if (steady || known)
      for (std::size_t o = 0; o < no; ++o) for (std::size_t k = 0; k < block; ++k)
      {
        double want = 0;
        for (auto const& e : model) if (e.second.row == o)
        {
          double gg = e.second.gain;
          std::size_t n = since * block + k + 1;
          if (!steady && n < steps) gg = prev[e.first] + (gg - prev[e.first]) * (double)n / (double)steps;
          want += gg * in[e.second.col][k];
        }
        PBT_CHECK(pbt::close(out[o][k], want, (double)(model.size() + 1) * (20 + 2.0 * steps) * 1.2e-7 * big * 4), "block " << blk << " output " << o << " sample " << k << ": " << out[o][k] << " expected " << want);
      }
    else // transition of the routing list: outputs without a routing stay silent, the rest is bounded
      for (std::size_t o = 0; o < no; ++o)
      {
        std::size_t r = 0;
        for (auto const& e : model) r += e.second.row == o;
        for (std::size_t k = 0; k < block; ++k) PBT_CHECK(std::abs(out[o][k]) <= r * big * 1.01, "output " << o << " not covered by its routings: " << out[o][k]);
      }
    ++since;
  }
  if (!model.empty() && (updates > 0 || since > settle)) c.nontrivial();
  c.label(updates ? "with updates" : "static");
}

void routing(Case& c)
{
  std::size_t block = genBlock(c), ni = c.wide(0, 5, 40), no = c.wide(0, 5, 40);
  SignalFlowContext ctx(block, 48000);
  bool control = c.flag();
  std::size_t const none = pml::SignalRoutingParameter::cInvalidIndex;
  std::vector<std::size_t> model(no, none);
  auto genParam = [&](pml::SignalRoutingParameter& p, std::vector<std::size_t>& m) {
    m.assign(no, none);
    p.clear();
    if (no == 0) return;
    for (std::size_t k = c.size(0, no + 1); k > 0; --k)
    {
      std::size_t o = c.size(0, no - 1), i = ni == 0 || c.chance(8) ? none : c.size(0, ni - 1);
      p.addRouting(i, o);
      m[o] = i;
    }
  };
  rcl::SignalRouting sr(ctx, "sr");
  c.note() << "SignalRouting " << ni << "->" << no << " block " << block << " control " << control << ":";
  if (c.flag())
  {
    pml::SignalRoutingParameter p;
    genParam(p, model);
    sr.setup(ni, no, p, control);
    c.note() << " init" << p.size();
  }
  else sr.setup(ni, no, control);
  vflow::Rig rig(sr);
  std::size_t updates = 0;
  for (std::size_t blk = 0, nb = c.wide(1, 8, 60); blk < nb; ++blk)
  {
    switch (c.weighted({4, 3, 3, 2, 2}))
    {
    case 0: break;
    case 1: // control port
      if (control)
      {
        pml::SignalRoutingParameter p;
        std::vector<std::size_t> m;
        genParam(p, m);
        bool bad = c.chance(20);
        if (bad) p.addRouting(c.flag() ? 0 : ni + c.size(0, 3), no + c.size(0, 2));
        rig.param<pml::SignalRoutingParameter>("controlInput") = p;
        rig.dbl("controlInput").swapBuffers(false);
        if (!bad) model = m; // an invalid routing is rejected as a whole
        c.note() << (bad ? " badctl" : " ctl");
        ++updates;
      }
      break;
    case 2: // whole table through the API
    {
      pml::SignalRoutingParameter p;
      genParam(p, model);
      sr.setRouting(p);
      c.note() << " set";
      ++updates;
      break;
    }
    case 3: // single routing to a free output
    {
      if (!no) break;
      std::size_t o = c.size(0, no - 1);
      if (model[o] != none || !ni) break;
      std::size_t i = c.size(0, ni - 1);
      sr.setRouting(i, o);
      model[o] = i;
      if (c.flag()) sr.setRouting(i, o); // repeated: no effect
      if (c.chance(20)) pbt::mustThrow([&] { sr.setRouting(ni, o); }, "input index out of range");
      if (c.chance(20)) pbt::mustThrow([&] { sr.setRouting(i, no + c.size(0, 3)); }, "output index out of range");
      c.note() << " add" << i << "=" << o;
      ++updates;
      break;
    }
    default:
    {
      if (!no || !ni) break;
      std::size_t o = c.size(0, no - 1), i = c.size(0, ni - 1);
      if (c.flag() && model[o] != none) i = model[o];
      bool r = sr.removeRouting(i, o);
      PBT_CHECK(r == (model[o] == i), "removeRouting(" << i << "," << o << ") returned " << r);
      if (r) model[o] = none;
      c.note() << " rm" << i << "=" << o;
      ++updates;
    }
    }
    auto in = vflow::noise(c, ni, block);
    auto out = rig.process(in);
    for (std::size_t o = 0; o < no; ++o) for (std::size_t k = 0; k < block; ++k)
    {
      float want = model[o] == none ? 0.0f : in[model[o]][k];
      PBT_CHECK(out[o][k] == want, "block " << blk << " output " << o << " sample " << k << ": " << out[o][k] << " expected " << want << " (input " << (std::ptrdiff_t)model[o] << ")");
    }
  }
  if (updates && ni && no) c.nontrivial();
}

void add(Case& c)
{
  std::size_t block = genBlock(c), width = c.size(0, 5), n = c.wide(0, 5, 40);
  SignalFlowContext ctx(block, 48000);
  rcl::Add a(ctx, "add", nullptr, width, n);
  vflow::Rig rig(a);
  c.note() << "Add " << n << " inputs of width " << width << " block " << block;
  for (std::size_t blk = 0; blk < 3; ++blk)
  {
    auto in = vflow::noise(c, width * n, block); // external inputs: in0 channels, in1 channels, ...
    auto out = rig.process(in);
    for (std::size_t w = 0; w < width; ++w) for (std::size_t k = 0; k < block; ++k)
    {
      double want = 0;
      for (std::size_t i = 0; i < n; ++i) want += in[i * width + w][k];
      PBT_CHECK(pbt::close(out[w][k], want, 1e-5), "channel " << w << " sample " << k << ": " << out[w][k] << " expected " << want);
    }
  }
  if (width && n) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "at least one gain/routing update (or ramp section) that changes an existing channel";
  s.subs = {{"fader-float", fader<float>, 60000, 2000000},
            {"fader-double", fader<double>, 20000, 600000},
            {"matrix-float", rbblMatrix<float>, 40000, 1500000},
            {"matrix-double", rbblMatrix<double>, 15000, 500000},
            {"gain-vector", gainVector, 25000, 800000},
            {"gain-matrix", gainMatrix, 25000, 800000},
            {"sparse-matrix", sparse, 25000, 800000},
            {"signal-routing", routing, 25000, 800000},
            {"add", add, 10000, 200000}};
  s.assumptions = {"a transition that starts inside a running one of the sparse matrix is only bounded, not compared"};
  return pbt::run(argc, argv, s);
}
