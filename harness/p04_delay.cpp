// P04: delay lines: every output sample is the gain-weighted input at exactly the
// requested (interpolated, possibly fractional) delay; parameter changes ramp
// linearly from the value reached; DelayVector / DelayMatrix components.
#include "flow.hpp"

#include <libpml/matrix_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/multichannel_delay_line.hpp>
#include <librcl/delay_matrix.hpp>
#include <librcl/delay_vector.hpp>

using namespace visr;
using pbt::Case;
using Line = rbbl::MultichannelDelayLine<float>;
using Policy = Line::MethodDelayPolicy;

namespace
{
// Lagrange interpolation of order N at real position 'pos' of the signal h (zero
// before its start). Returns the range of values for positions within +-err and
// for either nearest stencil at a rounding tie.
struct Range { double lo = 1e300, hi = -1e300; void add(double v) { lo = std::min(lo, v); hi = std::max(hi, v); } };
double at(std::vector<double> const& h, std::ptrdiff_t i) { return i < 0 || i >= (std::ptrdiff_t)h.size() ? 0.0 : h[i]; }
double lagrange(std::vector<double> const& h, std::ptrdiff_t base, unsigned N, double x) // x relative to base
{
  double s = 0;
  for (unsigned j = 0; j <= N; ++j)
  {
    double w = 1;
    for (unsigned m = 0; m <= N; ++m) if (m != j) w *= (x - m) / ((double)j - m);
    s += w * at(h, base + j);
  }
  return s;
}
Range fracDelay(std::vector<double> const& h, double t, double delay, unsigned N, double err)
{
  Range r;
  for (double e : {-err, 0.0, err})
  {
    double q = t - delay - N + e; // first stencil sample before rounding
    for (double e2 : {-err, 0.0, err})
    {
      std::ptrdiff_t base = (std::ptrdiff_t)std::floor(q + e2 + 0.5);
      r.add(lagrange(h, base, N, q + 0.5 * N - base));
    }
  }
  return r;
}

struct Setup { unsigned N; std::string method; float fs; std::size_t block; float maxDelay; double maxSamples; Policy policy; };
Setup gen(Case& c)
{
  Setup s;
  s.N = (unsigned)c.size(0, 9);
  s.method = s.N == 0 && c.flag() ? "nearestSample" : "lagrangeOrder" + std::to_string(s.N);
  s.fs = c.pick<float>({48000.f, 44100.f, 1000.f, 1.f, 96000.f});
  s.block = c.weighted({3, 1}) == 0 ? c.wide(1, 24, 300) : (std::size_t)1 << c.range(0, 6);
  double samples = c.weighted({4, 1, 1}) == 0 ? c.real(0, c.chance(5) ? 3000 : 60) : (c.flag() ? (double)c.wide(0, 60, 3000) : 0.0);
  s.maxDelay = (float)(samples / s.fs);
  s.maxSamples = (double)(s.maxDelay * s.fs);
  s.policy = c.pick<Policy>({Policy::Add, Policy::Limit, Policy::Reject});
  c.note() << s.method << " fs=" << s.fs << " block=" << s.block << " maxDelay=" << s.maxSamples << " samples policy=" << (int)s.policy;
  return s;
}
// delay in seconds that is admissible
float genDelay(Case& c, Setup const& s)
{
  double lo = s.policy == Policy::Reject ? 0.5 * s.N + 1e-3 : 0.0, hi = s.maxSamples;
  if (hi < lo) return -1;
  double d;
  switch (c.weighted({4, 2, 2, 1}))
  {
  case 0: d = c.real(lo, hi); break;
  case 1: d = std::min(hi, std::ceil(lo) + (double)c.size(0, (std::size_t)std::max(0.0, hi - lo))); break;
  case 2: d = hi; break;
  default: d = lo;
  }
  d = std::max(lo, std::min(d, hi));
  float f = (float)(d / s.fs);
  while (f > 0 && f * s.fs > s.maxSamples) f = std::nextafter(f, 0.0f);
  return f;
}
// effective interpolator delay in samples without the method delay
double effective(Setup const& s, double d) { return s.policy == Policy::Add ? d : std::max(d - 0.5 * s.N, 0.0); }

void compare(Setup const& s, std::vector<double> const& h, std::size_t t0, std::size_t n, double d0, double d1, double g0, double g1, float const* got, double extra, std::string const& what)
{
  double const err = 2e-6 * (s.maxSamples + s.block + s.N + 4);
  for (std::size_t k = 0; k < n; ++k)
  {
    double a = (double)(k + 1) / n;
    Range r = fracDelay(h, (double)(t0 + k), d0 + a * (d1 - d0), s.N, err);
    double g = g0 + a * (g1 - g0);
    double lo = std::min(g * r.lo, g * r.hi), hi = std::max(g * r.lo, g * r.hi), tol = 3e-5 * (1 + std::abs(g0) + std::abs(g1)) + extra;
    PBT_CHECK(got[k] >= lo - tol && got[k] <= hi + tol, what << " sample " << k << ": got " << got[k] << ", expected " << 0.5 * (lo + hi) << " (delay " << d0 + a * (d1 - d0) << " samples, gain " << g << ")");
  }
}

void line(Case& c)
{
  efl::initialiseLibrary("");
  Setup s = gen(c);
  std::size_t const ch = c.wide(1, 3, 20), align = c.pick<std::size_t>({0, 1, 4, 8});
  Line l(ch, s.fs, s.block, s.maxDelay, s.method.c_str(), s.policy, align);
  PBT_CHECK(l.numberOfChannels() == ch && l.blockLength() == s.block, "dimensions");
  PBT_CHECK(pbt::close(l.methodDelaySamples(), 0.5 * s.N, 1e-6), "method delay " << l.methodDelaySamples() << " samples, expected " << 0.5 * s.N);
  PBT_CHECK(pbt::close(l.methodDelaySeconds() * s.fs, 0.5 * s.N, 1e-4), "method delay " << l.methodDelaySeconds() << " s, expected " << 0.5 * s.N / s.fs);
  std::vector<std::vector<double>> h(ch);
  for (std::size_t b = 0, nb = c.wide(1, 8, 60); b < nb; ++b)
  {
    auto x = vflow::noise(c, ch, s.block);
    std::size_t st = s.block + c.size(0, 2);
    std::vector<float> flat(st * (ch - 1) + s.block);
    for (std::size_t i = 0; i < ch; ++i) { std::copy(x[i].begin(), x[i].end(), flat.begin() + i * st); h[i].insert(h[i].end(), x[i].begin(), x[i].end()); }
    l.write(flat.data(), st, ch, 0);
    for (std::size_t q = 0, nq = c.size(1, 3); q < nq; ++q)
    {
      std::size_t i = c.size(0, ch - 1), n = s.block;
      float d0 = genDelay(c, s), d1 = c.flag() ? d0 : genDelay(c, s);
      float g0 = (float)c.sym(2), g1 = c.flag() ? g0 : (float)c.sym(2);
      std::vector<float> out(n, 1234.5f);
      if (d0 < 0)
      {
        if (s.policy == Policy::Reject && s.maxSamples < 0.5 * s.N - 1e-2)
          pbt::mustThrow([&] { l.interpolate(out.data(), i, n, s.maxDelay, s.maxDelay, 1, 1); }, "delay below the method delay with policy Reject");
        continue;
      }
      pbt::mustNotThrow([&] { l.interpolate(out.data(), i, n, d0, d1, g0, g1); }, "interpolate with admissible delays");
      c.nontrivial();
      compare(s, h[i], h[i].size() - n, n, effective(s, (double)d0 * s.fs), effective(s, (double)d1 * s.fs), g0, g1, out.data(), 0, "block " + std::to_string(b) + " channel " + std::to_string(i));
    }
    if (c.chance(10))
    {
      std::vector<float> out(s.block);
      float over = (float)((std::ceil(s.maxSamples) + 1.5) / s.fs);
      pbt::mustThrow([&] { l.interpolate(out.data(), 0, s.block, 0.0f, over, 1, 1); }, "delay beyond the maximum");
      if (s.policy == Policy::Add) pbt::mustThrow([&] { l.interpolate(out.data(), 0, s.block, -0.5f / s.fs, 0.0f, 1, 1); }, "negative delay");
      if (s.policy == Policy::Reject && s.N) pbt::mustThrow([&] { l.interpolate(out.data(), 0, s.block, 0.0f, 0.0f, 1, 1); }, "delay below the method delay with policy Reject");
      pbt::mustThrow([&] { l.interpolate(out.data(), ch, s.block, 0.0f, 0.0f, 1, 1); }, "channel out of range");
      pbt::mustThrow([&] { l.write(out.data(), 0, ch + 1, 0); }, "wrong number of channels");
    }
  }
}

// One ramping parameter: linear from the value reached to the target over M blocks.
struct Ramp
{
  double from = 0, to = 0;
  std::size_t pos = 0, M = 1;
  double value(std::size_t p) const { return from + (to - from) * std::min(p, M) / M; }
  void set(double v) { from = value(pos); to = v; pos = 0; }
};

template <bool matrix> void component(Case& c)
{
  vflow::initLibs();
  Setup s = gen(c);
  if (s.fs < 1000) { s.maxDelay = (float)(s.maxSamples / 1000.0); s.fs = 1000; s.maxSamples = (double)(s.maxDelay * s.fs); }
  std::size_t const ins = c.wide(1, 3, 12), outs = matrix ? c.wide(1, 3, 12) : ins, M = c.wide(1, 5, 30), els = matrix ? ins * outs : ins;
  int const ctl = (int)c.size(0, 3); // bit 0: delay port, bit 1: gain port
  if (s.policy == Policy::Reject && s.maxSamples < 0.5 * s.N + 2e-3) s.policy = Policy::Limit;
  c.note() << (matrix ? " matrix " : " vector ") << ins << "->" << outs << " blocks=" << M << " ports=" << ctl;
  SignalFlowContext ctx(s.block, s.fs);
  std::vector<Ramp> dl(els), gn(els);
  auto genVals = [&](bool delay) { std::vector<float> v(els); for (auto& x : v) x = delay ? genDelay(c, s) : (float)c.sym(2); return v; };
  bool const scalarInit = c.flag();
  std::vector<float> d0 = genVals(true), g0 = genVals(false);
  if (scalarInit) { std::fill(d0.begin(), d0.end(), d0[0]); std::fill(g0.begin(), g0.end(), g0[0]); }
  for (std::size_t i = 0; i < els; ++i) { dl[i].from = dl[i].to = d0[i]; gn[i].from = gn[i].to = g0[i]; dl[i].M = gn[i].M = M; }
  auto toM = [&](std::vector<float> const& v) { efl::BasicMatrix<float> m(outs, ins, 4); for (std::size_t i = 0; i < els; ++i) m(i / ins, i % ins) = v[i]; return m; };
  auto toV = [&](std::vector<float> const& v) { efl::BasicVector<float> m(els, 4); for (std::size_t i = 0; i < els; ++i) m[i] = v[i]; return m; };

  std::unique_ptr<rcl::DelayVector> dv;
  std::unique_ptr<rcl::DelayMatrix> dm;
  if (matrix)
  {
    using CP = rcl::DelayMatrix::ControlPortConfig;
    dm.reset(new rcl::DelayMatrix(ctx, "dm"));
    if (scalarInit) dm->setup(ins, outs, M * s.block, s.maxDelay, s.method.c_str(), s.policy, (CP)ctl, d0[0], g0[0]);
    else dm->setup(ins, outs, M * s.block, s.maxDelay, s.method.c_str(), s.policy, (CP)ctl, toM(d0), toM(g0));
  }
  else
  {
    using CP = rcl::DelayVector::ControlPortConfig;
    dv.reset(new rcl::DelayVector(ctx, "dv"));
    if (scalarInit) dv->setup(ins, M * s.block, s.maxDelay, s.method.c_str(), s.policy, (CP)ctl, d0[0], g0[0]);
    else dv->setup(ins, M * s.block, s.maxDelay, s.method.c_str(), s.policy, (CP)ctl, toV(d0), toV(g0));
  }
  if (c.chance(5))
  {
    // transitions that are not a whole number of blocks, and initial values that do not fit, are refused
    std::size_t steps = M * s.block;
    std::size_t r = ins, k = outs, n = ins;
    switch (s.block > 1 ? c.draw(3) : 1 + c.draw(2))
    {
    case 0: steps += (std::size_t)c.size(1, s.block - 1) - (c.flag() ? s.block : 0); break;
    case 1: steps = 0; break;
    default: (c.flag() ? r : k) += c.flag() && (r > 1 && k > 1) ? -1 : 1; n += c.flag() && n ? -1 : 1;
    }
    bool const delays = c.flag();
    efl::BasicMatrix<float> md(outs, ins, 4), mg(outs, ins, 4);
    efl::BasicVector<float> vd(ins, 4), vg(ins, 4);
    if (steps == M * s.block) { (delays ? md : mg) = efl::BasicMatrix<float>(k, r, 4); (delays ? vd : vg) = efl::BasicVector<float>(n, 4); }
    if (matrix)
    {
      rcl::DelayMatrix bad(ctx, "bad");
      pbt::mustThrow([&] { bad.setup(ins, outs, steps, s.maxDelay, s.method.c_str(), s.policy, (rcl::DelayMatrix::ControlPortConfig)ctl, md, mg); }, "setup with " + std::to_string(steps) + " steps or wrong initial values");
    }
    else
    {
      rcl::DelayVector bad(ctx, "bad");
      pbt::mustThrow([&] { bad.setup(ins, steps, s.maxDelay, s.method.c_str(), s.policy, (rcl::DelayVector::ControlPortConfig)ctl, vd, vg); }, "setup with " + std::to_string(steps) + " steps or wrong initial values");
    }
    c.label("refused setup");
  }
  vflow::Rig rig(matrix ? static_cast<Component&>(*dm) : static_cast<Component&>(*dv));
  std::vector<std::vector<double>> h(ins);
  bool changedMid = false;
  for (std::size_t b = 0, nb = c.wide(1, 10, 70); b < nb; ++b)
  {
    bool const edD = c.chance(45), edG = c.chance(45);
    for (int w = 0; w < 2; ++w)
    {
      if (!(w == 0 ? edD : edG)) continue;
      std::vector<float> v = genVals(w == 0);
      std::vector<Ramp>& rp = w == 0 ? dl : gn;
      for (std::size_t i = 0; i < els; ++i) { if (rp[i].pos > 0 && rp[i].pos < M && rp[i].from != rp[i].to) changedMid = true; rp[i].set(v[i]); }
      char const* port = w == 0 ? "delayInput" : "gainInput";
      c.note() << (w == 0 ? " d" : " g") << b;
      if (ctl & (1 << w))
      {
        if (matrix) { auto& p = rig.param<pml::MatrixParameter<float>>(port); for (std::size_t i = 0; i < els; ++i) p(i / ins, i % ins) = v[i]; }
        else { auto& p = rig.param<pml::VectorParameter<float>>(port); for (std::size_t i = 0; i < els; ++i) p[i] = v[i]; }
        rig.dbl(port).swapBuffers(false);
      }
      else if (matrix) { if (w == 0) dm->setDelay(toM(v)); else dm->setGain(toM(v)); }
      else { if (w == 0) dv->setDelay(toV(v)); else dv->setGain(toV(v)); }
    }
    auto x = vflow::noise(c, ins, s.block);
    for (std::size_t i = 0; i < ins; ++i) h[i].insert(h[i].end(), x[i].begin(), x[i].end());
    vflow::Audio y;
    pbt::mustNotThrow([&] { y = rig.process(x); }, "process");
    std::size_t const t0 = h[0].size() - s.block, n = s.block;
    double const err = 4e-6 * (s.maxSamples + s.block + s.N + 4);
    for (std::size_t o = 0; o < outs; ++o)
      for (std::size_t k = 0; k < n; ++k)
      {
        double lo = 0, hi = 0, tol = 3e-5;
        double const a = (double)(k + 1) / n;
        for (std::size_t i = 0; i < ins; ++i)
        {
          if (!matrix && i != o) continue;
          std::size_t e = matrix ? o * ins + i : i;
          double da = effective(s, dl[e].value(dl[e].pos) * s.fs), db = effective(s, dl[e].value(dl[e].pos + 1) * s.fs);
          double g = gn[e].value(gn[e].pos) * (1 - a) + gn[e].value(gn[e].pos + 1) * a;
          Range r = fracDelay(h[i], (double)(t0 + k), da + a * (db - da), s.N, err);
          lo += std::min(g * r.lo, g * r.hi);
          hi += std::max(g * r.lo, g * r.hi);
          tol += 6e-5 * (std::abs(gn[e].from) + std::abs(gn[e].to));
        }
        PBT_CHECK(y[o][k] >= lo - tol && y[o][k] <= hi + tol, "block " << b << " output " << o << " sample " << k << ": got " << y[o][k] << ", expected " << 0.5 * (lo + hi));
      }
    for (std::size_t i = 0; i < els; ++i) { dl[i].pos = std::min(dl[i].pos + 1, M); gn[i].pos = std::min(gn[i].pos + 1, M); }
    c.nontrivial();
  }
  if (changedMid) c.label("changed during a transition");
  if (c.chance(5))
  {
    efl::BasicMatrix<float> m(outs + 1, ins, 4);
    efl::BasicVector<float> v(ins + 1, 4);
    if (matrix) { pbt::mustThrow([&] { dm->setDelay(m); }, "wrong matrix size"); pbt::mustThrow([&] { dm->setGain(m); }, "wrong matrix size"); }
    else { pbt::mustThrow([&] { dv->setDelay(v); }, "wrong vector size"); pbt::mustThrow([&] { dv->setGain(v); }, "wrong vector size"); }
  }
}
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "random interpolation order 0..9, block size, sampling rate, maximum delay 0..60 samples, method-delay policy, delays (integer, fractional, at both limits) and gains, with parameter histories; non-trivial: at least one delayed block was compared";
  s.subs = {{"delay-line", line, 60000, 1500000}, {"delay-vector", component<false>, 40000, 800000}, {"delay-matrix", component<true>, 30000, 600000}};
  s.assumptions = {"single precision: a rounding error of 2e-6*(delay+block) samples is allowed in the realised delay", "the interpolation stencil is the one centred on the requested position (either neighbour at a tie)"};
  return pbt::run(argc, argv, s);
}
