// P06: filter components driven through their control ports: FIR matrices
// (static, crossfading, interpolating) and the biquad IIR bank against
// direct-form models over the complete input history.
#include "flow.hpp"

#include <libpml/biquad_parameter.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <librcl/biquad_iir_filter.hpp>
#include <librcl/crossfading_fir_filter_matrix.hpp>
#include <librcl/fir_filter_matrix.hpp>
#include <librcl/interpolating_fir_filter_matrix.hpp>

using namespace visr;
using pbt::Case;
using vflow::Audio;

namespace
{
using Key = std::pair<std::size_t, std::size_t>;
struct Entry { std::size_t slot; double gain; };
using FilterMsg = pml::IndexedValueParameter<std::size_t, std::vector<float>>;

std::size_t genBlock(Case& c) { return c.weighted({3, 1}) == 0 ? c.wide(1, 20, 200) : (std::size_t)1 << c.range(0, 6); }
std::vector<float> genIr(Case& c, std::size_t len)
{
  bool impulse = c.chance(25);
  pbt::Rng r(c.seed());
  std::vector<float> v(len);
  for (auto& x : v) x = (float)r.uniform(-1, 1);
  if (impulse) { std::fill(v.begin(), v.end(), 0.0f); v[r.below(len)] = 1.0f; }
  return v;
}

struct Slot { std::vector<double> cur, prev; std::size_t pos; };
struct Model
{
  std::size_t ins, outs, block, len, T;
  std::vector<Slot> slot;
  std::map<Key, Entry> rt;
  std::vector<std::vector<double>> hist;
  std::vector<double> pad(std::vector<float> const& v) const { std::vector<double> r(v.begin(), v.end()); r.resize(len, 0.0); return r; }
  bool check(Case& c, vflow::Rig& rig, std::size_t blk)
  {
    auto in = vflow::noise(c, ins, block);
    for (std::size_t i = 0; i < ins; ++i) hist[i].insert(hist[i].end(), in[i].begin(), in[i].end());
    auto out = rig.process(in);
    std::size_t const t0 = hist[0].size() - block;
    bool any = false;
    for (std::size_t o = 0; o < outs; ++o)
    {
      std::vector<double> ref(block, 0.0);
      double peak = 0;
      for (auto const& e : rt)
      {
        if (e.first.second != o) continue;
        Slot const& s = slot[e.second.slot];
        std::vector<double> const& x = hist[e.first.first];
        for (std::size_t k = 0; k < block; ++k)
        {
          double const up = s.pos + k < T ? (double)(s.pos + k + 1) / T : 1.0;
          double mag = 0;
          for (std::size_t n = 0; n < len && n <= t0 + k; ++n)
          {
            double a = e.second.gain * s.cur[n] * x[t0 + k - n], b = e.second.gain * s.prev[n] * x[t0 + k - n];
            ref[k] += up * a + (1 - up) * b;
            mag += std::abs(a) + std::abs(b);
          }
          peak = std::max(peak, mag);
        }
      }
      any |= peak > 0;
      double const tol = 2e-6 * (4 * peak * (1 + rt.size()) + 4);
      for (std::size_t k = 0; k < block; ++k)
        PBT_CHECK(pbt::close(out[o][k], ref[k], tol), "block " << blk << " output " << o << " sample " << k << ": got " << out[o][k] << ", model gives " << ref[k]);
    }
    for (auto& s : slot) s.pos = std::min(s.pos + block, T);
    return any;
  }
};
Model gen(Case& c, std::size_t T, std::size_t block)
{
  Model m;
  m.block = block;
  m.ins = c.wide(1, 3, 12);
  m.outs = c.wide(1, 3, 12);
  m.len = c.wide(1, 2 * block + 3, 12 * block);
  m.T = T;
  m.hist.resize(m.ins);
  return m;
}
rbbl::FilterRoutingList genRoutings(Case& c, Model& m, std::size_t maxRout, std::size_t slots)
{
  rbbl::FilterRoutingList l;
  m.rt.clear();
  for (std::size_t i = 0, n = c.size(0, maxRout); i < n; ++i)
  {
    std::size_t a = c.size(0, m.ins - 1), b = c.size(0, m.outs - 1), f = c.size(0, slots - 1);
    double g = (double)(float)c.sym(2.0);
    l.addRouting(a, b, f, g);
    m.rt[{a, b}] = Entry{f, g};
  }
  return l;
}
efl::BasicMatrix<float> genBank(Case& c, Model const& m, std::vector<std::vector<double>>& bank)
{
  std::size_t rows = c.size(0, bank.size()), cols = rows ? c.size(1, m.len) : 0;
  efl::BasicMatrix<float> f(rows, cols, c.pick<std::size_t>({0, 1, 4, 8}));
  for (auto& b : bank) b.assign(m.len, 0.0);
  for (std::size_t i = 0; i < rows; ++i)
  {
    auto ir = genIr(c, cols);
    for (std::size_t k = 0; k < cols; ++k) f(i, k) = ir[k];
    bank[i] = m.pad(ir);
  }
  return f;
}
char const* fftOf(Case& c) { return c.pick<char const*>({"default", "kissfft"}); }

void fir(Case& c)
{
  std::size_t block = genBlock(c);
  Model m = gen(c, 0, block);
  SignalFlowContext ctx(block, 48000);
  std::size_t nf = c.wide(1, 4, 30), maxRout = c.size(1, m.ins * m.outs);
  using CP = rcl::FirFilterMatrix::ControlPortConfig;
  int cp = (int)c.size(0, 7);
  std::vector<std::vector<double>> bank(nf);
  auto f0 = genBank(c, m, bank);
  auto l = genRoutings(c, m, maxRout, nf);
  m.slot.resize(nf);
  auto upd = [&](std::size_t i) { m.slot[i].cur = m.slot[i].prev = bank[i]; m.slot[i].pos = 0; };
  for (std::size_t i = 0; i < nf; ++i) upd(i);
  rcl::FirFilterMatrix f(ctx, "fir", nullptr, m.ins, m.outs, m.len, nf, maxRout, f0, l, static_cast<CP>(cp), fftOf(c));
  vflow::Rig rig(f);
  c.note() << "FirFilterMatrix " << m.ins << "->" << m.outs << " block " << block << " len " << m.len << " filters " << nf << " ports " << cp << ":";
  bool any = false, edited = false;
  for (std::size_t blk = 0, nb = c.wide(1, 7, 50); blk < nb; ++blk)
  {
    if (c.chance(20)) // direct calls take effect at once, messages with the next block
    {
      std::size_t a = c.size(0, m.ins - 1), b = c.size(0, m.outs - 1);
      switch (c.draw(4))
      {
      case 0: PBT_CHECK(f.removeRouting(a, b) == (m.rt.erase({a, b}) != 0), "result of removeRouting"); break;
      case 1: f.clearRoutings(); m.rt.clear(); break;
      case 2: { auto b2 = genBank(c, m, bank); f.setFilters(b2); for (std::size_t i = 0; i < nf; ++i) upd(i); break; }
      default: f.setRoutings(genRoutings(c, m, maxRout, nf));
      }
      c.note() << " api";
      edited = true;
    }
    if (cp & 1)
      for (std::size_t n = c.weighted({3, 2, 1, 1}); n > 0; --n)
      {
        std::size_t i = c.size(0, nf - 1);
        auto ir = genIr(c, c.size(1, m.len));
        rig.enqueue("filterInput", FilterMsg(i, ir));
        bank[i] = m.pad(ir);
        upd(i);
        c.note() << " filter" << i;
        edited = true;
      }
    if ((cp & 4) && c.chance(30))
    {
      auto nl = genRoutings(c, m, maxRout, nf);
      static_cast<rbbl::FilterRoutingList&>(rig.param<pml::FilterRoutingListParameter>("allRoutings")) = nl;
      rig.dbl("allRoutings").swapBuffers(false);
      c.note() << " all" << nl.size();
      edited = true;
    }
    if (cp & 2)
      for (std::size_t n = c.weighted({3, 2, 1, 1}); n > 0; --n)
      {
        std::size_t a = c.size(0, m.ins - 1), b = c.size(0, m.outs - 1), s = c.size(0, nf - 1);
        double g = (double)(float)c.sym(2.0);
        if (!m.rt.count({a, b}) && m.rt.size() >= maxRout) continue;
        rig.enqueue("singleRouting", pml::FilterRoutingParameter(a, b, s, g));
        m.rt[{a, b}] = Entry{s, g};
        c.note() << " route(" << a << "->" << b << " f" << s << ")";
        edited = true;
      }
    any |= m.check(c, rig, blk);
    c.note() << " p";
  }
  if (any && edited) c.nontrivial();
}

void crossfading(Case& c)
{
  std::size_t block = genBlock(c);
  std::size_t T = c.chance(10) ? 0 : c.wide(1, 4 * block, 20 * block);
  Model m = gen(c, T, block);
  SignalFlowContext ctx(block, 48000);
  std::size_t nf = c.wide(1, 4, 30), maxRout = c.size(1, m.ins * m.outs);
  using CP = rcl::CrossfadingFirFilterMatrix::ControlPortConfig;
  std::vector<std::vector<double>> bank(nf);
  auto f0 = genBank(c, m, bank);
  auto l = genRoutings(c, m, maxRout, nf);
  m.slot.resize(nf);
  for (std::size_t i = 0; i < nf; ++i) m.slot[i] = Slot{bank[i], bank[i], T};
  rcl::CrossfadingFirFilterMatrix f(ctx, "fir", nullptr, m.ins, m.outs, m.len, nf, maxRout, T, f0, l, CP::Filters, fftOf(c));
  vflow::Rig rig(f);
  c.note() << "CrossfadingFirFilterMatrix " << m.ins << "->" << m.outs << " block " << block << " len " << m.len << " transition " << T << ":";
  bool any = false, edited = false;
  for (std::size_t blk = 0, nb = c.wide(1, 8, 50); blk < nb; ++blk)
  {
    for (std::size_t n = c.weighted({3, 3, 1, 1}); n > 0; --n)
    {
      std::size_t i = c.size(0, nf - 1);
      auto ir = genIr(c, c.size(1, m.len));
      rig.enqueue("filterInput", FilterMsg(i, ir));
      m.slot[i] = Slot{m.pad(ir), m.slot[i].cur, 0};
      c.note() << " filter" << i;
      edited = true;
    }
    any |= m.check(c, rig, blk);
    c.note() << " p";
  }
  if (any && edited) c.nontrivial();
}

void interpolating(Case& c)
{
  std::size_t block = genBlock(c);
  std::size_t T = c.chance(10) ? 0 : c.wide(1, 4 * block, 20 * block);
  Model m = gen(c, T, block);
  SignalFlowContext ctx(block, 48000);
  std::size_t nf = c.wide(1, 4, 30), maxRout = c.size(1, m.ins * m.outs), nInt = c.wide(1, 3, 12);
  using CP = rcl::InterpolatingFirFilterMatrix::ControlPortConfig;
  std::vector<std::vector<double>> bank(nf);
  auto f0 = genBank(c, m, bank);
  auto l = genRoutings(c, m, maxRout, maxRout);
  m.slot.resize(maxRout);
  for (auto& s : m.slot) s = Slot{std::vector<double>(m.len, 0.0), std::vector<double>(m.len, 0.0), T};
  auto genInt = [&](std::size_t id) {
    rbbl::InterpolationParameter p(id, nInt);
    std::vector<double> f(m.len, 0.0);
    for (std::size_t i = 0; i < nInt; ++i)
    {
      std::size_t idx = c.size(0, nf - 1);
      float w = (float)c.sym(1.0);
      p.setIndex(i, idx);
      p.setWeight(i, w);
      for (std::size_t k = 0; k < m.len; ++k) f[k] += (double)w * bank[idx][k];
    }
    return std::make_pair(p, f);
  };
  rbbl::InterpolationParameterSet ip;
  for (std::size_t i = 0; i < maxRout; ++i)
    if (c.chance(70)) { auto p = genInt(i); ip.insert(p.first); m.slot[i] = Slot{p.second, p.second, T}; }
  rcl::InterpolatingFirFilterMatrix f(ctx, "fir", nullptr, m.ins, m.outs, m.len, nf, maxRout, nInt, T, f0, ip, l, CP::Filters | CP::Interpolants, fftOf(c));
  vflow::Rig rig(f);
  c.note() << "InterpolatingFirFilterMatrix " << m.ins << "->" << m.outs << " block " << block << " len " << m.len << " transition " << T << " interpolants " << nInt << ":";
  bool any = false, edited = false;
  for (std::size_t blk = 0, nb = c.wide(1, 8, 50); blk < nb; ++blk)
  {
    for (std::size_t n = c.weighted({3, 2, 1}); n > 0; --n)
    {
      std::size_t i = c.size(0, nf - 1);
      auto ir = genIr(c, c.size(1, m.len));
      rig.enqueue("filterInput", FilterMsg(i, ir)); // stored; audible with the next interpolant
      bank[i] = m.pad(ir);
      c.note() << " filter" << i;
    }
    for (std::size_t n = c.weighted({3, 3, 1, 1}); n > 0; --n)
    {
      auto p = genInt(c.size(0, maxRout - 1));
      rig.enqueue("interpolantInput", pml::InterpolationParameter(p.first.id(), p.first.indices(), p.first.weights()));
      Slot& s = m.slot[p.first.id()];
      s = Slot{p.second, s.cur, 0};
      c.note() << " interp" << p.first.id();
      edited = true;
    }
    any |= m.check(c, rig, blk);
    c.note() << " p";
  }
  if (any && edited) c.nontrivial();
}

// stable second-order section from poles inside radius 0.95
rbbl::BiquadCoefficient<float> genBiquad(Case& c)
{
  if (c.chance(15)) return rbbl::BiquadCoefficient<float>();
  double a1, a2;
  if (c.flag()) { double r = c.real(0, 0.95), th = c.real(0, 3.14159); a1 = -2 * r * std::cos(th); a2 = r * r; }
  else { double p = c.sym(0.95), q = c.sym(0.95); a1 = -(p + q); a2 = p * q; }
  return rbbl::BiquadCoefficient<float>((float)c.sym(1.5), (float)c.sym(1.5), (float)c.sym(1.5), (float)a1, (float)a2);
}
void biquad(Case& c)
{
  std::size_t block = genBlock(c), n = c.wide(0, 4, 30), sec = c.size(0, 4);
  SignalFlowContext ctx(block, 48000);
  bool control = c.chance(70);
  using Coef = rbbl::BiquadCoefficient<float>;
  std::vector<std::vector<Coef>> m(n, std::vector<Coef>(sec));
  std::unique_ptr<rcl::BiquadIirFilter> f;
  auto toMatrix = [&] {
    rbbl::BiquadCoefficientMatrix<float> r(n, sec);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < sec; ++k) r(i, k) = m[i][k];
    return r;
  };
  int kind = (int)c.draw(n ? 4 : 3); // a matrix without rows has no section count
  switch (kind)
  {
  case 0: f.reset(new rcl::BiquadIirFilter(ctx, "iir", nullptr, n, sec, control)); break; // flat
  case 1:
  {
    Coef b = genBiquad(c);
    for (auto& v : m) for (auto& x : v) x = b;
    f.reset(new rcl::BiquadIirFilter(ctx, "iir", nullptr, n, sec, b, control));
    break;
  }
  case 2:
  {
    rbbl::BiquadCoefficientList<float> l(sec);
    for (std::size_t k = 0; k < sec; ++k) { l[k] = genBiquad(c); for (auto& v : m) v[k] = l[k]; }
    f.reset(new rcl::BiquadIirFilter(ctx, "iir", nullptr, n, sec, l, control));
    pbt::mustThrow([&] { rcl::BiquadIirFilter bad(ctx, "bad", nullptr, n, sec + 1, l, control); }, "initial list of wrong length");
    break;
  }
  default:
    for (auto& v : m) for (auto& x : v) x = genBiquad(c);
    f.reset(new rcl::BiquadIirFilter(ctx, "iir", nullptr, n, sec, toMatrix(), control));
    pbt::mustThrow([&] { rcl::BiquadIirFilter bad(ctx, "bad", nullptr, n + 1, sec, toMatrix(), control); }, "initial matrix of wrong size");
  }
  vflow::Rig rig(*f);
  c.note() << "BiquadIirFilter channels " << n << " sections " << sec << " block " << block << " init " << kind << ":";
  std::vector<std::vector<std::array<double, 2>>> st(n, std::vector<std::array<double, 2>>(sec, {{0, 0}}));
  bool edited = false;
  double big = 1;
  for (std::size_t blk = 0, nb = c.wide(1, 8, 50); blk < nb; ++blk)
  {
    switch (c.weighted({3, 3, 1, 1, 1}))
    {
    case 1:
      if (control)
      {
        for (auto& v : m) for (auto& x : v) x = genBiquad(c);
        static_cast<rbbl::BiquadCoefficientMatrix<float>&>(rig.param<pml::BiquadParameterMatrix<float>>("eqInput")) = toMatrix();
        rig.dbl("eqInput").swapBuffers(false);
        c.note() << " eq";
        edited = true;
      }
      break;
    case 2:
      if (n && sec)
      {
        std::size_t i = c.size(0, n - 1), k = c.size(0, sec - 1);
        m[i][k] = genBiquad(c);
        f->setCoefficients(i, k, m[i][k]);
        c.note() << " set(" << i << "," << k << ")";
        edited = true;
      }
      pbt::mustThrow([&] { f->setCoefficients(n, 0, Coef()); }, "channel index out of range");
      pbt::mustThrow([&] { f->setCoefficients(0, sec, Coef()); }, "section index out of range");
      break;
    case 3:
      if (n)
      {
        std::size_t i = c.size(0, n - 1);
        rbbl::BiquadCoefficientList<float> l(sec);
        for (std::size_t k = 0; k < sec; ++k) l[k] = m[i][k] = genBiquad(c);
        f->setChannelCoefficients(i, l);
        c.note() << " setch" << i;
        pbt::mustThrow([&] { f->setChannelCoefficients(i, rbbl::BiquadCoefficientList<float>(sec + 1)); }, "list of wrong length");
        edited = true;
      }
      break;
    case 4:
      for (auto& v : m) for (auto& x : v) x = genBiquad(c);
      f->setCoefficientMatrix(toMatrix());
      c.note() << " setmtx";
      edited = true;
      break;
    default: break;
    }
    auto in = vflow::noise(c, n, block);
    auto out = rig.process(in);
    c.note() << " p";
    for (std::size_t i = 0; i < n; ++i)
    {
      std::vector<double> y(in[i].begin(), in[i].end());
      for (std::size_t k = 0; k < sec; ++k)
        for (auto& v : y)
        {
          double x = v;
          Coef const& q = m[i][k];
          v = q.b0() * x + st[i][k][0];
          st[i][k][0] = st[i][k][1] + q.b1() * x - q.a1() * v;
          st[i][k][1] = q.b2() * x - q.a2() * v;
          big = std::max(big, std::abs(v));
        }
      for (std::size_t k = 0; k < block; ++k)
        PBT_CHECK(pbt::close(out[i][k], y[k], 3e-4 * big), "block " << blk << " channel " << i << " sample " << k << ": got " << out[i][k] << ", model gives " << y[k]);
    }
  }
  if (n && sec && (edited || kind)) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "at least one compared block with audible routed filters after at least one filter, routing, interpolant or coefficient message";
  s.subs = {{"fir-matrix", fir, 30000, 1000000}, {"crossfading-matrix", crossfading, 25000, 800000}, {"interpolating-matrix", interpolating, 25000, 800000}, {"biquad", biquad, 40000, 1200000}};
  return pbt::run(argc, argv, s);
}
