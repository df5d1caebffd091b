// P03: convolution with time-varying filters: crossfading and interpolating
// convolvers against a direct model of filter transitions.
#include "pbt.hpp"

#include <libefl/basic_matrix.hpp>
#include <libefl/initialise_library.hpp>
#include <librbbl/crossfading_convolver_uniform.hpp>
#include <librbbl/filter_routing.hpp>
#include <librbbl/interpolating_convolver_uniform.hpp>
#include <librbbl/interpolation_parameter.hpp>

#include <cstdlib>
#include <memory>

using namespace visr;
using pbt::Case;

namespace
{
template <typename T> double tolOf() { return sizeof(T) == 8 ? 1e-13 : 2e-6; }
using Key = std::pair<std::size_t, std::size_t>;
struct Entry { std::size_t slot; double gain; };

template <typename T> std::vector<T> genIr(Case& c, std::size_t len)
{
  std::size_t kind = c.weighted({1, 3});
  pbt::Rng r(c.seed());
  std::vector<T> v(len);
  for (auto& x : v) x = (T)r.uniform(-1, 1);
  if (kind == 0 && len) { std::fill(v.begin(), v.end(), T(0)); v[r.below(len)] = T(1); }
  return v;
}

// Model of the slots: a slot fades linearly from 'prev' to 'cur'.
struct Slot
{
  std::vector<double> cur, prev;
  std::size_t pos;     // sample position in the transition
  bool ambiguous = false; // edited without transition while a fade was running
};
struct Model
{
  std::size_t ins, outs, block, len, T; // T: transition samples
  std::vector<Slot> slot;
  std::map<Key, Entry> rt;
  std::vector<std::vector<double>> hist;
  Model(std::size_t i, std::size_t o, std::size_t b, std::size_t l, std::size_t n, std::size_t t) : ins(i), outs(o), block(b), len(l), T(t), slot(n), hist(i)
  {
    for (auto& s : slot) { s.cur.assign(l, 0); s.prev.assign(l, 0); s.pos = t; }
  }
  template <typename V> std::vector<double> pad(V const& v) const { std::vector<double> r(v.begin(), v.end()); r.resize(len, 0.0); return r; }
  void set(std::size_t i, std::vector<double> f, bool transition)
  {
    Slot& s = slot[i];
    if (!transition && s.pos < T) s.ambiguous = true;
    s.prev = s.cur;
    s.cur = std::move(f);
    if (transition) { s.pos = 0; s.ambiguous = false; }
  }
  void jump(std::size_t i, std::vector<double> f) { slot[i].cur = f; slot[i].prev = f; slot[i].pos = T; slot[i].ambiguous = false; }
};

template <typename T, typename Conv> bool audioBlock(Case& c, Model& m, Conv& conv, std::size_t align, std::size_t blockNo)
{
  std::size_t const block = m.block, ins = m.ins, outs = m.outs;
  std::size_t const stIn = block + c.size(0, 2) * (align ? align : 1), stOut = block + c.size(0, 2) * (align ? align : 1);
  pbt::Rng r(c.seed());
  std::size_t const inN = stIn * (ins - 1) + block, outN = stOut * (outs - 1) + block;
  void *mi = nullptr, *mo = nullptr;
  if (posix_memalign(&mi, 128, inN * sizeof(T)) || posix_memalign(&mo, 128, outN * sizeof(T))) abort();
  std::unique_ptr<void, void (*)(void*)> gi(mi, free), go(mo, free);
  T *pi = (T*)mi, *po = (T*)mo;
  for (std::size_t i = 0; i < inN; ++i) pi[i] = T(-999);
  for (std::size_t i = 0; i < outN; ++i) po[i] = T(1234.5);
  for (std::size_t i = 0; i < ins; ++i)
    for (std::size_t k = 0; k < block; ++k) { pi[i * stIn + k] = (T)r.uniform(-1, 1); m.hist[i].push_back(pi[i * stIn + k]); }
  pbt::mustNotThrow([&] { conv.process(pi, stIn, po, stOut, 0); }, "process");
  std::size_t const t0 = m.hist[0].size() - block;
  bool any = false;
  for (std::size_t o = 0; o < outs; ++o)
  {
    std::vector<double> ref(block, 0.0), mag(block, 0.0);
    bool skip = false;
    for (auto const& e : m.rt)
    {
      if (e.first.second != o) continue;
      Slot const& s = m.slot[e.second.slot];
      if (s.ambiguous && s.pos < m.T) skip = true;
      std::vector<double> const& x = m.hist[e.first.first];
      for (std::size_t k = 0; k < block; ++k)
      {
        double const up = s.pos + k < m.T ? (double)(s.pos + k + 1) / m.T : 1.0;
        for (std::size_t n = 0; n < m.len && n <= t0 + k; ++n)
        {
          double a = e.second.gain * s.cur[n] * x[t0 + k - n], b = e.second.gain * s.prev[n] * x[t0 + k - n];
          ref[k] += up * a + (1 - up) * b;
          mag[k] += std::abs(a) + std::abs(b);
        }
      }
      if (s.pos < m.T) any = true;
    }
    for (std::size_t k = block; o + 1 < outs && k < stOut; ++k) PBT_CHECK(po[o * stOut + k] == T(1234.5), "wrote beyond the block of output " << o);
    if (skip) continue;
    double peak = 0;
    for (double v : mag) peak = std::max(peak, v);
    double const tol = tolOf<T>() * (4 * peak + 4);
    for (std::size_t k = 0; k < block; ++k)
      PBT_CHECK(pbt::close(po[o * stOut + k], ref[k], tol), "block " << blockNo << " output " << o << " sample " << k << ": got " << po[o * stOut + k] << ", model gives " << ref[k]);
  }
  for (auto& s : m.slot)
  {
    s.pos = std::min(s.pos + block, m.T);
    if (s.pos >= m.T) s.ambiguous = false;
  }
  return any;
}

struct Cfg { std::size_t align, block, ins, outs, maxLen, T; std::string fft; };
Cfg genCfg(Case& c, bool dbl)
{
  Cfg g;
  g.align = c.pick<std::size_t>({0, 1, 2, 4, 8, 16});
  g.fft = c.pick<char const*>({"default", "kissfft", "ffts"});
  g.block = c.weighted({3, 1}) == 0 ? c.wide(1, 16, 150) : (std::size_t)1 << c.range(0, 5);
  if (g.fft == "ffts")
  {
    if (dbl || g.align < 4) g.fft = "default";
    else g.block = std::max<std::size_t>((std::size_t)1 << c.range(2, 5), g.align);
  }
  g.ins = c.wide(1, 3, 12);
  g.outs = c.wide(1, 3, 12);
  g.maxLen = c.wide(1, 2 * g.block + 3, 12 * g.block);
  switch (c.weighted({3, 2, 1, 1}))
  {
  case 0: g.T = c.wide(1, 4 * g.block, 20 * g.block); break;
  case 1: g.T = g.block * c.wide(1, 4, 20); break;
  case 2: g.T = 1; break;
  default: g.T = 0;
  }
  c.note() << (dbl ? "double" : "float") << " align=" << g.align << " fft=" << g.fft << " block=" << g.block << " in/out=" << g.ins << "/" << g.outs << " maxLen=" << g.maxLen << " transition=" << g.T;
  return g;
}

template <typename Conv> void routingEdit(Case& c, Model& m, Conv& conv, std::size_t maxRout, std::size_t slots)
{
  using SampleType = float;
  switch (c.weighted({4, 2, 1, 1}))
  {
  case 0:
  {
    std::size_t a = c.size(0, m.ins - 1), b = c.size(0, m.outs - 1), f = c.size(0, slots - 1);
    double g = (double)(SampleType)c.sym(2.0);
    c.note() << " route(" << a << "->" << b << " s" << f << ")";
    if (m.rt.count({a, b}) || m.rt.size() < maxRout)
    {
      pbt::mustNotThrow([&] { conv.setRoutingEntry(rbbl::FilterRouting(a, b, f, g)); }, "setRoutingEntry");
      m.rt[{a, b}] = Entry{f, g};
    }
    else
      pbt::mustThrow([&] { conv.setRoutingEntry(a, b, f, 1.0f); }, "routing beyond the maximum number of routing points");
    break;
  }
  case 1:
  {
    std::size_t a = c.size(0, m.ins - 1), b = c.size(0, m.outs - 1);
    bool had = m.rt.erase({a, b}) != 0, r = conv.removeRoutingEntry(a, b);
    c.note() << " remove(" << a << "->" << b << ")";
    PBT_CHECK(r == had, "removeRoutingEntry returned " << r << ", expected " << had);
    break;
  }
  case 2:
  {
    conv.clearRoutingTable();
    m.rt.clear();
    c.note() << " clearRouting";
    break;
  }
  default:
  {
    std::size_t k = c.size(0, 2);
    c.note() << " invalid-route" << k;
    if (k == 0) pbt::mustThrow([&] { conv.setRoutingEntry(m.ins + c.size(0, 2), 0, 0, 1.0f); }, "input index out of range");
    else if (k == 1) pbt::mustThrow([&] { conv.setRoutingEntry(0, m.outs + c.size(0, 2), 0, 1.0f); }, "output index out of range");
    else pbt::mustThrow([&] { conv.setRoutingEntry(0, 0, slots + c.size(0, 2 * slots), 1.0f); }, "filter index out of range");
  }
  }
  PBT_CHECK(conv.numberOfRoutingPoints() == m.rt.size(), "number of routings " << conv.numberOfRoutingPoints() << ", expected " << m.rt.size());
}

rbbl::FilterRoutingList genRoutings(Case& c, Model& m, std::size_t maxRout, std::size_t slots)
{
  rbbl::FilterRoutingList l;
  m.rt.clear();
  for (std::size_t i = 0, n = c.size(0, maxRout); i < n; ++i)
  {
    std::size_t a = c.size(0, m.ins - 1), b = c.size(0, m.outs - 1), f = c.size(0, slots - 1);
    double g = (double)(float)c.sym(2.0);
    l.addRouting(a, b, f, g);
    m.rt[{a, b}] = Entry{f, g};
  }
  return l;
}

template <typename T> void crossfading(Case& c)
{
  efl::initialiseLibrary("");
  Cfg g = genCfg(c, sizeof(T) == 8);
  std::size_t const maxFilters = c.wide(1, 3, 30), maxRout = c.size(1, g.ins * g.outs);
  Model m(g.ins, g.outs, g.block, g.maxLen, maxFilters, g.T);
  rbbl::FilterRoutingList l = genRoutings(c, m, maxRout, maxFilters);
  auto genMatrix = [&] {
    std::size_t rows = c.size(0, maxFilters), cols = rows ? c.size(1, g.maxLen) : 0;
    efl::BasicMatrix<T> f(rows, cols, c.pick<std::size_t>({0, 1, 4, 8}));
    for (auto& s : m.slot) { s.cur.assign(g.maxLen, 0); s.prev = s.cur; s.pos = g.T; s.ambiguous = false; }
    for (std::size_t i = 0; i < rows; ++i)
    {
      auto ir = genIr<T>(c, cols);
      for (std::size_t k = 0; k < cols; ++k) f(i, k) = ir[k];
      m.jump(i, m.pad(ir));
    }
    return f;
  };
  efl::BasicMatrix<T> f0 = genMatrix();
  std::unique_ptr<rbbl::CrossfadingConvolverUniform<T>> conv;
  pbt::mustNotThrow([&] { conv.reset(new rbbl::CrossfadingConvolverUniform<T>(g.ins, g.outs, g.block, g.maxLen, maxRout, maxFilters, g.T, l, f0, g.align, g.fft.c_str())); }, "constructor");
  for (std::size_t s = 0, n = c.wide(1, 8, 50); s < n; ++s)
  {
    for (std::size_t e = 0, ne = c.weighted({3, 3, 2}); e < ne; ++e)
    {
      std::size_t i = c.size(0, maxFilters - 1), len = c.size(1, g.maxLen);
      switch (c.weighted({6, 3, 1, 1, 4, 1}))
      {
      case 0:
      {
        bool tr = !c.chance(30);
        auto ir = genIr<T>(c, len);
        pbt::mustNotThrow([&] { conv->setImpulseResponse(ir.data(), len, i, tr, 0); }, "setImpulseResponse");
        m.set(i, m.pad(ir), tr);
        c.note() << " set(" << i << ",len " << len << (tr ? ",fade)" : ")");
        break;
      }
      case 1:
      {
        bool tr = !c.chance(30);
        auto ir = genIr<T>(c, len);
        efl::BasicVector<std::complex<T>> fd(conv->dftFilterRepresentationSize(), conv->complexAlignment());
        pbt::mustNotThrow([&] { conv->transformImpulseResponse(ir.data(), len, fd.data(), 0); conv->setTransformedFilter(fd.data(), i, tr, conv->complexAlignment()); }, "setTransformedFilter");
        m.set(i, m.pad(ir), tr);
        c.note() << " setTransformed(" << i << ",len " << len << (tr ? ",fade)" : ")");
        break;
      }
      case 2:
        conv->clearFilters();
        for (auto& x : m.slot) { x.cur.assign(g.maxLen, 0); x.prev = x.cur; x.ambiguous = false; }
        c.note() << " clearFilters";
        break;
      case 3:
      {
        efl::BasicMatrix<T> f = genMatrix();
        pbt::mustNotThrow([&] { conv->initFilters(f); }, "initFilters");
        c.note() << " initFilters" << f.numberOfRows();
        break;
      }
      case 4: routingEdit(c, m, *conv, maxRout, maxFilters); break;
      default:
      {
        std::vector<T> z(g.maxLen + 1, T(1));
        c.note() << " invalid-filter";
        if (c.flag()) pbt::mustThrow([&] { conv->setImpulseResponse(z.data(), g.maxLen, maxFilters + c.size(0, 2), false, 0); }, "filter slot out of range");
        else pbt::mustThrow([&] { conv->setImpulseResponse(z.data(), g.maxLen + 1, i, true, 0); }, "filter longer than the maximum");
      }
      }
    }
    if (audioBlock<T>(c, m, *conv, g.align, s)) c.nontrivial();
  }
}

template <typename T> void interpolating(Case& c)
{
  efl::initialiseLibrary("");
  Cfg g = genCfg(c, sizeof(T) == 8);
  std::size_t const maxFilters = c.wide(1, 4, 30), maxRout = c.size(1, g.ins * g.outs), nInt = c.wide(1, 3, 12);
  c.note() << " filters=" << maxFilters << " routings=" << maxRout << " interpolants=" << nInt;
  Model m(g.ins, g.outs, g.block, g.maxLen, maxRout, g.T);
  rbbl::FilterRoutingList l = genRoutings(c, m, maxRout, maxRout);
  std::vector<std::vector<double>> bank(maxFilters, std::vector<double>(g.maxLen, 0.0));
  auto genBank = [&] {
    std::size_t rows = c.size(0, maxFilters), cols = rows ? c.size(1, g.maxLen) : 0;
    efl::BasicMatrix<T> f(rows, cols, c.pick<std::size_t>({0, 1, 4, 8}));
    for (auto& b : bank) b.assign(g.maxLen, 0.0);
    for (std::size_t i = 0; i < rows; ++i)
    {
      auto ir = genIr<T>(c, cols);
      for (std::size_t k = 0; k < cols; ++k) f(i, k) = ir[k];
      bank[i] = m.pad(ir);
    }
    return f;
  };
  auto genInterpolant = [&](std::size_t id) {
    rbbl::InterpolationParameter p(id, nInt);
    std::vector<double> f(g.maxLen, 0.0);
    for (std::size_t i = 0; i < nInt; ++i)
    {
      std::size_t idx = c.size(0, maxFilters - 1);
      float w = (float)c.sym(1.0);
      p.setIndex(i, idx);
      p.setWeight(i, w);
      for (std::size_t k = 0; k < g.maxLen; ++k) f[k] += (double)w * bank[idx][k];
    }
    return std::make_pair(p, f);
  };
  efl::BasicMatrix<T> f0 = genBank();
  rbbl::InterpolationParameterSet ip;
  for (std::size_t i = 0; i < maxRout; ++i)
    if (c.chance(60)) { auto p = genInterpolant(i); ip.insert(p.first); m.jump(i, p.second); }
  std::unique_ptr<rbbl::InterpolatingConvolverUniform<T>> conv;
  pbt::mustNotThrow([&] { conv.reset(new rbbl::InterpolatingConvolverUniform<T>(g.ins, g.outs, g.block, g.maxLen, maxRout, maxFilters, nInt, g.T, l, ip, f0, g.align, g.fft.c_str())); }, "constructor");
  for (std::size_t s = 0, n = c.wide(1, 8, 50); s < n; ++s)
  {
    for (std::size_t e = 0, ne = c.weighted({2, 3, 2, 1}); e < ne; ++e)
    {
      switch (c.weighted({7, 3, 1, 1, 4, 1, 1}))
      {
      case 0:
      {
        bool tr = !c.chance(30);
        auto p = genInterpolant(c.size(0, maxRout - 1));
        pbt::mustNotThrow([&] { conv->setInterpolant(p.first, tr); }, "setInterpolant");
        m.set(p.first.id(), p.second, tr);
        c.note() << " interpolant(" << p.first.id() << (tr ? ",fade)" : ")");
        break;
      }
      case 1: // storing a filter has no effect until the next interpolant is set
      {
        std::size_t i = c.size(0, maxFilters - 1), len = c.size(1, g.maxLen);
        auto ir = genIr<T>(c, len);
        pbt::mustNotThrow([&] { conv->setImpulseResponse(ir.data(), len, i, 0); }, "setImpulseResponse");
        bank[i] = m.pad(ir);
        c.note() << " setIR(" << i << ")";
        break;
      }
      case 2:
        if (c.flag()) { conv->clearFilters(); for (auto& b : bank) b.assign(g.maxLen, 0.0); }
        else conv->clearInterpolants();
        for (auto& x : m.slot) { x.cur.assign(g.maxLen, 0); x.prev = x.cur; x.ambiguous = false; }
        c.note() << " clear";
        break;
      case 3:
      {
        efl::BasicMatrix<T> f = genBank();
        pbt::mustNotThrow([&] { conv->initFilters(f); }, "initFilters");
        c.note() << " initFilters";
        break;
      }
      case 4: routingEdit(c, m, *conv, maxRout, maxRout); break;
      case 5:
      {
        c.note() << " invalid-interpolant";
        rbbl::InterpolationParameter p(0, nInt);
        std::size_t k = c.size(0, 2);
        for (std::size_t i = 0; i < nInt; ++i) p.setIndex(i, 0);
        if (k == 0) { p.setId(maxRout + c.size(0, 3)); pbt::mustThrow([&] { conv->setInterpolant(p, false); }, "interpolant id out of range"); }
        else if (k == 1) { p.setIndex(c.size(0, nInt - 1), maxFilters + c.size(0, 3)); pbt::mustThrow([&] { conv->setInterpolant(p, true); }, "filter index out of range"); }
        else { rbbl::InterpolationParameter q(0, nInt + 1); pbt::mustThrow([&] { conv->setInterpolant(q, true); }, "wrong number of interpolants"); }
        break;
      }
      default:
      {
        rbbl::InterpolationParameterSet ps;
        bool tr = c.flag();
        for (std::size_t i = 0; i < maxRout; ++i)
          if (c.flag()) { auto p = genInterpolant(i); ps.insert(p.first); m.set(i, p.second, tr); }
        pbt::mustNotThrow([&] { conv->setInterpolants(ps, tr); }, "setInterpolants");
        c.note() << " interpolants" << ps.size();
      }
      }
    }
    if (audioBlock<T>(c, m, *conv, g.align, s)) c.nontrivial();
  }
}
void xf(Case& c) { if (c.flag()) crossfading<double>(c); else crossfading<float>(c); }
void ip(Case& c) { if (c.flag()) interpolating<double>(c); else interpolating<float>(c); }
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "random dimensions, block size, transition length, alignment, FFT, filters and a history of filter/interpolant/routing edits between blocks; non-trivial: at least one compared block lies inside a filter transition of a routed filter";
  s.subs = {{"crossfading", xf, 120000, 3000000}, {"interpolating", ip, 120000, 3000000}};
  s.assumptions = {"an edit without transition while a fade is running is documented ambiguously: that slot is not compared until the fade has ended"};
  return pbt::run(argc, argv, s);
}
