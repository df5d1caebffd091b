// P02: block convolution equals direct convolution of the whole input history
// with the current filters and routings, for every configuration and edit
// history; FFT wrappers compute the DFT; circular buffer keeps the history.
#include "pbt.hpp"

#include <libefl/basic_matrix.hpp>
#include <libefl/initialise_library.hpp>
#include <librbbl/circular_buffer.hpp>
#include <librbbl/fft_wrapper_base.hpp>
#include <librbbl/fft_wrapper_factory.hpp>
#include <librbbl/filter_routing.hpp>
#include <librbbl/multichannel_convolver_uniform.hpp>

#include <complex>
#include <cstdlib>
#include <memory>
#include <set>

using namespace visr;
using pbt::Case;

namespace
{
template <typename T> struct Tol;
template <> struct Tol<float> { static double v() { return 2e-6; } };
template <> struct Tol<double> { static double v() { return 1e-13; } };

struct Entry { std::size_t filter; double gain; };
using Key = std::pair<std::size_t, std::size_t>;

template <typename T> std::vector<T> noise(pbt::Rng& r, std::size_t n)
{
  std::vector<T> v(n);
  for (auto& x : v) x = (T)r.uniform(-1, 1);
  return v;
}

// Filter of the given length; sometimes a pure impulse at an interesting tap.
template <typename T> std::vector<T> genFilter(Case& c, std::size_t len)
{
  std::size_t kind = c.weighted({2, 4});
  pbt::Rng r(c.seed());
  std::vector<T> v = noise<T>(r, len);
  if (kind == 0 && len)
  {
    std::fill(v.begin(), v.end(), T(0));
    v[r.below(3) == 0 ? len - 1 : r.below(len)] = T(1);
  }
  return v;
}

template <typename T> void convolver(Case& c)
{
  efl::initialiseLibrary("");
  bool const dbl = sizeof(T) == 8;
  std::size_t const align = c.pick<std::size_t>({0, 1, 2, 4, 8, 16});
  std::string fft = c.pick<char const*>({"default", "kissfft", "KissFFT", "ffts"});
  std::size_t block = c.weighted({3, 1}) == 0 ? c.wide(1, 20, 200) : (std::size_t)1 << c.range(0, 6);
  if (fft == "ffts")
  {
    if (dbl || align < 4) fft = "kissfft";
    else block = std::max<std::size_t>((std::size_t)1 << c.range(2, 6), align);
  }
  std::size_t const ins = c.wide(1, 4, 20), outs = c.wide(1, 4, 20);
  std::size_t const maxLen = c.weighted({3, 1}) == 0 ? c.size(c.chance(5) ? 0 : 1, 3 * block + 3) : block * c.wide(1, 5, 40);
  std::size_t const maxFilters = c.wide(1, 4, 40), maxRout = c.size(0, ins * outs);
  c.note() << (dbl ? "double" : "float") << " align=" << align << " fft=" << fft << " block=" << block << " in/out=" << ins << "/" << outs
           << " maxLen=" << maxLen << " filters=" << maxFilters << " routings=" << maxRout;

  std::map<Key, Entry> rt;
  std::vector<std::vector<T>> filt(maxFilters, std::vector<T>(maxLen, T(0)));

  auto genRouting = [&](std::size_t n) {
    rbbl::FilterRoutingList l;
    std::map<Key, Entry> m;
    for (std::size_t i = 0; i < n; ++i)
    {
      std::size_t a = c.size(0, ins - 1), b = c.size(0, outs - 1), f = c.size(0, maxFilters - 1);
      double g = c.weighted({1, 2}) == 0 ? 1.0 : c.sym(2.0);
      l.addRouting(a, b, f, g);
      m[{a, b}] = Entry{f, g};
    }
    return std::make_pair(l, m);
  };
  auto genFilters = [&](std::vector<std::vector<T>>& model) {
    std::size_t rows = c.size(0, maxFilters), cols = rows ? c.size(maxLen && !c.chance(5) ? 1 : 0, maxLen) : 0;
    std::size_t fa = c.pick<std::size_t>({0, 1, 4, 8, 16});
    efl::BasicMatrix<T> m(rows, cols, fa);
    for (auto& f : model) std::fill(f.begin(), f.end(), T(0));
    for (std::size_t i = 0; i < rows; ++i)
    {
      std::vector<T> f = genFilter<T>(c, cols);
      for (std::size_t k = 0; k < cols; ++k) { m(i, k) = f[k]; model[i][k] = f[k]; }
    }
    return m;
  };

  auto r0 = genRouting(maxRout ? c.size(0, maxRout) : 0);
  rt = r0.second;
  efl::BasicMatrix<T> f0 = genFilters(filt);
  std::unique_ptr<rbbl::MultichannelConvolverUniform<T>> conv;
  pbt::mustNotThrow([&] { conv.reset(new rbbl::MultichannelConvolverUniform<T>(ins, outs, block, maxLen, maxRout, maxFilters, r0.first, f0, align, fft.c_str())); }, "constructor with valid arguments");

  std::vector<std::vector<T>> hist(ins);
  std::size_t const steps = c.wide(1, 7, 60);
  bool anyOut = false;
  for (std::size_t s = 0; s < steps; ++s)
  {
    for (std::size_t e = 0, ne = c.weighted({3, 3, 2, 1}); e < ne; ++e)
    {
      switch (c.weighted({4, 3, 1, 2, 2, 1, 1, 1}))
      {
      case 0: // set impulse response of one filter
      {
        std::size_t i = c.size(0, maxFilters - 1), len = c.size(maxLen && !c.chance(5) ? 1 : 0, maxLen);
        std::size_t al = c.pick<std::size_t>({0, 1, 4, 8});
        std::vector<T> f = genFilter<T>(c, len);
        void* mem = nullptr;
        if (posix_memalign(&mem, 64, (len + 1) * sizeof(T))) abort();
        T* p = (T*)mem + (al <= 1 ? 1 : 0);
        std::memcpy(p, f.data(), len * sizeof(T));
        std::string m;
        int r = pbt::outcome([&] { conv->setImpulseResponse(p, len, i, al); }, &m);
        free(mem);
        PBT_CHECK(r == 0, "setImpulseResponse(len " << len << ", idx " << i << ", align " << al << ") failed: " << m);
        c.note() << " setIR(" << i << ",len " << len << ")";
        std::fill(filt[i].begin(), filt[i].end(), T(0));
        std::copy(f.begin(), f.end(), filt[i].begin());
        break;
      }
      case 1: // set a routing entry
      {
        std::size_t a = c.size(0, ins - 1), b = c.size(0, outs - 1), f = c.size(0, maxFilters - 1);
        double g = (double)(T)c.sym(2.0);
        c.note() << " route(" << a << "->" << b << " f" << f << ")";
        if (rt.count({a, b}) || rt.size() < maxRout)
        {
          pbt::mustNotThrow([&] { if (e & 1) conv->setRoutingEntry(rbbl::FilterRouting(a, b, f, g)); else conv->setRoutingEntry(a, b, f, (T)g); }, "setRoutingEntry");
          rt[{a, b}] = Entry{f, g};
        }
        else
          pbt::mustThrow([&] { conv->setRoutingEntry(a, b, f, (T)g); }, "routing beyond the maximum number of routing points");
        break;
      }
      case 2: // invalid edits are refused and change nothing
      {
        std::size_t k = c.size(0, 4);
        c.note() << " invalid" << k;
        std::vector<T> z(maxLen + 1, T(1));
        if (k == 0) pbt::mustThrow([&] { conv->setRoutingEntry(ins + c.size(0, 2), 0, 0, T(1)); }, "input index out of range");
        else if (k == 1) pbt::mustThrow([&] { conv->setRoutingEntry(0, outs + c.size(0, 2), 0, T(1)); }, "output index out of range");
        else if (k == 2) pbt::mustThrow([&] { conv->setRoutingEntry(0, 0, maxFilters + c.size(0, 2), T(1)); }, "filter index out of range");
        else if (k == 3) pbt::mustThrow([&] { conv->setImpulseResponse(z.data(), maxLen, maxFilters + c.size(0, 2), 0); }, "filter slot out of range");
        else pbt::mustThrow([&] { conv->setImpulseResponse(z.data(), maxLen + 1, 0, 0); }, "filter longer than the maximum");
        break;
      }
      case 3: // remove a routing entry
      {
        std::size_t a = c.size(0, ins - 1), b = c.size(0, outs - 1);
        bool had = rt.erase({a, b}) != 0;
        bool r = conv->removeRoutingEntry(a, b);
        c.note() << " remove(" << a << "->" << b << ")";
        PBT_CHECK(r == had, "removeRoutingEntry(" << a << "," << b << ") returned " << r << " although the entry " << (had ? "existed" : "did not exist"));
        break;
      }
      case 4: // replace the whole routing table
      {
        auto r = genRouting(maxRout ? c.size(0, maxRout) : 0);
        pbt::mustNotThrow([&] { conv->initRoutingTable(r.first); }, "initRoutingTable");
        rt = r.second;
        c.note() << " initRouting" << rt.size();
        break;
      }
      case 5: conv->clearRoutingTable(); rt.clear(); c.note() << " clearRouting"; break;
      case 6:
      {
        efl::BasicMatrix<T> m = genFilters(filt);
        pbt::mustNotThrow([&] { conv->initFilters(m); }, "initFilters");
        c.note() << " initFilters" << m.numberOfRows();
        break;
      }
      default:
        conv->clearFilters();
        for (auto& f : filt) std::fill(f.begin(), f.end(), T(0));
        c.note() << " clearFilters";
      }
      PBT_CHECK(conv->numberOfRoutingPoints() == rt.size(), "number of routing points " << conv->numberOfRoutingPoints() << ", expected " << rt.size());
    }
    // one block of audio
    std::size_t const stIn = block + c.size(0, 2) * (align ? align : 1), stOut = block + c.size(0, 3);
    std::vector<std::vector<T>> x(ins);
    pbt::Rng r(c.seed());
    for (auto& v : x) v = noise<T>(r, block);
    void *mi = nullptr, *mo = nullptr;
    std::size_t const inN = stIn * (ins - 1) + block, outN = stOut * (outs - 1) + block;
    if (posix_memalign(&mi, 128, inN * sizeof(T)) || posix_memalign(&mo, 128, outN * sizeof(T))) abort();
    std::unique_ptr<void, void (*)(void*)> gi(mi, free), go(mo, free);
    T *pi = (T*)mi, *po = (T*)mo;
    for (std::size_t i = 0; i < outN; ++i) po[i] = T(1234.5);
    for (std::size_t i = 0; i < inN; ++i) pi[i] = T(-999);
    for (std::size_t i = 0; i < ins; ++i) { std::copy(x[i].begin(), x[i].end(), pi + i * stIn); hist[i].insert(hist[i].end(), x[i].begin(), x[i].end()); }
    pbt::mustNotThrow([&] { conv->process(pi, stIn, po, stOut, 0); }, "process");
    std::size_t const t0 = hist[0].size() - block;
    for (std::size_t o = 0; o < outs; ++o)
    {
      std::vector<double> ref(block, 0.0), mag(block, 0.0);
      for (auto const& e : rt)
      {
        if (e.first.second != o) continue;
        std::vector<T> const &h = filt[e.second.filter], &xi = hist[e.first.first];
        for (std::size_t k = 0; k < block; ++k)
          for (std::size_t n = 0; n < maxLen && n <= t0 + k; ++n)
          {
            double p = (double)(T)e.second.gain * h[n] * xi[t0 + k - n];
            ref[k] += p; mag[k] += std::abs(p);
          }
      }
      double peak = 0;
      for (double v : mag) peak = std::max(peak, v);
      if (peak > 0) anyOut = true;
      double const tol = Tol<T>::v() * (3.0 * peak + 3.0);
      for (std::size_t k = 0; k < block; ++k)
        PBT_CHECK(pbt::close(po[o * stOut + k], ref[k], tol), "block " << s << " output " << o << " sample " << k << ": got " << po[o * stOut + k] << ", direct convolution gives " << ref[k]);
      if (o + 1 < outs)
        for (std::size_t k = block; k < stOut; ++k) PBT_CHECK(po[o * stOut + k] == T(1234.5), "wrote beyond the block of output " << o);
    }
    if (anyOut) c.nontrivial();
  }
  c.label(fft + (dbl ? "/double" : "/float"));
}

void convolverAny(Case& c) { if (c.flag()) convolver<double>(c); else convolver<float>(c); }

template <typename T> void fft(Case& c)
{
  using C = std::complex<T>;
  std::vector<std::string> names{"default", "kissfft"};
  if (sizeof(T) == 4) names.push_back("ffts");
  std::string name = c.pick(names);
  std::size_t n = c.flag() ? 2 * c.size(1, 90) : (std::size_t)1 << c.range(1, c.chance(10) ? 14 : 10);
  if (name == "ffts") n = (std::size_t)1 << c.range(3, 10);
  auto w = rbbl::FftWrapperFactory<T>::create(name, n, 8);
  void *a = nullptr, *b = nullptr, *d = nullptr;
  if (posix_memalign(&a, 128, n * sizeof(T)) || posix_memalign(&b, 128, (n / 2 + 1) * sizeof(C)) || posix_memalign(&d, 128, n * sizeof(T))) abort();
  std::unique_ptr<void, void (*)(void*)> ga(a, free), gb(b, free), gd(d, free);
  T *x = (T*)a, *y = (T*)d;
  C* X = (C*)b;
  pbt::Rng r(c.seed());
  double sum = 0;
  for (std::size_t i = 0; i < n; ++i) { x[i] = (T)r.uniform(-1, 1); sum += std::abs(x[i]); }
  std::vector<T> x0(x, x + n);
  c.note() << name << " n=" << n << (sizeof(T) == 8 ? " double" : " float");
  c.nontrivial();
  c.label(name);
  PBT_CHECK(w->forwardTransform(x, X) == efl::noError, "forwardTransform reports an error");
  double const fwd = w->forwardScalingFactor(), inv = w->inverseScalingFactor();
  double const tol = Tol<T>::v() * (sum + 1);
  std::vector<std::complex<double>> tw(n);
  for (std::size_t i = 0; i < n; ++i) tw[i] = std::polar(1.0, -2 * M_PI * (double)i / n);
  for (std::size_t k = 0; k <= n / 2; ++k)
  {
    std::complex<double> s = 0;
    for (std::size_t i = 0; i < n; ++i) s += (double)x0[i] * tw[(i * k) % n];
    s *= fwd;
    PBT_CHECK(pbt::close(X[k].real(), s.real(), tol) && pbt::close(X[k].imag(), s.imag(), tol), "bin " << k << " of " << n << ": got " << X[k] << ", DFT gives " << s);
  }
  std::vector<C> X0(X, X + n / 2 + 1);
  PBT_CHECK(w->inverseTransform(X, y) == efl::noError, "inverseTransform reports an error");
  for (std::size_t i = 0; i < n; ++i)
    PBT_CHECK(pbt::close(y[i], fwd * inv * n * x0[i], Tol<T>::v() * 4 * fwd * inv * n), "inverse(forward(x))[" << i << "]=" << y[i] << ", expected " << fwd * inv * n * x0[i]);
}
void fftAny(Case& c) { if (c.flag()) fft<double>(c); else fft<float>(c); }

void circular(Case& c)
{
  std::size_t const ch = c.wide(1, 3, 20), len = c.wide(1, 24, 300), align = c.pick<std::size_t>({0, 1, 4, 8});
  rbbl::CircularBuffer<float> cb(ch, len, align);
  std::vector<std::vector<float>> hist(ch, std::vector<float>(len, 0.0f)); // zero history
  c.note() << "channels=" << ch << " length=" << len << " align=" << align << " writes:";
  float val = 1;
  for (std::size_t s = 0, n = c.wide(1, 12, 100); s < n; ++s)
  {
    std::size_t cnt = c.weighted({6, 1, 1}) == 0 ? c.size(0, len) : (c.flag() ? len : 0);
    c.note() << ' ' << cnt;
    std::vector<std::vector<float>> d(ch, std::vector<float>(cnt));
    for (auto& v : d) for (auto& x : v) x = val++;
    switch (c.size(0, 3))
    {
    case 0: { std::vector<float const*> p; for (auto& v : d) p.push_back(v.data()); cb.write(p.data(), ch, cnt, 0); break; }
    case 1:
    {
      std::size_t st = cnt + c.size(0, 2);
      std::vector<float> flat(st * (ch - 1) + cnt);
      for (std::size_t i = 0; i < ch; ++i) std::copy(d[i].begin(), d[i].end(), flat.begin() + i * st);
      cb.write(flat.data(), st, ch, cnt, 0);
      break;
    }
    case 2:
    {
      efl::BasicMatrix<float> m(ch, cnt, align);
      for (std::size_t i = 0; i < ch; ++i) for (std::size_t k = 0; k < cnt; ++k) m(i, k) = d[i][k];
      cb.write(m);
      break;
    }
    default:
    {
      std::vector<float*> p(ch);
      cb.getWritePointers(p.data());
      PBT_CHECK(p[0] == cb.getFirstWritePointer(), "first write pointer differs");
      for (std::size_t i = 0; i < ch; ++i) std::copy(d[i].begin(), d[i].end(), p[i]);
      cb.commitWrite(cnt);
    }
    }
    for (std::size_t i = 0; i < ch; ++i) hist[i].insert(hist[i].end(), d[i].begin(), d[i].end());
    if (cnt) c.nontrivial();
    // every delay up to the length gives the exact history
    for (std::size_t delay = 0; delay <= len; ++delay)
    {
      std::vector<float const*> rp(ch, nullptr);
      if (delay < len) cb.getReadPointers(delay, rp.data());
      for (std::size_t i = 0; i < ch; ++i)
      {
        float const* p = cb.getReadPointer(i, delay);
        if (delay < len) PBT_CHECK(p == rp[i], "read pointers differ between the access functions");
        for (std::size_t k = 0; k < delay; ++k)
          PBT_CHECK(p[k] == hist[i][hist[i].size() - delay + k], "after write " << s << ": channel " << i << " delay " << delay << " sample " << k << " is " << p[k] << ", expected " << hist[i][hist[i].size() - delay + k]);
      }
    }
    std::vector<std::size_t> dl(ch);
    for (auto& x : dl) x = c.size(0, len - 1);
    std::vector<float const*> rp(ch, nullptr);
    cb.getReadPointers(dl.data(), rp.data());
    for (std::size_t i = 0; i < ch; ++i) PBT_CHECK(rp[i] == cb.getReadPointer(i, dl[i]), "per-channel delays differ");
    if (c.chance(10))
    {
      std::vector<float> big((len + 1) * ch);
      pbt::mustThrow([&] { cb.write(big.data(), len + 1, ch, len + 1, 0); }, "write of more samples than the buffer length");
      pbt::mustThrow([&] { cb.commitWrite(len + 1); }, "commit of more samples than the buffer length");
      pbt::mustThrow([&] { cb.write(big.data(), 1, ch + 1, 1, 0); }, "write with a wrong number of channels");
      pbt::mustThrow([&] { cb.getReadPointers(len + c.size(0, 3), rp.data()); }, "delay beyond the length");
    }
  }
}
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "random dimensions, block size 1..64 (any, not only powers of two), alignment, FFT implementation, sample type, filters and a history of routing/filter edits between blocks; non-trivial: at least one routed non-zero filter contributed to an output (convolver), a transform was computed (fft), samples were written (buffer)";
  s.subs = {{"convolver", convolverAny, 250000, 6000000}, {"fft", fftAny, 20000, 300000}, {"circular-buffer", circular, 100000, 2000000}};
  s.assumptions = {"float tolerance 2e-6, double 1e-13, relative to the summed absolute products", "FFTS only with power-of-two blocks that are multiples of the alignment (documented precondition)"};
  return pbt::run(argc, argv, s);
}
