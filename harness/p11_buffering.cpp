// Adaptation of arbitrary call sizes to the period of a flow, and the ring buffer used for it and for the delay lines.
#include "flowplan.hpp"
#include <librrl/flexible_buffer_wrapper.hpp>
#include <librbbl/circular_buffer.hpp>
#include <deque>

using namespace plan;
namespace
{
// Arbitrary call sizes through the buffer wrapper: the same signal one period later.
void flexible(pbt::Case& c)
{
  Flow f = generate(c, 3, 2);
  Built b(f.period);
  b.instantiate(f, c.seed());
  b.connect(c, f);
  visr::rrl::AudioSignalFlow flow(b.top());
  visr::rrl::FlexibleBufferWrapper wrap(flow);
  Reference ref(f);
  std::size_t const ni = f.nodes[0].channels(true), no = f.nodes[0].channels(false);
  describe(c, f);
  pbt::Rng r(c.seed());
  std::vector<std::vector<double>> pendingIn(ni), expected(no, std::vector<double>(f.period, 0.0));
  std::size_t calls = c.wide(1, 12, 100), pos = 0, buffered = 0;
  if (no && calls > 2) c.nontrivial();
  c.note() << "; calls:";
  for (std::size_t k = 0; k < calls; ++k)
  {
    std::size_t const n = c.weighted({3, 1, 1, 3}) == 0 ? c.size(0, f.period) : c.chance(30) ? f.period : c.size(0, 3 * f.period + 2);
    std::size_t const mode = c.draw(3);
    c.note() << " " << n << (mode == 0 ? "p" : mode == 1 ? "m" : "i");
    Sig in = randomInput(r, ni, n), out(no, std::vector<double>(n));
    float const guard = 55.5f;
    if (mode == 0)
    {
      std::vector<std::vector<float>> ib(ni), ob(no, std::vector<float>(n, guard));
      std::vector<float const*> ip;
      std::vector<float*> op;
      for (std::size_t i = 0; i < ni; ++i) { ib[i].assign(in[i].begin(), in[i].end()); ip.push_back(ib[i].data()); }
      for (auto& v : ob) op.push_back(v.data());
      wrap.process(ip.data(), op.data(), n);
      for (std::size_t i = 0; i < no; ++i) std::copy(ob[i].begin(), ob[i].end(), out[i].begin());
    }
    else
    {
      std::size_t const is = 1 + r.below(3), os = 1 + r.below(3);
      std::size_t ics, iss, ocs, oss;
      if (mode == 1) { iss = is; ics = n * is + r.below(3); oss = os; ocs = n * os + r.below(3); }
      else { ics = is; iss = std::max<std::size_t>(1, ni) * is + r.below(2); ocs = os; oss = std::max<std::size_t>(1, no) * os + r.below(2); }
      std::vector<float> ib(ni && n ? (ni - 1) * ics + (n - 1) * iss + 1 : 0, guard), ob(no && n ? (no - 1) * ocs + (n - 1) * oss + 1 : 0, guard);
      for (std::size_t i = 0; i < ni; ++i) for (std::size_t s = 0; s < n; ++s) ib[i * ics + s * iss] = (float)in[i][s];
      wrap.process(ib.data(), ics, iss, ob.data(), ocs, oss, n);
      std::vector<bool> used(ob.size(), false);
      for (std::size_t i = 0; i < no; ++i) for (std::size_t s = 0; s < n; ++s) { out[i][s] = ob[i * ocs + s * oss]; used[i * ocs + s * oss] = true; }
      for (std::size_t i = 0; i < ob.size(); ++i) PBT_CHECK(used[i] || ob[i] == guard, "call " << k << ": element outside the output matrix overwritten");
    }
    for (std::size_t i = 0; i < ni; ++i) pendingIn[i].insert(pendingIn[i].end(), in[i].begin(), in[i].end());
    buffered += n;
    while (buffered >= f.period)
    {
      Sig blk(ni);
      for (std::size_t i = 0; i < ni; ++i)
      {
        blk[i].assign(pendingIn[i].begin(), pendingIn[i].begin() + f.period);
        pendingIn[i].erase(pendingIn[i].begin(), pendingIn[i].begin() + f.period);
      }
      Sig e = ref.step(blk);
      for (std::size_t i = 0; i < no; ++i) expected[i].insert(expected[i].end(), e[i].begin(), e[i].end());
      buffered -= f.period;
    }
    for (std::size_t i = 0; i < no; ++i)
      for (std::size_t s = 0; s < n; ++s)
        PBT_CHECK((float)out[i][s] == (float)expected[i][pos + s], "call " << k << " output " << i << " frame " << pos + s << ": got " << out[i][s] << " expected " << expected[i][pos + s]);
    pos += n;
  }
}


// Ring buffer against a sequence of all samples written so far.
template <typename T>
void ringT(pbt::Case& c)
{
  std::size_t const ch = c.wide(1, 4, 20), len = c.wide(1, 40, 600), al = std::size_t(1) << c.draw(5);
  visr::rbbl::CircularBuffer<T> buf(ch, len, al);
  c.note() << (sizeof(T) == 4 ? "float" : "double") << " channels " << ch << " length " << len << " alignment " << al << ":";
  PBT_CHECK(buf.length() == len && buf.numberOfChannels() == ch, "dimensions");
  std::vector<std::vector<T>> hist(ch, std::vector<T>(len, T(0)));
  T next = 1;
  std::size_t const ops = c.wide(1, 15, 120);
  if (ops > 3 && len > 1) c.nontrivial();
  for (std::size_t o = 0; o < ops; ++o)
  {
    std::size_t const n = c.chance(20) ? len : c.size(0, len), mode = c.draw(6);
    c.note() << " " << n << "/" << mode;
    std::vector<std::vector<T>> d(ch, std::vector<T>(n));
    for (auto& v : d) for (auto& x : v) x = next++;
    if (mode == 5) // rejected requests leave the contents unchanged
    {
      std::size_t const big = len + 1 + n;
      std::vector<T> z(big * (ch + 1), T(0));
      std::vector<T const*> zp(ch + 1, z.data());
      pbt::mustThrow([&] { buf.write(zp.data(), ch, big); }, "write longer than the buffer");
      pbt::mustThrow([&] { buf.write(zp.data(), ch + 1, n); }, "wrong number of channels");
      pbt::mustThrow([&] { buf.write(z.data(), big, ch, big); }, "write longer than the buffer");
      pbt::mustThrow([&] { buf.commitWrite(big); }, "commit longer than the buffer");
      std::vector<T const*> rp(ch);
      pbt::mustThrow([&] { buf.getReadPointers(big, rp.data()); }, "delay beyond the length");
      if (ch > 0)
      {
        std::vector<std::size_t> bad(ch, 0);
        bad[c.size(0, ch - 1)] = len + c.size(0, 2);
        pbt::mustThrow([&] { buf.getReadPointers(bad.data(), rp.data()); }, "individual delay beyond the length");
      }
    }
    else
    {
      if (mode == 0)
      {
        std::vector<T const*> p;
        for (auto& v : d) p.push_back(v.data());
        buf.write(p.data(), ch, n);
      }
      else if (mode == 1)
      {
        std::size_t const stride = n + c.size(0, 3);
        std::vector<T> m(ch * stride + 1, T(-1));
        for (std::size_t k = 0; k < ch; ++k) std::copy(d[k].begin(), d[k].end(), m.begin() + k * stride);
        buf.write(m.data(), stride, ch, n);
      }
      else if (mode == 2)
      {
        visr::efl::BasicMatrix<T> m(ch, n, std::size_t(1) << c.draw(4));
        for (std::size_t k = 0; k < ch; ++k) for (std::size_t i = 0; i < n; ++i) m(k, i) = d[k][i];
        buf.write(m);
      }
      else if (mode == 3)
      {
        std::vector<T*> w(ch);
        buf.getWritePointers(w.data());
        for (std::size_t k = 0; k < ch; ++k) std::copy(d[k].begin(), d[k].end(), w[k]);
        buf.commitWrite(n);
      }
      else
      {
        T* w = buf.getFirstWritePointer();
        for (std::size_t k = 0; k < ch; ++k) std::copy(d[k].begin(), d[k].end(), w + k * buf.stride());
        buf.commitWrite(n);
      }
      for (std::size_t k = 0; k < ch; ++k) hist[k].insert(hist[k].end(), d[k].begin(), d[k].end());
    }
    // every delay smaller than the length, together with all more recent samples
    std::vector<T const*> rp(ch);
    for (std::size_t dl = 0; dl < len; ++dl)
    {
      buf.getReadPointers(dl, rp.data());
      for (std::size_t k = 0; k < ch; ++k)
        for (std::size_t i = 0; i < dl; ++i)
          PBT_CHECK(rp[k][i] == hist[k][hist[k].size() - dl + i], "operation " << o << ": channel " << k << " delay " << dl << " sample " << i << ": " << rp[k][i] << " expected " << hist[k][hist[k].size() - dl + i]);
    }
    std::vector<std::size_t> dl(ch);
    for (auto& x : dl) x = c.size(0, len - 1);
    buf.getReadPointers(dl.data(), rp.data());
    for (std::size_t k = 0; k < ch; ++k)
      for (std::size_t i = 0; i < dl[k]; ++i) PBT_CHECK(rp[k][i] == hist[k][hist[k].size() - dl[k] + i], "operation " << o << ": individual delay " << dl[k] << " of channel " << k);
  }
}
void ring(pbt::Case& c) { c.flag() ? ringT<double>(c) : ringT<float>(c); }
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "wrapper around a flow with outputs and more than two calls; ring buffer longer than one sample and more than three operations";
  s.subs = {{"flexible-buffer", flexible, 40000, 400000}, {"ring-buffer", ring, 20000, 200000}};
  return pbt::run(argc, argv, s);
}
