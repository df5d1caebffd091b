// P07: time-frequency analysis and synthesis against the DFT definition and
// plain overlap-add.
#include "flow.hpp"

#include <libpml/time_frequency_parameter.hpp>
#include <librcl/time_frequency_inverse_transform.hpp>
#include <librcl/time_frequency_transform.hpp>
#include <libvisr/composite_component.hpp>

#include <complex>

using namespace visr;
using pbt::Case;
using TF = pml::TimeFrequencyParameter<float>;

namespace
{
struct Cfg { std::size_t dft, win, hop, frames, period, ch; std::string fft; int norm; };
Cfg gen(Case& c)
{
  Cfg g;
  g.fft = c.pick<char const*>({"default", "kissfft", "ffts"});
  if (g.fft == "kissfft" && c.flag()) g.dft = 2 * c.size(1, 40);
  else g.dft = (std::size_t)1 << c.range(g.fft == "ffts" ? 3 : 2, 7);
  if (g.fft == "default") g.dft = std::max<std::size_t>(g.dft, 8);
  g.win = c.chance(60) ? g.dft : c.size(1, g.dft);
  switch (c.weighted({2, 2, 1}))
  {
  case 0: g.hop = g.win % 2 == 0 ? g.win / 2 : g.win; break;
  case 1: g.hop = c.size(1, g.win); break;
  default: g.hop = g.win % 4 == 0 ? g.win / 4 : 1;
  }
  g.frames = c.wide(1, 4, 16);
  g.period = g.hop * g.frames;
  g.ch = c.wide(1, 3, 10);
  g.norm = (int)c.draw(3);
  c.note() << "fft " << g.fft << " dft " << g.dft << " window " << g.win << " hop " << g.hop << " frames/period " << g.frames << " channels " << g.ch << " norm " << g.norm << " ";
  return g;
}
double scaleOf(int norm, std::size_t n) { return norm == 0 ? 1.0 : norm == 1 ? 1.0 / std::sqrt((double)n) : 1.0 / (double)n; }

void forward(Case& c)
{
  Cfg g = gen(c);
  SignalFlowContext ctx(g.period, 48000);
  auto norm = static_cast<rcl::TimeFrequencyTransform::Normalisation>(g.norm);
  std::vector<double> w(g.win);
  std::unique_ptr<rcl::TimeFrequencyTransform> t;
  if (c.flag())
  {
    for (std::size_t i = 0; i < g.win; ++i) w[i] = 0.5 - 0.5 * std::cos(2 * M_PI * (double)i / (double)g.win);
    t.reset(new rcl::TimeFrequencyTransform(ctx, "tf", nullptr, g.ch, g.dft, g.win, g.hop, g.fft.c_str(), norm));
    c.note() << "Hann";
  }
  else
  {
    efl::BasicVector<float> v(g.win, c.pick<std::size_t>({0, 4}));
    pbt::Rng r(c.seed());
    for (std::size_t i = 0; i < g.win; ++i) w[i] = v[i] = (float)r.uniform(-1, 1);
    t.reset(new rcl::TimeFrequencyTransform(ctx, "tf", nullptr, g.ch, g.dft, v, g.hop, g.fft.c_str(), norm));
    c.note() << "custom";
  }
  if (c.chance(5)) pbt::mustThrow([&] { SignalFlowContext bad(g.period * 2 + 1, 48000); rcl::TimeFrequencyTransform b(bad, "bad", nullptr, 1, g.dft, g.win, g.hop + 1 == 1 ? 2 : (g.period * 2 + 1) == g.hop ? g.hop + 1 : (g.period * 2 + 1) % g.hop ? g.hop : g.period * 2, g.fft.c_str(), norm); }, "period that is no multiple of the hop size");
  vflow::Rig rig(*t);
  std::vector<std::vector<double>> hist(g.ch);
  for (std::size_t blk = 0, nb = c.wide(1, 5, 20); blk < nb; ++blk)
  {
    auto in = vflow::noise(c, g.ch, g.period);
    for (std::size_t i = 0; i < g.ch; ++i) hist[i].insert(hist[i].end(), in[i].begin(), in[i].end());
    rig.process(in);
    TF const& out = rig.sharedOut<TF>("out");
    PBT_CHECK(out.numberOfDftBins() == g.dft / 2 + 1 && out.numberOfChannels() == g.ch && out.numberOfFrames() == g.frames, "dimension of the output");
    for (std::size_t f = 0; f < g.frames; ++f) for (std::size_t ch = 0; ch < g.ch; ++ch)
    {
      std::ptrdiff_t start = (std::ptrdiff_t)(blk * g.period + (f + 1) * g.hop) - (std::ptrdiff_t)g.win;
      std::vector<double> x(g.win);
      for (std::size_t i = 0; i < g.win; ++i) x[i] = start + (std::ptrdiff_t)i < 0 ? 0.0 : w[i] * hist[ch][start + i];
      for (std::size_t b = 0; b <= g.dft / 2; ++b)
      {
        std::complex<double> s(0, 0);
        for (std::size_t i = 0; i < g.win; ++i) s += x[i] * std::polar(1.0, -2 * M_PI * (double)((i * b) % g.dft) / (double)g.dft);
        s *= scaleOf(g.norm, g.dft);
        std::complex<float> v = out.at(f, ch, b);
        double tol = 2e-5 * (1 + (double)g.win) * scaleOf(g.norm, g.dft);
        PBT_CHECK(std::abs(s - std::complex<double>(v)) <= tol, "period " << blk << " frame " << f << " channel " << ch << " bin " << b << ": " << v << " expected " << s);
      }
    }
  }
  c.nontrivial();
  c.label(g.frames > 1 ? "several frames per period" : "one frame per period");
}

void inverse(Case& c)
{
  Cfg g = gen(c);
  SignalFlowContext ctx(g.period, 48000);
  auto norm = static_cast<rcl::TimeFrequencyInverseTransform::Normalisation>(g.norm);
  rcl::TimeFrequencyInverseTransform t(ctx, "tf", nullptr, g.ch, g.dft, g.hop, g.fft.c_str(), norm);
  vflow::Rig rig(t);
  std::vector<std::vector<double>> acc(g.ch, std::vector<double>(g.dft + 22 * g.period, 0.0));
  for (std::size_t blk = 0, nb = c.wide(1, 5, 20); blk < nb; ++blk)
  {
    TF& in = rig.shared<TF>("in");
    pbt::Rng r(c.seed());
    for (std::size_t f = 0; f < g.frames; ++f) for (std::size_t ch = 0; ch < g.ch; ++ch)
    {
      std::vector<std::complex<double>> X(g.dft / 2 + 1);
      for (std::size_t b = 0; b < X.size(); ++b)
      {
        X[b] = {(float)r.uniform(-1, 1), b == 0 || 2 * b == g.dft ? 0.0f : (float)r.uniform(-1, 1)};
        in.at(f, ch, b) = std::complex<float>((float)X[b].real(), (float)X[b].imag());
      }
      for (std::size_t i = 0; i < g.dft; ++i)
      {
        double s = 0;
        for (std::size_t b = 0; b < X.size(); ++b)
          s += (b == 0 || 2 * b == g.dft ? 1.0 : 2.0) * (X[b] * std::polar(1.0, 2 * M_PI * (double)((i * b) % g.dft) / (double)g.dft)).real();
        acc[ch][blk * g.period + f * g.hop + i] += s * scaleOf(g.norm, g.dft);
      }
    }
    auto out = rig.process({});
    for (std::size_t ch = 0; ch < g.ch; ++ch) for (std::size_t k = 0; k < g.period; ++k)
    {
      double want = acc[ch][blk * g.period + k];
      double tol = 2e-5 * (1 + (double)g.dft) * scaleOf(g.norm, g.dft) * (1 + (double)g.dft / (double)g.hop);
      PBT_CHECK(pbt::close(out[ch][k], want, tol), "period " << blk << " channel " << ch << " sample " << k << ": " << out[ch][k] << " expected " << want);
    }
  }
  c.nontrivial();
  c.label(g.frames > 1 ? "several frames per period" : "one frame per period");
}

// analysis followed by synthesis with the default window: perfect reconstruction
struct Chain : CompositeComponent
{
  rcl::TimeFrequencyTransform a;
  rcl::TimeFrequencyInverseTransform s;
  AudioInput in;
  AudioOutput out;
  Chain(SignalFlowContext const& ctx, Cfg const& g)
    : CompositeComponent(ctx, "chain"), a(ctx, "a", this, g.ch, g.dft, g.dft, g.hop, g.fft.c_str(), static_cast<rcl::TimeFrequencyTransform::Normalisation>(g.norm)),
      s(ctx, "s", this, g.ch, g.dft, g.hop, g.fft.c_str(), static_cast<rcl::TimeFrequencyInverseTransform::Normalisation>(2 - g.norm)), in("in", *this, g.ch), out("out", *this, g.ch)
  {
    audioConnection(in, a.audioPort("in"));
    parameterConnection(a.parameterPort("out"), s.parameterPort("in"));
    audioConnection(s.audioPort("out"), out);
  }
};
void chain(Case& c)
{
  Cfg g = gen(c);
  g.dft = std::max<std::size_t>((std::size_t)1 << c.range(3, 7), 8);
  std::size_t over = (std::size_t)1 << c.range(1, 3); // 2, 4 or 8 frames overlap: Hann windows sum to over/2
  g.hop = g.dft / over;
  g.period = g.hop * g.frames;
  c.note() << "chain dft " << g.dft << " hop " << g.hop;
  SignalFlowContext ctx(g.period, 48000);
  Chain ch(ctx, g);
  vflow::Rig rig(ch);
  std::size_t const latency = g.dft - g.hop;
  std::vector<std::vector<double>> x(g.ch), y(g.ch);
  std::size_t nb = latency / g.period + 2 + c.size(0, 4);
  for (std::size_t blk = 0; blk < nb; ++blk)
  {
    auto in = vflow::noise(c, g.ch, g.period);
    auto out = rig.process(in);
    for (std::size_t i = 0; i < g.ch; ++i)
    {
      x[i].insert(x[i].end(), in[i].begin(), in[i].end());
      y[i].insert(y[i].end(), out[i].begin(), out[i].end());
    }
  }
  for (std::size_t i = 0; i < g.ch; ++i) for (std::size_t t = 0; t < y[i].size(); ++t)
  {
    double want = t < latency ? 0.0 : x[i][t - latency] * (double)over / 2.0;
    PBT_CHECK(pbt::close(y[i][t], want, 1e-4 * over), "channel " << i << " sample " << t << ": " << y[i][t] << " expected " << want);
  }
  c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "every case compares at least one transformed period of noise";
  s.subs = {{"analysis", forward, 4000, 100000}, {"synthesis", inverse, 6000, 150000}, {"reconstruction", chain, 10000, 300000}};
  s.assumptions = {"hop <= window <= DFT size; a shorter window is zero-padded at its end"};
  return pbt::run(argc, argv, s);
}
