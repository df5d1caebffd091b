// P18: panning gains.
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "panmodel.hpp"
#include "pbt.hpp"

#include <libpanning/AllRAD.h>
#include <libpanning/LoudspeakerArray.h>
#include <libpanning/VBAP.h>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <librcl/hoa_allrad_gain_calculator.hpp>
#include <librcl/panning_calculator.hpp>

using namespace visr;
using namespace pan;

namespace
{
std::string describe(Array const& m)
{
  std::ostringstream s;
  s << (m.is2D ? "2D" : "3D") << (m.infinite ? " infinite" : "") << " array, " << m.spk.size() << "+" << m.virt.size() << " loudspeakers, " << m.tri.size() << " triplets";
  return s.str();
}
void matches(Normed const& e, std::vector<double> const& got, std::string const& what, double slack = 1)
{
  for (double v : got) PBT_CHECK(std::isfinite(v), what << ": gains " << str(got) << "are not finite");
  if (!e.determined) return;
  for (std::size_t i = 0; i < got.size(); ++i)
    PBT_CHECK(std::abs(got[i] - e.g[i]) <= slack * e.tol, what << ": gain of loudspeaker " << i << " is " << got[i] << " instead of " << e.g[i] << " (tolerance " << slack * e.tol << "; all: " << str(got) << "instead of " << str(e.g) << ")");
}

// ---------------------------------------------------------------------------------------------
void vbap(pbt::Case& c)
{
  Quiet q;
  Wish w; w.subs = w.eq = false;
  Array m = anyArray(c, w);
  if (c.chance(15)) m.infinite = true;
  c.note() << describe(m) << "\n";
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  Panner p(m);
  std::size_t const nr = m.spk.size();
  V3 l = anyListener(c, p);
  bool const viaCtor = c.flag();
  std::unique_ptr<panning::VBAP> v(viaCtor ? new panning::VBAP(a, (float)l[0], (float)l[1], (float)l[2]) : new panning::VBAP(a));
  if (!viaCtor) { if (c.flag()) l = V3{}; p.listener(l); v->setListenerPosition((float)l[0], (float)l[1], (float)l[2]); }
  std::size_t const steps = c.wide(1, 12, 80);
  for (std::size_t s = 0; s < steps; ++s)
  {
    if (s && c.chance(30)) { l = anyListener(c, p); v->setListenerPosition((float)l[0], (float)l[1], (float)l[2]); }
    bool const pw = c.chance(25), normed = c.chance(60);
    V3 const src = anySource(c, p, pw);
    c.note() << (normed ? "power-normalised" : "plain") << " gains of " << (pw ? "plane wave " : "source ") << str(src) << " for listener " << str(l) << "\n";
    c.flushNote();
    std::vector<float> out(nr, 77.f); // exact size: an overrun is detected
    int const r = pbt::outcome([&] { if (normed) v->calculateGains((float)src[0], (float)src[1], (float)src[2], out.data(), pw); else v->calculateGainsUnNormalised((float)src[0], (float)src[1], (float)src[2], out.data(), pw); });
    PBT_CHECK(r == 0, "no gains for source " << str(src) << " seen from " << str(l));
    std::vector<double> const got(out.begin(), out.end());
    Gains const ref = p.gains(src, pw);
    std::string const what = "step " + std::to_string(s);
    if (normed)
    {
      matches(normalise(ref, true), got, what + ", power-normalised gains");
      if (src == l && !pw) for (double x : got) PBT_CHECK(x == 0, "source at the listener position has gain " << x);
    }
    else
    {
      Normed n;
      n.g = ref.g;
      n.tol = ref.tol + 1e-9;
      matches(n, got, what + ", plain gains");
    }
    c.nontrivial();
  }
}

// ---------------------------------------------------------------------------------------------
struct Scene { std::vector<om::Obj> objs; };

void calculator(pbt::Case& c)
{
  using PC = rcl::PanningCalculator;
  Quiet q;
  Wish w; w.subs = w.eq = false;
  Array const m = anyArray(c, w);
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  Panner p(m);
  std::size_t const nr = m.spk.size(), nObj = c.wide(1, 12, 60);
  bool const adaptive = c.chance(60);
  unsigned const mode = 1 + (unsigned)c.draw(7);
  PC::Normalisation const nm[3] = {(PC::Normalisation)c.draw(3), (PC::Normalisation)c.draw(3), (PC::Normalisation)c.draw(3)};
  V3 l = c.flag() ? V3{} : anyListener(c, p);
  p.listener(l);
  c.note() << describe(m) << ", " << nObj << " object channels, outputs " << mode << ", normalisation " << (int)nm[0] << (int)nm[1] << (int)nm[2] << (adaptive ? ", adaptive" : "") << ", listener " << str(l) << "\n";
  SignalFlowContext ctx(64, 48000);
  PC comp(ctx, "panner", nullptr, nObj, a, adaptive, (PC::PanningMode)mode, nm[0], nm[1], nm[2], pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2]));
  vflow::Rig rig(comp);
  char const* port[3] = {"vbapGains", "vbipGains", "diffuseGains"};
  bool energy[3];
  for (int k = 0; k < 3; ++k) energy[k] = nm[k] == PC::Normalisation::Default ? (k == 0 ? !(mode & 2) : true) : nm[k] == PC::Normalisation::Energy;
  std::vector<om::Obj> scene;
  auto const ids = m.ids();
  std::size_t const periods = c.wide(1, 6, 25);
  for (std::size_t t = 0; t < periods; ++t)
  {
    bool const move = adaptive && c.chance(t ? 40 : 20);
    if (move)
    {
      l = anyListener(c, p);
      c.note() << "[" << t << "] listener " << str(l) << "\n";
      rig.param<pml::ListenerPosition>("listenerPosition") = pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2]);
      rig.dbl("listenerPosition").swapBuffers();
    }
    if (t == 0 || c.chance(move ? 30 : 60))
    {
      // object signals are taken from distinct channels
      scene.clear();
      std::vector<unsigned> ch(nObj + (c.chance(15) ? 3 : 0));
      for (std::size_t i = 0; i < ch.size(); ++i) ch[i] = (unsigned)(i < nObj ? i : i + c.draw(40));
      std::sort(ch.begin(), ch.end());
      ch.erase(std::unique(ch.begin(), ch.end()), ch.end());
      for (std::size_t i = ch.size(); i > 1; --i) std::swap(ch[i - 1], ch[(std::size_t)c.draw(i)]);
      std::size_t used = 0;
      unsigned id = 0;
      while (used < ch.size() && c.chance(85))
      {
        int const kind = c.pick<int>({om::Point, om::PointDiffuse, om::Plane, om::Diffuse, om::Channel, om::Extent, om::Reverb, om::Hoa});
        om::Obj o = om::anyObject(c, id++, kind, 3);
        std::size_t n = kind == om::Hoa ? o.channels.size() : kind == om::Channel ? c.wide(1, 4, 9) : 1;
        if (used + n > ch.size()) continue;
        o.channels.assign(ch.begin() + (std::ptrdiff_t)used, ch.begin() + (std::ptrdiff_t)(used + n));
        used += n;
        o.lock = 0;
        if (o.hasPos()) { V3 const s = anySource(c, p, false); o.x = (float)s[0]; o.y = (float)s[1]; o.z = (float)s[2]; }
        o.diffuseness = c.flag() ? (float)c.real(0, 1) : (float)c.draw(2);
        if (kind == om::Plane) { o.az = (float)c.sym(360); o.el = (float)c.sym(90); if (m.is2D) o.el = (float)c.sym(60); o.refdist = c.flag() ? 1 : (float)c.real(0, 10); }
        if (kind == om::Channel)
        {
          o.outputs.clear();
          for (std::size_t i = 0; i < n; ++i)
          {
            std::vector<std::string> out;
            std::size_t const k = c.chance(70) ? 1 : c.size(0, 4);
            for (std::size_t j = 0; j < k; ++j) out.push_back(c.chance(90) ? ids[(std::size_t)c.draw(nr)] : c.flag() ? ids[(std::size_t)c.draw(ids.size())] : "nosuch" + std::to_string(j));
            std::sort(out.begin(), out.end());
            out.erase(std::unique(out.begin(), out.end()), out.end());
            o.outputs.push_back(out);
          }
        }
        scene.push_back(o);
      }
      auto& ov = rig.param<pml::ObjectVector>("objectVectorInput");
      ov.clear();
      for (auto const& o : scene)
      {
        ov.insert(om::toLib(o));
        c.note() << "[" << t << "] object " << o.id << " " << om::kindName(o.kind) << " channels";
        for (unsigned x : o.channels) c.note() << " " << x;
        if (o.hasPos()) c.note() << " at " << str(V3{{o.x, o.y, o.z}});
        if (o.kind == om::Plane) c.note() << " from " << o.az << "," << o.el;
        for (auto const& x : o.outputs) { c.note() << " ->"; for (auto const& y : x) c.note() << " " << y; }
        c.note() << " diffuseness " << o.diffuseness << "\n";
      }
      rig.dbl("objectVectorInput").swapBuffers();
      if (scene.size() >= 2) c.nontrivial();
    }
    c.flushNote();
    rig.process({});
    // expected
    for (int k = 0; k < 3; ++k)
    {
      if (!(mode >> k & 1)) continue;
      auto const& mat = rig.sharedOut<pml::MatrixParameter<float>>(port[k]);
      PBT_CHECK(mat.numberOfRows() == nr && mat.numberOfColumns() == nObj, port[k] << " has size " << mat.numberOfRows() << "x" << mat.numberOfColumns());
      std::vector<bool> set(nObj, false);
      auto column = [&](std::size_t ch) { std::vector<double> r; for (std::size_t i = 0; i < nr; ++i) r.push_back(mat(i, ch)); return r; };
      for (auto const& o : scene)
      {
        if (o.kind == om::Hoa && o.order > 0) continue; // several channels without position
        if (o.kind == om::Hoa) continue;
        for (std::size_t i = 0; i < o.channels.size(); ++i)
        {
          std::size_t const ch = o.channels[i];
          if (ch >= nObj) continue;
          set[ch] = true;
          std::ostringstream what;
          what << "period " << t << ", " << port[k] << " of " << om::kindName(o.kind) << " object " << o.id << " on channel " << ch;
          double const dif = o.kind == om::Channel || o.kind == om::PointDiffuse || o.kind == om::Extent ? o.diffuseness : 0;
          Gains u;
          u.tol = 1e-7;
          double level = k == 2 ? dif : 1 - dif;
          if (o.kind == om::Channel)
          {
            u.g.assign(nr, 0);
            for (auto const& s : o.outputs[i]) { std::size_t const x = m.index(s); if (x < nr) u.g[x] = 1; }
          }
          else if (o.kind == om::Diffuse) { u.g.assign(nr, k == 2 ? 1 : 0); level = 1; }
          else if (k == 2) u.g.assign(nr, dif > 0 ? 1 : 0);
          else
          {
            u = o.kind == om::Plane ? p.gains(direction(o.az * PI / 180, o.el * PI / 180), true) : p.gains({{o.x, o.y, o.z}}, false);
          }
          auto got = column(ch);
          if (k == 1 && o.kind != om::Channel)
          {
            // square roots of the gains
            for (double v : got) PBT_CHECK(std::isfinite(v), what.str() << ": gains " << str(got) << "are not finite");
            if (energy[k])
            {
              Normed n = normalise(u, false, level * level);
              for (auto& v : got) v = v * std::abs(v);
              matches(n, got, what.str() + " (squared)");
            }
            else
            {
              Gains h = u;
              for (auto& v : h.g) v = std::sqrt(v);
              h.tol = 2 * std::sqrt(u.tol);
              if (h.norm(false) > 100 * (double)nr * u.tol) { Normed n = normalise(h, false, level); n.determined = true; matches(n, got, what.str()); }
            }
          }
          else matches(normalise(u, energy[k], level), got, what.str());
        }
      }
      for (std::size_t ch = 0; ch < nObj; ++ch)
        if (!set[ch]) for (double v : column(ch)) PBT_CHECK(v == 0, "period " << t << ", " << port[k] << ": channel " << ch << " without object has gain " << v);
    }
  }
}

// ---------------------------------------------------------------------------------------------
std::vector<std::vector<double>> decoder(Panner const& p, std::vector<V3> const& regular, std::vector<std::vector<float>> const& d, std::vector<double>& tol)
{
  std::vector<std::vector<double>> r(d.size(), std::vector<double>(p.nr, 0));
  tol.assign(d.size(), 1e-6);
  for (std::size_t k = 0; k < regular.size(); ++k)
  {
    Normed const n = normalise(p.gains(regular[k], false), true);
    for (std::size_t h = 0; h < d.size(); ++h)
    {
      for (std::size_t i = 0; i < p.nr; ++i) r[h][i] += d[h][k] * n.g[i];
      tol[h] += std::abs(d[h][k]) * (n.determined ? n.tol + 1e-6 : 1e3);
    }
  }
  return r;
}
void allrad(pbt::Case& c)
{
  Quiet q;
  Wish w; w.subs = w.eq = false;
  Array m = anyArray(c, w), g = anyArray(c, w);
  panning::LoudspeakerArray a, reg;
  a.loadXmlString(text(c, m));
  reg.loadXmlString(text(c, g));
  Panner p(m);
  Panner const pg(g);
  std::size_t const order = c.size(0, 3), nh = (order + 1) * (order + 1), ng = g.spk.size();
  std::vector<V3> const regular(pg.pos.begin(), pg.pos.begin() + (std::ptrdiff_t)ng);
  pbt::Rng r(c.seed());
  std::vector<std::vector<float>> d(nh, std::vector<float>(ng));
  std::size_t const align = c.pick<std::size_t>({8, 1, 4, 16});
  efl::BasicMatrix<float> dm(nh, ng, align);
  for (std::size_t i = 0; i < nh; ++i) for (std::size_t j = 0; j < ng; ++j) dm(i, j) = d[i][j] = (float)r.uniform(-1, 1);
  c.note() << describe(m) << "; regular " << describe(g) << "; order " << order << "\n";
  c.flushNote();
  std::vector<double> tol;
  if (c.chance(30)) // calculation alone
  {
    panning::AllRAD dec(reg, a, dm, (unsigned)order);
    V3 l{};
    p.listener(l);
    std::size_t const steps = c.size(1, 4);
    for (std::size_t s = 0; s < steps; ++s)
    {
      if (s) { l = anyListener(c, p); dec.setListenerPosition((float)l[0], (float)l[1], (float)l[2]); c.note() << "listener " << str(l) << "\n"; }
      auto const e = decoder(p, regular, d, tol);
      auto const& got = dec.decodingGains();
      PBT_CHECK(got.numberOfRows() == nh && got.numberOfColumns() == p.nr, "decoder has size " << got.numberOfRows() << "x" << got.numberOfColumns());
      for (std::size_t h = 0; h < nh; ++h)
        for (std::size_t i = 0; i < p.nr; ++i)
          PBT_CHECK(std::isfinite(got(h, i)) && std::abs(got(h, i) - e[h][i]) <= tol[h], "step " << s << ": decoding gain (" << h << "," << i << ") is " << got(h, i) << " instead of " << e[h][i] << " (tolerance " << tol[h] << ")");
    }
    if (steps > 1) c.nontrivial();
    // inconsistent sizes
    PBT_CHECK(pbt::outcome([&] { panning::AllRAD x(reg, a, dm, (unsigned)order + 1); }) == 1, "decoder matrix of a smaller order accepted");
    efl::BasicMatrix<float> wrong(nh, ng + 1, align);
    PBT_CHECK(pbt::outcome([&] { panning::AllRAD x(reg, a, wrong, (unsigned)order); }) == 1, "decoder matrix for another number of loudspeakers accepted");
    return;
  }
  SignalFlowContext ctx(64, 48000);
  std::size_t const nCh = c.wide(1, 20, 80);
  bool const adaptive = c.flag();
  if (c.chance(10))
  {
    efl::BasicMatrix<float> wrong(c.flag() ? nh : nh + 1, ng + (c.flag() ? 1 : 2), align), wrong2(nh + 1, ng, align);
    PBT_CHECK(pbt::outcome([&] { rcl::HoaAllRadGainCalculator x(ctx, "hoa", nullptr, nCh, reg, a, wrong); }) == 1, "decoder matrix for another number of loudspeakers accepted");
    PBT_CHECK(pbt::outcome([&] { rcl::HoaAllRadGainCalculator x(ctx, "hoa", nullptr, nCh, reg, a, wrong2); }) == 1, "decoder matrix with an invalid number of harmonics accepted");
  }
  V3 l = c.flag() ? V3{} : anyListener(c, p);
  p.listener(l);
  rcl::HoaAllRadGainCalculator comp(ctx, "hoa", nullptr, nCh, reg, a, dm, pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2]), adaptive);
  vflow::Rig rig(comp);
  std::vector<om::Obj> scene;
  std::size_t const periods = c.wide(1, 6, 25);
  for (std::size_t t = 0; t < periods; ++t)
  {
    if (adaptive && c.chance(40))
    {
      l = anyListener(c, p);
      c.note() << "[" << t << "] listener " << str(l) << "\n";
      rig.param<pml::ListenerPosition>("listenerInput") = pml::ListenerPosition((float)l[0], (float)l[1], (float)l[2]);
      rig.dbl("listenerInput").swapBuffers();
    }
    bool fault = false;
    auto& in = rig.shared<pml::MatrixParameter<float>>("gainInput");
    if (t == 0 || c.flag()) for (std::size_t i = 0; i < p.nr; ++i) for (std::size_t j = 0; j < nCh; ++j) in(i, j) = (float)r.uniform(-1, 1);
    if (t == 0 || c.chance(60))
    {
      scene.clear();
      std::vector<unsigned> ch(nCh);
      for (std::size_t i = 0; i < nCh; ++i) ch[i] = (unsigned)i;
      for (std::size_t i = nCh; i > 1; --i) std::swap(ch[i - 1], ch[(std::size_t)c.draw(i)]);
      std::size_t used = 0, tries = c.draw(6);
      for (unsigned id = 0; id < tries; ++id)
      {
        bool const hoa = c.chance(75);
        om::Obj o = om::anyObject(c, id, hoa ? om::Hoa : c.pick<int>({om::Point, om::Plane, om::Diffuse}), 3);
        if (hoa) { o.order = (unsigned)c.size(0, c.chance(10) ? 4 : order); o.channels.resize((o.order + 1) * (o.order + 1)); if (c.chance(3)) o.channels.pop_back(); }
        if (used + o.channels.size() > nCh) continue;
        for (auto& x : o.channels) x = ch[used++];
        if (hoa && !o.channels.empty() && c.chance(3)) o.channels[(std::size_t)c.draw(o.channels.size())] = (unsigned)(nCh + c.draw(5));
        for (unsigned x : o.channels) if (hoa && x >= nCh) fault = true;
        if (hoa && (o.order > order || o.channels.size() != (o.order + 1) * (o.order + 1))) fault = true;
        scene.push_back(o);
      }
      auto& ov = rig.param<pml::ObjectVector>("objectInput");
      ov.clear();
      for (auto const& o : scene)
      {
        c.note() << "[" << t << "] object " << o.id << " " << om::kindName(o.kind) << " order " << o.order << " channels";
        for (unsigned x : o.channels) c.note() << " " << x;
        c.note() << "\n";
        ov.insert(om::toLib(o));
        if (o.kind == om::Hoa) c.nontrivial();
      }
      rig.dbl("objectInput").swapBuffers();
    }
    c.flushNote();
    if (fault)
    {
      c.label("faulty");
      PBT_CHECK(pbt::outcome([&] { rig.process({}); }) == 1, "sound field object with wrong channels or a too high order is not reported");
      return;
    }
    rig.process({});
    auto const e = decoder(p, regular, d, tol);
    auto const& got = rig.sharedOut<pml::MatrixParameter<float>>("gainOutput");
    std::vector<std::vector<double>> exp(p.nr, std::vector<double>(nCh)), tl(p.nr, std::vector<double>(nCh, 0));
    for (std::size_t i = 0; i < p.nr; ++i) for (std::size_t j = 0; j < nCh; ++j) exp[i][j] = in(i, j);
    for (auto const& o : scene)
      if (o.kind == om::Hoa)
        for (std::size_t h = 0; h < o.channels.size(); ++h) for (std::size_t i = 0; i < p.nr; ++i) { exp[i][o.channels[h]] = e[h][i]; tl[i][o.channels[h]] = tol[h]; }
    for (std::size_t i = 0; i < p.nr; ++i)
      for (std::size_t j = 0; j < nCh; ++j)
        PBT_CHECK(std::isfinite(got(i, j)) && std::abs(got(i, j) - exp[i][j]) <= tl[i][j], "period " << t << ": gain (" << i << "," << j << ") is " << got(i, j) << " instead of " << exp[i][j] << " (tolerance " << tl[i][j] << ")");
  }
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "vbap: at least one source evaluated against the model; calculator: a scene with at least two objects; allrad: a listener change or a sound field object";
  s.subs = {{"vbap", vbap, 24000, 2000000}, {"calculator", calculator, 16000, 1500000}, {"allrad", allrad, 12000, 1000000}};
  s.assumptions = {"arrays enclose the listener by a closed triangulation (determinants of triplets at least 0.04)", "objects of a scene use distinct signal channels"};
  return pbt::run(argc, argv, s);
}
