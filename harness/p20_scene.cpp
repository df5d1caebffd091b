// P20: parameters derived from a scene: levels, equalisers, diffuseness, loudspeaker routings, renderer slots.
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "pbt.hpp"

#include <libpanning/LoudspeakerArray.h>
#include <libpml/biquad_parameter.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/object_channel_allocator.hpp>
#include <librcl/channel_object_routing_calculator.hpp>
#include <librcl/diffusion_gain_calculator.hpp>
#include <librcl/object_gain_eq_calculator.hpp>

#include <iomanip>
#include <map>
#include <set>

using namespace visr;
using namespace arr;

namespace
{
double const fs = 48000;

// ---------------------------------------------------------------------------------------------
// Histories of scenes. 'next' modifies the scene; objects are kept, changed, removed or added.
struct History
{
  std::size_t nCh;                        // signal channels of the component
  bool shareChannels;                     // objects may use the same signal channel
  std::vector<std::string> labels;
  std::size_t maxSections = 3;
  om::Scene scene;
  bool outside = false;                   // some channel index is not a signal channel

  unsigned channel(pbt::Case& c, std::set<unsigned>& used)
  {
    for (int tries = 0; tries < 20; ++tries)
    {
      unsigned ch = c.chance(8) ? (unsigned)nCh + (unsigned)c.pick<unsigned>({0, 0, 1, 2, 60}) : (unsigned)c.draw(nCh ? nCh : 1);
      if (shareChannels || used.insert(ch).second) return ch;
    }
    unsigned ch = (unsigned)nCh + 100;
    while (!used.insert(ch).second) ++ch;
    return ch;
  }
  void next(pbt::Case& c)
  {
    std::size_t const steps = c.chance(10) ? 0 : c.wide(1, 6, 30);
    for (std::size_t s = 0; s < steps; ++s)
    {
      std::set<unsigned> used;
      std::size_t const op = scene.empty() ? 2 : c.weighted({3, 2, 4});
      auto it = scene.begin();
      if (op < 2) std::advance(it, (long)c.draw(scene.size()));
      if (op == 1) { scene.erase(it); continue; }
      unsigned const id = op == 0 ? it->first : (unsigned)c.draw(nCh > 10 ? 40 : 12);
      for (auto const& o : scene) if (o.first != id) used.insert(o.second.channels.begin(), o.second.channels.end());
      int const kind = (int)c.draw(om::NumKinds);
      om::Obj o = om::anyObject(c, id, kind, 3);
      std::size_t const n = o.channels.size();
      for (auto& ch : o.channels) ch = channel(c, used);
      if (o.eq.size() > maxSections) o.eq.resize(maxSections);
      if (kind == om::Channel && !labels.empty())
      {
        o.outputs.clear();
        for (std::size_t i = 0; i < n; ++i)
        {
          std::vector<std::string> l;
          std::size_t const k = c.chance(75) ? 1 : c.size(0, 3);
          for (std::size_t j = 0; j < k; ++j) l.push_back(c.chance(90) ? c.pick(labels) : "nosuch" + std::to_string(j));
          o.outputs.push_back(l);
        }
      }
      scene[id] = o;
    }
    outside = false;
    for (auto const& o : scene) for (unsigned ch : o.second.channels) if (ch >= nCh) outside = true;
  }
  void store(pml::ObjectVector& ov) const
  {
    ov.clear();
    for (auto const& o : scene) ov.insert(om::toLib(o.second));
  }
  std::string str() const
  {
    std::ostringstream s;
    for (auto const& e : scene)
    {
      om::Obj const& o = e.second;
      s << "  object " << o.id << " " << om::kindName(o.kind) << " level " << o.level << " channels";
      for (unsigned x : o.channels) s << " " << x;
      for (auto const& x : o.outputs) { s << " ->"; for (auto const& y : x) s << " " << y; }
      if (o.kind == om::PointDiffuse) s << " diffuseness " << o.diffuseness;
      for (auto const& x : o.eq) s << " eq(" << x.type << " " << x.f << " " << x.q << " " << x.gain << ")";
      s << "\n";
    }
    return s.str();
  }
};

// ---------------------------------------------------------------------------------------------
// analogue prototype mapped by the bilinear transform (type order of the library's enumeration)
void design(om::Eq const& e, double out[5])
{
  double const A = std::pow(10.0, e.gain / 40), r = std::sqrt(A), iq = 1.0 / e.q, K = std::tan(3.14159265358979323846 * e.f / fs);
  double n[3], d[3] = {1, iq, 1};
  auto set = [&n](double a, double b, double c_) { n[0] = a; n[1] = b; n[2] = c_; };
  std::string const t = om::eqName(e.type);
  if (t == "lowpass") set(0, 0, 1);
  else if (t == "highpass") set(1, 0, 0);
  else if (t == "bandpass") set(0, iq, 0);
  else if (t == "bandstop") set(1, 0, 1);
  else if (t == "allpass") set(1, -iq, 1);
  else if (t == "peak") { set(1, A * iq, 1); d[1] = iq / A; }
  else if (t == "lowshelf") { set(A, A * r * iq, A * A); d[0] = A; d[1] = r * iq; d[2] = 1; }
  else if (t == "highshelf") { set(A * A, A * r * iq, A); d[0] = 1; d[1] = r * iq; d[2] = A; }
  else pbt::fail("harness: unknown equaliser type " + t);
  auto poly = [K](double const* p, double* z) { z[0] = p[0] + p[1] * K + p[2] * K * K; z[1] = -2 * p[0] + 2 * p[2] * K * K; z[2] = p[0] - p[1] * K + p[2] * K * K; };
  double b[3], a[3];
  poly(n, b); poly(d, a);
  for (int i = 0; i < 3; ++i) out[i] = b[i] / a[0];
  out[3] = a[1] / a[0]; out[4] = a[2] / a[0];
}

void gainEq(pbt::Case& c)
{
  Quiet q;
  History h;
  h.nCh = c.wide(1, 10, 80);
  h.shareChannels = false;
  std::size_t const sections = c.size(0, 5);
  h.maxSections = sections;
  c.note() << h.nCh << " channels, " << sections << " sections\n";
  SignalFlowContext ctx(64, (SamplingFrequencyType)fs);
  rcl::ObjectGainEqCalculator comp(ctx, "calc", nullptr, h.nCh, sections);
  vflow::Rig rig(comp);
  auto& ig = rig.dblOut("gainOut");
  auto& ie = rig.dblOut("eqOut");
  bool seen = false;
  std::size_t const periods = c.wide(1, 6, 30);
  for (std::size_t t = 0; t < periods; ++t)
  {
    bool const change = t == 0 || c.chance(75);
    if (change)
    {
      h.next(c);
      h.store(rig.param<pml::ObjectVector>("objectIn"));
      rig.dbl("objectIn").swapBuffers();
      c.note() << "period " << t << "\n" << h.str();
      if (h.scene.size() >= 2) c.nontrivial();
      c.flushNote();
      seen = true;
    }
    ig.resetChanged();
    ie.resetChanged();
    std::string msg;
    PBT_CHECK(pbt::outcome([&] { rig.process({}); }, &msg) == 0, "period " << t << ": processing a scene failed: " << msg);
    if (!seen) continue;
    if (change) PBT_CHECK(ig.changed() && ie.changed(), "period " << t << ": changed scene is not signalled");
    auto const& g = static_cast<pml::VectorParameter<float> const&>(ig.data());
    auto const& e = static_cast<pml::BiquadParameterMatrix<float> const&>(ie.data());
    PBT_CHECK(g.size() == h.nCh && e.numberOfFilters() == h.nCh && e.numberOfSections() == sections, "size of the outputs");
    std::vector<om::Obj const*> owner(h.nCh, nullptr);
    for (auto const& o : h.scene) for (unsigned ch : o.second.channels) if (ch < h.nCh) owner[ch] = &o.second;
    for (std::size_t ch = 0; ch < h.nCh; ++ch)
    {
      PBT_CHECK(g[ch] == (owner[ch] ? owner[ch]->level : 0.f), "period " << t << ": gain of channel " << ch << " is " << g[ch] << " instead of " << (owner[ch] ? owner[ch]->level : 0.f));
      for (std::size_t s = 0; s < sections; ++s)
      {
        float const got[5] = {e(ch, s).b0(), e(ch, s).b1(), e(ch, s).b2(), e(ch, s).a1(), e(ch, s).a2()};
        for (float v : got) PBT_CHECK(std::isfinite(v), "period " << t << ": filter coefficient of channel " << ch << " is " << v);
        if (!owner[ch]) continue;
        double ref[5] = {1, 0, 0, 0, 0}, tol = 0;
        if (s < owner[ch]->eq.size())
        {
          design(owner[ch]->eq[s], ref);
          for (double v : ref) tol = std::max(tol, std::abs(v));
          tol = 1e-5 * (tol + 1) * (1 + 0.05 / owner[ch]->eq[s].q);
        }
        for (int i = 0; i < 5; ++i) PBT_CHECK(std::abs(got[i] - ref[i]) <= tol, "period " << t << ": coefficient " << i << " of section " << s << " of channel " << ch << " is " << got[i] << " instead of " << ref[i]);
      }
    }
  }
}

// ---------------------------------------------------------------------------------------------
void diffusion(pbt::Case& c)
{
  Quiet q;
  History h;
  h.nCh = c.wide(1, 10, 80);
  h.shareChannels = false;
  c.note() << h.nCh << " channels\n";
  SignalFlowContext ctx(64, (SamplingFrequencyType)fs);
  rcl::DiffusionGainCalculator comp(ctx, "calc", nullptr, h.nCh);
  vflow::Rig rig(comp);
  std::size_t const periods = c.wide(1, 6, 30);
  for (std::size_t t = 0; t < periods; ++t)
  {
    if (t == 0 || c.chance(75))
    {
      h.next(c);
      h.store(rig.param<pml::ObjectVector>("objectInput"));
      rig.dbl("objectInput").swapBuffers();
      c.note() << "period " << t << "\n" << h.str();
      if (h.scene.size() >= 2) c.nontrivial();
      c.flushNote();
    }
    rig.process({});
    auto const& g = rig.sharedOut<pml::MatrixParameter<float>>("gainOutput");
    PBT_CHECK(g.numberOfRows() == 1 && g.numberOfColumns() == h.nCh, "size of the output");
    std::vector<float> e(h.nCh, 0.f);
    for (auto const& o : h.scene)
      if (o.second.channels.size() == 1 && o.second.channels[0] < h.nCh)
        e[o.second.channels[0]] = o.second.kind == om::Diffuse ? 1.f : o.second.kind == om::PointDiffuse ? o.second.diffuseness : 0.f;
    std::vector<bool> open(h.nCh, false); // the component does not state whether the diffuseness of an extended source counts
    for (auto const& o : h.scene) if (o.second.kind == om::Extent) for (unsigned ch : o.second.channels) if (ch < h.nCh) open[ch] = true;
    for (std::size_t ch = 0; ch < h.nCh; ++ch)
      PBT_CHECK(open[ch] || g(0, ch) == e[ch], "period " << t << ": diffuseness of channel " << ch << " is " << g(0, ch) << " instead of " << e[ch]);
  }
}

// ---------------------------------------------------------------------------------------------
void routing(pbt::Case& c)
{
  Quiet q;
  Wish w; w.subs = w.eq = false;
  Array const m = anyArray(c, w);
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  History h;
  h.nCh = c.wide(1, 10, 80);
  h.shareChannels = true;
  h.labels = m.ids();
  c.note() << h.nCh << " channels, " << m.spk.size() << " loudspeakers\n";
  SignalFlowContext ctx(64, (SamplingFrequencyType)fs);
  rcl::ChannelObjectRoutingCalculator comp(ctx, "calc", nullptr, h.nCh, a);
  vflow::Rig rig(comp);
  auto& out = rig.dblOut("routingOut");
  std::size_t const periods = c.wide(1, 6, 30);
  for (std::size_t t = 0; t < periods; ++t)
  {
    bool const change = t == 0 || c.chance(75);
    if (change)
    {
      h.next(c);
      h.store(rig.param<pml::ObjectVector>("objectIn"));
      rig.dbl("objectIn").swapBuffers();
      c.note() << "period " << t << "\n" << h.str();
      c.flushNote();
    }
    out.resetChanged();
    rig.process({});
    if (change) PBT_CHECK(out.changed(), "period " << t << ": changed scene is not signalled");
    auto const& r = static_cast<pml::SignalRoutingParameter const&>(out.data());
    std::map<std::size_t, std::set<std::size_t>> e; // loudspeaker -> possible signals
    for (auto const& o : h.scene)
      if (o.second.kind == om::Channel)
        for (std::size_t i = 0; i < o.second.channels.size(); ++i)
        {
          if (o.second.channels[i] >= h.nCh || o.second.outputs[i].size() != 1) continue;
          std::size_t const l = m.index(o.second.outputs[i][0]);
          if (l < m.spk.size()) e[l].insert(o.second.channels[i]);
        }
    if (e.size() >= 2) c.nontrivial();
    std::size_t n = 0;
    for (auto const& x : r)
    {
      ++n;
      PBT_CHECK(e.count(x.output) && e[x.output].count(x.input), "period " << t << ": unexpected routing of signal " << x.input << " to loudspeaker " << x.output);
    }
    PBT_CHECK(n == e.size(), "period " << t << ": " << n << " routings instead of " << e.size());
  }
}

// ---------------------------------------------------------------------------------------------
void allocator(pbt::Case& c)
{
  std::size_t const n = c.wide(0, 8, 80);
  rbbl::ObjectChannelAllocator al(n);
  PBT_CHECK(al.maxChannels() == n && al.numberUsedChannels() == 0, "initial state");
  std::map<unsigned, std::size_t> slot; // object -> channel
  std::size_t const steps = c.wide(1, 12, 60), pool = c.wide(1, 14, 120);
  c.note() << n << " slots\n";
  for (std::size_t t = 0; t < steps; ++t)
  {
    std::vector<objectmodel::ObjectId> ids;
    unsigned const keep = (unsigned)c.range(0, 100);
    for (unsigned i = 0; i < pool; ++i)
    {
      unsigned const id = i == 13 ? 0xfffffffeu : i * i;
      if (c.chance(slot.count(id) ? keep : 35)) ids.push_back(id);
    }
    for (std::size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[(std::size_t)c.draw(i)]);
    c.note() << "set";
    for (auto i : ids) c.note() << " " << i;
    c.note() << "\n";
    std::string msg;
    int const r = pbt::outcome([&] { al.setObjects(ids); }, &msg);
    if (ids.size() > n) PBT_CHECK(r == 1, "more objects than slots: " << (r ? msg : "accepted"));
    else
    {
      PBT_CHECK(r == 0, "setObjects failed: " << msg);
      std::map<unsigned, std::size_t> now;
      for (std::size_t ch = 0; ch < n; ++ch)
      {
        auto const id = al.getObjectForChannel(ch);
        if (id == objectmodel::Object::cInvalidObjectId) continue;
        PBT_CHECK(std::find(ids.begin(), ids.end(), id) != ids.end(), "slot " << ch << " belongs to object " << id << ", which is not in the scene");
        PBT_CHECK(now.emplace(id, ch).second, "object " << id << " occupies two slots");
        auto it = slot.find(id);
        if (it != slot.end())
        {
          c.nontrivial();
          PBT_CHECK(it->second == ch, "object " << id << " moved from slot " << it->second << " to slot " << ch);
        }
      }
      PBT_CHECK(now.size() == ids.size(), "not every object has a slot");
      slot = now;
    }
    pbt::mustThrow([&] { al.getObjectForChannel(n + (std::size_t)c.size(0, 3)); }, "object of a slot that does not exist");
    PBT_CHECK(al.numberUsedChannels() == slot.size() && al.maxChannels() == n, "number of used slots");
    for (auto const& s : slot) PBT_CHECK(al.getObjectForChannel(s.second) == s.first, "slot " << s.second << " of object " << s.first << " changed");
  }
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "gains, diffusion: a scene with at least two objects; routing: at least two loudspeakers fed; allocator: an object kept over a change of the scene";
  s.subs = {{"gains", gainEq, 16000, 1000000}, {"diffusion", diffusion, 10000, 500000}, {"routing", routing, 12000, 800000}, {"allocator", allocator, 40000, 3000000}};
  s.assumptions = {"objects of a scene use distinct signal channels (levels, equalisers, diffuseness)", "equaliser lists are not longer than the number of sections"};
  return pbt::run(argc, argv, s);
}
