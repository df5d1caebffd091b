// Audio routing of hierarchical signal flows against a flat reference evaluation.
#include "flowplan.hpp"

using namespace plan;
namespace
{
void routing(pbt::Case& c)
{
  Flow f = generate(c, 7, 4);
  describe(c, f);
  Built b(f.period);
  b.instantiate(f, c.seed());
  b.connect(c, f);
  visr::rrl::AudioSignalFlow flow(b.top());
  Reference ref(f);
  std::size_t const ni = f.nodes[0].channels(true), no = f.nodes[0].channels(false);
  PBT_CHECK(flow.numberOfCaptureChannels() == ni && flow.numberOfPlaybackChannels() == no, "channel counts " << flow.numberOfCaptureChannels() << "," << flow.numberOfPlaybackChannels());
  PBT_CHECK(flow.period() == f.period, "period");
  // port queries
  {
    std::size_t kin = 0, kout = 0, oin = 0, oout = 0;
    for (auto const& p : f.nodes[0].ports)
    {
      if (p.input)
      {
        PBT_CHECK(flow.audioCapturePortIndex(p.name.c_str()) == kin && flow.audioCapturePortWidth(kin) == p.width && flow.audioCapturePortOffset(kin) == oin && p.name == flow.audioCapturePortName(kin), "capture port query " << p.name);
        ++kin; oin += p.width;
      }
      else
      {
        PBT_CHECK(flow.audioPlaybackPortIndex(p.name.c_str()) == kout && flow.audioPlaybackPortWidth(kout) == p.width && flow.audioPlaybackPortOffset(kout) == oout && p.name == flow.audioPlaybackPortName(kout), "playback port query " << p.name);
        ++kout; oout += p.width;
      }
    }
    PBT_CHECK(flow.numberOfAudioCapturePorts() == kin && flow.numberOfAudioPlaybackPorts() == kout, "port counts");
  }
  std::size_t const blocks = c.wide(1, 4, 30);
  pbt::Rng r(c.seed());
  bool const hier = f.conns.size() > f.flat.size();
  c.label(hier ? "hierarchical" : "flat");
  if (f.flat.size() >= 3 && f.atoms.size() >= 2) c.nontrivial();
  for (std::size_t t = 0; t < blocks; ++t)
  {
    Sig in = randomInput(r, ni, f.period), out(no, std::vector<double>(f.period));
    std::size_t const mode = c.draw(5);
    std::size_t const is = mode == 0 || mode == 4 ? 1 : 1 + r.below(3), os = mode == 0 || mode == 4 ? 1 : 1 + r.below(3);
    float const guard = 77.25f;
    if (mode <= 1 || mode == 4)
    {
      std::vector<std::vector<float>> ib(ni, std::vector<float>((f.period - 1) * is + 1, guard)), ob(no, std::vector<float>((f.period - 1) * os + 1, guard));
      std::vector<float const*> ip;
      std::vector<float*> op;
      for (std::size_t k = 0; k < ni; ++k) { for (std::size_t n = 0; n < f.period; ++n) ib[k][n * is] = (float)in[k][n]; ip.push_back(ib[k].data()); }
      for (auto& v : ob) op.push_back(v.data());
      if (mode == 4)
      {
        bool st = false;
        visr::rrl::AudioSignalFlow::processFunction(&flow, ip.data(), op.data(), st);
        PBT_CHECK(st, "processFunction reported an error");
      }
      else if (mode == 0) flow.process(ip.data(), op.data());
      else flow.process(ip.data(), op.data(), is, os);
      for (std::size_t k = 0; k < no; ++k)
        for (std::size_t n = 0; n < ob[k].size(); ++n)
        {
          if (n % os == 0) out[k][n / os] = ob[k][n];
          else PBT_CHECK(ob[k][n] == guard, "sample between the strides overwritten");
        }
    }
    else // matrices: channel-major (2) or interleaved (3)
    {
      std::size_t ics, iss, ocs, oss;
      if (mode == 2) { iss = is; ics = (f.period) * is + r.below(3); oss = os; ocs = f.period * os + r.below(3); }
      else { ics = is; iss = std::max<std::size_t>(1, ni) * is + r.below(3); ocs = os; oss = std::max<std::size_t>(1, no) * os + r.below(3); }
      std::vector<float> ib(ni ? (ni - 1) * ics + (f.period - 1) * iss + 1 : 0, guard), ob(no ? (no - 1) * ocs + (f.period - 1) * oss + 1 : 0, guard);
      for (std::size_t k = 0; k < ni; ++k) for (std::size_t n = 0; n < f.period; ++n) ib[k * ics + n * iss] = (float)in[k][n];
      flow.process(ib.data(), ics, iss, ob.data(), ocs, oss);
      std::vector<bool> used(ob.size(), false);
      for (std::size_t k = 0; k < no; ++k) for (std::size_t n = 0; n < f.period; ++n) { out[k][n] = ob[k * ocs + n * oss]; used[k * ocs + n * oss] = true; }
      for (std::size_t i = 0; i < ob.size(); ++i) PBT_CHECK(used[i] || ob[i] == guard, "element outside the output matrix overwritten");
    }
    Sig e = ref.step(in);
    for (std::size_t k = 0; k < no; ++k)
      for (std::size_t n = 0; n < f.period; ++n)
        PBT_CHECK((float)out[k][n] == (float)e[k][n], "block " << t << " (call variant " << mode << ") output " << k << " sample " << n << ": got " << out[k][n] << " expected " << e[k][n]);
    for (int a : f.atoms)
    {
      Atom& at = static_cast<Atom&>(*b.comps[a]);
      PBT_CHECK(at.calls == t + 1, f.nodes[a].name << " was executed " << at.calls << " times in " << t + 1 << " blocks");
      PBT_CHECK(at.timeOk, f.nodes[a].name << ": time() does not give the start of the block");
    }
  }
}

// A single atomic component as the complete flow.
void atomic(pbt::Case& c)
{
  Flow f;
  f.period = c.size(1, 20);
  f.nodes.emplace_back();
  f.nodes[0].name = "atom";
  f.nodes[0].seed = c.seed();
  std::size_t np = c.size(0, 4);
  for (std::size_t p = 0; p < np; ++p) f.nodes[0].ports.push_back(Port{c.flag(), 0, c.size(0, 4), "p" + std::to_string(p)});
  f.atoms.push_back(0);
  // without any channel, very long periods cost nothing: the clock must not lose precision
  if (!f.nodes[0].channels(true) && !f.nodes[0].channels(false) && c.chance(12)) f.period = ((std::size_t)1 << c.range(8, 20)) + c.size(0, 3);
  visr::SignalFlowContext ctx(f.period, (std::size_t)c.pick(std::vector<int>{48000, 44100, 8000, 192000, 1}));
  Atom atom(ctx, "atom", nullptr, f.nodes[0]);
  vflow::Rig rig(atom);
  Behaviour beh(f.nodes[0].seed, f.nodes[0].channels(true), f.nodes[0].channels(false), f.period);
  pbt::Rng r(c.seed());
  if (f.nodes[0].channels(true) && f.nodes[0].channels(false)) c.nontrivial();
  for (std::size_t t = 0, nt = f.period > 200 ? 50 : 3; t < nt; ++t)
  {
    Sig in = randomInput(r, f.nodes[0].channels(true), f.period);
    vflow::Audio fi;
    for (auto& v : in) fi.emplace_back(v.begin(), v.end());
    vflow::Audio out = rig.process(fi);
    Sig e = beh.step(in, f.period, t);
    PBT_CHECK(out.size() == e.size(), "number of outputs");
    for (std::size_t k = 0; k < e.size(); ++k)
      for (std::size_t n = 0; n < f.period; ++n) PBT_CHECK(out[k][n] == (float)e[k][n], "output " << k << " sample " << n);
    PBT_CHECK(atom.calls == t + 1 && atom.timeOk, "execution count / time");
  }
}

// channel ranges and lists
void channelLists(pbt::Case& c)
{
  std::ptrdiff_t step = c.range(-4, 4);
  std::size_t a = c.size(0, 20), e = c.size(0, 20);
  c.note() << a << ":" << step << ":" << e;
  bool valid = step != 0 && (step > 0 ? e >= a : e <= a);
  PBT_CHECK(visr::ChannelRange::isValid(a, e, step) == valid, "isValid");
  if (!valid) { pbt::mustThrow([&] { visr::ChannelRange r(a, e, step); }, "invalid channel range accepted"); return; }
  c.nontrivial();
  std::vector<std::size_t> ref;
  for (std::ptrdiff_t x = (std::ptrdiff_t)a; step > 0 ? x < (std::ptrdiff_t)e : x > (std::ptrdiff_t)e; x += step) ref.push_back((std::size_t)x);
  visr::ChannelRange r(a, e, step);
  PBT_CHECK(r.size() == ref.size(), "size " << r.size() << " expected " << ref.size());
  visr::ChannelList l(r);
  PBT_CHECK(l.size() == ref.size() && std::equal(ref.begin(), ref.end(), l.begin()), "list content");
  for (std::size_t i = 0; i < ref.size(); ++i) PBT_CHECK(r.at(i) == ref[i] && r[i] == ref[i] && l.at(i) == ref[i], "element " << i);
  pbt::mustThrow([&] { (void)r.at(ref.size()); }, "range index beyond the end");
  pbt::mustThrow([&] { (void)l.at(ref.size()); }, "list index beyond the end");
  std::size_t n2 = c.size(0, 6), s2 = c.size(0, 9);
  visr::ChannelList both{r, visr::ChannelRange(s2, s2 + n2)};
  for (std::size_t i = 0; i < n2; ++i) ref.push_back(s2 + i);
  PBT_CHECK(both.size() == ref.size() && std::equal(ref.begin(), ref.end(), both.begin()), "concatenated list content");
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "flow with at least two atoms and three channel connections";
  s.assumptions = {"top-level ports use the default sample type (the process functions take float samples)"};
  s.subs = {{"routing", routing, 40000, 400000}, {"atomic", atomic, 5000, 50000}, {"channel-lists", channelLists, 10000, 100000}};
  return pbt::run(argc, argv, s);
}
