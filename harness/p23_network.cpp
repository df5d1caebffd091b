// P23: scene and tracking messages over UDP, up to complete network-controlled renderers.
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "panmodel.hpp"
#include "pbt.hpp"
#include "udp.hpp"

#include <libpanning/LoudspeakerArray.h>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/position_decoder.hpp>
#include <librcl/scene_decoder.hpp>
#include <librcl/scene_encoder.hpp>
#include <librcl/udp_receiver.hpp>
#include <librcl/udp_sender.hpp>
#include <libsignalflows/baseline_renderer.hpp>
#include <libsignalflows/bunch_renderer.hpp>
#include <libsignalflows/core_renderer.hpp>
#include <libvisr/composite_component.hpp>

using namespace visr;
using namespace arr;

namespace
{
std::string anyMessage(pbt::Case& c, std::size_t serial)
{
  std::size_t const len = c.chance(6) ? 0 : c.chance(5) ? c.size(1, 50000) : c.chance(15) ? c.size(1, 9000) : c.size(1, 60);
  std::string s(len, ' ');
  if (c.flag())
  {
    pbt::Rng r(c.seed());
    int const kind = (int)c.draw(3);
    for (auto& x : s) x = kind == 0 ? (char)r.below(256) : kind == 1 ? (char)('a' + r.below(26)) : (char)r.below(3);
  }
  else
  {
    std::string const t = "{\"message\": " + std::to_string(serial) + "}\n";
    for (std::size_t i = 0; i < len; ++i) s[i] = t[i % t.size()];
  }
  return s;
}
std::string show(std::string const& s)
{
  std::string r = std::to_string(s.size()) + " bytes";
  if (s.size() <= 24) { r += " ("; for (unsigned char x : s) { char b[5]; std::snprintf(b, sizeof b, x >= 32 && x < 127 ? "%c" : "\\%02x", x); r += b; } r += ")"; }
  return r;
}
void drain(vflow::Rig& r, char const* port, std::vector<std::string>& got)
{
  auto& q = r.queueOut(port);
  while (!q.empty())
  {
    auto const& p = static_cast<pml::StringParameter const&>(q.front());
    got.push_back(std::string(p.str(), p.size()));
    q.pop();
  }
}

struct Chain : CompositeComponent // sender and receiver in one signal flow
{
  rcl::UdpSender s;
  rcl::UdpReceiver r;
  ParameterInput<pml::MessageQueueProtocol, pml::StringParameter> in;
  ParameterOutput<pml::MessageQueueProtocol, pml::StringParameter> out;
  Chain(SignalFlowContext const& ctx, unsigned from, std::string const& host, unsigned port, rcl::UdpSender::Mode sm, rcl::UdpReceiver::Mode rm)
    : CompositeComponent(ctx, "chain", nullptr), s(ctx, "sender", this, from, host, port, sm), r(ctx, "receiver", this, port, rm), in("in", *this, pml::EmptyParameterConfig()), out("out", *this, pml::EmptyParameterConfig())
  {
    parameterConnection(in, s.parameterPort("messageInput"));
    parameterConnection(r.parameterPort("messageOutput"), out);
  }
};

void transport(pbt::Case& c)
{
  Port to, from;
  to.any();
  bool const fixed = c.chance(25);
  if (fixed) from.any();
  bool const sa = c.flag(), ra = c.flag();
  auto const sm = sa ? rcl::UdpSender::Mode::Asynchronous : rcl::UdpSender::Mode::Synchronous;
  auto const rm = ra ? rcl::UdpReceiver::Mode::Asynchronous : rcl::UdpReceiver::Mode::Synchronous;
  int const topology = (int)c.draw(4); // separate flows, one flow, plain sender, plain receiver
  std::string const host = c.chance(90) ? "127.0.0.1" : "localhost";
  SignalFlowContext ctx(c.size(1, 64), 48000);
  c.note() << (topology == 3 ? "plain receiver" : ra ? "asynchronous receiver" : "synchronous receiver") << ", " << (topology == 2 ? "plain sender" : sa ? "asynchronous sender" : "synchronous sender") << (topology == 1 ? " in the same flow" : "") << (fixed ? ", fixed sender port" : "") << " to " << host << "\n";
  c.flushNote();
  c.label(std::string(topology == 2 ? "plain" : sa ? "async" : "sync") + "->" + (topology == 3 ? "plain" : ra ? "async" : "sync"));
  std::unique_ptr<rcl::UdpSender> snd;
  std::unique_ptr<rcl::UdpReceiver> rcv;
  std::unique_ptr<Chain> chain;
  std::unique_ptr<vflow::Rig> sr, rr;
  std::unique_ptr<Socket> plain;
  if (topology == 1)
  {
    chain.reset(new Chain(ctx, from.n, host, to.n, sm, rm));
    sr.reset(new vflow::Rig(*chain));
  }
  else
  {
    if (topology != 3) { rcv.reset(new rcl::UdpReceiver(ctx, "receiver", nullptr, to.n, rm)); rr.reset(new vflow::Rig(*rcv)); }
    if (topology != 2) { snd.reset(new rcl::UdpSender(ctx, "sender", nullptr, from.n, host, to.n, sm)); sr.reset(new vflow::Rig(*snd)); }
    if (topology >= 2) plain.reset(new Socket(topology == 3 ? to.n : 0));
  }
  std::vector<std::string> sent, got;
  std::vector<unsigned> origin;
  std::size_t outstanding = 0;
  auto poll = [&] {
    if (topology == 3) { std::string m; unsigned f; while (plain->receive(m, f)) { got.push_back(m); origin.push_back(f); } }
    else if (topology == 1) { sr->process({}); drain(*sr, "out", got); }
    else { rr->process({}); drain(*rr, "messageOutput", got); }
  };
  auto check = [&] {
    PBT_CHECK(got.size() <= sent.size(), got.size() << " messages arrived, but only " << sent.size() << " have been sent; the last one has " << show(got.back()));
    for (std::size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == sent[i], "message " << i << " of " << sent.size() << " arrived as " << show(got[i]) << " instead of " << show(sent[i]));
  };
  auto settle = [&] {
    double const end = now() + deadline;
    double wait = 1e-5;
    while (got.size() < sent.size() && now() < end)
    {
      poll();
      if (got.size() >= sent.size()) break;
      pause(wait);
      wait = std::min(wait * 2, 0.02);
    }
    check();
    if (got.size() < sent.size()) lost();
    PBT_CHECK(got.size() == sent.size(), "only " << got.size() << " of " << sent.size() << " messages arrived; the first missing one has " << show(sent[got.size()]));
    outstanding = 0;
  };
  std::size_t const rounds = c.size(1, 12);
  bool burst = false;
  for (std::size_t t = 0; t < rounds; ++t)
  {
    std::size_t const n = c.chance(20) ? 0 : c.chance(15) ? c.size(1, 40) : c.size(1, 4);
    if (n > 1) burst = true;
    std::vector<std::string> batch;
    for (std::size_t i = 0; i < n; ++i)
    {
      std::string m = anyMessage(c, sent.size() + batch.size());
      if (outstanding + m.size() + 800 > 60000 && batch.empty()) settle();
      if (outstanding + m.size() + 800 > 60000) m = "short";
      outstanding += m.size() + 800;
      batch.push_back(m);
    }
    if (outstanding > 56000 && !sent.empty() && batch.empty()) settle();
    for (auto const& m : batch)
    {
      sent.push_back(m);
      c.note() << "[" << t << "] " << show(m) << "\n";
      if (topology == 2) plain->send(m, to.n);
      else sr->enqueue(topology == 1 ? "in" : "messageInput", pml::StringParameter(m));
    }
    c.flushNote();
    if (topology == 0 || topology == 3) sr->process({});
    if (topology == 1) poll();
    else if (c.chance(60)) poll();
    check();
    if (outstanding > 40000 || c.chance(15)) settle();
  }
  settle();
  for (int i = 0; i < 3; ++i) { if (topology == 0 || topology == 3) sr->process({}); poll(); if (c.chance(20)) pause(0.0005); }
  check();
  for (unsigned o : origin) PBT_CHECK(!fixed || o == from.n, "message sent from port " << o << " instead of " << from.n);
  if (burst) c.nontrivial();
}

// several senders to one receiver: complete, each sender's messages in order
void senders(pbt::Case& c)
{
  Port to;
  to.any();
  bool const ra = c.flag();
  std::size_t const n = c.size(2, 4);
  SignalFlowContext ctx(c.size(1, 64), 48000);
  rcl::UdpReceiver rcv(ctx, "receiver", nullptr, to.n, ra ? rcl::UdpReceiver::Mode::Asynchronous : rcl::UdpReceiver::Mode::Synchronous);
  vflow::Rig rr(rcv);
  std::vector<std::unique_ptr<rcl::UdpSender>> snd;
  std::vector<std::unique_ptr<vflow::Rig>> sr;
  for (std::size_t i = 0; i < n; ++i)
  {
    snd.emplace_back(new rcl::UdpSender(ctx, "sender", nullptr, 0, "127.0.0.1", to.n, c.flag() ? rcl::UdpSender::Mode::Asynchronous : rcl::UdpSender::Mode::Synchronous));
    sr.emplace_back(new vflow::Rig(*snd.back()));
  }
  std::vector<std::vector<std::string>> sent(n);
  std::vector<std::size_t> seen(n, 0);
  std::size_t total = 0;
  for (std::size_t t = c.size(1, 8); t > 0; --t)
    for (std::size_t i = 0; i < n; ++i)
    {
      for (std::size_t k = c.size(0, 2); k > 0; --k)
      {
        std::string m = std::to_string(i) + ":" + std::to_string(sent[i].size()) + std::string(c.size(0, 40), '.');
        if (c.chance(20)) m += std::string("\0x", 2);
        sent[i].push_back(m);
        ++total;
        sr[i]->enqueue("messageInput", pml::StringParameter(m));
      }
      sr[i]->process({});
    }
  c.note() << n << " senders, " << total << " messages\n";
  c.flushNote();
  std::vector<std::string> got;
  double const end = now() + deadline;
  double wait = 1e-5;
  while (got.size() < total && now() < end) { rr.process({}); drain(rr, "messageOutput", got); if (got.size() < total) { pause(wait); wait = std::min(wait * 2, 0.02); } }
  for (int i = 0; i < 2; ++i) { rr.process({}); drain(rr, "messageOutput", got); }
  for (auto const& g : got)
  {
    std::size_t const i = (std::size_t)std::atoi(g.c_str());
    PBT_CHECK(i < n && seen[i] < sent[i].size() && g == sent[i][seen[i]], "unexpected message " << show(g));
    ++seen[i];
  }
  if (got.size() < total) lost();
  PBT_CHECK(got.size() == total, got.size() << " of " << total << " messages arrived");
  if (total > 4) c.nontrivial();
}

// scenes and poses through encoder, network and decoder
void scenes(pbt::Case& c)
{
  Quiet q;
  Port to, tp;
  to.any();
  tp.any();
  bool const sa = c.flag(), ra = c.flag();
  auto const rm = ra ? rcl::UdpReceiver::Mode::Asynchronous : rcl::UdpReceiver::Mode::Synchronous;
  SignalFlowContext ctx(16, 48000);
  struct Tx : CompositeComponent
  {
    rcl::SceneEncoder e;
    rcl::UdpSender s;
    ParameterInput<pml::SharedDataProtocol, pml::ObjectVector> in;
    Tx(SignalFlowContext const& x, unsigned port, rcl::UdpSender::Mode m) : CompositeComponent(x, "tx", nullptr), e(x, "encoder", this), s(x, "sender", this, 0, "127.0.0.1", port, m), in("in", *this, pml::EmptyParameterConfig())
    {
      parameterConnection(in, e.parameterPort("objectInput"));
      parameterConnection(e.parameterPort("messageOutput"), s.parameterPort("messageInput"));
    }
  };
  struct Rx : CompositeComponent
  {
    rcl::UdpReceiver r, t;
    rcl::SceneDecoder d;
    rcl::PositionDecoder p;
    ParameterOutput<pml::DoubleBufferingProtocol, pml::ObjectVector> out;
    ParameterOutput<pml::DoubleBufferingProtocol, pml::ListenerPosition> pos;
    Rx(SignalFlowContext const& x, unsigned port, unsigned track, rcl::UdpReceiver::Mode m) : CompositeComponent(x, "rx", nullptr), r(x, "receiver", this, port, m), t(x, "tracker", this, track, m), d(x, "decoder", this), p(x, "position", this), out("out", *this, pml::EmptyParameterConfig()), pos("pos", *this, pml::EmptyParameterConfig())
    {
      parameterConnection(r.parameterPort("messageOutput"), d.parameterPort("datagramInput"));
      parameterConnection(d.parameterPort("objectVectorOutput"), out);
      parameterConnection(t.parameterPort("messageOutput"), p.parameterPort("messageInput"));
      parameterConnection(p.parameterPort("positionOutput"), pos);
    }
  };
  Rx rx(ctx, to.n, tp.n, rm);
  vflow::Rig rr(rx);
  Tx tx(ctx, to.n, sa ? rcl::UdpSender::Mode::Asynchronous : rcl::UdpSender::Mode::Synchronous);
  vflow::Rig tr(tx);
  Socket tracker;
  om::Scene current, expected;
  for (std::size_t t = c.size(1, 6); t > 0; --t)
  {
    std::size_t const messages = c.size(1, 3);
    for (std::size_t k = 0; k < messages; ++k)
    {
      if (c.chance(20)) current.clear();
      for (std::size_t i = c.size(0, 3); i > 0; --i)
      {
        unsigned const id = (unsigned)c.draw(6);
        om::Obj const o = om::anyObject(c, id, (int)c.draw(om::NumKinds));
        current[id] = o;
      }
      auto& ov = tr.shared<pml::ObjectVector>("in");
      ov.clear();
      for (auto const& e : current) { ov.insert(om::toLib(e.second)); expected[e.first] = e.second; }
      tr.process({});
    }
    float const x = (float)c.range(-50, 50) / 8;
    tracker.send("{\"x\": " + om::num(x) + ", \"y\": 1, \"z\": 2}", tp.n);
    double const end = now() + deadline;
    double wait = 1e-5;
    std::string d;
    bool moved = false;
    for (;;)
    {
      rr.process({});
      d = om::diff(static_cast<pml::ObjectVector const&>(rr.dblOut("out").data()), expected);
      moved = static_cast<pml::ListenerPosition const&>(rr.dblOut("pos").data()).x() == x;
      if ((d.empty() && moved) || now() > end) break;
      pause(wait);
      wait = std::min(wait * 2, 0.02);
    }
    if (!d.empty() || !moved) lost();
    PBT_CHECK(d.empty(), "scene after transmission: " << d);
    PBT_CHECK(moved, "listener position has not arrived");
    rr.process({});
    d = om::diff(static_cast<pml::ObjectVector const&>(rr.dblOut("out").data()), expected);
    PBT_CHECK(d.empty(), "scene changed again: " << d);
  }
  if (expected.size() >= 2) c.nontrivial();
}

// complete renderers controlled by network messages reach the state of the core renderer fed directly
void renderer(pbt::Case& c)
{
  Quiet q;
  bool const bunch = c.chance(30), tracking = c.chance(30), simple = !bunch && !tracking && c.chance(8);
  Port sp, tp;
  if (simple) { if (!sp.take(4242, 60)) { c.label("port 4242 busy"); return; } }
  else sp.any();
  if (tracking && !tp.take(8888, 60)) { c.label("port 8888 busy"); return; }
  Array m = anyArray(c);
  if (tracking) m.infinite = false;
  for (auto& s : m.spk) s.adj.eq.clear();
  for (auto& s : m.subs) s.adj.eq.clear();
  m.eqs.clear();
  m.hasEq = false;
  for (auto& s : m.spk) if (s.adj.hasDelay) s.adj.delay = (float)((double)c.draw(60) / 48000);
  for (auto& s : m.subs) if (s.adj.hasDelay) s.adj.delay = (float)((double)c.draw(60) / 48000);
  panning::LoudspeakerArray a;
  a.loadXmlString(text(c, m));
  pan::Panner p(m);
  std::size_t const nr = m.spk.size();
  std::size_t maxCh = 0;
  for (auto const& s : m.spk) maxCh = std::max(maxCh, s.channel);
  for (auto const& s : m.subs) maxCh = std::max(maxCh, s.channel);
  std::size_t const nIn = c.size(1, 12), channels = maxCh + (c.flag() ? 0 : c.size(0, 3));
  std::size_t const period = simple ? 4096 : c.pick<std::size_t>({32, 16, 64}), steps = simple ? 4096 : period;
  std::size_t const sections = bunch || simple ? 0 : c.size(0, 1);
  bool const dual = !bunch && !simple && c.chance(30);
  std::size_t const fl = simple ? 0 : c.size(1, 20);
  efl::BasicMatrix<float> dm(nr, fl, cVectorAlignmentSamples);
  pbt::Rng rf(c.seed());
  for (std::size_t i = 0; i < nr; ++i) for (std::size_t j = 0; j < fl; ++j) dm(i, j) = (float)(rf.uniform(-1, 1) / std::sqrt((double)fl));
  SignalFlowContext ctx(period, 48000);
  c.note() << (bunch ? "bunch renderer, " : simple ? "baseline renderer with defaults, " : "baseline renderer, ") << nr << " loudspeakers, " << m.subs.size() << " subwoofers, " << nIn << " signals, " << channels << " output channels" << (tracking ? ", tracking" : "") << "\n";
  c.flushNote();
  c.label(bunch ? "bunch" : simple ? "simple" : tracking ? "tracking" : "baseline");
  std::unique_ptr<CompositeComponent> comp;
  if (bunch) comp.reset(new signalflows::BunchRenderer(ctx, "r", nullptr, a, nIn, channels, steps, dm, tracking ? "t" : "", sp.n, ""));
  else if (simple) comp.reset(new signalflows::BaselineRenderer(ctx, "r", nullptr, a, nIn, channels));
  else comp.reset(new signalflows::BaselineRenderer(ctx, "r", nullptr, a, nIn, channels, steps, dm, tracking ? "t" : "", sp.n, sections, "", dual));
  vflow::Rig rig(*comp);
  signalflows::CoreRenderer core(ctx, "c", nullptr, a, nIn, channels, steps, dm, tracking ? "t" : "", sections, "", dual);
  vflow::Rig ref(core);
  Socket tx;
  vflow::Audio in(nIn);
  for (std::size_t i = 0; i < nIn; ++i) in[i].assign(period, 0.25f + 0.125f * (float)i);
  om::Scene scene;
  auto const ids = m.ids();
  auto steady = [&](vflow::Rig& r, std::size_t n) { vflow::Audio o; for (std::size_t i = 0; i < n; i += period) o = r.process(in); return o; };
  std::size_t const settling = 3000;
  auto differs = [&](vflow::Audio const& x, vflow::Audio const& y) -> std::string {
    for (std::size_t i = 0; i < x.size(); ++i)
      for (std::size_t k = 0; k < period; ++k)
        if (!(std::abs(x[i][k] - y[i][k]) <= 2e-4 * (1 + std::abs(y[i][k])))) { std::ostringstream s; s << "output channel " << i + 1 << " is " << x[i][k] << " instead of " << y[i][k]; return s.str(); }
    return "";
  };
  PBT_CHECK(differs(steady(rig, settling), steady(ref, settling)).empty(), "different before the first message");
  std::size_t const rounds = c.size(1, 4);
  for (std::size_t t = 0; t < rounds; ++t)
  {
    bool const move = tracking && (t == 0 || c.flag());
    if (move)
    {
      V3 const l = pan::anyListener(c, p);
      p.listener(l);
      float const x = (float)l[0], y = (float)l[1], z = (float)l[2];
      c.note() << "[" << t << "] listener " << x << " " << y << " " << z << "\n";
      ref.param<pml::ListenerPosition>("trackingPositionInput") = pml::ListenerPosition(x, y, z);
      ref.dbl("trackingPositionInput").swapBuffers();
      tx.send("{\"x\": " + om::num(x) + ", \"y\": " + om::num(y) + ", \"z\": " + om::num(z) + ", \"faceId\": 1}", 8888);
    }
    for (std::size_t k = move && t ? c.size(0, 2) : c.size(1, 3); k > 0; --k)
    {
      std::vector<om::Json> js;
      for (std::size_t i = c.size(1, 2); i > 0; --i)
      {
        unsigned const id = (unsigned)c.draw(std::min<std::size_t>(nIn, 5));
        om::Obj o = om::anyObject(c, id, c.pick<int>({om::Point, om::PointDiffuse, om::Plane, om::Channel, om::Diffuse}), 3);
        o.channels.assign(1, id);
        o.level = (float)c.range(1, 16) / 8;
        o.lock = 0;
        o.eq.clear();
        o.diffuseness = (float)c.draw(5) / 4;
        if (o.hasPos()) { o.x = (float)c.sym(3); o.y = (float)c.sym(3); o.z = (float)c.sym(2); }
        if (o.kind == om::Plane) { o.az = (float)c.sym(180); o.el = (float)c.sym(60); }
        if (o.kind == om::Channel) 
        {
          std::string const& id = ids[(std::size_t)c.draw(nr)];
          bool plain = !id.empty(); // other labels are not possible in a message
          for (char x : id) plain = plain && (std::isalnum((unsigned char)x) || x == '_');
          o.outputs.assign(1, {});
          if (plain) o.outputs[0].push_back(id);
        }
        scene[id] = o;
        js.push_back(om::toJson(c, o, false));
        c.note() << "[" << t << "] object " << id << " " << om::kindName(o.kind) << " level " << o.level << " diffuseness " << o.diffuseness;
        if (o.hasPos()) c.note() << " at " << o.x << "," << o.y << "," << o.z;
        if (o.kind == om::Plane) c.note() << " from " << o.az << "," << o.el;
        for (auto const& x : o.outputs) for (auto const& y : x) c.note() << " -> " << y;
        c.note() << "\n";
      }
      std::string const msg = om::message(c, js);
      tx.send(msg, sp.n);
      if (c.chance(20)) rig.process(in);
    }
    c.flushNote();
    auto& ov = ref.param<pml::ObjectVector>("objectDataInput");
    ov.clear();
    for (auto const& e : scene) ov.insert(om::toLib(e.second));
    ref.dbl("objectDataInput").swapBuffers();
    vflow::Audio const goal = steady(ref, settling + 3 * period);
    std::string d;
    double const end = now() + deadline;
    do { d = differs(steady(rig, settling), goal); if (!d.empty()) pause(0.001); } while (!d.empty() && now() < end);
    if (!d.empty()) lost();
    PBT_CHECK(d.empty(), "after update " << t << ": " << d);
    d = differs(steady(rig, 4 * period), goal);
    PBT_CHECK(d.empty(), "after update " << t << " has been reached: " << d);
  }
  if (scene.size() >= 2) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "several messages are sent in one batch, or a scene of at least two objects is transmitted";
  s.subs = {{"transport", transport, 6000, 600000}, {"senders", senders, 1500, 100000}, {"scenes", scenes, 2000, 150000}, {"renderer", renderer, 1200, 60000}};
  s.assumptions = {"the loopback network loses no datagrams as long as less than 60 kB are outstanding", "a message that has not arrived after 20 s is lost"};
  return pbt::run(argc, argv, s);
}
