// Parameter transport through hierarchical flows against a model of the three protocols.
#include "paramplan.hpp"
#include <libvisr/communication_protocol_base.hpp>
#include <libvisr/communication_protocol_factory.hpp>
using namespace pplan;
namespace
{
void transport(pbt::Case& c)
{
  Flow f = generate(c, 5, 4, 4);
  describe(c, f);
  Built b;
  b.instantiate(f, c.seed());
  b.connect(c, f);
  rrl::AudioSignalFlow flow(b.top());
  b.start(f);
  std::size_t const blocks = c.wide(1, 6, 40);
  if (f.conns.size() >= 2 && blocks >= 2) c.nontrivial();
  for (auto const& s : f.signals) c.label(s.kind.protocol == 0 ? "shared" : s.kind.protocol == 1 ? "double" : "queue");
  for (std::size_t t = 0; t < blocks; ++t)
  {
    for (std::size_t s = 0; s < f.signals.size(); ++s)
      if (f.signals[s].sender.node == 0)
        sendStep(b.state.models[s], flow.externalParameterReceivePort(f.nodes[0].ports[f.signals[s].sender.port].name.c_str()), t);
    flow.process(static_cast<float const* const*>(nullptr), static_cast<float* const*>(nullptr));
    if (!b.state.error.empty()) pbt::fail(b.state.error);
    for (std::size_t s = 0; s < f.signals.size(); ++s)
      for (std::size_t r = 0; r < f.signals[s].receivers.size(); ++r)
        if (f.signals[s].receivers[r].node == 0)
          recvStep(b.state.models[s], r, flow.externalParameterSendPort(f.nodes[0].ports[f.signals[s].receivers[r].port].name.c_str()), t);
  }
  pbt::mustThrow([&] { flow.externalParameterReceivePort("nonexistent"); }, "unknown external port");
  pbt::mustThrow([&] { flow.externalParameterSendPort("nonexistent"); }, "unknown external port");
}

// One atomic component as the complete flow.
void atomic(pbt::Case& c)
{
  Flow f;
  f.nodes.emplace_back();
  f.nodes[0].name = "atom";
  std::size_t const n = c.size(1, 4);
  for (std::size_t i = 0; i < n; ++i)
  {
    Signal s;
    s.kind = anyKind(c);
    s.seed = c.seed();
    bool in = c.flag();
    End e = f.addPort(0, in, s.kind, c.flag());
    // the other end is external and has no port of its own
    if (in) { s.sender = End{-1, 0}; s.receivers = {e}; }
    else { s.sender = e; s.receivers = {End{-1, 0}}; }
    f.signals.push_back(s);
  }
  SignalFlowContext ctx(4, 48000);
  State st;
  Atom atom(ctx, "atom", nullptr, f.nodes[0].ports, 0, st);
  rrl::AudioSignalFlow flow(atom);
  st.models.resize(n);
  for (std::size_t i = 0; i < n; ++i) st.models[i].init(f.signals[i]);
  st.f = &f;
  c.nontrivial();
  for (std::size_t t = 0; t < 3; ++t)
  {
    for (std::size_t i = 0; i < n; ++i)
      if (f.signals[i].sender.node == -1) sendStep(st.models[i], flow.externalParameterReceivePort(f.nodes[0].ports[f.signals[i].receivers[0].port].name.c_str()), t);
    flow.process(static_cast<float const* const*>(nullptr), static_cast<float* const*>(nullptr));
    if (!st.error.empty()) pbt::fail(st.error);
    for (std::size_t i = 0; i < n; ++i)
      if (f.signals[i].sender.node == 0) recvStep(st.models[i], 0, flow.externalParameterSendPort(f.nodes[0].ports[f.signals[i].sender.port].name.c_str()), t);
  }
}
// Endpoints connected to and disconnected from one protocol object in any order, against a model of the protocol.
void endpoints(pbt::Case& c)
{
  Kind const k = anyKind(c);
  std::unique_ptr<ParameterConfigBase> const cfg = config(k);
  std::unique_ptr<CommunicationProtocolBase> p = CommunicationProtocolFactory::createProtocol(protocolId(k), typeId(k), *cfg);
  std::size_t const nIn = c.size(1, 4), nOut = c.size(1, 2), steps = c.wide(2, 25, 120);
  std::vector<std::unique_ptr<CommunicationProtocolBase::Input>> in;
  std::vector<std::unique_ptr<CommunicationProtocolBase::Output>> out;
  for (std::size_t i = 0; i < nIn; ++i) in.push_back(CommunicationProtocolFactory::createInput(protocolId(k)));
  for (std::size_t i = 0; i < nOut; ++i) out.push_back(CommunicationProtocolFactory::createOutput(protocolId(k)));
  std::vector<bool> conn(nIn, false), changed(nIn, false);
  int sender = -1, code = 0;
  int front = -1, back = -1; // -1: unspecified
  std::deque<int> queue;
  auto shared = [&]() -> pml::SharedDataProtocol& { return dynamic_cast<pml::SharedDataProtocol&>(*p); };
  c.note() << "protocol " << k.protocol << " type " << k.type << ", " << nIn << " inputs, " << nOut << " outputs:";
  c.label(k.protocol == 0 ? "shared" : k.protocol == 1 ? "double" : "queue");
  std::size_t deliveries = 0, removals = 0;
  for (std::size_t t = 0; t < steps; ++t)
  {
    std::size_t const i = (std::size_t)c.draw(nIn), o = (std::size_t)c.draw(nOut);
    switch (c.draw(8))
    {
    case 0: case 1:
    {
      c.note() << " +in" << i;
      bool const occupied = k.protocol == 2 && std::count(conn.begin(), conn.end(), true) > 0;
      if (occupied) { pbt::mustThrow([&] { p->connectInput(in[i].get()); }, "connecting a second receiver to a message queue"); break; }
      pbt::mustNotThrow([&] { p->connectInput(in[i].get()); }, "connecting a receiver");
      conn[i] = true;
      break;
    }
    case 2:
      c.note() << " -in" << i;
      PBT_CHECK(p->disconnectInput(in[i].get()) == conn[i], "step " << t << ": disconnecting a receiver that is " << (conn[i] ? "connected" : "not connected"));
      if (conn[i]) ++removals;
      conn[i] = false;
      break;
    case 3:
      c.note() << " +out" << o;
      if (sender >= 0) { pbt::mustThrow([&] { p->connectOutput(out[o].get()); }, "connecting a second sender"); break; }
      pbt::mustNotThrow([&] { p->connectOutput(out[o].get()); }, "connecting a sender");
      sender = (int)o;
      break;
    case 4:
      if (!c.chance(40)) break;
      c.note() << " -out" << o;
      PBT_CHECK(p->disconnectOutput(out[o].get()) == (sender == (int)o), "step " << t << ": disconnecting a sender that is " << (sender == (int)o ? "connected" : "not connected"));
      if (sender == (int)o) { sender = -1; ++removals; }
      break;
    case 5: case 6: // send
      if (sender < 0) break;
      ++code;
      c.note() << " send" << code;
      if (k.protocol == 0) { store(dynamic_cast<pml::SharedDataProtocol::OutputBase&>(*out[(std::size_t)sender]).data(), k, code); front = code; }
      else if (k.protocol == 1)
      {
        auto& x = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(*out[(std::size_t)sender]);
        store(x.data(), k, code);
        front = code;
        if (c.chance(70))
        {
          bool const copy = c.flag();
          c.note() << (copy ? " swapcopy" : " swap");
          x.swapBuffers(copy);
          int const old = back;
          back = front;
          front = copy ? front : old;
          if (!copy) front = -1;
          for (std::size_t j = 0; j < nIn; ++j) if (conn[j]) changed[j] = true;
        }
      }
      else { dynamic_cast<pml::MessageQueueProtocol::OutputBase&>(*out[(std::size_t)sender]).enqueue(make(k, code)); queue.push_back(code); }
      break;
    default: // receive
      if (!conn[i]) break;
      if (k.protocol == 1) { c.note() << " reset" << i; dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(*in[i]).resetChanged(); changed[i] = false; }
      else if (k.protocol == 2)
      {
        auto& x = dynamic_cast<pml::MessageQueueProtocol::InputBase&>(*in[i]);
        if (c.chance(15)) { c.note() << " clear"; x.clear(); queue.clear(); }
        else if (queue.empty()) pbt::mustThrow([&] { x.pop(); }, "removing a message from an empty queue");
        else { c.note() << " pop"; x.pop(); queue.pop_front(); }
      }
    }
    // every endpoint agrees with the model
    for (std::size_t j = 0; j < nIn; ++j)
    {
      PBT_CHECK((in[j]->getProtocol() == nullptr) == !conn[j], "step " << t << ": receiver " << j << " is " << (conn[j] ? "not connected" : "still connected"));
      if (conn[j]) PBT_CHECK(in[j]->getProtocol() == p.get(), "step " << t << ": receiver " << j << " belongs to another protocol");
      if (k.protocol == 1) PBT_CHECK(dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(*in[j]).changed() == changed[j], "step " << t << ": change flag of receiver " << j << ", expected " << (changed[j] ? "set" : "clear"));
      if (!conn[j]) continue;
      if (k.protocol == 0 && front >= 0) PBT_CHECK(holds(dynamic_cast<pml::SharedDataProtocol::InputBase&>(*in[j]).data(), k, front), "step " << t << ": receiver " << j << " does not see value " << front);
      if (k.protocol == 1 && back >= 0) PBT_CHECK(holds(dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(*in[j]).data(), k, back), "step " << t << ": receiver " << j << " does not see published value " << back);
      if (k.protocol == 2)
      {
        auto& x = dynamic_cast<pml::MessageQueueProtocol::InputBase&>(*in[j]);
        PBT_CHECK(x.size() == queue.size() && x.empty() == queue.empty(), "step " << t << ": " << x.size() << " messages instead of " << queue.size());
        if (!queue.empty()) PBT_CHECK(holds(x.front(), k, queue.front()), "step " << t << ": the next message is not " << queue.front());
      }
      ++deliveries;
    }
    for (std::size_t j = 0; j < nOut; ++j)
      PBT_CHECK((out[j]->getProtocol() != nullptr) == (sender == (int)j), "step " << t << ": sender " << j << " is " << (sender == (int)j ? "not connected" : "still connected"));
    if (k.protocol == 0 && front >= 0) PBT_CHECK(holds(shared().data(), k, front), "step " << t << ": the shared value is not " << front);
    if (k.protocol == 1 && front >= 0 && sender >= 0) PBT_CHECK(holds(dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(*out[(std::size_t)sender]).data(), k, front), "step " << t << ": the sender does not see its own value " << front);
  }
  if (code >= 2 && removals && deliveries) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "flow with at least two connections run for at least two blocks, an atomic flow with at least one port, or a history of endpoints with at least two values sent and one disconnection";
  s.subs = {{"transport", transport, 40000, 400000}, {"atomic", atomic, 8000, 80000}, {"endpoints", endpoints, 60000, 1000000}};
  return pbt::run(argc, argv, s);
}
