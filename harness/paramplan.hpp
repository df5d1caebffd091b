// Random hierarchical flows of parameter connections (all three protocols).
#ifndef VERIF_PARAMPLAN_HPP
#define VERIF_PARAMPLAN_HPP
#include "flow.hpp"

#include <libpml/empty_parameter_config.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/polymorphic_parameter_input.hpp>
#include <libvisr/polymorphic_parameter_output.hpp>

#include <algorithm>
#include <deque>
#include <map>
#include <tuple>

namespace pplan
{
using namespace visr;
using Int = pml::ScalarParameter<int>;
using Str = pml::StringParameter;
using Vec = pml::VectorParameter<float>;
using Mat = pml::MatrixParameter<double>;

// parameter kind: 0 int, 1 string, 2 vector, 3 matrix; n: size of vectors / number of columns of matrices (two rows)
struct Kind
{
  int protocol = 0; // 0 shared, 1 double buffering, 2 message queue
  int type = 0;
  std::size_t n = 1;
  bool operator==(Kind const& o) const { return protocol == o.protocol && type == o.type && (type < 2 || n == o.n); }
};
inline std::unique_ptr<ParameterConfigBase> config(Kind const& k)
{
  switch (k.type)
  {
  case 0: case 1: return std::unique_ptr<ParameterConfigBase>(new pml::EmptyParameterConfig());
  case 2: return std::unique_ptr<ParameterConfigBase>(new pml::VectorParameterConfig(k.n));
  default: return std::unique_ptr<ParameterConfigBase>(new pml::MatrixParameterConfig(2, k.n));
  }
}
inline ParameterType typeId(Kind const& k)
{
  return k.type == 0 ? Int::staticType() : k.type == 1 ? Str::staticType() : k.type == 2 ? Vec::staticType() : Mat::staticType();
}
inline CommunicationProtocolType protocolId(Kind const& k)
{
  return k.protocol == 0 ? pml::SharedDataProtocol::staticType() : k.protocol == 1 ? pml::DoubleBufferingProtocol::staticType() : pml::MessageQueueProtocol::staticType();
}
inline std::string text(int code) { return std::string((std::size_t)(code % 5), 'x') + std::to_string(code); }
inline void store(ParameterBase& p, Kind const& k, int code)
{
  switch (k.type)
  {
  case 0: dynamic_cast<Int&>(p) = code; break;
  case 1: dynamic_cast<Str&>(p) = text(code); break;
  case 2: { Vec& v = dynamic_cast<Vec&>(p); for (std::size_t i = 0; i < v.size(); ++i) v[i] = (float)(code + (int)i); break; }
  default: { Mat& m = dynamic_cast<Mat&>(p); for (std::size_t r = 0; r < m.numberOfRows(); ++r) for (std::size_t i = 0; i < m.numberOfColumns(); ++i) m(r, i) = code + 10.0 * r + i; }
  }
}
inline std::unique_ptr<ParameterBase> make(Kind const& k, int code)
{
  std::unique_ptr<ParameterBase> p;
  switch (k.type)
  {
  case 0: p.reset(new Int()); break;
  case 1: p.reset(new Str()); break;
  case 2: p.reset(new Vec(k.n, 0)); break;
  default: p.reset(new Mat(2, k.n)); break;
  }
  store(*p, k, code);
  return p;
}
// whether the value is the one stored for 'code'
inline bool holds(ParameterBase const& p, Kind const& k, int code)
{
  switch (k.type)
  {
  case 0: return dynamic_cast<Int const&>(p).value() == code;
  case 1: return text(code) == dynamic_cast<Str const&>(p).str();
  case 2:
  {
    Vec const& v = dynamic_cast<Vec const&>(p);
    if (v.size() != k.n) return false;
    for (std::size_t i = 0; i < v.size(); ++i) if (v[i] != (float)(code + (int)i)) return false;
    return true;
  }
  default:
  {
    Mat const& m = dynamic_cast<Mat const&>(p);
    if (m.numberOfRows() != 2 || m.numberOfColumns() != k.n) return false;
    for (std::size_t r = 0; r < 2; ++r) for (std::size_t i = 0; i < k.n; ++i) if (m(r, i) != code + 10.0 * r + i) return false;
    return true;
  }
  }
}

struct Port
{
  bool input;
  Kind kind;
  std::string name;
  bool polymorphic;
};
struct Node
{
  int parent = -1;
  bool composite = false;
  std::string name;
  std::vector<Port> ports;
};
struct End
{
  int node, port;
  bool operator<(End const& o) const { return std::tie(node, port) < std::tie(o.node, o.port); }
  bool operator==(End const& o) const { return node == o.node && port == o.port; }
};
struct Conn { int comp; End s, r; };
struct Signal { Kind kind; End sender; std::vector<End> receivers; uint64_t seed; };

struct Flow
{
  std::vector<Node> nodes; // 0: top level
  std::vector<int> atoms;  // topologically ordered
  std::vector<Signal> signals;
  std::vector<Conn> conns;
  End addPort(int node, bool input, Kind const& k, bool poly)
  {
    nodes[node].ports.push_back(Port{input, k, (input ? "pin" : "pout") + std::to_string(nodes[node].ports.size()), poly});
    return End{node, (int)nodes[node].ports.size() - 1};
  }
  bool isAncestorOrSelf(int a, int b) const
  {
    while (b != -1) { if (a == b) return true; b = nodes[b].parent; }
    return false;
  }
};

inline Kind anyKind(pbt::Case& c)
{
  Kind k;
  k.protocol = (int)c.draw(3);
  k.type = (int)c.draw(4);
  k.n = c.size(1, 4);
  return k;
}

inline Flow generate(pbt::Case& c, std::size_t maxAtoms, std::size_t maxComposites, std::size_t maxSignals)
{
  Flow f;
  f.nodes.emplace_back();
  f.nodes[0].composite = true;
  f.nodes[0].name = "top";
  std::size_t const nComp = c.wide(0, maxComposites, 3 * maxComposites), nAtoms = c.wide(1, maxAtoms, 3 * maxAtoms);
  for (std::size_t i = 0; i < nComp; ++i)
  {
    Node n;
    n.composite = true;
    n.parent = (int)c.draw(i + 1);
    n.name = "c" + std::to_string(i + 1);
    f.nodes.push_back(n);
  }
  for (std::size_t i = 0; i < nAtoms; ++i)
  {
    Node n;
    n.parent = (int)c.draw(nComp + 1);
    n.name = "a" + std::to_string(i);
    f.atoms.push_back((int)f.nodes.size());
    f.nodes.push_back(n);
  }
  std::size_t const nSig = c.wide(1, maxSignals, 3 * maxSignals);
  for (std::size_t s = 0; s < nSig; ++s)
  {
    Signal sig;
    sig.kind = anyKind(c);
    sig.seed = c.seed();
    // position -1: external
    int from = (int)c.range(-1, (int)nAtoms - 1);
    sig.sender = from < 0 ? f.addPort(0, true, sig.kind, c.flag()) : f.addPort(f.atoms[from], false, sig.kind, c.flag());
    std::size_t nr = sig.kind.protocol == 2 ? 1 : c.wide(1, 4, 24);
    for (std::size_t r = 0; r < nr; ++r)
    {
      int to = (int)c.range(from + 1, (int)nAtoms); // nAtoms: external output
      sig.receivers.push_back(to == (int)nAtoms ? f.addPort(0, false, sig.kind, c.flag()) : f.addPort(f.atoms[to], true, sig.kind, c.flag()));
    }
    // lowering
    std::map<int, End> exported, imported;
    for (End const& dst : sig.receivers)
    {
      End cur = sig.sender;
      bool fresh = false;
      int loc = cur.node == 0 ? 0 : f.nodes[cur.node].parent;
      int const target = dst.node == 0 ? 0 : f.nodes[dst.node].parent;
      while (!f.isAncestorOrSelf(loc, target))
      {
        if (!fresh && exported.count(loc) && c.chance(70)) cur = exported[loc];
        else
        {
          End o = f.addPort(loc, false, sig.kind, c.flag());
          f.conns.push_back(Conn{loc, cur, o});
          exported[loc] = cur = o;
          fresh = true;
        }
        loc = f.nodes[loc].parent;
      }
      if (nComp && c.chance(12))
      {
        std::vector<int> kids;
        for (std::size_t i = 1; i <= nComp; ++i) if (f.nodes[i].parent == loc) kids.push_back((int)i);
        if (!kids.empty())
        {
          int k = kids[c.draw(kids.size())];
          End i = f.addPort(k, true, sig.kind, c.flag()), o = f.addPort(k, false, sig.kind, c.flag());
          f.conns.push_back(Conn{loc, cur, i});
          f.conns.push_back(Conn{k, i, o});
          cur = o;
          fresh = true;
        }
      }
      std::vector<int> down;
      for (int t = target; t != loc; t = f.nodes[t].parent) down.push_back(t);
      for (std::size_t i = down.size(); i-- > 0;)
      {
        int d = down[i];
        if (!fresh && imported.count(d) && c.chance(70)) cur = imported[d];
        else
        {
          End p = f.addPort(d, true, sig.kind, c.flag());
          f.conns.push_back(Conn{loc, cur, p});
          imported[d] = cur = p;
          fresh = true;
        }
        loc = d;
      }
      f.conns.push_back(Conn{target, cur, dst});
    }
    f.signals.push_back(sig);
  }
  return f;
}

// --- scripted behaviour (the same for the real ports and for the model) ----------
struct SendOp { int what; int code; bool copy; }; // shared: 0 set; double: 0 write+swap, 1 write only, 2 swap only; queue: 0 enqueue
inline std::vector<SendOp> sendScript(Signal const& s, std::size_t block)
{
  pbt::Rng r(s.seed * 1000003ull + block * 7919ull + 1);
  std::vector<SendOp> ops;
  std::size_t n = r.below(4) == 0 ? 0 : 1 + r.below(3);
  for (std::size_t i = 0; i < n; ++i)
  {
    int code = (int)(1 + r.below(9999));
    int what = s.kind.protocol == 1 ? (r.below(6) < 4 ? 0 : (int)(1 + r.below(2))) : 0;
    ops.push_back(SendOp{what, code, r.below(2) == 0});
  }
  return ops;
}
struct RecvOp { bool reset; std::size_t pops; };
inline RecvOp recvScript(Signal const& s, std::size_t receiver, std::size_t block)
{
  pbt::Rng r(s.seed * 31ull + receiver * 1299709ull + block * 104729ull + 5);
  RecvOp o{r.below(10) < 7, r.below(6)};
  return o;
}
struct Model
{
  Signal const* s = nullptr;
  int value = -1;                   // shared
  int front = -1, back = -1;        // double buffering; -1: never written
  std::vector<bool> changed;
  std::deque<int> queue;
  std::size_t sent = 0; // blocks in which the sender has run
  void init(Signal const& sig) { s = &sig; changed.assign(sig.receivers.size(), false); }
};
inline void sendStep(Model& m, CommunicationProtocolBase::Output& port, std::size_t block)
{
  Kind const& k = m.s->kind;
  ++m.sent;
  for (SendOp const& op : sendScript(*m.s, block))
  {
    if (k.protocol == 0)
    {
      auto& o = dynamic_cast<pml::SharedDataProtocol::OutputBase&>(port);
      store(o.data(), k, op.code);
      m.value = op.code;
    }
    else if (k.protocol == 1)
    {
      auto& o = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(port);
      if (op.what != 2) { store(o.data(), k, op.code); m.front = op.code; }
      if (op.what != 1)
      {
        o.swapBuffers(op.copy);
        std::swap(m.front, m.back);
        if (op.copy) m.front = m.back;
        m.changed.assign(m.changed.size(), true);
      }
      if (m.front != -1) PBT_CHECK(holds(o.data(), k, m.front), "block " << block << ": sender's double buffer does not hold " << m.front);
    }
    else
    {
      auto& o = dynamic_cast<pml::MessageQueueProtocol::OutputBase&>(port);
      o.enqueue(make(k, op.code));
      m.queue.push_back(op.code);
      PBT_CHECK(o.size() == m.queue.size() && !o.empty(), "queue size seen by the sender");
    }
  }
}
inline void recvStep(Model& m, std::size_t idx, CommunicationProtocolBase::Input& port, std::size_t block)
{
  Kind const& k = m.s->kind;
  RecvOp const op = recvScript(*m.s, idx, block);
  PBT_CHECK(m.sent == block + 1, "block " << block << " receiver " << idx << ": the receiver runs before the sender");
  if (k.protocol == 0)
  {
    auto& i = dynamic_cast<pml::SharedDataProtocol::InputBase&>(port);
    if (m.value != -1) PBT_CHECK(holds(i.data(), k, m.value), "block " << block << " receiver " << idx << ": shared data is not the value " << m.value << " set by the sender");
  }
  else if (k.protocol == 1)
  {
    auto& i = dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(port);
    PBT_CHECK(i.changed() == m.changed[idx], "block " << block << " receiver " << idx << ": changed() is " << i.changed());
    if (m.back != -1) PBT_CHECK(holds(i.data(), k, m.back), "block " << block << " receiver " << idx << ": double-buffered value is not " << m.back);
    if (op.reset) { i.resetChanged(); m.changed[idx] = false; PBT_CHECK(!i.changed(), "resetChanged"); }
  }
  else
  {
    auto& i = dynamic_cast<pml::MessageQueueProtocol::InputBase&>(port);
    PBT_CHECK(i.size() == m.queue.size() && i.empty() == m.queue.empty(), "block " << block << ": queue size " << i.size() << " expected " << m.queue.size());
    for (std::size_t p = 0; p < op.pops && !m.queue.empty(); ++p)
    {
      PBT_CHECK(holds(i.front(), k, m.queue.front()), "block " << block << ": message is not " << m.queue.front() << " (first in, first out)");
      i.pop();
      m.queue.pop_front();
    }
    if (op.pops == 5 && op.reset) { i.clear(); m.queue.clear(); PBT_CHECK(i.empty(), "clear"); }
    if (m.queue.empty())
    {
      pbt::mustThrow([&] { (void)i.front(); }, "front() of an empty queue");
      pbt::mustThrow([&] { i.pop(); }, "pop() on an empty queue");
    }
  }
}

// --- real components -----------------------------------------------------------------
template <class Prot> ParameterPortBase* typedPort(Component& c, Port const& s)
{
  char const* n = s.name.c_str();
  std::size_t z = s.kind.n;
  switch (s.kind.type)
  {
  case 0: if (s.input) return new ParameterInput<Prot, Int>(n, c, pml::EmptyParameterConfig()); else return new ParameterOutput<Prot, Int>(n, c, pml::EmptyParameterConfig());
  case 1: if (s.input) return new ParameterInput<Prot, Str>(n, c, pml::EmptyParameterConfig()); else return new ParameterOutput<Prot, Str>(n, c, pml::EmptyParameterConfig());
  case 2: if (s.input) return new ParameterInput<Prot, Vec>(n, c, pml::VectorParameterConfig(z)); else return new ParameterOutput<Prot, Vec>(n, c, pml::VectorParameterConfig(z));
  default: if (s.input) return new ParameterInput<Prot, Mat>(n, c, pml::MatrixParameterConfig(2, z)); else return new ParameterOutput<Prot, Mat>(n, c, pml::MatrixParameterConfig(2, z));
  }
}
inline ParameterPortBase* makePort(Component& c, Port const& s)
{
  if (s.polymorphic)
  {
    auto cfg = config(s.kind);
    if (s.input) return new PolymorphicParameterInput(s.name.c_str(), c, typeId(s.kind), protocolId(s.kind), *cfg);
    return new PolymorphicParameterOutput(s.name.c_str(), c, typeId(s.kind), protocolId(s.kind), *cfg);
  }
  return s.kind.protocol == 0 ? typedPort<pml::SharedDataProtocol>(c, s) : s.kind.protocol == 1 ? typedPort<pml::DoubleBufferingProtocol>(c, s) : typedPort<pml::MessageQueueProtocol>(c, s);
}
class Comp : public CompositeComponent
{
public:
  Comp(SignalFlowContext const& ctx, char const* name, CompositeComponent* parent, std::vector<Port> const& specs) : CompositeComponent(ctx, name, parent)
  {
    for (auto const& s : specs) ports.emplace_back(makePort(*this, s));
  }
  std::vector<std::unique_ptr<ParameterPortBase>> ports;
};
struct State
{
  Flow const* f = nullptr;
  std::vector<Model> models;
  std::string error;
};
class Atom : public AtomicComponent
{
public:
  Atom(SignalFlowContext const& ctx, char const* name, CompositeComponent* parent, std::vector<Port> const& specs, int id, State& st)
    : AtomicComponent(ctx, name, parent), mId(id), mState(st)
  {
    for (auto const& s : specs) ports.emplace_back(makePort(*this, s));
  }
  void process() override
  {
    std::size_t const block = mCalls++;
    if (!mState.f || !mState.error.empty()) return;
    try
    {
      Flow const& f = *mState.f;
      for (std::size_t s = 0; s < f.signals.size(); ++s)
        for (std::size_t r = 0; r < f.signals[s].receivers.size(); ++r)
          if (f.signals[s].receivers[r].node == mId)
            recvStep(mState.models[s], r, dynamic_cast<ParameterInputBase&>(*ports[f.signals[s].receivers[r].port]).protocolInput(), block);
      for (std::size_t s = 0; s < f.signals.size(); ++s)
        if (f.signals[s].sender.node == mId)
          sendStep(mState.models[s], dynamic_cast<ParameterOutputBase&>(*ports[f.signals[s].sender.port]).protocolOutput(), block);
    }
    catch (pbt::Failure const& e) { mState.error = std::string(name()) + ": " + e.msg; }
  }
  std::vector<std::unique_ptr<ParameterPortBase>> ports;

private:
  int mId;
  State& mState;
  std::size_t mCalls = 0;
};
struct Built
{
  SignalFlowContext ctx;
  State state;
  std::vector<std::unique_ptr<Component>> comps;
  std::vector<int> order;
  Built() : ctx(8, 48000) {}
  Component& top() { return *comps[0]; }
  ~Built() { for (std::size_t i = order.size(); i-- > 0;) comps[order[i]].reset(); }
  ParameterPortBase& port(Flow const& f, End const& e)
  {
    return f.nodes[e.node].composite ? *static_cast<Comp&>(*comps[e.node]).ports[e.port] : *static_cast<Atom&>(*comps[e.node]).ports[e.port];
  }
  void instantiate(Flow const& f, uint64_t seed)
  {
    pbt::Rng r(seed);
    comps.resize(f.nodes.size());
    std::vector<int> ready{0};
    while (!ready.empty())
    {
      std::size_t i = r.below(ready.size());
      int n = ready[i];
      ready.erase(ready.begin() + i);
      Node const& nd = f.nodes[n];
      CompositeComponent* par = n == 0 ? nullptr : static_cast<Comp*>(comps[nd.parent].get());
      if (nd.composite) comps[n].reset(new Comp(ctx, nd.name.c_str(), par, nd.ports));
      else comps[n].reset(new Atom(ctx, nd.name.c_str(), par, nd.ports, n, state));
      order.push_back(n);
      for (std::size_t k = 1; k < f.nodes.size(); ++k) if (f.nodes[k].parent == n) ready.push_back((int)k);
    }
  }
  void connect(pbt::Case& c, Flow const& f)
  {
    std::vector<Conn> conns = f.conns;
    pbt::Rng shuffle(c.seed());
    for (std::size_t i = conns.size(); i > 1; --i) std::swap(conns[i - 1], conns[shuffle.below(i)]);
    for (auto const& k : conns)
    {
      Comp& cc = static_cast<Comp&>(*comps[k.comp]);
      if (c.flag())
      {
        auto nm = [&](int n) { return n == k.comp ? std::string(c.flag() ? "this" : "") : f.nodes[n].name; };
        cc.parameterConnection(nm(k.s.node).c_str(), f.nodes[k.s.node].ports[k.s.port].name.c_str(), nm(k.r.node).c_str(), f.nodes[k.r.node].ports[k.r.port].name.c_str());
      }
      else cc.parameterConnection(port(f, k.s), port(f, k.r));
    }
  }
  void start(Flow const& f)
  {
    state.models.resize(f.signals.size());
    for (std::size_t i = 0; i < f.signals.size(); ++i) state.models[i].init(f.signals[i]);
    state.f = &f;
  }
};
inline void describe(pbt::Case& c, Flow const& f)
{
  for (std::size_t i = 1; i < f.nodes.size(); ++i) c.note() << f.nodes[i].name << "(in " << f.nodes[f.nodes[i].parent].name << ") ";
  auto en = [&](End const& e) { return f.nodes[e.node].name + "." + f.nodes[e.node].ports[e.port].name; };
  for (auto const& s : f.signals)
  {
    c.note() << "; " << (s.kind.protocol == 0 ? "shared" : s.kind.protocol == 1 ? "double" : "queue") << "/" << s.kind.type << ": " << en(s.sender) << " ->";
    for (auto const& r : s.receivers) c.note() << " " << en(r);
  }
  c.note() << "; connections:";
  for (auto const& k : f.conns) c.note() << " " << en(k.s) << ">" << en(k.r);
}
} // namespace pplan
#endif
