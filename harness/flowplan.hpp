// Random hierarchical signal flows: a flat acyclic graph of atoms is generated
// first, then the atoms are distributed over a random tree of composites and
// every edge is lowered to chains of connections through composite ports.
#ifndef VERIF_FLOWPLAN_HPP
#define VERIF_FLOWPLAN_HPP
#include "flow.hpp"

#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/channel_list.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/time.hpp>

#include <algorithm>
#include <map>
#include <set>
#include <tuple>

namespace plan
{
using Sig = std::vector<std::vector<double>>; // channels x samples

struct Port
{
  bool input;
  int type; // 0 float, 1 double
  std::size_t width;
  std::string name;
};
struct Node
{
  int parent = -1;
  bool composite = false;
  std::string name;
  std::vector<Port> ports;
  uint64_t seed = 0;
  std::size_t channels(bool input) const
  {
    std::size_t n = 0;
    for (auto const& p : ports) if (p.input == input) n += p.width;
    return n;
  }
};
struct End
{
  int node, port;
  std::size_t ch;
  bool operator<(End const& o) const { return std::tie(node, port, ch) < std::tie(o.node, o.port, o.ch); }
  bool operator==(End const& o) const { return std::tie(node, port, ch) == std::tie(o.node, o.port, o.ch); }
};
struct Conn
{
  int comp;
  End s, r;
};
// behaviour of an atom: every output channel is a weighted sum of input channels of this block and of the previous one
struct Behaviour
{
  struct Term { std::size_t in; double w; bool previous; };
  std::vector<std::vector<Term>> out;
  std::vector<double> bias;
  Sig prev;
  Behaviour() {}
  Behaviour(uint64_t seed, std::size_t nIn, std::size_t nOut, std::size_t period)
    : out(nOut), bias(nOut), prev(nIn, std::vector<double>(period, 0.0))
  {
    pbt::Rng r(seed);
    for (std::size_t o = 0; o < nOut; ++o)
    {
      bias[o] = r.uniform(-1, 1);
      std::size_t n = nIn ? 1 + r.below(3) : 0;
      for (std::size_t k = 0; k < n; ++k) out[o].push_back(Term{(std::size_t)r.below(nIn), r.uniform(-0.6, 0.6), r.below(4) == 0});
    }
  }
  // block-periodic bias makes a skipped or repeated execution visible
  Sig step(Sig const& in, std::size_t period, uint64_t block)
  {
    Sig y(out.size(), std::vector<double>(period));
    for (std::size_t o = 0; o < out.size(); ++o)
      for (std::size_t n = 0; n < period; ++n)
      {
        double a = bias[o] * (double)((block + n) % 7);
        for (auto const& t : out[o]) a += t.w * (t.previous ? prev : in)[t.in][n];
        y[o][n] = a;
      }
    prev = in;
    return y;
  }
};

struct Flow
{
  std::size_t period = 1;
  std::vector<Node> nodes; // node 0: top level composite
  std::vector<int> atoms;  // topologically ordered
  std::map<End, End> flat; // receive end -> original send end (atoms, top level)
  std::vector<Conn> conns;
  std::map<std::tuple<int, bool, int>, std::vector<int>> phPorts; // composite, input, type -> port indices

  bool isAncestorOrSelf(int a, int b) const
  {
    while (b != -1) { if (a == b) return true; b = nodes[b].parent; }
    return false;
  }
  End allocate(pbt::Case& c, int comp, bool input, int type)
  {
    auto& v = phPorts[std::make_tuple(comp, input, type)];
    if (v.empty() || (v.size() < 3 && c.chance(15)))
    {
      std::string name = (input ? "in" : "out") + std::to_string(nodes[comp].ports.size());
      nodes[comp].ports.push_back(Port{input, type, 0, name});
      v.push_back((int)nodes[comp].ports.size() - 1);
    }
    int p = v[c.draw(v.size())];
    return End{comp, p, nodes[comp].ports[p].width++};
  }
  int typeOf(End const& e) const { return nodes[e.node].ports[e.port].type; }
};

inline Flow generate(pbt::Case& c, std::size_t maxAtoms, std::size_t maxComposites)
{
  Flow f;
  f.period = c.wide(1, 20, 300);
  f.nodes.emplace_back();
  f.nodes[0].composite = true;
  f.nodes[0].name = "top";
  auto width = [&](std::size_t hi) { return c.chance(8) ? 0 : c.wide(1, hi, 12 * hi); };
  // top level inputs
  std::size_t nTopIn = c.size(0, 2);
  for (std::size_t i = 0; i < nTopIn; ++i) f.nodes[0].ports.push_back(Port{true, 0, width(5), "in" + std::to_string(i)});
  // hierarchy
  std::size_t const nComp = c.wide(0, maxComposites, 4 * maxComposites);
  for (std::size_t i = 0; i < nComp; ++i)
  {
    Node n;
    n.composite = true;
    n.parent = (int)c.draw(i + 1);
    n.name = "c" + std::to_string(i + 1);
    f.nodes.push_back(n);
  }
  // senders by type
  std::vector<End> src[2];
  for (std::size_t p = 0; p < f.nodes[0].ports.size(); ++p)
    for (std::size_t ch = 0; ch < f.nodes[0].ports[p].width; ++ch) src[0].push_back(End{0, (int)p, ch});
  std::set<End> unused[2];
  for (auto& e : src[0]) unused[0].insert(e);
  auto fillPort = [&](int node, int port, int type, std::size_t w) {
    std::size_t mode = c.weighted({3, 3, 1, 2}), at = src[type].empty() ? 0 : (std::size_t)c.draw(src[type].size());
    std::vector<End> un(unused[type].begin(), unused[type].end());
    for (std::size_t ch = 0; ch < w; ++ch)
    {
      End s;
      if (mode == 0) s = src[type][(at + ch) % src[type].size()];
      else if (mode == 1) s = src[type][c.draw(src[type].size())];
      else if (mode == 2) s = src[type][at];
      else s = un.empty() ? src[type][(at + ch) % src[type].size()] : un[(at + ch) % un.size()];
      unused[type].erase(s);
      f.flat[End{node, port, ch}] = s;
    }
  };
  std::size_t const nAtoms = c.wide(0, maxAtoms, 4 * maxAtoms);
  for (std::size_t i = 0; i < nAtoms; ++i)
  {
    Node n;
    n.parent = (int)c.draw(nComp + 1);
    n.name = "a" + std::to_string(i);
    n.seed = c.seed();
    int const id = (int)f.nodes.size();
    std::size_t nin = c.wide(0, 3, 10), nout = c.wide(0, 3, 10);
    for (std::size_t p = 0; p < nin; ++p)
    {
      int type = c.chance(25) ? 1 : 0;
      if (src[type].empty()) type = 1 - type;
      std::size_t w = src[type].empty() ? 0 : width(5);
      n.ports.push_back(Port{true, type, w, "i" + std::to_string(p)});
    }
    for (std::size_t p = 0; p < nout; ++p)
      n.ports.push_back(Port{false, c.chance(25) ? 1 : 0, width(4), "o" + std::to_string(p)});
    f.nodes.push_back(n);
    f.atoms.push_back(id);
    for (std::size_t p = 0; p < nin; ++p) fillPort(id, (int)p, n.ports[p].type, n.ports[p].width);
    for (std::size_t p = nin; p < nin + nout; ++p)
      for (std::size_t ch = 0; ch < n.ports[p].width; ++ch)
      {
        End e{id, (int)p, ch};
        src[n.ports[p].type].push_back(e);
        unused[n.ports[p].type].insert(e);
      }
  }
  // top level outputs (float only)
  std::size_t nTopOut = c.size(0, 2);
  for (std::size_t i = 0; i < nTopOut; ++i)
  {
    std::size_t w = src[0].empty() ? 0 : width(6);
    f.nodes[0].ports.push_back(Port{false, 0, w, "out" + std::to_string(i)});
    fillPort(0, (int)f.nodes[0].ports.size() - 1, 0, w);
  }
  // sinks for everything unused
  if (!unused[0].empty() || !unused[1].empty())
  {
    Node n;
    n.parent = (int)c.draw(nComp + 1);
    n.name = "sink";
    int const id = (int)f.nodes.size();
    for (int t = 0; t < 2; ++t)
      if (!unused[t].empty())
      {
        int p = (int)n.ports.size();
        n.ports.push_back(Port{true, t, unused[t].size(), "i" + std::to_string(p)});
        std::size_t ch = 0;
        for (auto const& s : unused[t]) f.flat[End{id, p, ch++}] = s;
      }
    f.nodes.push_back(n);
    f.atoms.push_back(id);
  }
  // lower the flat edges to the hierarchy
  std::vector<std::pair<End, End>> edges(f.flat.begin(), f.flat.end()); // (receive, send)
  if (c.flag())
  {
    pbt::Rng r(c.seed());
    for (std::size_t i = edges.size(); i > 1; --i) std::swap(edges[i - 1], edges[r.below(i)]);
  }
  std::map<std::pair<End, int>, End> exported, imported; // (origin, composite) -> placeholder channel
  for (auto const& e : edges)
  {
    End const dst = e.first, origin = e.second;
    int const type = f.typeOf(origin);
    End cur = origin;
    bool fresh = false; // cur is a new placeholder channel that nothing reads yet
    int loc = cur.node == 0 ? 0 : f.nodes[cur.node].parent;
    int const target = dst.node == 0 ? 0 : f.nodes[dst.node].parent;
    while (!f.isAncestorOrSelf(loc, target))
    {
      auto it = exported.find({origin, loc});
      if (!fresh && it != exported.end() && c.chance(60)) cur = it->second;
      else
      {
        End o = f.allocate(c, loc, false, type);
        f.conns.push_back(Conn{loc, cur, o});
        exported[{origin, loc}] = o;
        cur = o;
        fresh = true;
      }
      loc = f.nodes[loc].parent;
    }
    if (nComp && c.chance(12)) // detour straight through a composite at this level
    {
      std::vector<int> kids;
      for (std::size_t i = 1; i <= nComp; ++i) if (f.nodes[i].parent == loc) kids.push_back((int)i);
      if (!kids.empty())
      {
        int k = kids[c.draw(kids.size())];
        End i = f.allocate(c, k, true, type), o = f.allocate(c, k, false, type);
        f.conns.push_back(Conn{loc, cur, i});
        f.conns.push_back(Conn{k, i, o});
        cur = o;
        fresh = true;
      }
    }
    std::vector<int> down;
    for (int t = target; t != loc; t = f.nodes[t].parent) down.push_back(t);
    for (std::size_t i = down.size(); i-- > 0;)
    {
      int d = down[i];
      auto it = imported.find({origin, d});
      if (!fresh && it != imported.end() && c.chance(60)) cur = it->second;
      else
      {
        End p = f.allocate(c, d, true, type);
        f.conns.push_back(Conn{loc, cur, p});
        imported[{origin, d}] = p;
        cur = p;
        fresh = true;
      }
      loc = d;
    }
    f.conns.push_back(Conn{target, cur, dst});
  }
  return f;
}

// reference evaluation of the flat graph
struct Reference
{
  Flow const& f;
  std::map<int, Behaviour> beh;
  uint64_t block = 0;
  explicit Reference(Flow const& fl) : f(fl)
  {
    for (int a : f.atoms) beh[a] = Behaviour(f.nodes[a].seed, f.nodes[a].channels(true), f.nodes[a].channels(false), f.period);
  }
  Sig step(Sig const& top)
  {
    std::map<End, std::vector<double>> val;
    std::size_t k = 0;
    for (std::size_t p = 0; p < f.nodes[0].ports.size(); ++p)
      if (f.nodes[0].ports[p].input)
        for (std::size_t ch = 0; ch < f.nodes[0].ports[p].width; ++ch) val[End{0, (int)p, ch}] = top[k++];
    for (int a : f.atoms)
    {
      Node const& n = f.nodes[a];
      Sig in;
      for (std::size_t p = 0; p < n.ports.size(); ++p)
        if (n.ports[p].input)
          for (std::size_t ch = 0; ch < n.ports[p].width; ++ch) in.push_back(val.at(f.flat.at(End{a, (int)p, ch})));
      Sig out = beh[a].step(in, f.period, block);
      k = 0;
      for (std::size_t p = 0; p < n.ports.size(); ++p)
        if (!n.ports[p].input)
          for (std::size_t ch = 0; ch < n.ports[p].width; ++ch, ++k)
          {
            if (n.ports[p].type == 0) for (auto& x : out[k]) x = (double)(float)x;
            val[End{a, (int)p, ch}] = out[k];
          }
    }
    Sig res;
    for (std::size_t p = 0; p < f.nodes[0].ports.size(); ++p)
      if (!f.nodes[0].ports[p].input)
        for (std::size_t ch = 0; ch < f.nodes[0].ports[p].width; ++ch) res.push_back(val.at(f.flat.at(End{0, (int)p, ch})));
    ++block;
    return res;
  }
};

// --- real components ---------------------------------------------------------
struct Ports
{
  std::vector<std::unique_ptr<visr::AudioPortBase>> p;
  void make(visr::Component& c, std::vector<Port> const& specs)
  {
    for (auto const& s : specs)
    {
      if (s.input && s.type == 0) p.emplace_back(new visr::AudioInputT<float>(s.name.c_str(), c, s.width));
      else if (s.input) p.emplace_back(new visr::AudioInputT<double>(s.name.c_str(), c, s.width));
      else if (s.type == 0) p.emplace_back(new visr::AudioOutputT<float>(s.name.c_str(), c, s.width));
      else p.emplace_back(new visr::AudioOutputT<double>(s.name.c_str(), c, s.width));
    }
  }
};
class Comp : public visr::CompositeComponent
{
public:
  Comp(visr::SignalFlowContext const& ctx, char const* name, visr::CompositeComponent* parent, std::vector<Port> const& specs)
    : visr::CompositeComponent(ctx, name, parent)
  {
    ports.make(*this, specs);
  }
  Ports ports;
};
class Atom : public visr::AtomicComponent
{
public:
  Atom(visr::SignalFlowContext const& ctx, char const* name, visr::CompositeComponent* parent, Node const& n)
    : visr::AtomicComponent(ctx, name, parent), mNode(n), mBeh(n.seed, n.channels(true), n.channels(false), ctx.period())
  {
    ports.make(*this, n.ports);
  }
  void process() override
  {
    Sig in;
    for (std::size_t p = 0; p < mNode.ports.size(); ++p)
    {
      if (!mNode.ports[p].input) continue;
      for (std::size_t ch = 0; ch < mNode.ports[p].width; ++ch)
      {
        std::vector<double> v(period());
        if (mNode.ports[p].type == 0) { float const* d = (*static_cast<visr::AudioInputT<float>*>(ports.p[p].get()))[ch]; std::copy(d, d + period(), v.begin()); }
        else { double const* d = (*static_cast<visr::AudioInputT<double>*>(ports.p[p].get()))[ch]; std::copy(d, d + period(), v.begin()); }
        in.push_back(v);
      }
    }
    if (time().blockCount() != calls || time().sampleCount() != calls * period()) timeOk = false;
    double const seconds = (double)(calls * period()) / (double)samplingFrequency();
    if (!(std::abs(time().renderingTime() - seconds) <= 1e-12 * seconds)) timeOk = false;
    Sig out = mBeh.step(in, period(), calls);
    std::size_t k = 0;
    for (std::size_t p = 0; p < mNode.ports.size(); ++p)
    {
      if (mNode.ports[p].input) continue;
      for (std::size_t ch = 0; ch < mNode.ports[p].width; ++ch, ++k)
      {
        if (mNode.ports[p].type == 0)
        {
          float* d = (*static_cast<visr::AudioOutputT<float>*>(ports.p[p].get()))[ch];
          for (std::size_t i = 0; i < period(); ++i) d[i] = (float)out[k][i];
        }
        else
        {
          double* d = (*static_cast<visr::AudioOutputT<double>*>(ports.p[p].get()))[ch];
          std::copy(out[k].begin(), out[k].end(), d);
        }
      }
    }
    ++calls;
  }
  Ports ports;
  std::size_t calls = 0;
  bool timeOk = true;

private:
  Node mNode;
  Behaviour mBeh;
};

struct Built
{
  visr::SignalFlowContext ctx;
  std::vector<std::unique_ptr<visr::Component>> comps; // by node
  std::vector<int> order;
  explicit Built(std::size_t period) : ctx(period, 48000) {}
  ~Built()
  {
    for (std::size_t i = order.size(); i-- > 0;) comps[order[i]].reset();
  }
  visr::Component& top() { return *comps[0]; }
  visr::AudioPortBase& port(Flow const& f, int node, int p)
  {
    return f.nodes[node].composite ? *static_cast<Comp&>(*comps[node]).ports.p[p] : *static_cast<Atom&>(*comps[node]).ports.p[p];
  }
  void instantiate(Flow const& f, uint64_t seed)
  {
    pbt::Rng r(seed);
    comps.resize(f.nodes.size());
    std::vector<int> ready{0};
    while (!ready.empty())
    {
      std::size_t i = r.below(ready.size());
      int n = ready[i];
      ready.erase(ready.begin() + i);
      Node const& nd = f.nodes[n];
      visr::CompositeComponent* par = n == 0 ? nullptr : static_cast<Comp*>(comps[nd.parent].get());
      if (nd.composite) comps[n].reset(new Comp(ctx, nd.name.c_str(), par, nd.ports));
      else comps[n].reset(new Atom(ctx, nd.name.c_str(), par, nd));
      order.push_back(n);
      for (std::size_t k = 1; k < f.nodes.size(); ++k) if (f.nodes[k].parent == n) ready.push_back((int)k);
    }
  }
  // registers all connections, with a random mix of the connection calls
  void connect(pbt::Case& c, Flow const& f)
  {
    std::map<std::tuple<int, int, int, int, int>, std::vector<std::pair<std::size_t, std::size_t>>> groups;
    for (auto const& k : f.conns) groups[std::make_tuple(k.comp, k.s.node, k.s.port, k.r.node, k.r.port)].push_back({k.s.ch, k.r.ch});
    std::vector<std::pair<std::tuple<int, int, int, int, int>, std::vector<std::pair<std::size_t, std::size_t>>>> order(groups.begin(), groups.end());
    pbt::Rng shuffle(c.seed());
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[shuffle.below(i)]);
    for (auto& g : order)
    {
      int comp, sn, sp, rn, rp;
      std::tie(comp, sn, sp, rn, rp) = g.first;
      auto& v = g.second;
      Comp& cc = static_cast<Comp&>(*comps[comp]);
      std::sort(v.begin(), v.end(), [](std::pair<std::size_t, std::size_t> a, std::pair<std::size_t, std::size_t> b) { return a.second < b.second; });
      bool identity = v.size() == f.nodes[sn].ports[sp].width && v.size() == f.nodes[rn].ports[rp].width;
      for (std::size_t i = 0; identity && i < v.size(); ++i) identity = v[i].first == i && v[i].second == i;
      if (identity && c.flag()) { cc.audioConnection(port(f, sn, sp), port(f, rn, rp)); continue; }
      if (c.flag())
      {
        pbt::Rng r(c.seed());
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
      }
      std::size_t at = 0;
      while (at < v.size())
      {
        std::size_t n = c.chance(25) ? c.size(1, v.size() - at) : v.size() - at;
        std::vector<std::size_t> si, ri;
        for (std::size_t i = at; i < at + n; ++i) { si.push_back(v[i].first); ri.push_back(v[i].second); }
        at += n;
        visr::ChannelList sl(si), rl(ri);
        // arithmetic progression: may be given as a range
        if (n >= 2 && c.flag())
        {
          auto prog = [](std::vector<std::size_t> const& x) {
            for (std::size_t i = 2; i < x.size(); ++i) if (x[i] - x[i - 1] != x[1] - x[0]) return false;
            return x[1] > x[0];
          };
          auto range = [](std::vector<std::size_t> const& x) { return visr::ChannelRange(x[0], x.back() + 1, (std::ptrdiff_t)(x[1] - x[0])); };
          if (prog(si)) sl = visr::ChannelList(range(si));
          if (prog(ri)) rl = visr::ChannelList(range(ri));
        }
        if (c.flag())
        {
          auto nm = [&](int n) { return n == comp ? std::string(c.flag() ? "this" : "") : f.nodes[n].name; };
          cc.audioConnection(nm(sn).c_str(), f.nodes[sn].ports[sp].name.c_str(), sl, nm(rn).c_str(), f.nodes[rn].ports[rp].name.c_str(), rl);
        }
        else cc.audioConnection(port(f, sn, sp), sl, port(f, rn, rp), rl);
      }
    }
  }
};
inline Sig randomInput(pbt::Rng& r, std::size_t ch, std::size_t n)
{
  Sig s(ch, std::vector<double>(n));
  for (auto& v : s) for (auto& x : v) x = (double)(float)r.uniform(-1, 1);
  return s;
}
inline void describe(pbt::Case& c, Flow const& f)
{
  c.note() << "period=" << f.period << " nodes=" << f.nodes.size() << " atoms=" << f.atoms.size() << " edges=" << f.flat.size() << " connections=" << f.conns.size();
  for (std::size_t i = 0; i < f.nodes.size(); ++i)
  {
    c.note() << "; " << f.nodes[i].name << "(parent " << f.nodes[i].parent << "):";
    for (auto const& p : f.nodes[i].ports) c.note() << " " << p.name << "[" << p.width << (p.type ? "d" : "f") << "]";
  }
  c.note() << "; flat:";
  for (auto const& e : f.flat)
    c.note() << " " << f.nodes[e.second.node].name << "." << f.nodes[e.second.node].ports[e.second.port].name << ":" << e.second.ch << ">"
             << f.nodes[e.first.node].name << "." << f.nodes[e.first.node].ports[e.first.port].name << ":" << e.first.ch;
}

} // namespace plan
#endif
