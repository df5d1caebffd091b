// A signal flow is accepted exactly if it is complete, unambiguous, type-consistent and acyclic.
#include "flowplan.hpp"
#include "paramplan.hpp"
#include <libpml/interpolation_parameter.hpp>
#include <libpml/time_frequency_parameter_config.hpp>
#include <iostream>

namespace
{
struct Quiet // the library reports loops on standard output
{
  Quiet() { std::cout.setstate(std::ios::failbit); }
  ~Quiet() { std::cout.clear(); }
};
// accepted: constructed without error and runs one block
int tryAudio(pbt::Case& c, plan::Flow const& f, std::function<void(plan::Built&)> extra, std::string& msg)
{
  Quiet q;
  return pbt::outcome([&] {
    plan::Built b(f.period);
    b.instantiate(f, 1);
    b.connect(c, f);
    if (extra) extra(b);
    visr::rrl::AudioSignalFlow flow(b.top());
    std::size_t const ni = flow.numberOfCaptureChannels(), no = flow.numberOfPlaybackChannels();
    std::vector<std::vector<float>> in(ni, std::vector<float>(f.period, 0.5f)), out(no, std::vector<float>(f.period));
    std::vector<float const*> ip;
    std::vector<float*> op;
    for (auto& v : in) ip.push_back(v.data());
    for (auto& v : out) op.push_back(v.data());
    flow.process(ip.data(), op.data());
  }, &msg);
}
std::string en(plan::Flow const& f, plan::End const& e) { return f.nodes[e.node].name + "." + f.nodes[e.node].ports[e.port].name + ":" + std::to_string(e.ch); }

void audio(pbt::Case& c)
{
  using namespace plan;
  Flow f = generate(c, 6, 3);
  std::size_t fault = c.draw(13);
  std::ostringstream what;
  std::function<void(Built&)> extra;
  bool valid = false;
  auto portEnds = [&](int comp) { // (senders, receivers) visible inside composite comp
    std::pair<std::vector<std::pair<int, int>>, std::vector<std::pair<int, int>>> r;
    for (std::size_t n = 0; n < f.nodes.size(); ++n)
    {
      bool self = (int)n == comp;
      if (!self && f.nodes[n].parent != comp) continue;
      for (std::size_t p = 0; p < f.nodes[n].ports.size(); ++p)
        if (f.nodes[n].ports[p].width)
          (f.nodes[n].ports[p].input == self ? r.first : r.second).push_back({(int)n, (int)p});
    }
    return r;
  };
  if (fault && f.conns.empty()) { valid = true; fault = 0; }
  switch (fault)
  {
  case 0: valid = true; what << "valid"; break;
  case 1:
  {
    std::size_t i = c.draw(f.conns.size());
    what << "connection removed: " << en(f, f.conns[i].s) << "->" << en(f, f.conns[i].r);
    f.conns.erase(f.conns.begin() + i);
    break;
  }
  case 2: // second, different sender for a connected receive channel
  {
    Conn k = f.conns[c.draw(f.conns.size())];
    auto ends = portEnds(k.comp);
    std::vector<End> alt;
    for (auto const& s : ends.first)
      for (std::size_t ch = 0; ch < f.nodes[s.first].ports[s.second].width; ++ch)
        if (!(End{s.first, s.second, ch} == k.s) && f.nodes[s.first].ports[s.second].type == f.typeOf(k.r)) alt.push_back(End{s.first, s.second, ch});
    if (alt.empty()) { valid = true; break; }
    End s = alt[c.draw(alt.size())];
    f.conns.push_back(Conn{k.comp, s, k.r});
    what << "second sender " << en(f, s) << " for " << en(f, k.r);
    break;
  }
  case 3: case 4: // port wider than what is connected
  {
    std::vector<std::pair<int, int>> ps;
    for (std::size_t n = 0; n < f.nodes.size(); ++n)
      for (std::size_t p = 0; p < f.nodes[n].ports.size(); ++p) ps.push_back({(int)n, (int)p});
    auto x = ps[c.draw(ps.size())];
    f.nodes[x.first].ports[x.second].width += c.size(1, 2);
    what << "unconnected extra channel of " << f.nodes[x.first].name << "." << f.nodes[x.first].ports[x.second].name;
    break;
  }
  case 5: // sample type mismatch
  {
    Conn k = f.conns[c.draw(f.conns.size())];
    End e = c.flag() ? k.s : k.r;
    int& t = f.nodes[e.node].ports[e.port].type;
    t = 1 - t;
    // flipping one end of all its connections is a mismatch, unless only ports of the same end are involved
    what << "sample type of " << en(f, e) << " changed to " << (t ? "double" : "float");
    break;
  }
  case 6: // channel index out of range
  {
    Conn k = f.conns[c.draw(f.conns.size())];
    bool snd = c.flag(), named = c.flag();
    std::size_t si = k.s.ch, ri = k.r.ch;
    if (snd) si = f.nodes[k.s.node].ports[k.s.port].width + c.size(0, 3);
    else ri = f.nodes[k.r.node].ports[k.r.port].width + c.size(0, 3);
    what << "index out of range " << en(f, k.s) << "->" << en(f, k.r) << " with " << si << "->" << ri << (named ? " by name" : "");
    extra = [&f, k, si, ri, named](Built& b) {
      Comp& cc = static_cast<Comp&>(*b.comps[k.comp]);
      auto nm = [&](int n) { return n == k.comp ? std::string("this") : f.nodes[n].name; };
      visr::ChannelList sl(std::vector<std::size_t>{si}), rl(std::vector<std::size_t>{ri});
      if (named) cc.audioConnection(nm(k.s.node).c_str(), f.nodes[k.s.node].ports[k.s.port].name.c_str(), sl, nm(k.r.node).c_str(), f.nodes[k.r.node].ports[k.r.port].name.c_str(), rl);
      else cc.audioConnection(b.port(f, k.s.node, k.s.port), sl, b.port(f, k.r.node, k.r.port), rl);
    };
    break;
  }
  case 7: // cycle: later (or same) atom feeds an earlier one that it depends on
  {
    // reachability over atoms
    std::map<int, std::set<int>> desc;
    for (std::size_t i = f.atoms.size(); i-- > 0;)
    {
      int a = f.atoms[i];
      desc[a].insert(a);
      for (auto const& e : f.flat) if (e.second.node == a && e.first.node != 0) desc[a].insert(desc[e.first.node].begin(), desc[e.first.node].end());
    }
    std::vector<std::pair<int, int>> cand; // (early, late) in the same composite
    for (int a : f.atoms) for (int d : desc[a]) if (f.nodes[a].parent == f.nodes[d].parent) cand.push_back({a, d});
    if (cand.empty()) { valid = true; break; }
    auto x = cand[c.draw(cand.size())];
    int type = c.flag();
    f.nodes[x.first].ports.push_back(Port{true, type, 1, "loop_in"});
    f.nodes[x.second].ports.push_back(Port{false, type, 1, "loop_out"});
    f.conns.push_back(Conn{f.nodes[x.first].parent, End{x.second, (int)f.nodes[x.second].ports.size() - 1, 0}, End{x.first, (int)f.nodes[x.first].ports.size() - 1, 0}});
    what << "cycle " << f.nodes[x.second].name << "->" << f.nodes[x.first].name;
    break;
  }
  case 8: // reversed connection
  {
    std::size_t i = c.draw(f.conns.size());
    what << "reversed connection " << en(f, f.conns[i].r) << "->" << en(f, f.conns[i].s);
    std::swap(f.conns[i].s, f.conns[i].r);
    break;
  }
  case 9: // port of a component that is not a direct child
  {
    std::vector<std::pair<int, int>> cand; // (composite, foreign node)
    for (std::size_t k = 0; k < f.nodes.size(); ++k)
      for (std::size_t n = 0; n < f.nodes.size(); ++n)
        if (f.nodes[k].composite && n != k && f.nodes[n].parent != (int)k && f.nodes[n].channels(false)) cand.push_back({(int)k, (int)n});
    Conn k = f.conns[c.draw(f.conns.size())];
    if (cand.empty()) { valid = true; break; }
    auto x = cand[c.draw(cand.size())];
    int sp = -1;
    for (std::size_t p = 0; p < f.nodes[x.second].ports.size(); ++p) if (!f.nodes[x.second].ports[p].input && f.nodes[x.second].ports[p].width) sp = (int)p;
    auto ends = portEnds(x.first);
    if (ends.second.empty()) { valid = true; break; }
    auto r = ends.second[c.draw(ends.second.size())];
    what << "send port of " << f.nodes[x.second].name << " used in " << f.nodes[x.first].name;
    extra = [&f, x, sp, r](Built& b) {
      static_cast<Comp&>(*b.comps[x.first]).audioConnection(b.port(f, x.second, sp), visr::ChannelList(std::vector<std::size_t>{0}), b.port(f, r.first, r.second), visr::ChannelList(std::vector<std::size_t>{0}));
    };
    break;
  }
  case 10: // index lists of different lengths
  {
    Conn k = f.conns[c.draw(f.conns.size())];
    bool named = c.flag(), more = c.flag();
    what << "index lists of different lengths for " << en(f, k.s) << "->" << en(f, k.r) << (named ? " by name" : "");
    extra = [&f, k, named, more](Built& b) {
      Comp& cc = static_cast<Comp&>(*b.comps[k.comp]);
      auto nm = [&](int n) { return n == k.comp ? std::string("this") : f.nodes[n].name; };
      std::vector<std::size_t> one{more ? k.s.ch : k.r.ch}, two{more ? k.r.ch : k.s.ch, more ? k.r.ch : k.s.ch};
      visr::ChannelList sl(more ? one : two), rl(more ? two : one);
      if (named) cc.audioConnection(nm(k.s.node).c_str(), f.nodes[k.s.node].ports[k.s.port].name.c_str(), sl, nm(k.r.node).c_str(), f.nodes[k.r.node].ports[k.r.port].name.c_str(), rl);
      else cc.audioConnection(b.port(f, k.s.node, k.s.port), sl, b.port(f, k.r.node, k.r.port), rl);
    };
    break;
  }
  case 11: // unknown names, duplicate names
  {
    std::size_t kind = c.draw(4);
    Conn k = f.conns[c.draw(f.conns.size())];
    what << "names: " << kind;
    extra = [&f, k, kind](Built& b) {
      Comp& cc = static_cast<Comp&>(*b.comps[k.comp]);
      visr::ChannelList l(std::vector<std::size_t>{0});
      Node const& any = f.nodes.size() > 1 ? f.nodes[1] : f.nodes[0];
      if (kind == 0) cc.audioConnection("nobody", "out", l, "this", "in0", l);
      else if (kind == 1) cc.audioConnection((k.s.node == k.comp ? "this" : f.nodes[k.s.node].name.c_str()), "no such port", l, "this", "in0", l);
      else if (kind == 2 && f.nodes.size() > 1) { Node n; Atom dup(b.ctx, any.name.c_str(), static_cast<Comp*>(b.comps[any.parent].get()), n); }
      else { visr::AudioInputT<float> dup(f.nodes[k.s.node].ports[k.s.port].name.c_str(), *b.comps[k.s.node], 1); }
    };
    break;
  }
  default: // closed loop of composite ports that a component listens to
  {
    std::vector<int> comps;
    for (std::size_t n = 1; n < f.nodes.size(); ++n) if (f.nodes[n].composite) comps.push_back((int)n);
    if (comps.empty()) { valid = true; break; }
    int d = comps[c.draw(comps.size())];
    int par = f.nodes[d].parent;
    f.nodes[d].ports.push_back(Port{true, 0, 1, "loop_in"});
    f.nodes[d].ports.push_back(Port{false, 0, 1, "loop_out"});
    int ip = (int)f.nodes[d].ports.size() - 2, op = ip + 1;
    f.conns.push_back(Conn{d, End{d, ip, 0}, End{d, op, 0}});
    f.conns.push_back(Conn{par, End{d, op, 0}, End{d, ip, 0}});
    Node n;
    n.parent = par;
    n.name = "listener";
    n.ports.push_back(Port{true, 0, 1, "i0"});
    f.nodes.push_back(n);
    f.conns.push_back(Conn{par, End{d, op, 0}, End{(int)f.nodes.size() - 1, 0, 0}});
    what << "closed loop of composite ports of " << f.nodes[d].name;
  }
  }
  c.note() << (valid ? "valid flow" : what.str()) << "; " << f.nodes.size() << " nodes, " << f.conns.size() << " connections:";
  for (auto const& k : f.conns) c.note() << " [" << f.nodes[k.comp].name << "] " << en(f, k.s) << ">" << en(f, k.r);
  c.label(valid ? "valid" : "fault " + std::to_string(fault));
  if (!valid || f.conns.size() > 2) c.nontrivial();
  c.flushNote();
  std::string msg;
  int r = tryAudio(c, f, extra, msg);
  if (valid) PBT_CHECK(r == 0, "valid flow rejected: " << msg);
  else
  {
    PBT_CHECK(r != 0, "invalid flow accepted: " << what.str());
    PBT_CHECK(r == 1, "rejected with something that is not a std::exception: " << msg);
    PBT_CHECK(msg.find("Error during execution") == std::string::npos, "invalid flow accepted, then failed while processing: " << what.str() << ": " << msg);
  }
}

void parameters(pbt::Case& c)
{
  using namespace pplan;
  Flow f = generate(c, 4, 3, 3);
  std::size_t fault = c.draw(9);
  std::ostringstream what;
  bool valid = false;
  auto nm = [&](End const& e) { return f.nodes[e.node].name + "." + f.nodes[e.node].ports[e.port].name; };
  Conn k = f.conns[c.draw(f.conns.size())];
  switch (fault)
  {
  case 0: valid = true; break;
  case 1: what << "connection removed " << nm(k.s) << "->" << nm(k.r); f.conns.erase(std::find_if(f.conns.begin(), f.conns.end(), [&](Conn const& x) { return x.r == k.r; })); break;
  case 2: case 3: // protocol or parameter type or size mismatch at one end
  {
    End e = c.flag() ? k.s : k.r;
    Kind& kd = f.nodes[e.node].ports[e.port].kind;
    Kind old = kd;
    if (fault == 2) kd.protocol = (kd.protocol + (int)c.size(1, 2)) % 3;
    else if (c.flag() && kd.type >= 2) kd.n += 1;
    else kd.type = (kd.type + (int)c.size(1, 3)) % 4;
    what << "kind of port " << nm(e) << " changed";
    (void)old;
    break;
  }
  case 4: // unconnected port
  {
    int n = (int)c.draw(f.nodes.size());
    bool in = c.flag();
    End e = f.addPort(n, in, anyKind(c), c.flag());
    what << "unconnected port " << nm(e);
    break;
  }
  case 5: // two senders for one receiver (possibly a port of a composite)
  {
    // new sender atom in the composite of the connection
    Node n;
    n.parent = k.comp;
    n.name = "second";
    f.nodes.push_back(n);
    Kind kd = f.nodes[k.r.node].ports[k.r.port].kind;
    End e = f.addPort((int)f.nodes.size() - 1, false, kd, c.flag());
    f.conns.push_back(Conn{k.comp, e, k.r});
    what << "second sender for " << nm(k.r);
    break;
  }
  case 6: // message queue with two receivers
  {
    std::vector<Conn> mq;
    for (auto const& x : f.conns) if (f.nodes[x.s.node].ports[x.s.port].kind.protocol == 2) mq.push_back(x);
    if (mq.empty()) { valid = true; break; }
    Conn x = mq[c.draw(mq.size())];
    Node n;
    n.parent = x.comp;
    n.name = "second";
    f.nodes.push_back(n);
    End e = f.addPort((int)f.nodes.size() - 1, true, f.nodes[x.s.node].ports[x.s.port].kind, c.flag());
    f.conns.push_back(Conn{x.comp, x.s, e});
    what << "second receiver of the message queue " << nm(x.s);
    break;
  }
  case 7: // reversed
    what << "reversed " << nm(k.r) << "->" << nm(k.s);
    for (auto& x : f.conns) if (x.r == k.r) std::swap(x.s, x.r);
    break;
  default: // cycle between two atoms through parameters
  {
    Node n;
    n.parent = (int)c.draw(1);
    n.name = "x";
    f.nodes.push_back(n);
    int a = (int)f.nodes.size() - 1;
    bool self = c.chance(30);
    int b = a;
    if (!self) { n.name = "y"; f.nodes.push_back(n); b = (int)f.nodes.size() - 1; }
    Kind k1 = anyKind(c), k2 = anyKind(c);
    End s1 = f.addPort(a, false, k1, false), r1 = f.addPort(b, true, k1, false);
    f.conns.push_back(Conn{0, s1, r1});
    if (!self)
    {
      End s2 = f.addPort(b, false, k2, false), r2 = f.addPort(a, true, k2, false);
      f.conns.push_back(Conn{0, s2, r2});
    }
    what << "cycle of parameter connections";
  }
  }
  describe(c, f);
  c.note() << "; fault: " << (valid ? "none" : what.str());
  c.label(valid ? "valid" : "fault " + std::to_string(fault));
  c.nontrivial();
  std::string msg;
  Quiet q;
  int r = pbt::outcome([&] {
    Built b;
    b.instantiate(f, 1);
    b.connect(c, f);
    visr::rrl::AudioSignalFlow flow(b.top());
  }, &msg);
  if (valid) PBT_CHECK(r == 0, "valid flow rejected: " << msg);
  else
  {
    PBT_CHECK(r != 0, "invalid flow accepted: " << what.str());
    PBT_CHECK(r == 1, "rejected with something that is not a std::exception: " << msg);
  }
}

// Configurations of parameters are equal exactly if their values are.
void configs(pbt::Case& c)
{
  using namespace visr;
  using Ptr = std::unique_ptr<ParameterConfigBase>;
  auto gen = [&](std::size_t kind) {
    std::size_t a = c.size(0, 3), b = c.size(0, 3), e = c.size(1, 2);
    std::pair<Ptr, std::vector<std::size_t>> r;
    switch (kind)
    {
    case 0: r.first.reset(new pml::EmptyParameterConfig()); break;
    case 1: r.first.reset(new pml::VectorParameterConfig(a)); r.second = {a}; break;
    case 2: r.first.reset(new pml::MatrixParameterConfig(a, b)); r.second = {a, b}; break;
    case 3: r.first.reset(new pml::InterpolationParameterConfig(a)); r.second = {a}; break;
    default: r.first.reset(new pml::TimeFrequencyParameterConfig(a, b, e)); r.second = {a, b, e}; break;
    }
    return r;
  };
  std::size_t k1 = c.draw(5), k2 = c.chance(30) ? c.draw(5) : k1;
  auto x = gen(k1), y = gen(k2);
  if (c.chance(40))
  {
    y.first = x.first->clone();
    y.second = x.second;
    k2 = k1;
  }
  c.note() << "kinds " << k1 << "," << k2;
  for (auto v : x.second) c.note() << " " << v;
  c.note() << " vs";
  for (auto v : y.second) c.note() << " " << v;
  c.nontrivial();
  bool eq = false;
  std::string msg;
  int r = pbt::outcome([&] { eq = x.first->compare(*y.first); }, &msg);
  if (k1 != k2) PBT_CHECK(r == 1 || (r == 0 && !eq), "configurations of different types compare equal");
  else PBT_CHECK(r == 0 && eq == (x.second == y.second), "compare() gives " << eq << " " << msg);
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "flow with an injected fault, or a valid flow with more than two connections";
  s.subs = {{"audio", audio, 40000, 400000}, {"parameters", parameters, 40000, 400000}, {"configs", configs, 5000, 50000}};
  return pbt::run(argc, argv, s);
}
