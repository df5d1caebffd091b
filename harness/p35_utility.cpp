// P35: control values decoded from OSC datagrams, sources of silence, terminators of
// unused parameter ports.
#include "paramplan.hpp"

#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <librcl/null_source.hpp>
#include <librcl/parameter_input_terminator.hpp>
#include <librcl/parameter_output_terminator.hpp>
#include <librcl/scalar_osc_decoder.hpp>
#include <libpml/message_queue_protocol.hpp>

#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>

using namespace visr;
using pbt::Case;
using pplan::Kind;

namespace
{
// the decoder reports what it ignores
struct Quiet
{
  std::streambuf *out, *err;
  Quiet() : out(std::cout.rdbuf(nullptr)), err(std::cerr.rdbuf(nullptr)) {}
  ~Quiet() { std::cout.rdbuf(out); std::cerr.rdbuf(err); std::cout.clear(); std::cerr.clear(); }
};

// ---- OSC -------------------------------------------------------------------------
std::string word(uint64_t v, int bytes)
{
  std::string s;
  for (int i = bytes - 1; i >= 0; --i) s.push_back((char)(unsigned char)(v >> (8 * i)));
  return s;
}
std::string padded(std::string s)
{
  s.push_back('\0');
  while (s.size() % 4) s.push_back('\0');
  return s;
}
template <typename To, typename From> To bits(From f)
{
  static_assert(sizeof(To) == sizeof(From), "size");
  To t;
  std::memcpy(&t, &f, sizeof t);
  return t;
}
struct Arg
{
  char tag;
  uint64_t raw = 0; // bit pattern of numbers
  std::string data; // encoded
};
Arg genArg(Case& c, char tag)
{
  Arg a{tag, 0, ""};
  switch (tag)
  {
  case 'T': case 'F': break;
  case 'i':
  {
    int32_t v;
    switch (c.weighted({5, 2, 1, 1, 1}))
    {
    case 0: v = (int32_t)c.range(0, 1000); break;
    case 1: v = (int32_t)-c.range(1, 1000); break;
    case 2: v = std::numeric_limits<int32_t>::max(); break;
    case 3: v = std::numeric_limits<int32_t>::min(); break;
    default: v = (int32_t)(uint32_t)c.seed(); break;
    }
    a.raw = (uint32_t)v;
    a.data = word(a.raw, 4);
    break;
  }
  case 'f':
  {
    float const special[] = {0.0f, -0.0f, 1.0f, -1.0f, std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::max(), std::numeric_limits<float>::infinity()};
    float v = c.chance(40) ? special[c.draw(7)] : (float)c.sym(1000.0);
    a.raw = bits<uint32_t>(v);
    a.data = word(a.raw, 4);
    break;
  }
  case 'd':
  {
    double const special[] = {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), -std::numeric_limits<double>::infinity()};
    double v = c.chance(40) ? special[c.draw(7)] : c.sym(1e6);
    a.raw = bits<uint64_t>(v);
    a.data = word(a.raw, 8);
    break;
  }
  case 'h': a.data = word(c.seed(), 8); break;
  case 's': a.data = padded(std::string(c.size(0, 9), 'q')); break;
  default: // 'b'
  {
    std::size_t n = c.size(0, 9);
    a.data = word(n, 4) + std::string(n, '\x5a');
    while (a.data.size() % 4) a.data.push_back('\0');
  }
  }
  return a;
}
char const allTags[] = {'T', 'F', 'i', 'f', 'd', 'h', 's', 'b'};

struct Osc
{
  int kind; // 0 bool, 1 int, 2 uint, 3 float, 4 double
  bool accepts(Arg const& a) const
  {
    switch (kind)
    {
    case 0: return a.tag == 'T' || a.tag == 'F';
    case 1: return a.tag == 'i';
    case 2: return a.tag == 'i' && (int32_t)(uint32_t)a.raw >= 0;
    case 3: return a.tag == 'f';
    default: return a.tag == 'd';
    }
  }
  uint64_t value(Arg const& a) const { return kind == 0 ? (uint64_t)(a.tag == 'T') : a.raw; }
};
char const* const kindName[] = {"bool", "int", "uint", "float", "double"};

struct Gen
{
  Case& c;
  Osc osc;
  std::vector<uint64_t> expected;
  std::size_t rejected = 0, accepted = 0, messages = 0;

  std::string message()
  {
    ++messages;
    std::vector<Arg> args;
    char const good = osc.kind == 0 ? (c.flag() ? 'T' : 'F') : osc.kind < 3 ? 'i' : osc.kind == 3 ? 'f' : 'd';
    std::size_t n = c.weighted({1, 8, 2, 1});
    for (std::size_t i = 0; i < n; ++i) args.push_back(genArg(c, i == 0 && c.chance(65) ? good : allTags[c.draw(8)]));
    std::string tags = ",", data;
    for (auto const& a : args) { tags.push_back(a.tag); data += a.data; }
    if (!args.empty() && osc.accepts(args[0])) { expected.push_back(osc.value(args[0])); ++accepted; }
    else ++rejected;
    c.note() << " (" << tags << ")";
    return padded("/" + std::string(c.size(0, 6), 'a')) + padded(tags) + data;
  }
  std::string bundle(int depth)
  {
    c.note() << " [";
    std::string s = padded("#bundle") + word(c.flag() ? 1 : c.seed(), 8);
    std::size_t n = c.wide(0, 4, 20);
    if (n == 0) s += word(0, 4);
    for (std::size_t i = 0; i < n; ++i)
    {
      std::string e = depth < 3 && c.chance(20) ? bundle(depth + 1) : message();
      s += word(e.size(), 4) + e;
    }
    c.note() << " ]";
    return s;
  }
  std::string packet() { return c.chance(45) ? bundle(0) : message(); }
};

// a packet which no reader may accept; nothing in it counts
std::string broken(Case& c, Osc const& osc)
{
  Gen g{c, osc, {}};
  c.note() << " broken";
  switch (c.draw(8))
  {
  case 0: { std::string s = g.packet(); s.resize(s.size() - 1 - c.draw(3)); return s; }
  case 1: return std::string(c.draw(3) + 1, c.flag() ? '/' : '#');
  case 2: { std::string s = g.message(); s[0] = 'x'; return s; }
  case 3: return padded("/abc") + padded("i") + word(1, 4);                   // no comma
  case 4: return padded("/abc") + padded(c.flag() ? ",i" : ",fd");            // missing data
  case 5: return padded("/abc") + padded(",i") + word(1, 4) + word(2, 4);     // data without tag
  case 6: return padded("#bundle") + word(1, 8) + word(4 * (1000 + c.draw(1000)), 4) + g.message(); // too long element
  default: return padded("#bundle") + word(1, 8).substr(0, 4 * c.draw(2));    // truncated header
  }
}

std::vector<uint64_t> drain(vflow::Rig& rig, int kind)
{
  std::vector<uint64_t> v;
  auto& q = rig.queueOut("dataOut");
  while (!q.empty())
  {
    ParameterBase const& p = q.front();
    switch (kind)
    {
    case 0: v.push_back(dynamic_cast<pml::ScalarParameter<bool> const&>(p).value()); break;
    case 1: v.push_back((uint32_t)dynamic_cast<pml::ScalarParameter<int> const&>(p).value()); break;
    case 2: v.push_back(dynamic_cast<pml::ScalarParameter<unsigned int> const&>(p).value()); break;
    case 3: v.push_back(bits<uint32_t>(dynamic_cast<pml::ScalarParameter<float> const&>(p).value())); break;
    default: v.push_back(bits<uint64_t>(dynamic_cast<pml::ScalarParameter<double> const&>(p).value())); break;
    }
    q.pop();
  }
  return v;
}

void osc(Case& c)
{
  Quiet const quiet;
  Osc osc{(int)c.draw(5)};
  SignalFlowContext ctx(c.size(1, 64), 48000);
  rcl::ScalarOscDecoder dec(ctx, "dec");
  if (c.chance(5)) pbt::mustThrow([&] { rcl::ScalarOscDecoder d(ctx, "d"); d.setup(c.flag() ? "long" : ""); }, "unsupported type");
  dec.setup(kindName[osc.kind]);
  vflow::Rig rig(dec);
  c.note() << kindName[osc.kind];
  std::size_t const blocks = c.wide(1, 6, 40);
  std::size_t nAcc = 0, nRej = 0, nBroken = 0;
  std::vector<uint64_t> pending; // decoded and not yet taken
  for (std::size_t b = 0; b < blocks; ++b)
  {
    std::size_t const n = c.wide(0, 3, 30);
    for (std::size_t i = 0; i < n; ++i)
    {
      c.note() << " |";
      std::string d;
      if (c.chance(15)) { d = broken(c, osc); ++nBroken; }
      else
      {
        Gen g{c, osc, {}};
        d = g.packet();
        pending.insert(pending.end(), g.expected.begin(), g.expected.end());
        nAcc += g.accepted;
        nRej += g.rejected;
      }
      rig.enqueue("datagramInput", pml::StringParameter(d));
    }
    c.note() << " ; ";
    rig.process(vflow::Audio());
    PBT_CHECK(rig.queue("datagramInput").empty(), "block " << b << ": datagrams left in the input");
    if (c.chance(75) || b + 1 == blocks)
    {
      std::vector<uint64_t> const got = drain(rig, osc.kind);
      std::ostringstream os;
      for (auto v : got) os << " " << std::hex << v;
      os << ", expected";
      for (auto v : pending) os << " " << std::hex << v;
      PBT_CHECK(got == pending, "block " << b << ": decoded" << os.str());
      pending.clear();
    }
  }
  if (nAcc > 0 && nRej + nBroken > 0) c.nontrivial();
  if (nBroken > 0) c.label("malformed datagram");
  if (nRej > 0) c.label("unsuitable argument");
}

// arbitrary bytes: nothing crashes, and the datagram after them is decoded as usual
void garbage(Case& c)
{
  Quiet const quiet;
  Osc osc{(int)c.draw(5)};
  SignalFlowContext ctx(16, 48000);
  rcl::ScalarOscDecoder dec(ctx, "dec");
  dec.setup(kindName[osc.kind]);
  vflow::Rig rig(dec);
  std::size_t const n = c.size(1, 6);
  bool some = false;
  for (std::size_t i = 0; i < n; ++i)
  {
    Gen g{c, osc, {}};
    std::string d = g.packet();
    std::size_t const edits = c.size(1, 5);
    for (std::size_t e = 0; e < edits && !d.empty(); ++e)
      switch (c.draw(4))
      {
      case 0: d[c.draw(d.size())] = (char)(unsigned char)c.draw(256); break;
      case 1: d.resize(d.size() & ~(std::size_t)3); if (d.size() >= 4) d.erase(4 * c.draw(d.size() / 4), 4); break;
      case 2: d.insert(4 * c.draw(d.size() / 4 + 1), word((uint32_t)c.seed(), 4)); break;
      default: d[c.draw(d.size())] = (char)((unsigned char)d[c.draw(d.size())] + 1);
      }
    rig.enqueue("datagramInput", pml::StringParameter(d));
    rig.process(vflow::Audio());
    PBT_CHECK(rig.queue("datagramInput").empty(), "the datagram was not consumed");
    drain(rig, osc.kind);
    Gen good{c, osc, {}};
    rig.enqueue("datagramInput", pml::StringParameter(good.packet()));
    rig.process(vflow::Audio());
    PBT_CHECK(drain(rig, osc.kind) == good.expected, "a good datagram after a damaged one is decoded differently");
    some = some || !good.expected.empty();
  }
  if (some) c.nontrivial();
}

// ---- silence ---------------------------------------------------------------------
struct Top : public CompositeComponent
{
  std::unique_ptr<AudioInput> in;
  std::unique_ptr<AudioOutput> out;
  std::vector<std::unique_ptr<rcl::NullSource>> sources;
  // map: for each output the source (-1: the input) and the channel
  Top(SignalFlowContext const& ctx, std::size_t nin, std::vector<std::size_t> const& widths, std::vector<std::pair<int, std::size_t>> const& map)
   : CompositeComponent(ctx, "top"), in(new AudioInput("in", *this, nin)), out(new AudioOutput("out", *this, map.size()))
  {
    for (std::size_t i = 0; i < widths.size(); ++i) sources.emplace_back(new rcl::NullSource(ctx, ("n" + std::to_string(i)).c_str(), this, widths[i]));
    for (std::size_t i = 0; i < map.size(); ++i)
    {
      ChannelList const from{map[i].second}, to{i};
      if (map[i].first < 0) audioConnection(*in, from, *out, to);
      else audioConnection(sources[map[i].first]->audioPort("out"), from, audioPort("out"), to);
    }
  }
};

void silence(Case& c)
{
  std::size_t const period = c.wide(1, 70, 1024), blocks = c.wide(1, 4, 30);
  SignalFlowContext ctx(period, 48000);
  if (c.chance(30))
  {
    std::size_t const w = c.wide(0, 6, 70);
    c.note() << "single width=" << w << " period=" << period;
    rcl::NullSource src(ctx, "n", nullptr, w);
    vflow::Rig rig(src);
    PBT_CHECK(rig.flow->numberOfPlaybackChannels() == w && rig.flow->numberOfCaptureChannels() == 0, "number of channels");
    for (std::size_t b = 0; b < blocks; ++b)
      for (auto const& ch : rig.process(vflow::Audio())) for (float x : ch) PBT_CHECK(x == 0.0f, "block " << b << ": output " << x);
    if (w > 0) c.nontrivial();
    return;
  }
  std::size_t const nin = c.size(1, 4), nsrc = c.wide(1, 3, 12);
  std::vector<std::size_t> widths;
  for (std::size_t i = 0; i < nsrc; ++i) widths.push_back(c.size(1, 5));
  std::vector<std::pair<int, std::size_t>> map;
  std::size_t const nout = c.wide(0, 8, 40);
  bool zero = false, pass = false;
  for (std::size_t i = 0; i < nout; ++i)
  {
    int s = c.chance(35) ? -1 : (int)c.draw(nsrc);
    (s < 0 ? pass : zero) = true;
    map.emplace_back(s, c.draw(s < 0 ? nin : widths[s]));
    c.note() << " " << s << "." << map.back().second;
  }
  auto cover = [&](int src, std::size_t n) { // every sending channel must be connected
    for (std::size_t i = 0; i < n; ++i)
      if (std::find(map.begin(), map.end(), std::make_pair(src, i)) == map.end()) { map.emplace_back(src, i); (src < 0 ? pass : zero) = true; }
  };
  cover(-1, nin);
  for (std::size_t i = 0; i < nsrc; ++i) cover((int)i, widths[i]);
  Top top(ctx, nin, widths, map);
  vflow::Rig rig(top);
  for (std::size_t b = 0; b < blocks; ++b)
  {
    vflow::Audio const in = vflow::noise(c, nin, period);
    vflow::Audio const out = rig.process(in);
    for (std::size_t i = 0; i < map.size(); ++i)
      for (std::size_t t = 0; t < period; ++t)
        PBT_CHECK(out[i][t] == (map[i].first < 0 ? in[map[i].second][t] : 0.0f), "block " << b << " output " << i << " sample " << t << ": " << out[i][t]);
  }
  if (zero && pass) c.nontrivial();
}

// ---- terminators -----------------------------------------------------------------
struct Worker : public AtomicComponent
{
  std::vector<Kind> ins, outs;
  std::vector<std::unique_ptr<PolymorphicParameterInput>> inPorts;
  std::vector<std::unique_ptr<PolymorphicParameterOutput>> outPorts;
  std::size_t runs = 0;
  Worker(SignalFlowContext const& ctx, CompositeComponent* parent, std::vector<Kind> const& i, std::vector<Kind> const& o)
   : AtomicComponent(ctx, "worker", parent), ins(i), outs(o)
  {
    for (std::size_t k = 0; k < ins.size(); ++k) inPorts.emplace_back(new PolymorphicParameterInput(("i" + std::to_string(k)).c_str(), *this, pplan::typeId(ins[k]), pplan::protocolId(ins[k]), *pplan::config(ins[k])));
    for (std::size_t k = 0; k < outs.size(); ++k) outPorts.emplace_back(new PolymorphicParameterOutput(("o" + std::to_string(k)).c_str(), *this, pplan::typeId(outs[k]), pplan::protocolId(outs[k]), *pplan::config(outs[k])));
  }
  void process() override
  {
    ++runs;
    for (std::size_t k = 0; k < ins.size(); ++k)
    {
      CommunicationProtocolBase::Input& p = inPorts[k]->protocolInput();
      if (ins[k].protocol == 2)
        PBT_CHECK(dynamic_cast<pml::MessageQueueProtocol::InputBase&>(p).empty(), "a terminated message queue input has a message");
      else if (ins[k].protocol == 1)
      {
        auto& d = dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(p);
        PBT_CHECK(!d.changed(), "a terminated double-buffered input reports a change");
        PBT_CHECK(pplan::typeId(ins[k]) == const_cast<ParameterBase&>(d.data()).type(), "type of the terminated input");
      }
      else PBT_CHECK(pplan::typeId(ins[k]) == const_cast<ParameterBase&>(dynamic_cast<pml::SharedDataProtocol::InputBase&>(p).data()).type(), "type of the terminated input");
    }
    for (std::size_t k = 0; k < outs.size(); ++k)
    {
      CommunicationProtocolBase::Output& p = outPorts[k]->protocolOutput();
      int const code = (int)(runs * 10 + k);
      if (outs[k].protocol == 2)
      {
        auto& q = dynamic_cast<pml::MessageQueueProtocol::OutputBase&>(p);
        q.enqueue(pplan::make(outs[k], code));
      }
      else if (outs[k].protocol == 1)
      {
        auto& d = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(p);
        pplan::store(d.data(), outs[k], code);
        d.swapBuffers(true);
        PBT_CHECK(pplan::holds(d.data(), outs[k], code), "value written to a terminated output");
      }
      else
      {
        auto& s = dynamic_cast<pml::SharedDataProtocol::OutputBase&>(p);
        pplan::store(s.data(), outs[k], code);
        PBT_CHECK(pplan::holds(s.data(), outs[k], code), "value written to a terminated output");
      }
    }
  }
};
struct TermPlan
{
  std::vector<Kind> ins, outs, termIn, termOut; // the worker's ports and what the terminators are built for
  std::vector<bool> copyIn, copyOut;            // deduce from the port
};
struct TermTop : public CompositeComponent
{
  Worker worker;
  std::vector<std::unique_ptr<Component>> terms;
  TermTop(SignalFlowContext const& ctx, TermPlan const& p) : CompositeComponent(ctx, "top"), worker(ctx, this, p.ins, p.outs)
  {
    for (std::size_t k = 0; k < p.ins.size(); ++k)
    {
      std::string const name = "ti" + std::to_string(k);
      rcl::ParameterInputTerminator* t = p.copyIn[k]
        ? new rcl::ParameterInputTerminator(ctx, name.c_str(), this, *worker.inPorts[k])
        : new rcl::ParameterInputTerminator(ctx, name.c_str(), this, pplan::typeId(p.termIn[k]), pplan::protocolId(p.termIn[k]), *pplan::config(p.termIn[k]));
      terms.emplace_back(t);
      parameterConnection(t->parameterPort("out"), *worker.inPorts[k]);
    }
    for (std::size_t k = 0; k < p.outs.size(); ++k)
    {
      std::string const name = "to" + std::to_string(k);
      rcl::ParameterOutputTerminator* t = p.copyOut[k]
        ? new rcl::ParameterOutputTerminator(ctx, name.c_str(), this, *worker.outPorts[k])
        : new rcl::ParameterOutputTerminator(ctx, name.c_str(), this, pplan::typeId(p.termOut[k]), pplan::protocolId(p.termOut[k]), *pplan::config(p.termOut[k]));
      terms.emplace_back(t);
      parameterConnection(*worker.outPorts[k], t->parameterPort("in"));
    }
  }
};

void terminators(Case& c)
{
  TermPlan p;
  std::size_t const ni = c.wide(0, 3, 12), no = c.wide(0, 3, 12);
  bool mismatch = false;
  auto fill = [&](std::size_t n, std::vector<Kind>& ports, std::vector<Kind>& terms, std::vector<bool>& copy) {
    for (std::size_t i = 0; i < n; ++i)
    {
      Kind k = pplan::anyKind(c);
      ports.push_back(k);
      copy.push_back(c.flag());
      if (!copy.back() && c.chance(15))
      {
        Kind o = pplan::anyKind(c);
        if (!(o == k)) mismatch = true;
        k = o;
      }
      terms.push_back(k);
      c.note() << " " << ports.back().protocol << ports.back().type << ports.back().n << (copy.back() ? "=" : "/") << k.protocol << k.type << k.n;
    }
  };
  fill(ni, p.ins, p.termIn, p.copyIn);
  fill(no, p.outs, p.termOut, p.copyOut);
  SignalFlowContext ctx(c.size(1, 32), 48000);
  if (mismatch)
  {
    c.label("mismatch");
    pbt::mustThrow([&] { TermTop top(ctx, p); vflow::Rig rig(top); }, "a terminator that does not match its port");
    c.nontrivial();
    return;
  }
  TermTop top(ctx, p);
  vflow::Rig rig(top);
  std::size_t const blocks = c.wide(1, 4, 40);
  for (std::size_t b = 0; b < blocks; ++b) rig.process(vflow::Audio());
  PBT_CHECK(top.worker.runs == blocks, "the worker ran " << top.worker.runs << " times in " << blocks << " blocks");
  if (ni + no > 0) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "osc: at least one value decoded and at least one unsuitable message or malformed datagram; garbage: a good datagram with a value followed a damaged one; silence: silent and passed outputs together (single source: non-zero width); terminators: at least one port terminated";
  s.assumptions = {"the first argument of an OSC message is the value, its type must be exactly that of the decoder (int for unsigned), and further arguments are ignored", "a datagram that is not well formed produces no values at all"};
  s.subs = {{"osc", osc, 40000, 1200000}, {"garbage", garbage, 15000, 400000}, {"silence", silence, 20000, 400000}, {"terminators", terminators, 15000, 300000}};
  return pbt::run(argc, argv, s);
}
