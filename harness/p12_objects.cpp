// Audio object metadata: reading, writing, containers and incremental updates.
#include "objects.hpp"
#include "flow.hpp"
#include <libpml/object_vector.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/scene_decoder.hpp>
#include <librcl/scene_encoder.hpp>
#include <libvisr/composite_component.hpp>
#include <iostream>

using namespace om;
namespace
{
struct Quiet // the library reports rejected messages on the standard error output
{
  Quiet() { std::cerr.setstate(std::ios::failbit); }
  ~Quiet() { std::cerr.clear(); }
};

struct Msg
{
  std::string text, fault;
  std::vector<Obj> objs;
  std::size_t faulty = std::size_t(-1); // index of the faulty object; objs.size(): the message as a whole
};
Msg anyMessage(pbt::Case& c, Scene const& now, unsigned ids, std::size_t maxObjs, std::size_t faultPercent, bool firstOnly)
{
  Msg m;
  std::size_t n = c.wide(0, maxObjs, 4 * maxObjs);
  std::vector<Json> js;
  for (std::size_t i = 0; i < n; ++i)
  {
    unsigned id = c.chance(5) ? 4294967295u : (unsigned)c.draw(ids);
    auto it = now.find(id);
    int kind = it != now.end() && c.chance(60) ? it->second.kind : (int)c.draw(NumKinds);
    Obj o = anyObject(c, id, kind);
    js.push_back(toJson(c, o));
    m.objs.push_back(o);
  }
  if (faultPercent && c.chance(faultPercent))
  {
    if (n && c.chance(80))
    {
      std::size_t i = firstOnly ? 0 : c.draw(n);
      m.fault = breakObject(c, m.objs[i], js[i]);
      if (!m.fault.empty()) m.faulty = i;
      m.text = message(c, js);
    }
    else
    {
      m.text = message(c, js);
      std::size_t k = c.draw(4);
      if (k == 0) m.text.resize(m.text.size() - 1 - c.draw(std::min<std::size_t>(m.text.size() - 1, 30)));
      else if (k == 1) m.text = "{\"objekts\":[]}";
      else if (k == 2) m.text = "";
      else m.text.insert(0, "}");
      m.fault = "malformed message";
      m.faulty = n;
      // truncation may remove nothing but white space
      if (k == 0 && !m.text.empty() && m.text.find_last_not_of(" \n\t") != std::string::npos)
      {
        int depth = 0;
        for (char ch : m.text) depth += ch == '{' || ch == '[' ? 1 : ch == '}' || ch == ']' ? -1 : 0;
        if (depth <= 0) m.fault.clear(), m.faulty = std::size_t(-1), m.text = message(c, js);
      }
    }
  }
  else m.text = message(c, js);
  return m;
}
void apply(Scene& s, Msg const& m, std::size_t upTo)
{
  for (std::size_t i = 0; i < upTo; ++i) s[m.objs[i].id] = m.objs[i];
}

// a history of messages on one object vector
void messages(pbt::Case& c)
{
  Quiet q;
  ObjectVector v;
  Scene s;
  std::size_t const n = c.wide(1, 8, 40);
  bool faults = false;
  for (std::size_t k = 0; k < n; ++k)
  {
    Msg m = anyMessage(c, s, 5, 3, 30, false);
    bool const fill = c.chance(20);
    c.note() << (fill ? "fill " : "update ") << (m.fault.empty() ? "" : "<" + m.fault + " in object " + std::to_string(m.faulty) + "> ") << m.text << "\n";
    faults |= !m.fault.empty();
    std::string err;
    std::size_t const how = c.draw(3);
    c.flushNote();
    int r = pbt::outcome([&] {
      std::istringstream in(m.text);
      if (fill) { if (how == 0) ObjectVectorParser::fillObjectVector(m.text, v); else if (how == 1) ObjectVectorParser::fillObjectVector(m.text.c_str(), v); else ObjectVectorParser::fillObjectVector(in, v); }
      else { if (how == 0) ObjectVectorParser::updateObjectVector(m.text, v); else if (how == 1) ObjectVectorParser::updateObjectVector(m.text.c_str(), v); else ObjectVectorParser::updateObjectVector(in, v); }
    }, &err);
    if (m.fault.empty())
    {
      PBT_CHECK(r == 0, "valid message rejected: " << err);
      if (fill) s.clear();
      apply(s, m, m.objs.size());
    }
    else
    {
      PBT_CHECK(r != 0, "invalid message accepted: " << m.fault);
      PBT_CHECK(r == 1, "rejected with something that is not a std::exception");
      if (!fill && m.faulty < m.objs.size())
      { // the valid objects before the faulty one may have been updated or not
        Scene t = s;
        apply(t, m, m.faulty);
        if (diff(v, t).empty()) s = t;
      }
    }
    std::string d = diff(v, s);
    PBT_CHECK(d.empty(), "after message " << k << ": " << d);
  }
  c.label(faults ? "with faults" : "valid only");
  if (s.size() >= 2 && n >= 2) c.nontrivial();
  // encode and decode again
  std::ostringstream out;
  ObjectVectorParser::encodeObjectVector(v, out);
  ObjectVector w;
  std::string err;
  PBT_CHECK(pbt::outcome([&] { ObjectVectorParser::fillObjectVector(out.str(), w); }, &err) == 0, "encoded scene not readable: " << err << "\n" << out.str());
  std::string d = diff(w, s);
  PBT_CHECK(d.empty(), "encoded and decoded scene: " << d << "\n" << out.str());
}

// container operations and copies
void container(pbt::Case& c)
{
  ObjectVector v[2];
  Scene s[2];
  std::size_t const n = c.wide(1, 15, 80);
  for (std::size_t k = 0; k < n; ++k)
  {
    std::size_t const a = c.draw(2), b = 1 - a, op = c.draw(8);
    unsigned const id = (unsigned)c.draw(4);
    c.note() << " " << op << "(" << a << "," << id << ")";
    if (op <= 2)
    {
      Obj o = anyObject(c, id, (int)c.draw(NumKinds));
      auto l = toLib(o);
      PBT_CHECK(diff(fromLib(*l->clone()), o).empty(), "clone: " << diff(fromLib(*l->clone()), o));
      if (op == 0) v[a].insert(std::move(l)); else v[a].insert(*l);
      s[a][id] = o;
    }
    else if (op == 3)
    {
      if (s[a].count(id)) { v[a].remove(id); s[a].erase(id); }
      else pbt::mustThrow([&] { v[a].remove(id); }, "removal of a nonexistent object");
    }
    else if (op == 4) { if (c.flag()) v[a].assign(v[b]); else v[a] = v[b]; s[a] = s[b]; }
    else if (op == 5) { v[a].swap(v[b]); s[a].swap(s[b]); }
    else if (op == 6)
    {
      if (s[a].count(id)) { PBT_CHECK(v[a].at(id).id() == id && v[a].find(id) != v[a].end(), "access by id"); v[a].at(id).setLevel(3.25f); s[a][id].level = 3.25f; }
      else { pbt::mustThrow([&] { (void)v[a].at(id); }, "access to a nonexistent object"); PBT_CHECK(v[a].find(id) == v[a].end(), "find() of a nonexistent object"); }
    }
    else if (c.chance(30)) { v[a].clear(); s[a].clear(); }
    for (int i = 0; i < 2; ++i)
    {
      std::string d = diff(v[i], s[i]);
      PBT_CHECK(d.empty(), "operation " << k << ", vector " << i << ": " << d);
      PBT_CHECK(v[i].empty() == s[i].empty(), "empty()");
    }
  }
  if (n > 3) c.nontrivial();
}

// the decoder component: several messages per block, visible after the block
void decoder(pbt::Case& c)
{
  Quiet q;
  visr::SignalFlowContext ctx(c.size(1, 64), 48000);
  visr::rcl::SceneDecoder dec(ctx, "dec", nullptr);
  vflow::Rig rig(dec);
  auto& out = rig.dblOut("objectVectorOutput");
  Scene s;
  std::size_t const blocks = c.wide(1, 6, 30);
  std::size_t total = 0;
  for (std::size_t b = 0; b < blocks; ++b)
  {
    std::size_t const n = c.wide(0, 3, 20);
    bool any = false;
    c.note() << "block " << b << ":\n";
    for (std::size_t k = 0; k < n; ++k)
    {
      Msg m = anyMessage(c, s, 4, 2, 20, true);
      c.note() << (m.fault.empty() ? "" : "<" + m.fault + "> ") << m.text << "\n";
      rig.enqueue("datagramInput", visr::pml::StringParameter(m.text));
      if (m.fault.empty()) { apply(s, m, m.objs.size()); any = true; ++total; }
    }
    c.flushNote();
    rig.process({});
    std::string d = diff(static_cast<visr::pml::ObjectVector const&>(out.data()), s);
    PBT_CHECK(d.empty(), "block " << b << ": " << d);
    if (any) PBT_CHECK(out.changed(), "change not signalled");
    out.resetChanged();
  }
  if (total >= 2) c.nontrivial();
}

// encoder and decoder components in series
struct Chain : visr::CompositeComponent
{
  visr::ParameterInput<visr::pml::SharedDataProtocol, visr::pml::ObjectVector> in;
  visr::ParameterOutput<visr::pml::DoubleBufferingProtocol, visr::pml::ObjectVector> out;
  visr::rcl::SceneEncoder enc;
  visr::rcl::SceneDecoder dec;
  explicit Chain(visr::SignalFlowContext const& ctx)
    : CompositeComponent(ctx, "chain", nullptr), in("in", *this, visr::pml::EmptyParameterConfig()), out("out", *this, visr::pml::EmptyParameterConfig()), enc(ctx, "enc", this), dec(ctx, "dec", this)
  {
    parameterConnection("this", "in", "enc", "objectInput");
    parameterConnection("enc", "messageOutput", "dec", "datagramInput");
    parameterConnection("dec", "objectVectorOutput", "this", "out");
  }
};
void chain(pbt::Case& c)
{
  visr::SignalFlowContext ctx(16, 48000);
  Chain ch(ctx);
  vflow::Rig rig(ch);
  
  auto& out = rig.dblOut("out");
  Scene s;
  std::size_t const blocks = c.wide(1, 5, 30);
  for (std::size_t b = 0; b < blocks; ++b)
  {
    auto& v = rig.shared<visr::pml::ObjectVector>("in");
    std::size_t const n = c.wide(0, 3, 20);
    for (std::size_t k = 0; k < n; ++k)
    {
      Obj o = anyObject(c, (unsigned)c.draw(4), (int)c.draw(NumKinds));
      if (s.count(o.id) && c.chance(50)) { o = anyObject(c, o.id, s[o.id].kind); }
      c.note() << " " << kindName(o.kind) << o.id;
      v.insert(toLib(o));
      s[o.id] = o;
    }

    rig.process({});
    std::string d = diff(static_cast<visr::pml::ObjectVector const&>(out.data()), s);
    PBT_CHECK(d.empty(), "block " << b << ": " << d);
  }
  if (s.size() > 1 && blocks > 1) c.nontrivial();
}

// arbitrary damage to the text: accepted or rejected with an exception, and the scene stays usable
void damaged(pbt::Case& c)
{
  Quiet q;
  ObjectVector v;
  Scene s;
  Msg m0 = anyMessage(c, s, 4, 3, 0, false);
  ObjectVectorParser::updateObjectVector(m0.text, v);
  apply(s, m0, m0.objs.size());
  Msg m = anyMessage(c, s, 4, 3, 0, false);
  std::string t = m.text;
  std::size_t const n = c.size(1, 4);
  for (std::size_t k = 0; k < n && !t.empty(); ++k)
  {
    std::size_t const p = c.draw(t.size());
    switch (c.draw(6))
    {
    case 0: t.erase(p, 1 + c.draw(8)); break;
    case 1: t[p] = (char)c.range(1, 255); break;
    case 2: t.insert(p, 1, "{}[],:\"-.e0 "[c.draw(12)]); break;
    case 3: t.insert(p, t.substr(c.draw(t.size()), 1 + c.draw(20))); break;
    case 4: t[p] = "0123456789:,-"[c.draw(13)]; break;
    default: { static char const* w[] = {"-1", "1e39", "null", "true", "99999999999999999999", "0:0:5", "1:-1:0", "\\u0041", "nan", "5:0"}; t.insert(p, w[c.draw(10)]); }
    }
  }
  c.note() << m0.text << "\n" << t;
  c.flushNote();
  // ranges with very many elements are legal but not interesting
  int digits = 0, colon = 0;
  for (char ch : t) { if (ch >= '0' && ch <= '9') { if (++digits > 5 && colon) { c.label("long range skipped"); return; } } else if (ch == ':') colon = 1, digits = 0; else { if (ch != ' ' && ch != '\n' && ch != '\t' && ch != '+') colon = 0; digits = 0; } }
  std::string err;
  int r = pbt::outcome([&] { ObjectVectorParser::updateObjectVector(t, v); }, &err);
  c.label(r == 0 ? "accepted" : "rejected");
  c.nontrivial();
  PBT_CHECK(r <= 1, "rejected with something that is not a std::exception: " << err);
  // objects that were in neither message must not exist, and everything can be written and read
  Scene now;
  for (auto it = v.cbegin(); it != v.cend(); ++it) now[(*it).id()] = fromLib(*it);
  std::ostringstream out;
  bool finite = true;
  for (auto const& o : now)
    for (float f : {o.second.level, o.second.x, o.second.y, o.second.z, o.second.lock, o.second.diffuseness, o.second.width, o.second.height, o.second.depth, o.second.az, o.second.el, o.second.refdist}) finite &= std::isfinite(f);
  for (auto const& o : now) for (auto const& rf : o.second.refl) for (auto const& b : rf.biquads) for (float f : b) finite &= std::isfinite(f);
  if (!finite) return;
  ObjectVector w;
  int e = pbt::outcome([&] { ObjectVectorParser::encodeObjectVector(v, out); }, &err);
  PBT_CHECK(e == 0, "scene cannot be written: " << err);
  e = pbt::outcome([&] { ObjectVectorParser::fillObjectVector(out.str(), w); }, &err);
  PBT_CHECK(e == 0, "written scene cannot be read: " << err << "\n" << out.str());
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "history of at least two messages ending with at least two objects; container history of more than three operations; damaged message";
  s.subs = {{"messages", messages, 12000, 120000}, {"container", container, 6000, 60000}, {"decoder", decoder, 8000, 80000}, {"chain", chain, 4000, 40000}, {"damaged", damaged, 20000, 300000}};
  return pbt::run(argc, argv, s);
}
