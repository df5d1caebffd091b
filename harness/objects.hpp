// Model of audio objects, their generation, JSON notation and comparison with library objects.
#ifndef VERIF_OBJECTS_HPP
#define VERIF_OBJECTS_HPP
#include "pbt.hpp"

#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_factory.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_extent.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>

#include <array>
#include <cmath>
#include <cstdio>
#include <map>
#include <sstream>

namespace om
{
using namespace visr::objectmodel;
enum Kind { Point, Extent, Plane, Diffuse, PointDiffuse, Hoa, Channel, Reverb, NumKinds };
inline char const* kindName(int k)
{
  static char const* n[] = {"point", "pointextent", "plane", "diffuse", "pointdiffuse", "hoa", "channel", "pointreverb"};
  return n[k];
}
struct Eq { int type = 0; float f = 0, q = 0, gain = 0; };
struct Refl { float delay = 0, level = 0, x = 0, y = 0, z = 0; std::vector<std::array<float, 5>> biquads; };
struct Obj
{
  int kind = Point;
  unsigned id = 0, group = 0, priority = 0, order = 0;
  float level = 0;
  std::vector<unsigned> channels;
  std::vector<Eq> eq;
  float x = 0, y = 0, z = 0, lock = 0, diffuseness = 0, width = 0, height = 0, depth = 0, az = 0, el = 0, refdist = 0;
  std::vector<std::vector<std::string>> outputs;
  std::vector<Refl> refl;
  float lateDelay = 0;
  std::array<float, 9> lateLevel{}, lateAttack{}, lateDecay{};
  bool hasPos() const { return kind == Point || kind == Extent || kind == PointDiffuse || kind == Reverb; }
};
inline char const* eqName(int t)
{
  static char const* n[] = {"lowpass", "highpass", "bandpass", "bandstop", "highshelf", "lowshelf", "peak", "allpass"};
  return n[t];
}

// ---- generation
inline float anyFloat(pbt::Case& c)
{
  switch (c.draw(6))
  {
  case 0: return 0.f;
  case 1: return (float)c.range(-10, 10);
  case 2: return (float)(c.range(-1000, 1000) / 8.0);
  case 3: return (float)c.real(-1, 1);
  case 4: return (float)(c.real(-1, 1) * std::pow(10.0, (double)c.range(-12, 8)));
  default: return (float)c.real(-100, 100);
  }
}
inline Obj anyObject(pbt::Case& c, unsigned id, int kind, unsigned maxChannel = 70)
{
  Obj o;
  o.kind = kind;
  o.id = id;
  o.group = c.chance(10) ? 4294967295u : (unsigned)c.size(0, 5);
  o.priority = c.chance(20) ? 255 : (unsigned)c.size(0, 5);
  o.level = anyFloat(c);
  std::size_t nc = c.chance(70) ? 1 : c.wide(0, 5, 30);
  if (kind == Hoa) { o.order = (unsigned)c.wide(0, 3, 7); nc = (o.order + 1) * (o.order + 1); }
  if (c.chance(50)) { unsigned s = (unsigned)c.size(0, maxChannel > 20 ? maxChannel - 20 : 0); for (std::size_t i = 0; i < nc; ++i) o.channels.push_back(s + (unsigned)i); }
  else for (std::size_t i = 0; i < nc; ++i) o.channels.push_back((unsigned)c.size(0, maxChannel));
  if (c.chance(30))
  {
    std::size_t n = c.size(1, 3);
    for (std::size_t i = 0; i < n; ++i) { Eq e; e.type = (int)c.draw(8); e.f = (float)c.real(20, 20000); e.q = (float)c.real(0.1, 10); e.gain = c.chance(30) ? 0.f : (float)c.real(-24, 24); o.eq.push_back(e); }
  }
  if (o.hasPos())
  {
    o.x = anyFloat(c); o.y = anyFloat(c); o.z = anyFloat(c);
    o.lock = c.chance(70) ? 0.f : anyFloat(c);
  }
  if (kind == PointDiffuse || kind == Extent) o.diffuseness = c.flag() ? (float)c.real(0, 1) : anyFloat(c);
  if (kind == Channel) o.diffuseness = c.flag() ? 0.f : (float)c.real(0, 1);
  if (kind == Extent) { o.width = anyFloat(c); o.height = anyFloat(c); o.depth = c.flag() ? 0.f : anyFloat(c); }
  if (kind == Plane) { o.az = anyFloat(c); o.el = anyFloat(c); o.refdist = anyFloat(c); }
  if (kind == Channel)
    for (std::size_t i = 0; i < nc; ++i)
    {
      std::vector<std::string> l;
      std::size_t n = c.chance(60) ? 1 : c.size(0, 3);
      for (std::size_t k = 0; k < n; ++k)
      {
        static char const cs[] = "abzAZ019_@";
        std::string s;
        std::size_t len = c.size(1, 5);
        for (std::size_t j = 0; j < len; ++j) s += cs[c.draw(sizeof(cs) - 1)];
        if (c.chance(30)) s = "M" + std::string(c.flag() ? "+" : "-") + s;
        l.push_back(s);
      }
      o.outputs.push_back(l);
    }
  if (kind == Reverb)
  {
    std::size_t n = c.chance(60) ? c.size(0, 3) : c.size(0, 8);
    for (std::size_t i = 0; i < n; ++i)
    {
      Refl r;
      r.delay = (float)c.real(0, 0.5); r.level = anyFloat(c); r.x = anyFloat(c); r.y = anyFloat(c); r.z = anyFloat(c);
      std::size_t nb = c.chance(20) ? 10 : c.size(0, 3);
      for (std::size_t b = 0; b < nb; ++b) { std::array<float, 5> q; for (auto& v : q) v = (float)c.real(-2, 2); r.biquads.push_back(q); }
      o.refl.push_back(r);
    }
    o.lateDelay = (float)c.real(0, 1);
    for (auto& v : o.lateLevel) v = anyFloat(c);
    for (auto& v : o.lateAttack) v = (float)c.real(0, 2);
    for (auto& v : o.lateDecay) v = (float)c.real(-20, 0);
  }
  return o;
}

// ---- JSON text
struct Json // minimal tree, keys in insertion order
{
  std::string value;
  bool quoted = false, array = false, leaf = true;
  std::vector<std::pair<std::string, Json>> kids;
  Json() {}
  static Json str(std::string const& s) { Json j; j.value = s; j.quoted = true; return j; }
  static Json num(std::string const& s) { Json j; j.value = s; return j; }
  static Json obj() { Json j; j.leaf = false; return j; }
  static Json arr() { Json j; j.leaf = false; j.array = true; return j; }
  Json& add(std::string const& k, Json const& v) { kids.emplace_back(k, v); return kids.back().second; }
  Json* find(std::string const& k) { for (auto& x : kids) if (x.first == k) return &x.second; return nullptr; }
  bool erase(std::string const& k) { for (std::size_t i = 0; i < kids.size(); ++i) if (kids[i].first == k) { kids.erase(kids.begin() + i); return true; } return false; }
  void write(std::ostream& s, pbt::Case* c) const
  {
    auto ws = [&] { if (c && c->chance(10)) s << (c->flag() ? " " : "\n\t"); };
    if (leaf) { s << (quoted ? "\"" + value + "\"" : value); return; }
    s << (array ? "[" : "{");
    for (std::size_t i = 0; i < kids.size(); ++i)
    {
      if (i) s << ",";
      ws();
      if (!array) { s << "\"" << kids[i].first << "\":"; ws(); }
      kids[i].second.write(s, c);
    }
    ws();
    s << (array ? "]" : "}");
  }
};
inline std::string num(float v)
{
  char b[40];
  std::snprintf(b, sizeof b, "%.9g", (double)v);
  return b;
}
inline Json fnum(pbt::Case& c, float v) { return c.chance(15) ? Json::str(num(v)) : Json::num(num(v)); }
inline Json unum(pbt::Case& c, unsigned v) { return c.chance(15) ? Json::str(std::to_string(v)) : Json::num(std::to_string(v)); }

struct Sph { bool used = false; float az = 0, el = 0, radius = 1; };
// position in Cartesian or (changing the model's coordinates) spherical notation
inline Json position(pbt::Case& c, float& x, float& y, float& z, bool allowSpherical)
{
  Json p = Json::obj();
  if (allowSpherical && c.chance(30))
  {
    float az = (float)c.real(-360, 360), el = (float)c.real(-90, 90), r = c.chance(40) ? 1.f : (float)c.real(0, 10);
    p.add("az", fnum(c, az));
    p.add("el", fnum(c, el));
    if (r != 1.f || c.flag()) p.add("radius", fnum(c, r));
    double const d = 3.14159265358979323846 / 180;
    x = (float)(std::cos(az * d) * std::cos(el * d) * r);
    y = (float)(std::sin(az * d) * std::cos(el * d) * r);
    z = (float)(std::sin(el * d) * r);
  }
  else
  {
    if (c.flag()) p.add("x", fnum(c, x)), p.add("y", fnum(c, y));
    else p.add("y", fnum(c, y)), p.add("x", fnum(c, x));
    if (z != 0.f || c.flag()) p.add("z", fnum(c, z));
  }
  return p;
}
template <typename Seq> std::string join(Seq const& s, std::string const& sep)
{
  std::string r;
  bool first = true;
  for (auto const& x : s) { if (!first) r += sep; first = false; r += num((float)x); }
  return r;
}
inline std::string channelText(pbt::Case& c, std::vector<unsigned> const& ch)
{
  std::string r;
  for (std::size_t i = 0; i < ch.size();)
  {
    if (i) r += c.flag() ? "," : " , ";
    std::size_t j = i;
    while (j + 1 < ch.size() && ch[j + 1] == ch[j] + 1) ++j;
    if (j > i && c.chance(60)) { r += std::to_string(ch[i]) + ":" + (c.flag() ? "1:" : "") + std::to_string(ch[j]); i = j + 1; }
    else r += std::to_string(ch[i++]);
  }
  return r;
}
inline std::string outputText(std::vector<std::vector<std::string>> const& out, pbt::Case& c)
{
  std::string r;
  for (std::size_t i = 0; i < out.size(); ++i)
  {
    if (i) r += c.flag() ? "," : ", ";
    bool br = out[i].size() != 1 || c.chance(20);
    if (br) r += "[";
    for (std::size_t k = 0; k < out[i].size(); ++k) r += (k ? ", " : "") + out[i][k];
    if (br) r += "]";
  }
  return r;
}
// JSON tree of the object; spherical notation changes the coordinates of o
inline Json toJson(pbt::Case& c, Obj& o, bool allowSpherical = true)
{
  Json j = Json::obj();
  j.add("type", Json::str(kindName(o.kind)));
  j.add("id", unum(c, o.id));
  if (o.channels.size() == 1 && c.flag()) j.add("channels", Json::num(std::to_string(o.channels[0])));
  else j.add("channels", Json::str(channelText(c, o.channels)));
  j.add("group", unum(c, o.group));
  j.add("level", fnum(c, o.level));
  j.add("priority", unum(c, o.priority));
  if (!o.eq.empty() || c.chance(10))
  {
    Json e = Json::arr();
    for (auto const& q : o.eq)
    {
      Json k = Json::obj();
      k.add("type", Json::str(eqName(q.type)));
      k.add("f", fnum(c, q.f));
      k.add("q", fnum(c, q.q));
      if (q.gain != 0.f || c.flag()) k.add("gain", fnum(c, q.gain));
      e.add("", k);
    }
    if (o.eq.empty()) j.add("eq", Json::str("")); // an empty array and an empty string are the same to the reader
    else j.add("eq", e);
  }
  if (o.hasPos())
  {
    j.add("position", position(c, o.x, o.y, o.z, allowSpherical));
    if (o.lock != 0.f || c.chance(10)) j.add("channelLock", fnum(c, o.lock));
  }
  if (o.kind == PointDiffuse || o.kind == Extent || (o.kind == Channel && o.diffuseness != 0.f)) j.add("diffuseness", fnum(c, o.diffuseness));
  if (o.kind == Extent)
  {
    j.add("width", fnum(c, o.width));
    j.add("height", fnum(c, o.height));
    if (o.depth != 0.f || c.flag()) j.add("depth", fnum(c, o.depth));
  }
  if (o.kind == Plane)
  {
    Json d = Json::obj();
    d.add("az", fnum(c, o.az));
    d.add("el", fnum(c, o.el));
    d.add("refdist", fnum(c, o.refdist));
    j.add("direction", d);
  }
  if (o.kind == Hoa) j.add("order", unum(c, o.order));
  if (o.kind == Channel) j.add("outputChannels", Json::str(outputText(o.outputs, c)));
  if (o.kind == Reverb)
  {
    Json room = Json::obj();
    if (!o.refl.empty())
    {
      Json er = Json::arr();
      for (auto& r : o.refl)
      {
        Json k = Json::obj();
        k.add("delay", fnum(c, r.delay));
        k.add("level", fnum(c, r.level));
        k.add("position", position(c, r.x, r.y, r.z, allowSpherical));
        Json b = Json::arr();
        for (auto& q : r.biquads)
        {
          Json m = Json::obj();
          float a0 = 1;
          static char const* nm[] = {"b0", "b1", "b2", "a1", "a2"};
          if (c.chance(20)) { a0 = c.flag() ? 2.f : 0.5f; }
          for (int i = 0; i < 5; ++i) m.add(nm[i], fnum(c, q[i] * a0));
          if (a0 != 1 || c.chance(20)) m.add("a0", fnum(c, a0));
          b.add("", m);
        }
        if (r.biquads.empty()) k.add("biquadsos", Json::str(""));
        else k.add("biquadsos", b);
        er.add("", k);
      }
      room.add("ereflect", er);
    }
    Json late = Json::obj();
    late.add("delay", fnum(c, o.lateDelay));
    late.add("level", Json::str(join(o.lateLevel, ", ")));
    late.add("attacktime", Json::str(join(o.lateAttack, ",")));
    late.add("decayconst", Json::str(join(o.lateDecay, " , ")));
    room.add("lreverb", late);
    j.add("room", room);
  }
  // fields may come in any order
  if (c.chance(40))
    for (std::size_t i = j.kids.size(); i > 1; --i) std::swap(j.kids[i - 1], j.kids[c.draw(i)]);
  return j;
}
inline std::string message(pbt::Case& c, std::vector<Json> const& objs)
{
  Json m = Json::obj();
  if (c.chance(10)) m.add("comment", Json::str("x"));
  Json a = Json::arr();
  for (auto const& o : objs) a.add("", o);
  if (objs.empty()) m.add("objects", Json::str(""));
  else m.add("objects", a);
  std::ostringstream s;
  m.write(s, &c);
  return s.str();
}

// ---- library object -> model
inline int kindOf(Object const& o)
{
  switch (o.type())
  {
  case ObjectTypeId::PointSource: return Point;
  case ObjectTypeId::PointSourceExtent: return Extent;
  case ObjectTypeId::PlaneWave: return Plane;
  case ObjectTypeId::DiffuseSource: return Diffuse;
  case ObjectTypeId::PointSourceWithDiffuseness: return PointDiffuse;
  case ObjectTypeId::HoaSource: return Hoa;
  case ObjectTypeId::ChannelObject: return Channel;
  case ObjectTypeId::PointSourceWithReverb: return Reverb;
  default: return -1;
  }
}
inline Obj fromLib(Object const& l)
{
  Obj o;
  o.kind = kindOf(l);
  PBT_CHECK(o.kind >= 0, "unexpected object type");
  o.id = l.id(); o.group = l.groupId(); o.priority = l.priority(); o.level = l.level();
  for (std::size_t i = 0; i < l.numberOfChannels(); ++i) o.channels.push_back(l.channelIndex(i));
  for (auto const& e : l.eqCoefficients()) { Eq q; q.type = (int)e.type(); q.f = e.frequency(); q.q = e.quality(); q.gain = e.gain(); o.eq.push_back(q); }
  if (auto p = dynamic_cast<PointSource const*>(&l)) { o.x = p->x(); o.y = p->y(); o.z = p->z(); o.lock = p->channelLockDistance(); }
  if (auto p = dynamic_cast<PointSourceWithDiffuseness const*>(&l)) o.diffuseness = p->diffuseness();
  if (auto p = dynamic_cast<PointSourceExtent const*>(&l)) { o.width = p->width(); o.height = p->height(); o.depth = p->depth(); }
  if (auto p = dynamic_cast<PlaneWave const*>(&l)) { o.az = p->incidenceAzimuth(); o.el = p->incidenceElevation(); o.refdist = p->referenceDistance(); }
  if (auto p = dynamic_cast<HoaSource const*>(&l)) o.order = p->order();
  if (auto p = dynamic_cast<ChannelObject const*>(&l)) { o.diffuseness = p->diffuseness(); o.outputs = p->outputChannels(); }
  if (auto p = dynamic_cast<PointSourceWithReverb const*>(&l))
  {
    for (std::size_t i = 0; i < p->numberOfDiscreteReflections(); ++i)
    {
      auto const& d = p->discreteReflection(i);
      Refl r;
      r.delay = d.delay(); r.level = d.level(); r.x = d.positionX(); r.y = d.positionY(); r.z = d.positionZ();
      for (auto const& b : d.reflectionFilters()) r.biquads.push_back({b.b0(), b.b1(), b.b2(), b.a1(), b.a2()});
      o.refl.push_back(r);
    }
    o.lateDelay = p->lateReverbOnset();
    std::copy(p->lateReverbLevels().begin(), p->lateReverbLevels().end(), o.lateLevel.begin());
    std::copy(p->lateReverbAttackTimes().begin(), p->lateReverbAttackTimes().end(), o.lateAttack.begin());
    std::copy(p->lateReverbDecayCoeffs().begin(), p->lateReverbDecayCoeffs().end(), o.lateDecay.begin());
  }
  return o;
}
// model -> library object
inline std::unique_ptr<Object> toLib(Obj const& o)
{
  static ObjectTypeId const ty[] = {ObjectTypeId::PointSource, ObjectTypeId::PointSourceExtent, ObjectTypeId::PlaneWave, ObjectTypeId::DiffuseSource, ObjectTypeId::PointSourceWithDiffuseness, ObjectTypeId::HoaSource, ObjectTypeId::ChannelObject, ObjectTypeId::PointSourceWithReverb};
  std::unique_ptr<Object> r = ObjectFactory::create(ty[o.kind], o.id);
  r->setGroupId(o.group);
  r->setPriority((Object::Priority)o.priority);
  r->setLevel(o.level);
  r->resetNumberOfChannels(o.channels.size());
  for (std::size_t i = 0; i < o.channels.size(); ++i) r->setChannelIndex(i, o.channels[i]);
  visr::rbbl::ParametricIirCoefficientList<float> eq;
  eq.resize(o.eq.size());
  for (std::size_t i = 0; i < o.eq.size(); ++i)
    eq[i] = visr::rbbl::ParametricIirCoefficient<float>((visr::rbbl::ParametricIirCoefficientBase::Type)o.eq[i].type, o.eq[i].f, o.eq[i].q, o.eq[i].gain);
  r->setEqCoefficients(eq);
  if (auto p = dynamic_cast<PointSource*>(r.get())) { p->setX(o.x); p->setY(o.y); p->setZ(o.z); p->setChannelLock(o.lock); }
  if (auto p = dynamic_cast<PointSourceWithDiffuseness*>(r.get())) p->setDiffuseness(o.diffuseness);
  if (auto p = dynamic_cast<PointSourceExtent*>(r.get())) { p->setWidth(o.width); p->setHeight(o.height); p->setDepth(o.depth); }
  if (auto p = dynamic_cast<PlaneWave*>(r.get())) { p->setIncidenceAzimuth(o.az); p->setIncidenceElevation(o.el); p->setReferenceDistance(o.refdist); }
  if (auto p = dynamic_cast<HoaSource*>(r.get())) p->setOrder(o.order);
  if (auto p = dynamic_cast<ChannelObject*>(r.get())) { p->setDiffuseness(o.diffuseness); p->setOutputChannels(o.outputs); }
  if (auto p = dynamic_cast<PointSourceWithReverb*>(r.get()))
  {
    p->setNumberOfDiscreteReflections(o.refl.size());
    for (std::size_t i = 0; i < o.refl.size(); ++i)
    {
      auto& d = p->discreteReflection(i);
      d.setPosition(o.refl[i].x, o.refl[i].y, o.refl[i].z);
      d.setDelay(o.refl[i].delay);
      d.setLevel(o.refl[i].level);
      visr::rbbl::BiquadCoefficientList<float> b(o.refl[i].biquads.size());
      for (std::size_t k = 0; k < o.refl[i].biquads.size(); ++k) { auto const& q = o.refl[i].biquads[k]; b[k] = visr::rbbl::BiquadCoefficient<float>(q[0], q[1], q[2], q[3], q[4]); }
      d.setReflectionFilters(b);
    }
    p->setLateReverbOnset(o.lateDelay);
    p->setLateReverbLevels(o.lateLevel.data(), 9);
    p->setLateReverbAttackTimes(o.lateAttack.data(), 9);
    p->setLateReverbDecayCoeffs(o.lateDecay.data(), 9);
  }
  return r;
}

// ---- comparison; empty string if equal
inline bool near(float a, float b, double rel, double abs) { return a == b || std::fabs((double)a - b) <= abs + rel * std::fabs((double)b); }
inline std::string diff(Obj const& a, Obj const& e)
{
  std::ostringstream s;
  auto f = [&](char const* n, float x, float y, double rel = 0, double abs = 0) { if (!near(x, y, rel, abs)) s << n << " is " << num(x) << " expected " << num(y) << "; "; };
  auto u = [&](char const* n, unsigned x, unsigned y) { if (x != y) s << n << " is " << x << " expected " << y << "; "; };
  if (a.kind != e.kind) s << "type is " << (a.kind >= 0 ? kindName(a.kind) : "?") << " expected " << kindName(e.kind) << "; ";
  u("id", a.id, e.id); u("group", a.group, e.group); u("priority", a.priority, e.priority); u("order", a.order, e.order);
  f("level", a.level, e.level);
  if (a.channels != e.channels) { s << "channels are"; for (auto x : a.channels) s << " " << x; s << " expected"; for (auto x : e.channels) s << " " << x; s << "; "; }
  if (a.eq.size() != e.eq.size()) s << "eq has " << a.eq.size() << " entries, expected " << e.eq.size() << "; ";
  else for (std::size_t i = 0; i < a.eq.size(); ++i) { u("eq type", a.eq[i].type, e.eq[i].type); f("eq f", a.eq[i].f, e.eq[i].f); f("eq q", a.eq[i].q, e.eq[i].q); f("eq gain", a.eq[i].gain, e.eq[i].gain, 0, 1.3e-7); }
  double const pr = 1e-5; // coordinates may come from a conversion in single precision (with a scale of up to 10)
  f("x", a.x, e.x, 1e-6, std::fabs(e.x) <= 10 ? pr : 0); f("y", a.y, e.y, 1e-6, std::fabs(e.y) <= 10 ? pr : 0); f("z", a.z, e.z, 1e-6, std::fabs(e.z) <= 10 ? pr : 0);
  f("channelLock", a.lock, e.lock); f("diffuseness", a.diffuseness, e.diffuseness);
  f("width", a.width, e.width); f("height", a.height, e.height); f("depth", a.depth, e.depth);
  f("direction.az", a.az, e.az); f("direction.el", a.el, e.el); f("refdist", a.refdist, e.refdist);
  if (a.outputs != e.outputs) s << "output channels differ; ";
  if (a.refl.size() != e.refl.size()) s << a.refl.size() << " reflections, expected " << e.refl.size() << "; ";
  else
    for (std::size_t i = 0; i < a.refl.size(); ++i)
    {
      auto const &r = a.refl[i], &q = e.refl[i];
      f("reflection delay", r.delay, q.delay); f("reflection level", r.level, q.level);
      f("reflection x", r.x, q.x, 1e-6, std::fabs(q.x) <= 10 ? pr : 0); f("reflection y", r.y, q.y, 1e-6, std::fabs(q.y) <= 10 ? pr : 0); f("reflection z", r.z, q.z, 1e-6, std::fabs(q.z) <= 10 ? pr : 0);
      // missing sections are flat
      for (std::size_t k = 0; k < std::max(r.biquads.size(), q.biquads.size()); ++k)
        for (int m = 0; m < 5; ++m)
          f("reflection filter", k < r.biquads.size() ? r.biquads[k][m] : (m == 0), k < q.biquads.size() ? q.biquads[k][m] : (m == 0), 1e-6, 1e-30);
    }
  f("late delay", a.lateDelay, e.lateDelay);
  for (int i = 0; i < 9; ++i) { f("late level", a.lateLevel[i], e.lateLevel[i], 6e-6, 1e-30); f("late attack", a.lateAttack[i], e.lateAttack[i], 6e-6, 1e-30); f("late decay", a.lateDecay[i], e.lateDecay[i], 6e-6, 1e-30); }
  return s.str();
}
using Scene = std::map<unsigned, Obj>;
inline std::string diff(ObjectVector const& v, Scene const& m)
{
  std::string r;
  if (v.size() != m.size()) r = std::to_string(v.size()) + " objects, expected " + std::to_string(m.size()) + "; ";
  auto it = m.begin();
  for (auto o = v.cbegin(); o != v.cend(); ++o, ++it)
  {
    if (it == m.end()) return r + "surplus object";
    std::string d = diff(fromLib(*o), it->second);
    if (!d.empty()) return r + "object " + std::to_string((*o).id()) + ": " + d;
  }
  return r;
}

// ---- faults
// makes the JSON of one object invalid; returns a description, or an empty string if the chosen fault does not apply
inline std::string breakObject(pbt::Case& c, Obj const& o, Json& j)
{
  auto bad = [&] { static char const* b[] = {"\"abc\"", "\"1.5.2\"", "\"\"", "{}", "\"1 2\"", "[1,2]"}; return Json::num(b[c.draw(6)]); };
  switch (c.draw(8))
  {
  case 0:
  {
    std::vector<std::string> req = {"type", "id", "group", "level", "priority"};
    if (o.hasPos()) req.push_back("position");
    if (o.kind == PointDiffuse || o.kind == Extent) req.push_back("diffuseness");
    if (o.kind == Extent) req.push_back("width"), req.push_back("height");
    if (o.kind == Plane) req.push_back("direction");
    if (o.kind == Hoa) req.push_back("order");
    if (o.kind == Channel) req.push_back("outputChannels");
    if (o.kind == Reverb) req.push_back("room");
    std::string k = req[c.draw(req.size())];
    j.erase(k);
    return "missing " + k;
  }
  case 1:
  {
    std::vector<std::string> n = {"id", "group", "level", "priority"};
    if (o.kind == PointDiffuse || o.kind == Extent) n.push_back("diffuseness");
    if (o.kind == Extent) n.push_back("width"), n.push_back("height");
    if (o.kind == Hoa) n.push_back("order");
    std::string k = n[c.draw(n.size())];
    *j.find(k) = bad();
    return "non-numeric " + k;
  }
  case 2:
    *j.find("type") = Json::str(c.flag() ? "nosuchtype" : c.flag() ? "extended" : "");
    return "unknown type";
  case 3:
    if (c.flag()) { *j.find("priority") = Json::num("256"); return "priority out of range"; }
    *j.find("id") = Json::num("4294967296");
    return "id out of range";
  case 4:
    if (o.hasPos())
    {
      Json& p = *j.find("position");
      std::size_t k = c.draw(3);
      bool cart = p.find("x") != nullptr;
      if (k == 0) { p.add(cart ? "az" : "x", Json::num("1")); return "mixed coordinates"; }
      if (k == 1) { p.erase(cart ? (c.flag() ? "x" : "y") : (c.flag() ? "az" : "el")); return "missing coordinate"; }
      p = Json::obj();
      p.add("w", Json::num("1"));
      return "no coordinates";
    }
    if (o.kind == Plane) { Json& d = *j.find("direction"); std::string k = std::vector<std::string>{"az", "el", "refdist"}[c.draw(3)]; if (c.flag()) { d.erase(k); return "missing direction." + k; } *d.find(k) = bad(); return "non-numeric direction." + k; }
    if (o.kind == Hoa) { *j.find("order") = Json::num(std::to_string(o.order + 1)); return "order and channels inconsistent"; }
    if (o.kind == Channel)
    {
      Json& t = *j.find("outputChannels");
      std::size_t k = c.draw(4);
      if (k == 0) { t = Json::str(t.value.empty() ? "A" : t.value + ",A"); return "too many output channels"; }
      if (k == 1) { t = Json::str(t.value + "["); return "unbalanced bracket"; }
      if (k == 2) { t = Json::str("," + t.value); return "leading comma"; }
      t = Json::str(t.value + "!");
      return "invalid label character";
    }
    return "";
  case 5:
    if (o.kind != Reverb) return "";
    {
      Json& late = *j.find("room")->find("lreverb");
      std::string k = std::vector<std::string>{"level", "attacktime", "decayconst"}[c.draw(3)];
      std::size_t m = c.draw(5);
      if (m == 0) { late.erase(k); return "missing lreverb." + k; }
      if (m == 1) { late.find(k)->value += ", 1"; return "too many subbands in " + k; }
      if (m == 2) { *late.find(k) = Json::str("1:8"); return "too few subbands in " + k; }
      if (m == 3) { *late.find(k) = Json::str("1:0:9"); return "zero increment in " + k; }
      *late.find(k) = Json::str("a,b");
      return "non-numeric " + k;
    }
  case 6:
    if (o.kind != Reverb) return "";
    if (o.refl.empty() || c.chance(30))
    {
      Json& room = *j.find("room");
      if (c.flag()) { room.erase("lreverb"); return "missing lreverb"; }
      room.find("lreverb")->erase("delay");
      return "missing lreverb.delay";
    }
    {
      Json& r = j.find("room")->find("ereflect")->kids[c.draw(o.refl.size())].second;
      std::string k = std::vector<std::string>{"delay", "level", "position", "biquadsos"}[c.draw(4)];
      if (k != "biquadsos" || c.flag()) { r.erase(k); return "missing reflection " + k; }
      Json b = Json::arr();
      std::size_t const n = c.flag() ? 11 : 1;
      for (std::size_t i = 0; i < n; ++i)
      {
        Json q = Json::obj();
        for (auto m : {"b0", "b1", "b2", "a1", "a2"}) q.add(m, Json::num("1"));
        if (n == 1) q.erase(c.flag() ? "a2" : "b1");
        b.add("", q);
      }
      *r.find(k) = b;
      return n == 1 ? "incomplete reflection filter" : "too many reflection filters";
    }
  default:
    if (o.eq.empty()) return "";
    {
      Json& e = j.find("eq")->kids[c.draw(o.eq.size())].second;
      std::size_t m = c.draw(3);
      if (m == 0) { std::string k = std::vector<std::string>{"type", "f", "q"}[c.draw(3)]; e.erase(k); return "missing eq " + k; }
      if (m == 1) { *e.find("type") = Json::str("wobble"); return "unknown eq type"; }
      *e.find(c.flag() ? "f" : "q") = bad();
      return "non-numeric eq value";
    }
  }
}
} // namespace om
#endif
