// P17: loudspeaker array configurations.
#include "arrays.hpp"
#include "pbt.hpp"

#include <libpanning/LoudspeakerArray.h>
#include <librbbl/biquad_coefficient.hpp>

using namespace visr;
using namespace arr;

namespace
{
void compare(panning::LoudspeakerArray const& a, Array const& m, std::string const& what)
{
  std::size_t const nr = m.spk.size(), nt = nr + m.virt.size(), ns = m.subs.size();
  PBT_CHECK(a.getNumRegularSpeakers() == nr && a.getNumSpeakers() == nt && a.getNumSubwoofers() == ns && a.getNumTriplets() == m.tri.size(),
            what << ": " << a.getNumRegularSpeakers() << "/" << a.getNumSpeakers() << " loudspeakers, " << a.getNumSubwoofers() << " subwoofers, " << a.getNumTriplets() << " triplets");
  PBT_CHECK(a.is2D() == m.is2D && a.isInfinite() == m.infinite, what << ": dimension or infinity flag");
  auto const ord = m.order();
  auto const ids = m.ids();
  auto const pos = m.positions();
  for (std::size_t i = 0; i < nt; ++i)
  {
    PBT_CHECK(a.getSpeakerIndexFromId(ids[i]) == i, what << ": loudspeaker \"" << ids[i] << "\" has index " << a.getSpeakerIndexFromId(ids[i]) << " instead of " << i);
    PBT_CHECK(a.loudspeakerId(i) == ids[i], what << ": id of loudspeaker " << i << " is \"" << a.loudspeakerId(i) << "\" instead of \"" << ids[i] << "\"");
    auto const& p = a.getPosition(i);
    auto const& q = a.getPosition(ids[i]);
    PBT_CHECK(p.x == q.x && p.y == q.y && p.z == q.z && p.x == a.getPositions()[i].x, what << ": position of " << ids[i] << " depends on the way it is queried");
    double const t = 2e-6 * (1 + len(pos[i]));
    PBT_CHECK(std::abs(p.x - pos[i][0]) <= t && std::abs(p.y - pos[i][1]) <= t && std::abs(p.z - pos[i][2]) <= t && p.isInfinite == m.infinite,
              what << ": position of " << ids[i] << " is (" << p.x << "," << p.y << "," << p.z << ") instead of (" << pos[i][0] << "," << pos[i][1] << "," << pos[i][2] << ")");
  }
  PBT_CHECK(pbt::outcome([&] { a.loudspeakerId(nt); }) == 1, what << ": id of a non-existing loudspeaker");
  PBT_CHECK(pbt::outcome([&] { a.getSpeakerIndexFromId("no such id"); }) == 1 && pbt::outcome([&] { a.getPosition("no such id"); }) == 1, what << ": unknown id accepted");
  PBT_CHECK(pbt::outcome([&] { a.getSpeakerChannelFromId("no such id"); }) == 1, what << ": channel of an unknown id");
  PBT_CHECK(pbt::outcome([&] { a.getSpeakerChannel(nr); }) == 1, what << ": channel of a non-existing loudspeaker");
  for (std::size_t i = nr; i < nt; ++i) PBT_CHECK(pbt::outcome([&] { a.getSpeakerChannelFromId(ids[i]); }) == 1, what << ": channel of a virtual loudspeaker");
  auto adj = [&](float g, float d, Adjust const& x, std::string const& n) {
    PBT_CHECK(std::abs(g - x.linear()) <= 3e-6 * std::abs(x.linear()), what << ": gain of " << n << " is " << g << " instead of " << x.linear());
    PBT_CHECK(d == (float)x.delay, what << ": delay of " << n << " is " << d << " instead of " << x.delay);
  };
  PBT_CHECK(a.getGainAdjustment().size() == nr + ns && a.getDelayAdjustment().size() == nr + ns, what << ": size of the adjustments");
  PBT_CHECK(a.outputEqualisationPresent() == m.hasEq && a.outputEqualisationNumberOfBiquads() == (m.hasEq ? m.numBiquads : 0), what << ": equalisers present: " << a.outputEqualisationPresent() << ", sections " << a.outputEqualisationNumberOfBiquads());
  if (!m.hasEq) PBT_CHECK(pbt::outcome([&] { a.outputEqualisationBiquads(); }) == 1, what << ": equalisers of an array without");
  auto eq = [&](std::size_t row, Adjust const& x) {
    if (!m.hasEq) return;
    auto const& b = a.outputEqualisationBiquads();
    PBT_CHECK(b.numberOfFilters() == nr + ns && b.numberOfSections() == m.numBiquads, what << ": size of the equaliser matrix");
    Eq none;
    Eq const* e = &none;
    for (auto const& q : m.eqs) if (q.name == x.eq) e = &q;
    for (std::size_t s = 0; s < m.numBiquads; ++s)
    {
      std::array<double, 6> const ref = s < e->biquads.size() ? e->biquads[s] : std::array<double, 6>{{1, 0, 0, 1, 0, 0}};
      auto const& f = b(row, s);
      double const got[] = {f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
      for (int k = 0; k < 5; ++k) PBT_CHECK(std::abs(got[k] - ref[k + 1] / ref[0]) <= 1e-5, what << ": equaliser of output " << row << ", section " << s << ", coefficient " << k << " is " << got[k] << " instead of " << ref[k + 1] / ref[0]);
    }
  };
  for (std::size_t i = 0; i < nr; ++i)
  {
    Spk const& s = m.spk[ord[i]];
    PBT_CHECK(a.channelIndex(i) == s.channel && a.getSpeakerChannel(i) == s.channel && a.getSpeakerChannelFromId(s.id) == s.channel && a.getLoudspeakerChannels()[i] == s.channel, what << ": channel of " << s.id << " is " << a.getSpeakerChannel(i) << " instead of " << s.channel);
    adj(a.getLoudspeakerGainAdjustment(i), a.getLoudspeakerDelayAdjustment(i), s.adj, s.id);
    adj(a.getGainAdjustment()[i], a.getDelayAdjustment()[i], s.adj, s.id);
    eq(i, s.adj);
  }
  auto const& rr = a.getReroutingCoefficients();
  PBT_CHECK(rr.numberOfRows() == m.virt.size() && rr.numberOfColumns() == nr, what << ": size of the rerouting matrix");
  for (std::size_t v = 0; v < m.virt.size(); ++v)
    for (std::size_t i = 0; i < nr; ++i)
    {
      double ref = 0;
      for (auto const& r : m.virt[v].routes) if (r.first == ids[i]) ref = std::pow(10.0, r.second / 20);
      PBT_CHECK(std::abs(a.getReroutingCoefficient(v, i) - ref) <= 4e-6 * ref && rr(v, i) == a.getReroutingCoefficient(v, i), what << ": rerouting of " << m.virt[v].id << " to " << ids[i] << " is " << a.getReroutingCoefficient(v, i) << " instead of " << ref);
    }
  for (std::size_t s = 0; s < ns; ++s)
  {
    Sub const& b = m.subs[s];
    PBT_CHECK(a.getSubwooferChannel(s) == b.channel && a.getSubwooferChannels()[s] == b.channel, what << ": channel of subwoofer " << s);
    adj(a.getSubwooferGainAdjustment(s), a.getSubwooferDelayAdjustment(s), b.adj, "subwoofer " + std::to_string(s));
    adj(a.getGainAdjustment()[nr + s], a.getDelayAdjustment()[nr + s], b.adj, "subwoofer " + std::to_string(s));
    eq(nr + s, b.adj);
    for (std::size_t i = 0; i < nr; ++i)
    {
      double ref = 0;
      for (std::size_t k = 0; k < b.assigned.size(); ++k) if (b.assigned[k] == ids[i]) ref = b.hasWeights ? b.weights[k] : 1;
      PBT_CHECK(std::abs(a.getSubwooferGain(s, i) - ref) <= 2e-6 * ref && a.getSubwooferGains()(s, i) == a.getSubwooferGain(s, i), what << ": gain from " << ids[i] << " to subwoofer " << s << " is " << a.getSubwooferGain(s, i) << " instead of " << ref);
    }
  }
  PBT_CHECK(pbt::outcome([&] { a.getSubwooferChannel(ns); }) == 1, what << ": channel of a non-existing subwoofer");
  for (std::size_t t = 0; t < m.tri.size(); ++t)
  {
    auto const& x = a.getTriplet(t);
    for (int k = 0; k < (m.is2D ? 2 : 3); ++k) PBT_CHECK(x[k] == m.index(m.tri[t][k]), what << ": vertex " << k << " of triplet " << t << " is " << x[k] << " instead of " << m.index(m.tri[t][k]));
  }
}

std::vector<Elem*> all(Elem& root, std::string const& name)
{
  std::vector<Elem*> r;
  for (auto& k : root.kids) if (k.name == name) r.push_back(&k);
  return r;
}
bool isCoord(Elem const& e) { return e.name == "cart" || e.name == "polar"; }
// damages the configuration; returns a description ("" if not applicable)
std::string damage(pbt::Case& c, Elem& root, Array const& m)
{
  auto spk = all(root, "loudspeaker"), virt = all(root, "virtualspeaker"), subs = all(root, "subwoofer"), tri = all(root, "triplet"), eqc = all(root, "outputEqConfiguration");
  std::vector<Elem*> named = spk;
  named.insert(named.end(), virt.begin(), virt.end());
  std::vector<Elem*> chan = spk;
  chan.insert(chan.end(), subs.begin(), subs.end());
  auto other = [&](std::vector<Elem*> const& v, Elem* not1) { Elem* e; do e = c.pick(v); while (e == not1); return e; };
  switch (c.draw(19))
  {
  case 0: { Elem* a = c.pick(named); Elem* b = other(named, a); *a->get("id") = *b->get("id"); return "duplicate id"; }
  case 1:
  {
    std::string& s = *c.pick(named)->get("id");
    if (c.chance(20)) s = c.pick<std::string>({"", " ", "\t"});
    else s.insert(c.draw(s.size() + 1), c.pick<std::string>({"#", "%", "\"", "$", "a b", "<", "*", ",", ".", ";", "=", "!"}));
    return "illegal id";
  }
  case 2: { Elem* e = c.pick(named); e->drop("id"); return "missing id"; }
  case 3: { Elem* e = c.pick(chan); if (c.flag()) e->drop("channel"); else *e->get("channel") = c.pick<std::string>({"", "x", "1.5", "3a"}); return "missing or malformed channel"; }
  case 4: *c.pick(chan)->get("channel") = c.flag() ? "0" : "-" + std::to_string(1 + c.draw(20)); return "channel below one";
  case 5: { if (chan.size() < 2) return ""; Elem* a = c.pick(chan); *a->get("channel") = *other(chan, a)->get("channel"); return "duplicate channel"; }
  case 6:
  {
    Elem* e = c.pick(named);
    for (std::size_t i = 0; i < e->kids.size(); ++i)
      if (isCoord(e->kids[i]))
      {
        if (c.flag()) { Elem k = e->kids[i]; if (c.flag()) { k = Elem(k.name == "cart" ? "polar" : "cart"); if (k.name == "cart") k.a("x", "1").a("y", "1").a("z", "0"); else k.a("az", "1").a("el", "1").a("r", "1"); } e->kids.push_back(k); return "two positions"; }
        e->kids.erase(e->kids.begin() + (std::ptrdiff_t)i);
        return "no position";
      }
    return "";
  }
  case 7:
  {
    Elem* e = c.pick(named);
    for (auto& k : e->kids)
      if (isCoord(k))
      {
        std::vector<std::string> names = k.name == "cart" ? std::vector<std::string>{"x", "y"} : std::vector<std::string>{"az", "r"};
        if (!m.is2D) names.push_back(k.name == "cart" ? "z" : "el");
        std::string const n = c.pick(names);
        if (c.flag()) k.drop(n); else *k.get(n) = c.pick<std::string>({"", "abc", "1,5", "--1"});
        return "missing or malformed coordinate";
      }
    return "";
  }
  case 8: { Elem* e = c.pick(chan); e->drop("gain"); e->drop("gainDB"); e->a("gain", "0.5").a("gainDB", "-6"); return "two gains"; }
  case 9:
  {
    Elem* e = c.pick(tri);
    std::string const n = c.pick<std::string>({"l1", "l2", m.is2D ? "l1" : "l3"});
    if (c.flag()) e->drop(n); else *e->get(n) = c.pick<std::string>({"", "nobody", " "});
    return "missing or unknown loudspeaker in a triplet";
  }
  case 10:
  {
    if (virt.empty()) return "";
    Elem k("route");
    switch (c.draw(4))
    {
    case 0: k.a("lspId", "nobody").a("gainDB", "0"); break;
    case 1: k.a("gainDB", "0"); break;
    case 2: k.a("lspId", m.spk[0].id); if (c.flag()) k.a("gainDB", "x"); break;
    default: k.a("lspId", c.pick(m.virt).id).a("gainDB", "0"); break; // virtual loudspeakers have no output
    }
    c.pick(virt)->kids.push_back(k);
    return "faulty route";
  }
  case 11:
  {
    if (subs.empty()) return "";
    Elem* e = c.pick(subs);
    std::string& s = *e->get("assignedLoudspeakers");
    switch (c.draw(5))
    {
    case 0: e->drop("assignedLoudspeakers"); break;
    case 1: s += ", nobody"; break;
    case 2: s += ","; break;
    case 3: s = ""; break;
    default: if (m.virt.empty()) return ""; e->drop("weights"); s += "," + c.pick(m.virt).id; break;
    }
    return "faulty subwoofer assignment";
  }
  case 12:
  {
    if (subs.empty()) return "";
    Elem* e = c.pick(subs);
    std::size_t n = 1;
    for (char ch : *e->get("assignedLoudspeakers")) n += ch == ',';
    std::string w;
    n = c.flag() ? n + 1 : n - 1;
    for (std::size_t i = 0; i < n; ++i) w += (i ? "," : "") + std::string("1");
    e->drop("weights");
    e->a("weights", w);
    return "wrong number of weights";
  }
  case 13: root.drop("dimension"); root.a("dimension", c.pick<std::string>({"1", "4", "", "2D", "3.5"})); return "wrong dimension";
  case 14: if (eqc.empty()) return ""; root.kids.push_back(*eqc[0]); return "two equaliser configurations";
  case 15: if (eqc.empty()) return ""; { Elem* e = c.pick(chan); e->drop("eq"); e->a("eq", "nofilter"); } return "unknown equaliser";
  case 16: if (eqc.empty()) return ""; if (c.flag()) eqc[0]->drop("numberOfBiquads"); else *eqc[0]->get("numberOfBiquads") = "x"; return "missing number of sections";
  case 17:
  {
    if (eqc.empty() || m.eqs.empty()) return "";
    Elem& f = c.pick(eqc)->kids[c.draw(m.eqs.size())];
    if (c.flag()) { f.drop("name"); return "equaliser without name"; }
    Elem& b = f.kids[c.draw(f.kids.size())];
    std::string const n = c.pick<std::string>({"a1", "a2", "b0", "b1", "b2"});
    if (c.flag()) b.drop(n); else *b.get(n) = "q";
    return "faulty equaliser section";
  }
  default: root.name = c.pick<std::string>({"panningconfiguration", "configuration", "panningConfigurations"}); return "wrong root element";
  }
}

int load(pbt::Case& c, panning::LoudspeakerArray& a, std::string const& t, std::string& err)
{
  switch (c.draw(3))
  {
  case 0: return pbt::outcome([&] { a.loadXmlString(t); }, &err);
  case 1: return pbt::outcome([&] { std::istringstream is(t); a.loadXmlStream(is); }, &err);
  default: { MemFile f(t); return pbt::outcome([&] { a.loadXmlFile(f.path()); }, &err); }
  }
}
void config(pbt::Case& c)
{
  Quiet q;
  panning::LoudspeakerArray a;
  std::size_t const n = c.size(1, 3);
  for (std::size_t k = 0; k < n; ++k)
  {
    Array const m = anyArray(c);
    std::string const t = text(c, m);
    c.note() << t << "\n";
    c.flushNote();
    std::string err;
    int const r = load(c, a, t, err);
    PBT_CHECK(r == 0, "valid configuration rejected: " << err);
    compare(a, m, k ? "loaded again" : "loaded");
    panning::LoudspeakerArray b;
    if (c.flag()) { Array const m2 = anyArray(c); b.loadXmlString(text(c, m2)); }
    b = a;
    compare(b, m, "assigned");
    if (c.chance(20)) { MemFile f(t); panning::LoudspeakerArray d(f.path()); compare(d, m, "constructed from a file"); }
    if (m.virt.size() + m.subs.size() > 0) c.nontrivial();
  }
}
void faults(pbt::Case& c)
{
  Quiet q;
  panning::LoudspeakerArray a;
  Array const m = anyArray(c);
  Elem root = tree(c, m);
  std::string const what = damage(c, root, m);
  if (what.empty()) return;
  c.label(what);
  c.nontrivial();
  std::string t = text(c, root);
  c.note() << t << "\n";
  c.flushNote();
  std::string err;
  if (c.flag()) { Array const m0 = anyArray(c); a.loadXmlString(text(c, m0)); }
  int r = load(c, a, t, err);
  PBT_CHECK(r == 1, what << (r ? ": unexpected kind of error" : " accepted"));
  // the object can be used after a rejection
  r = load(c, a, text(c, m), err);
  PBT_CHECK(r == 0, "valid configuration rejected after a faulty one: " << err);
  compare(a, m, "loaded after a faulty configuration");
}
// arbitrary damage of the text: accepted or rejected, but never anything else
void mutation(pbt::Case& c)
{
  Quiet q;
  Array const m = anyArray(c);
  std::string t = text(c, m);
  std::size_t const n = c.size(1, 6);
  static std::string const tokens[] = {"\"", "<", ">", "/>", "-1", "99999999999999999999", "nan", "=", "channel=\"1\"", "<triplet l1=\"1\" l2=\"1\" l3=\"1\"/>", "<virtualspeaker id=\"q\"><cart x=\"0\" y=\"0\" z=\"0\"/></virtualspeaker>", "&amp;", "&", "id", "l1", ""};
  for (std::size_t i = 0; i < n && !t.empty(); ++i)
  {
    std::size_t const p = c.draw(t.size());
    switch (c.draw(4))
    {
    case 0: t.erase(p, 1 + c.draw(12)); break;
    case 1: t.insert(p, tokens[c.draw(sizeof tokens / sizeof *tokens)]); break;
    case 2: t[p] = (char)c.draw(256); break;
    default: { std::size_t const e = t.find('>', p); if (e == std::string::npos) break; std::size_t const b = t.rfind('<', e); std::string const s = t.substr(b, e + 1 - b); t.insert(c.flag() ? e + 1 : t.find('<', c.draw(b + 1)), s); }
    }
  }
  c.note() << t << "\n";
  c.flushNote();
  c.nontrivial();
  panning::LoudspeakerArray a;
  std::string err;
  int const r = load(c, a, t, err);
  PBT_CHECK(r < 2, "unexpected kind of error");
  c.label(r ? "rejected" : "accepted");
  if (r == 0)
  {
    std::size_t const nt = a.getNumSpeakers();
    PBT_CHECK(a.getNumRegularSpeakers() <= nt, "more regular loudspeakers than loudspeakers");
    for (std::size_t i = 0; i < nt; ++i) { (void)a.getPosition(i); a.loudspeakerId(i); }
    for (std::size_t k = 0; k < a.getNumTriplets(); ++k) for (int v = 0; v < (a.is2D() ? 2 : 3); ++v) PBT_CHECK(a.getTriplet(k)[v] < nt, "triplet with a non-existing loudspeaker");
    for (std::size_t i = 1; i < a.getNumRegularSpeakers(); ++i) PBT_CHECK(a.getSpeakerChannel(i) > a.getSpeakerChannel(i - 1), "loudspeaker channels are not unique");
    if (a.getNumRegularSpeakers()) PBT_CHECK(a.getSpeakerChannel(0) >= 1 && a.getSpeakerChannel(a.getNumRegularSpeakers() - 1) < (std::size_t)1 << 63, "channel below one");
    panning::LoudspeakerArray b;
    b = a;
    PBT_CHECK(b.getNumSpeakers() == nt && b.outputEqualisationPresent() == a.outputEqualisationPresent(), "copy differs");
  }
}
} // namespace

int main(int argc, char** argv)
{
  arr::extreme() = true;
  pbt::Spec s;
  s.rule = "config: an array with virtual loudspeakers or subwoofers; faults: a configuration with one specific fault; mutation: every damaged text";
  s.subs = {{"config", config, 5000, 600000}, {"faults", faults, 7000, 600000}, {"mutation", mutation, 8000, 800000}};
  s.assumptions = {"malformed optional numbers (gain, delay), which silently assume their default, are not generated", "the state of an array object after a rejected configuration is unspecified until the next load"};
  return pbt::run(argc, argv, s);
}
