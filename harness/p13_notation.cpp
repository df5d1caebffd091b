// P13: textual index lists, value lists, routings and routing tables.
#include "objects.hpp"
#include "pbt.hpp"

#include <libpml/signal_routing_parameter.hpp>
#include <librbbl/filter_routing.hpp>
#include <librbbl/float_sequence.hpp>
#include <librbbl/index_sequence.hpp>
#include <librbbl/sparse_gain_routing.hpp>

#include <climits>
#include <cstdlib>
#include <map>

using namespace visr;

namespace
{
std::string ws(pbt::Case& c)
{
  if (!c.chance(20)) return "";
  static char const* w[] = {" ", "  ", "\t", "\n", " \t "};
  return w[c.draw(5)];
}

// ---------------------------------------------------------------------------------------------
// Index sequences: an independent recogniser for
//   text := [ item { ',' item } ]    item := int | int ':' int | int ':' int ':' int
struct IndexRef
{
  std::string const& t;
  std::size_t p = 0;
  std::vector<std::size_t> out;
  explicit IndexRef(std::string const& s) : t(s) {}
  static bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
  void skip() { while (p < t.size() && space(t[p])) ++p; }
  bool integer(long long& v)
  {
    skip();
    std::size_t q = p;
    bool neg = false;
    if (q < t.size() && (t[q] == '+' || t[q] == '-')) neg = t[q++] == '-';
    std::size_t const d = q;
    long long x = 0;
    while (q < t.size() && t[q] >= '0' && t[q] <= '9')
    {
      x = x * 10 + (t[q] - '0');
      if (x > 3000000000ll) return false;
      ++q;
    }
    if (q == d) return false;
    if (neg) x = -x;
    if (x > INT_MAX || x < INT_MIN) return false;
    v = x;
    p = q;
    return true;
  }
  static long long count(std::vector<long long> const& v)
  {
    long long const a = v[0], b = v.back(), inc = v.size() == 3 ? v[1] : 1;
    if (v.size() == 1) return 1;
    if (a < 0 || b < 0 || inc == 0) return 0;
    return inc > 0 ? (b >= a ? (b - a) / inc + 1 : 0) : (a >= b ? (a - b) / -inc + 1 : 0);
  }
  // 0: valid, 1: invalid, 2: too many elements to be interesting
  int parse()
  {
    skip();
    if (p == t.size()) return 0;
    for (;;)
    {
      std::vector<long long> v(1);
      if (!integer(v[0])) return 1;
      for (skip(); p < t.size() && t[p] == ':'; skip())
      {
        ++p;
        long long x;
        // a parser may expand the readable part of a faulty text before it gives up
        if (!integer(x)) return v.size() < 4 && count(v) > 5000 ? 2 : 1;
        v.push_back(x);
      }
      if (v.size() > 3) return 1;
      long long const a = v[0], b = v.back(), inc = v.size() == 3 ? v[1] : 1;
      if (a < 0 || b < 0 || inc == 0) return 1;
      long long const n = count(v);
      if (n > 5000) return 2;
      for (long long i = 0; i < n; ++i) out.push_back((std::size_t)(a + i * inc));
      skip();
      if (p == t.size()) return 0;
      if (t[p] != ',') return 1;
      ++p;
    }
  }
};

std::string indexText(pbt::Case& c, std::size_t items)
{
  std::string s;
  auto idx = [&]() -> long long {
    switch (c.weighted({12, 4, 1, 1}))
    {
    case 0: return c.range(0, 20);
    case 1: return c.range(0, 1000);
    case 2: return INT_MAX - c.range(0, 5);
    default: return c.range(0, INT_MAX);
    }
  };
  for (std::size_t i = 0; i < items; ++i)
  {
    if (i) s += ws(c) + "," + ws(c);
    std::size_t const kind = c.weighted({4, 3, 3});
    long long a = idx();
    s += ws(c) + (c.chance(3) ? "+" : "") + (c.chance(5) ? "0" : "") + std::to_string(a);
    if (kind == 0) continue;
    long long b, inc = 1;
    if (kind == 1) b = c.chance(80) ? std::min<long long>(a + c.range(0, 40), INT_MAX) : std::max<long long>(0, a - c.range(0, 10));
    else
    {
      inc = c.pick<long long>({1, 2, 3, 7, 100, -1, -2, -5, 1 << 20, INT_MAX, -INT_MAX, INT_MAX / 2 + 1, (long long)INT_MIN});
      long long const steps = c.range(0, 12);
      b = a + (inc > 0 ? 1 : -1) * (std::llabs(inc) * steps + c.range(0, std::min<long long>(std::llabs(inc) - 1, 50)));
      b = std::max<long long>(0, std::min<long long>(b, INT_MAX));
      s += ws(c) + ":" + ws(c) + std::to_string(inc);
    }
    s += ws(c) + ":" + ws(c) + std::to_string(b);
  }
  return s + ws(c);
}

void mutate(pbt::Case& c, std::string& t, std::string const& alphabet)
{
  std::size_t const n = c.size(1, 3);
  for (std::size_t k = 0; k < n; ++k)
  {
    std::size_t const p = t.empty() ? 0 : c.draw(t.size());
    switch (c.draw(4))
    {
    case 0: t.insert(p, 1, alphabet[c.draw(alphabet.size())]); break;
    case 1: if (!t.empty()) t[p] = alphabet[c.draw(alphabet.size())]; break;
    case 2: if (!t.empty()) t.erase(p, 1 + c.draw(3)); break;
    default: if (!t.empty()) t.insert(c.draw(t.size() + 1), t.substr(p, 1 + c.draw(6)));
    }
  }
}

void indices(pbt::Case& c)
{
  std::string t = indexText(c, c.size(0, 4));
  bool const mut = c.chance(35);
  if (mut) mutate(c, t, "0123456789:,-+ \t.xe;=");
  c.note() << "index list \"" << t << "\"";
  c.flushNote();
  IndexRef ref(t);
  int const verdict = ref.parse();
  if (verdict == 2) { c.label("huge range skipped"); return; }
  c.label(verdict == 0 ? "valid" : "invalid");
  if (verdict == 1) { c.nontrivial(); pbt::mustThrow([&] { rbbl::IndexSequence s(t); }, "invalid index list"); return; }
  if (ref.out.size() > 1) c.nontrivial();
  std::string err;
  std::vector<std::size_t> got;
  rbbl::IndexSequence s;
  int r = pbt::outcome([&] { s = rbbl::IndexSequence(t); }, &err);
  PBT_CHECK(r == 0, "valid index list rejected: " << err);
  PBT_CHECK(s.size() == ref.out.size(), "list has " << s.size() << " elements instead of " << ref.out.size());
  for (std::size_t i = 0; i < ref.out.size(); ++i) PBT_CHECK(s[i] == ref.out[i] && s.at(i) == ref.out[i], "element " << i << " is " << s[i] << " instead of " << ref.out[i]);
  std::size_t k = 0;
  for (auto x : s) PBT_CHECK(x == ref.out[k++], "iteration differs");
  PBT_CHECK(k == s.size(), "iteration ends early");
  pbt::mustThrow([&] { s.at(ref.out.size()); }, "access beyond the end");
  s.clear();
  PBT_CHECK(s.size() == 0, "not empty after clear");
}

// ---------------------------------------------------------------------------------------------
std::string fnumber(pbt::Case& c, double v)
{
  char b[60];
  static char const* fmt[] = {"%g", "%.3f", "%e", "%.8g", "%+g"};
  std::snprintf(b, sizeof b, fmt[c.draw(5)], v);
  return b;
}

template <typename T> void floatsT(pbt::Case& c)
{
  std::string t;
  // expected values: per item value list; 'slack': number of elements may differ by one (rounding at the end)
  struct Item { std::vector<double> v; double tol; bool slack; bool mayReject; };
  std::vector<Item> items;
  std::size_t const n = c.size(1, 4);
  for (std::size_t i = 0; i < n; ++i)
  {
    if (i) t += ws(c) + "," + ws(c);
    Item it{{}, 0, false, false};
    auto number = [&](double v) { std::string s = fnumber(c, v); t += ws(c) + s + ws(c); return (double)(float)std::strtod(s.c_str(), nullptr); };
    switch (c.weighted({4, 3, 3, 1}))
    {
    case 0:
    {
      double const v = number(c.chance(20) ? std::pow(10.0, c.range(-20, 20)) * c.sym(1) : c.sym(1000));
      it.v.push_back(v);
      it.tol = std::abs(v) * 1e-6;
      break;
    }
    case 1: // range in exact binary fractions, so that the end point is decided exactly
    {
      double const a = (double)c.range(-64, 64) / 8;
      double const b = a + (double)c.range(-8, 120) / 8;
      auto exact = [&](double v) { char s[40]; std::snprintf(s, sizeof s, "%.3f", v); t += ws(c) + s + ws(c); };
      exact(a); t += ":"; exact(b);
      for (double v = a; v <= b; v += 1) it.v.push_back(v);
      break;
    }
    case 2:
    {
      double const inc = (double)c.pick({1, 2, 4, 8, 12, -1, -4, -8, -20, 160}) / 8;
      double const a = (double)c.range(-64, 64) / 8;
      double const b = a + (inc > 0 ? 1 : -1) * (double)c.range(-16, 120) / 8;
      auto exact = [&](double v) { char s[40]; std::snprintf(s, sizeof s, "%.3f", v); t += ws(c) + s + ws(c); };
      exact(a); t += ":"; exact(inc); t += ":"; exact(b);
      for (double v = a; inc > 0 ? v <= b : v >= b; v += inc) it.v.push_back(v);
      break;
    }
    default: // general increments
    {
      double const a = number(c.sym(50));
      t += ":";
      double const inc = number((c.flag() ? 1 : -1) * c.real(0.01, 3));
      t += ":";
      std::size_t const k = c.size(0, 60);
      double const b = number(a + inc * ((double)k + c.real(0.1, 0.9)));
      if (std::abs(inc) < 1e-3) { it.mayReject = true; }
      long const cnt = inc == 0 ? 0 : (long)std::floor((b - a) / inc) + 1;
      for (long m = 0; m < cnt; ++m) it.v.push_back(a + m * inc);
      it.tol = (std::abs(a) + std::abs(b)) * 1e-5;
      it.slack = true;
    }
    }
    items.push_back(it);
  }
  c.note() << "value list \"" << t << "\"";
  c.flushNote();
  std::size_t total = 0;
  bool mayReject = false;
  for (auto const& it : items) total += it.v.size(), mayReject |= it.mayReject;
  if (total > 1) c.nontrivial();
  std::string err;
  rbbl::FloatSequence<T> s;
  int r = pbt::outcome([&] { s = rbbl::FloatSequence<T>(t); }, &err);
  if (r != 0 && mayReject) return;
  PBT_CHECK(r == 0, "valid list rejected: " << err);
  std::size_t p = 0;
  for (std::size_t i = 0; i < items.size(); ++i)
  {
    Item const& it = items[i];
    std::size_t cnt = it.v.size();
    if (it.slack) // decide by the element at the end of the range
    {
      if (cnt && (p + cnt > s.size() || !pbt::close(s[p + cnt - 1], it.v[cnt - 1], it.tol + 1e-6))) --cnt;
      else if (p + cnt < s.size() && cnt > 1 && pbt::close(s[p + cnt], it.v[cnt - 1] + (it.v[1] - it.v[0]), it.tol + 1e-6) && i + 1 == items.size()) ++cnt;
    }
    for (std::size_t k = 0; k < cnt; ++k)
    {
      PBT_CHECK(p < s.size(), "list ends after " << s.size() << " elements, in item " << i);
      if (k < it.v.size()) PBT_CHECK(pbt::close(s[p], it.v[k], it.tol), "element " << p << " (item " << i << ") is " << s[p] << " instead of " << it.v[k]);
      ++p;
    }
  }
  PBT_CHECK(p == s.size(), "list has " << s.size() << " elements instead of " << p);
  if (s.size())
  {
    std::string const sep = c.pick<std::string>({", ", ",", " ,\t"});
    std::string const txt = s.toString(sep);
    rbbl::FloatSequence<T> u;
    int r2 = pbt::outcome([&] { u = rbbl::FloatSequence<T>(txt); }, &err);
    PBT_CHECK(r2 == 0 && u.size() == s.size(), "text form cannot be read back: " << err << " \"" << txt << "\"");
    for (std::size_t k = 0; k < s.size(); ++k) PBT_CHECK(pbt::close(u[k], s[k], std::abs((double)s[k]) * 1e-5), "element " << k << " changes in a round trip from " << s[k] << " to " << u[k]);
  }
}

void floats(pbt::Case& c)
{
  if (c.flag()) floatsT<double>(c);
  else floatsT<float>(c);
}

// texts that are no value list, and ranges that cannot make progress
void floatErrors(pbt::Case& c)
{
  std::string t;
  if (c.chance(40))
  {
    std::string const big = c.pick<std::string>({"inf", "1e30", "1e38", "16777218", "33554436"});
    std::string const start = c.pick<std::string>({"16777216", "0", "-5", "1e30"});
    bool const inc = c.flag();
    t = start + ":" + (inc ? c.pick<std::string>({"1", "0.001", "0.5"}) + ":" : "") + big;
    if (start == "0" || start == "-5") { if (big != "inf" && big != "1e30" && big != "1e38") t = "16777216:0.5:16777218"; }
    if (start == "1e30" && big.size() > 5) t = "1e30:1e30";
    c.note() << "value list \"" << t << "\"";
    c.flushNote();
    c.nontrivial();
    c.label("range that cannot advance");
    // must come to an end, with an error or with the (single) correct value
    std::string err;
    int r = pbt::outcome([&] { rbbl::FloatSequence<float> s(t); PBT_CHECK(s.size() < 100, "range yields " << s.size() << " values"); }, &err);
    PBT_CHECK(r <= 1, "no std::exception: " << err);
    return;
  }
  static char const* bad[] = {",", "1,", ",1", "1,,2", "1:", ":1", "1::2", "1:2:3:4", "1:0:2", "x", "1x", "1 2", "1;2", "--1", "1,2 3", "1..2", "a:b", "1:2:", "1=2", "", " "};
  t = bad[c.draw(sizeof bad / sizeof *bad)];
  if (!t.empty() && c.chance(50)) t = "3.5" + ws(c) + "," + ws(c) + t;
  if (c.chance(30) && t.find_first_not_of(" ") != std::string::npos && t.back() != ',') t = t + ws(c) + "," + ws(c) + "0.25";
  c.note() << "value list \"" << t << "\"";
  c.flushNote();
  c.nontrivial();
  c.label("malformed");
  pbt::mustThrow([&] { rbbl::FloatSequence<float> s(t); }, "malformed value list \"" + t + "\"");
  pbt::mustThrow([&] { rbbl::FloatSequence<double> s(t); }, "malformed value list \"" + t + "\"");
}

// ---------------------------------------------------------------------------------------------
void routings(pbt::Case& c)
{
  using SR = pml::SignalRoutingParameter;
  std::map<std::size_t, std::size_t> model; // output -> input
  SR r;
  std::size_t const steps = c.wide(1, 8, 50);
  std::size_t parsed = 0;
  std::size_t const span = c.pick<std::size_t>({4, 10, 1000});
  auto idx = [&] { return (std::size_t)(c.chance(3) ? 4294967295u : c.draw(span)); };
  auto compare = [&](char const* what) {
    PBT_CHECK(r.size() == model.size() && r.empty() == model.empty(), what << ": " << r.size() << " entries instead of " << model.size());
    auto it = model.begin();
    for (auto const& e : r)
    {
      PBT_CHECK(e.output == it->first && e.input == it->second, what << ": entry " << e.input << "=" << e.output << " instead of " << it->second << "=" << it->first);
      ++it;
    }
    for (int k = 0; k < 3; ++k)
    {
      std::size_t const o = idx();
      auto f = model.find(o);
      PBT_CHECK(r.getInput(o) == (f == model.end() ? SR::cInvalidIndex : f->second), what << ": wrong source of output " << o);
      PBT_CHECK(r.getEntry(o).input == (f == model.end() ? SR::cInvalidIndex : f->second) && r.getEntry(o).output == (f == model.end() ? SR::cInvalidIndex : o), what << ": wrong entry of output " << o);
      std::size_t const in = idx();
      bool any = false;
      for (auto const& m : model) any |= m.second == in;
      std::size_t const got = r.getOutput(in);
      if (!any) PBT_CHECK(got == SR::cInvalidIndex, what << ": output " << got << " reported for unused input " << in);
      else PBT_CHECK(model.count(got) && model[got] == in, what << ": wrong output of input " << in);
    }
  };
  for (std::size_t k = 0; k < steps; ++k)
  {
    switch (c.weighted({4, 3, 1, 1, 1, 2}))
    {
    case 0:
    {
      std::size_t const i = idx(), o = idx();
      r.addRouting(i, o);
      model[o] = i;
      break;
    }
    case 1: // parse a valid text
    {
      std::map<std::size_t, std::size_t> m;
      std::string t = ws(c);
      std::size_t const n = c.wide(1, 5, 60);
      bool const blanks = c.chance(40);
      for (std::size_t j = 0; j < n; ++j)
      {
        if (j) t += blanks && c.flag() ? c.pick<std::string>({" ", "  ", "\t"}) : ws(c) + "," + ws(c);
        std::size_t const i = idx(), o = idx();
        t += std::to_string(i) + ws(c) + "=" + ws(c) + std::to_string(o);
        m[o] = i;
      }
      t += ws(c);
      c.note() << "parse \"" << t << "\"; ";
      c.flushNote();
      PBT_CHECK(r.parse(t), "valid routing rejected: \"" << t << "\"");
      model = m;
      ++parsed;
      break;
    }
    case 2:
    {
      SR::Entry const e{idx(), idx()};
      auto f = model.find(e.output);
      bool const expect = f != model.end() && f->second == e.input;
      if (expect) model.erase(f);
      PBT_CHECK(r.removeEntry(e) == expect, "removal of " << e.input << "=" << e.output << " reports " << !expect);
      break;
    }
    case 3:
    {
      std::size_t const o = idx();
      bool const expect = model.erase(o) != 0;
      PBT_CHECK(r.removeEntry(o) == expect, "removal of output " << o << " reports " << !expect);
      break;
    }
    case 4:
      if (c.chance(20)) { r.clear(); model.clear(); }
      else { SR other; other.swap(r); SR third(other); r = third; }
      break;
    default: // a malformed text changes nothing
    {
      static char const* bad[] = {"1", "1=", "=1", "1=2=3", "1=2,,3=4", "1=2,", ",1=2", "1==2", "1=-2", "-1=2", "a=b", "1:2", "1=2;3=4", "1=2 3", "1=99999999999", "1=1.5", "1 2", "0=1,2", "1=2 3=", "5000000000=1", "1=2 , , 3=4", "1=2x"};
      std::string t = bad[c.draw(sizeof bad / sizeof *bad)];
      if (c.chance(40)) t = "0=0" + ws(c) + "," + t;
      c.note() << "parse \"" << t << "\"; ";
      c.flushNote();
      PBT_CHECK(!r.parse(t), "malformed routing accepted: \"" << t << "\"");
      ++parsed;
    }
    }
    compare("after operation");
  }
  if (parsed && steps > 2) c.nontrivial();
}

// ---------------------------------------------------------------------------------------------
// a random index or value list with the given number of elements, in text form
std::string listText(pbt::Case& c, std::vector<std::size_t> const& v)
{
  if (v.size() > 1)
  {
    bool arith = true;
    long const d = (long)v[1] - (long)v[0];
    for (std::size_t i = 1; i < v.size(); ++i) arith &= (long)v[i] - (long)v[i - 1] == d;
    if (arith && d != 0 && c.chance(80)) return std::to_string(v[0]) + ":" + (d == 1 && c.flag() ? "" : std::to_string(d) + ":") + std::to_string(v.back());
  }
  std::string s;
  for (std::size_t i = 0; i < v.size(); ++i) s += (i ? ws(c) + "," + ws(c) : "") + std::to_string(v[i]);
  return s;
}
std::vector<std::size_t> indexList(pbt::Case& c, std::size_t n, std::size_t span)
{
  std::vector<std::size_t> v;
  std::size_t const kind = c.draw(3);
  std::size_t const a = c.draw(span), inc = c.size(1, 3);
  for (std::size_t i = 0; i < n; ++i) v.push_back(kind == 0 ? a + i * inc : kind == 1 ? a + (n - i) * inc : c.draw(span));
  return v;
}
om::Json jsonOf(pbt::Case& c, std::string const& s, std::size_t n)
{
  if (n == 1 && c.flag()) return om::Json::num(s);
  std::string esc; // JSON text must not contain control characters
  for (char ch : s) esc += ch == '\t' ? std::string("\\t") : ch == '\n' ? std::string("\\n") : std::string(1, ch);
  return om::Json::str(esc);
}
std::string gainText(pbt::Case& c, std::vector<double>& v)
{
  std::string s;
  for (std::size_t i = 0; i < v.size(); ++i)
  {
    char b[40];
    std::snprintf(b, sizeof b, "%.6g", v[i]);
    v[i] = (float)std::strtod(b, nullptr);
    s += (i ? ws(c) + "," + ws(c) : "") + b;
  }
  return s;
}
void shuffle(pbt::Case& c, om::Json& j)
{
  for (std::size_t i = j.kids.size(); i > 1; --i) std::swap(j.kids[i - 1], j.kids[c.draw(i)]);
}

struct Row { std::size_t a, b, c; double g; };

// kind of defect of one JSON entry
enum Defect { None, Missing, BadText, WrongSize };

void filterRoutings(pbt::Case& c)
{
  using L = rbbl::FilterRoutingList;
  L lst;
  std::map<std::pair<std::size_t, std::size_t>, Row> model; // (input, output)
  std::size_t const steps = c.wide(1, 6, 50);
  std::size_t span = c.pick<std::size_t>({3, 8, 200});
  auto compare = [&](std::string const& what) {
    PBT_CHECK(lst.size() == model.size() && lst.empty() == model.empty(), what << ": " << lst.size() << " entries instead of " << model.size());
    for (auto const& e : lst)
    {
      auto f = model.find({e.inputIndex, e.outputIndex});
      PBT_CHECK(f != model.end(), what << ": unexpected entry " << e.inputIndex << "->" << e.outputIndex);
      PBT_CHECK(f->second.c == e.filterIndex && pbt::close(e.gainLinear, f->second.g, std::abs(f->second.g) * 1e-6), what << ": entry " << e.inputIndex << "->" << e.outputIndex << " has filter " << e.filterIndex << " gain " << e.gainLinear << " instead of " << f->second.c << ", " << f->second.g);
    }
    for (int k = 0; k < 3; ++k)
    {
      std::size_t const i = c.draw(span), o = c.draw(span);
      auto f = model.find({i, o});
      auto const& e = lst.getEntry(i, o);
      if (f == model.end()) PBT_CHECK(e.inputIndex == rbbl::FilterRouting::cInvalidIndex && e.outputIndex == rbbl::FilterRouting::cInvalidIndex, what << ": entry found that does not exist");
      else PBT_CHECK(e.inputIndex == i && e.outputIndex == o && e.filterIndex == f->second.c, what << ": wrong entry returned");
    }
  };
  std::size_t parses = 0;
  for (std::size_t k = 0; k < steps; ++k)
  {
    switch (c.weighted({3, 2, 5, 1}))
    {
    case 0:
    {
      Row r{c.draw(span), c.draw(span), c.draw(span), c.sym(2)};
      if (c.flag()) lst.addRouting(r.a, r.b, r.c, r.g);
      else lst.addRouting(rbbl::FilterRouting(r.a, r.b, r.c, r.g));
      model[{r.a, r.b}] = r;
      compare("after adding");
      break;
    }
    case 1:
    {
      std::size_t const i = c.draw(span), o = c.draw(span);
      bool const expect = model.erase({i, o}) != 0;
      bool const got = c.flag() ? lst.removeRouting(i, o) : lst.removeRouting(rbbl::FilterRouting(i, o, c.draw(5)));
      PBT_CHECK(got == expect, "removal reports " << got);
      compare("after removal");
      break;
    }
    case 3:
    {
      L other(lst), third;
      third = other;
      other.swap(lst);
      L empty;
      lst = empty;
      PBT_CHECK(lst.empty(), "not empty after assignment");
      lst.swap(third);
      compare("after copying");
      break;
    }
    default:
    {
      std::map<std::pair<std::size_t, std::size_t>, Row> m;
      om::Json doc = om::Json::arr();
      std::size_t const n = c.wide(0, 4, 30);
      std::size_t const faulty = c.chance(35) && n ? c.draw(n) : n;
      for (std::size_t j = 0; j < n; ++j)
      {
        std::size_t const w = c.weighted({3, 1, 1, 1}) == 0 ? 1 : c.size(1, 6);
        Defect d = j == faulty ? (Defect)c.range(1, 3) : None;
        std::size_t ni = w, no = w, nf = w, ng = w;
        if (w > 1) switch (c.draw(3)) { case 0: ni = 1; break; case 1: no = 1; break; default: break; }
        if (c.flag()) nf = 1;
        if (c.flag()) ng = 1;
        if (d == WrongSize)
        {
          std::size_t const wrong = w + c.size(1, 3) - (w > 2 && c.flag() ? std::min<std::size_t>(w - 2, 3) + 0 : 0);
          std::size_t const other = wrong == w || wrong == 1 ? w + 1 : wrong;
          switch (c.draw(3))
          {
          case 0: nf = other; break;
          case 1: ng = other; break;
          default: if (w > 1) { ni = w; no = other; } else nf = other;
          }
        }
        auto vi = indexList(c, ni, span), vo = indexList(c, no, span), vf = indexList(c, nf, span);
        std::vector<double> g(ng);
        for (auto& x : g) x = c.sym(2);
        om::Json e = om::Json::obj();
        std::string ti = listText(c, vi), to = listText(c, vo), tf = listText(c, vf);
        bool const gain = ng > 1 || c.flag();
        std::string tg = gainText(c, g);
        if (!gain) g[0] = 1.0;
        std::string const junk = c.pick<std::string>({"x", "-1", "1:2:3:4", "1;2", "0:0:4"});
        std::size_t const which = c.draw(gain ? 4 : 3);
        if (d == BadText) (which == 0 ? ti : which == 1 ? to : which == 2 ? tf : tg) = which == 3 ? std::string("1;2") : junk;
        auto q = [&](std::string const& s, std::size_t cnt) { return d == BadText ? om::Json::str(s) : jsonOf(c, s, cnt); };
        e.add("input", q(ti, ni));
        e.add("output", q(to, no));
        e.add("filter", q(tf, nf));
        if (gain) e.add("gain", q(tg, ng));
        if (d == Missing) e.erase(c.pick<std::string>({"input", "output", "filter"}));
        shuffle(c, e);
        doc.add("", e);
        if (d == None)
          for (std::size_t x = 0; x < w; ++x)
          {
            Row r{ni == 1 ? vi[0] : vi[x], no == 1 ? vo[0] : vo[x], nf == 1 ? vf[0] : vf[x], ng == 1 ? g[0] : g[x]};
            m[{r.a, r.b}] = r;
          }
      }
      std::ostringstream os;
      doc.write(os, &c);
      std::string t = os.str();
      bool bad = faulty < n;
      if (!bad && c.chance(8)) { t.erase(t.rfind(']')); bad = true; }
      c.note() << t << "; ";
      c.flushNote();
      ++parses;
      std::string err;
      bool const stream = c.flag();
      bool const named = !bad && c.chance(30);
      int r = pbt::outcome([&] {
        std::istringstream is(t);
        if (named) { L const l(stream ? L::fromJson(is) : L::fromJson(t)); lst = l; }
        else if (stream) lst.parseJson(is);
        else lst.parseJson(t);
      }, &err);
      if (bad)
      {
        c.label("faulty table");
        PBT_CHECK(r != 0, "faulty routing table accepted: " << t);
        PBT_CHECK(r == 1, "no std::exception: " << err);
        compare("after a rejected table");
      }
      else
      {
        PBT_CHECK(r == 0, "valid routing table rejected: " << err << "\n" << t);
        model = m;
        compare("after reading a table");
      }
    }
    }
  }
  if (parses && model.size() + steps > 3) c.nontrivial();
}

void gainRoutings(pbt::Case& c)
{
  using L = rbbl::SparseGainRoutingList;
  L lst;
  std::map<std::size_t, Row> model;
  std::size_t const steps = c.wide(1, 6, 50);
  std::size_t const span = c.pick<std::size_t>({3, 8, 200});
  auto compare = [&](std::string const& what) {
    PBT_CHECK(lst.size() == model.size() && lst.empty() == model.empty(), what << ": " << lst.size() << " entries instead of " << model.size());
    for (auto const& e : lst)
    {
      auto f = model.find(e.entryIndex);
      PBT_CHECK(f != model.end(), what << ": unexpected entry " << e.entryIndex);
      PBT_CHECK(f->second.b == e.rowIndex && f->second.c == e.columnIndex && pbt::close(e.gain, f->second.g, std::abs(f->second.g) * 1e-6), what << ": entry " << e.entryIndex << " is (" << e.rowIndex << "," << e.columnIndex << "," << e.gain << ") instead of (" << f->second.b << "," << f->second.c << "," << f->second.g << ")");
    }
    for (int k = 0; k < 3; ++k)
    {
      std::size_t const i = c.draw(span);
      auto f = model.find(i);
      auto const& e = lst.getEntry(i);
      if (f == model.end()) PBT_CHECK(e.entryIndex == rbbl::SparseGainRouting::cInvalidIndex, what << ": entry found that does not exist");
      else PBT_CHECK(e.entryIndex == i && e.rowIndex == f->second.b, what << ": wrong entry returned");
    }
  };
  std::size_t parses = 0;
  for (std::size_t k = 0; k < steps; ++k)
  {
    switch (c.weighted({3, 2, 5, 1}))
    {
    case 0:
    {
      Row r{c.draw(span), c.draw(span), c.draw(span), (float)c.sym(2)};
      if (c.flag()) lst.addRouting(r.a, r.b, r.c, (float)r.g);
      else lst.addRouting(rbbl::SparseGainRouting(r.a, r.b, r.c, (float)r.g));
      model[r.a] = r;
      compare("after adding");
      break;
    }
    case 1:
    {
      std::size_t const i = c.draw(span);
      bool const expect = model.erase(i) != 0;
      PBT_CHECK(lst.removeRouting(rbbl::SparseGainRouting(i, c.draw(span), c.draw(span))) == expect, "removal reports " << !expect);
      compare("after removal");
      break;
    }
    case 3:
    {
      L other(lst), third;
      third = other;
      other.swap(lst);
      lst.clear();
      PBT_CHECK(lst.empty(), "not empty after clear");
      lst.swap(third);
      compare("after copying");
      break;
    }
    default:
    {
      std::map<std::size_t, Row> m;
      om::Json doc = om::Json::arr();
      std::size_t const n = c.wide(0, 4, 30);
      std::size_t const faulty = c.chance(35) && n ? c.draw(n) : n;
      for (std::size_t j = 0; j < n; ++j)
      {
        std::size_t const w = c.flag() ? 1 : c.size(1, 6);
        Defect d = j == faulty ? (Defect)c.range(1, 3) : None;
        std::size_t nr = w, nc = w, ng = w;
        if (c.chance(30)) nr = 1;
        if (c.chance(30)) nc = 1;
        if (c.chance(30)) ng = 1;
        if (d == WrongSize)
        {
          std::size_t const other = w + c.size(1, 3);
          if (w > 1 && c.flag()) (c.flag() ? nr : c.flag() ? nc : ng) = w > 2 && c.flag() ? w - 1 : other;
          else (c.flag() ? nc : ng) = other;
        }
        auto vi = indexList(c, w, span), vr = indexList(c, nr, span), vc = indexList(c, nc, span);
        std::vector<double> g(ng);
        for (auto& x : g) x = c.sym(2);
        om::Json e = om::Json::obj();
        std::string ti = listText(c, vi), tr = listText(c, vr), tc = listText(c, vc);
        bool const gain = ng > 1 || c.chance(70);
        std::string tg = gainText(c, g);
        if (!gain) g[0] = 1.0;
        std::string const junk = c.pick<std::string>({"x", "-1", "1:2:3:4", "1;2", "0:0:4"});
        std::size_t const which = c.draw(gain ? 4 : 3);
        if (d == BadText) (which == 0 ? ti : which == 1 ? tr : which == 2 ? tc : tg) = which == 3 ? std::string("1;2") : junk;
        auto q = [&](std::string const& s, std::size_t cnt) { return d == BadText ? om::Json::str(s) : jsonOf(c, s, cnt); };
        e.add("index", q(ti, w));
        e.add("row", q(tr, nr));
        e.add("column", q(tc, nc));
        if (gain) e.add("gain", q(tg, ng));
        if (d == Missing) e.erase(c.pick<std::string>({"index", "row", "column"}));
        shuffle(c, e);
        doc.add("", e);
        if (d == None)
          for (std::size_t x = 0; x < w; ++x)
          {
            Row r{vi[x], nr == 1 ? vr[0] : vr[x], nc == 1 ? vc[0] : vc[x], ng == 1 ? g[0] : g[x]};
            m[r.a] = r;
          }
      }
      std::ostringstream os;
      doc.write(os, &c);
      std::string t = os.str();
      bool bad = faulty < n;
      if (!bad && c.chance(8)) { t.erase(t.rfind(']')); bad = true; }
      c.note() << t << "; ";
      c.flushNote();
      ++parses;
      std::string err;
      bool const stream = c.flag();
      int r = pbt::outcome([&] {
        std::istringstream is(t);
        if (stream) lst.parseJson(is);
        else lst.parseJson(t);
      }, &err);
      if (bad)
      {
        c.label("faulty table");
        PBT_CHECK(r != 0, "faulty routing table accepted: " << t);
        PBT_CHECK(r == 1, "no std::exception: " << err);
        compare("after a rejected table");
      }
      else
      {
        PBT_CHECK(r == 0, "valid routing table rejected: " << err << "\n" << t);
        model = m;
        compare("after reading a table");
      }
    }
    }
  }
  if (parses && model.size() + steps > 3) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "list with more than one element or an invalid one; routing history with at least one text and more than two operations; table histories with a table text";
  s.hangCpuSeconds = 20;
  s.subs = {{"indices", indices, 90000, 1500000}, {"floats", floats, 60000, 1000000}, {"floatErrors", floatErrors, 1500, 6000}, {"routings", routings, 45000, 800000}, {"filterRoutings", filterRoutings, 24000, 400000}, {"gainRoutings", gainRoutings, 24000, 400000}};
  s.assumptions = {"ranges with more than 5000 elements are not expanded", "ranges whose increment is below single precision epsilon are outside the value-list notation"};
  return pbt::run(argc, argv, s);
}
