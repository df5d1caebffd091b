// P29: the standalone applications and their command line options.
#include "apps.hpp"
#include "arrays.hpp"
#include "flow.hpp"
#include "objects.hpp"
#include "panmodel.hpp"
#include "pbt.hpp"
#include "udp.hpp"

#include <apps/matrix_convolver/init_filter_matrix.hpp>
#include <libapputilities/options.hpp>
#include <libaudiointerfaces/audio_interface.hpp>
#include <libaudiointerfaces/audio_interface_factory.hpp>
#include <libefl/basic_matrix.hpp>
#include <libpanning/LoudspeakerArray.h>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <librbbl/index_sequence.hpp>
#include <libsignalflows/core_renderer.hpp>

#include <sndfile.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sys/stat.h>

int feedthrough_main(int, char const* const*);
int matrix_convolver_main(int, char const* const*);
int baseline_renderer_main(int, char const* const*);
int visr_renderer_main(int, char const* const*);
int tff_main(int, char const* const*);

using namespace visr;
using namespace arr;
using namespace appline;

namespace
{
typedef apputilities::Options::ParseResult PR;
char const* name(PR r) { return r == PR::Success ? "success" : r == PR::Failure ? "failure" : r == PR::Help ? "help" : "version"; }

// ---- options -------------------------------------------------------------------
struct TestOptions : apputilities::Options
{
  TestOptions(bool positional)
  {
    registerOption<std::size_t>("count,n", "a count");
    registerOption<int>("level,l", "a level");
    registerOption<double>("gain", "a gain");
    registerOption<std::string>("text,t", "a text");
    registerOption<std::string>("other", "another text");
    registerOption<bool>("flag,F", "a flag");
    registerOption<bool>("quiet", "another flag");
    if (positional) registerPositionalOption<std::string>("place,p", 1, "a positional option");
    else registerOption<std::string>("place,p", "a further option");
  }
};
std::string anyText(pbt::Case& c)
{
  switch (c.draw(6))
  {
  case 0: return "plain";
  case 1: return "/some/path with spaces/file.xml";
  case 2: return "{ \"key\": \"value\", \"list\": [ 1, 2.5 ] }";
  case 3: return "a=b";
  case 4: return "back\\slash";
  default:
  {
    std::string s(1, (char)('a' + c.draw(26)));
    for (std::size_t i = c.size(0, 8); i > 0; --i) s += c.pick<char>({'x', ' ', '"', '\\', '=', ',', '\'', '\n', '-', '@', '#', ':'});
    return s;
  }
  }
}
void options(pbt::Case& c)
{
  Dir d;
  bool const positional = c.flag();
  struct Val { Opt o; int type; };
  std::vector<Val> all = {{{"count", 'n', false, std::to_string(c.draw(c.flag() ? 100 : 1000000000000ull))}, 0}, {{"level", 'l', false, std::to_string(c.draw(1000000))}, 1}, {{"gain", 0, false, om::num((float)c.range(0, 800) / 8)}, 2}, {{"text", 't', false, anyText(c)}, 3}, {{"other", 0, false, anyText(c)}, 3}, {{"flag", 'F', true, ""}, 4}, {{"quiet", 0, true, ""}, 4}, {{"place", 'p', false, anyText(c)}, 3}, {{"help", 'h', true, ""}, 4}, {{"version", 'v', true, ""}, 4}};
  std::set<std::size_t> line, file;
  std::map<std::string, std::string> value;
  bool const useFile = c.chance(70);
  Line l;
  std::vector<std::string> parts;
  for (std::size_t i = 0; i < all.size(); ++i)
  {
    if (!c.chance(i >= 8 ? 12 : 50)) continue;
    bool const f = useFile && c.flag(), a = !f || c.chance(15);
    if (a) line.insert(i);
    if (f) file.insert(i);
  }
  std::set<std::string> given;
  for (std::size_t i : line)
  {
    if (i == 7 && positional && c.flag()) l.args.push_back(all[i].o.value);
    else onLine(c, all[i].o, l.args);
    value[all[i].o.longName] = all[i].o.value;
  }
  for (std::size_t i : file)
  {
    Opt o = all[i].o;
    bool const also = line.count(i) != 0;
    if (also && !o.flag) { o.value = all[i].type == 3 ? "overridden" : "77"; }
    parts.push_back(inFile(c, o));
    if (!also) value[o.longName] = o.value;
  }
  bool ok = true;
  std::string why;
  // errors
  if (c.chance(35))
  {
    bool const inf = useFile && c.flag();
    auto put = [&](std::string const& a, std::string const& b = "") {
      if (inf) parts.push_back(b.empty() ? a : a + " " + b);
      else { l.args.push_back(a); if (!b.empty()) l.args.push_back(b); }
    };
    auto fresh = [&]() -> std::size_t { for (std::size_t i : {0, 1, 2}) if (!line.count((std::size_t)i) && !file.count((std::size_t)i)) return (std::size_t)i; return 99; };
    ok = false;
    switch (c.draw(6))
    {
    case 0: why = "unknown option"; put(c.pick<std::string>({"--nosuch=1", "-z", "--counts=3", "--textual=a"})); break;
    case 1:
    {
      std::size_t const i = fresh();
      if (i == 99) { ok = true; break; }
      why = "not a number";
      put("--" + all[i].o.longName, c.pick<std::string>({"abc", "1x", "3,4", "1..2"}));
      break;
    }
    case 2:
    {
      std::vector<std::size_t> rep;
      for (std::size_t i : inf ? file : line) if (!all[i].o.flag && !(inf && line.count(i))) rep.push_back(i);
      if (rep.empty()) { ok = true; break; }
      why = "given twice";
      std::size_t const i = c.pick(rep);
      put("--" + all[i].o.longName, i < 3 ? "5" : "again");
      break;
    }
    case 3:
      if (inf) { why = "invalid escape sequence"; parts.push_back("--other \"a\\qb\""); ok = false; }
      else { why = "argument for a flag"; l.args.push_back("--quiet=1"); }
      break;
    case 4:
      if (useFile) { ok = true; break; }
      why = "missing option file";
      l.addPath(c, c.flag() ? d.path + "/nosuchfile" : d.path);
      break;
    default:
    {
      std::size_t const i = fresh();
      if (i == 99) { ok = true; break; }
      why = "value missing";
      put("--" + all[i].o.longName);
    }
    }
  }
  if (ok) why.clear();
  if (useFile)
  {
    std::string s;
    for (std::size_t i = 0; i < parts.size(); ++i) s += parts[i] + (i + 1 < parts.size() ? separator(c) : c.pick<std::string>({"\n", "", "\r\n"}));
    l.addFile(c, d, s);
  }
  c.note() << (positional ? "with" : "without") << " a positional option; " << (ok ? "valid" : why) << "\n" << l.show();
  c.flushNote();
  c.label(ok ? "valid" : why);
  TestOptions o(positional);
  std::ostringstream err;
  PR res = PR::Failure;
  pbt::mustNotThrow([&] { res = l.with([&](int n, char const* const* v) { return o.parse(n, v, err); }); }, "parsing the command line");
  PR const expected = !ok ? PR::Failure : value.count("help") ? PR::Help : value.count("version") ? PR::Version : PR::Success;
  PBT_CHECK(res == expected, "result is " << name(res) << " instead of " << name(expected) << ": " << err.str());
  PBT_CHECK((res == PR::Failure) == !err.str().empty(), "error message \"" << err.str() << "\" with the result " << name(res));
  if (!ok) { if (value.size() > 2) c.nontrivial(); return; }
  for (auto const& v : all)
  {
    char const* const n = v.o.longName.c_str();
    bool const has = value.count(v.o.longName) != 0;
    std::string const& t = has ? value[v.o.longName] : "";
    auto same = [&](auto got, auto want) { PBT_CHECK(got == want, "option " << n << " is \"" << got << "\" instead of \"" << want << "\""); };
    if (v.o.flag) { same(o.getOption<bool>(n), has); same(o.getDefaultedOption<bool>(n, false), has); continue; }
    PBT_CHECK(o.hasOption(n) == has, "option " << n << (has ? " is missing" : " has not been given"));
    if (!has)
    {
      pbt::mustThrow([&] { if (v.type == 3) o.getOption<std::string>(n); else if (v.type == 0) o.getOption<std::size_t>(n); else if (v.type == 1) o.getOption<int>(n); else o.getOption<double>(n); }, std::string("access to the missing option ") + n);
      if (v.type == 3) same(o.getDefaultedOption<std::string>(n, "fallback"), std::string("fallback"));
      else if (v.type == 0) same(o.getDefaultedOption<std::size_t>(n, 17), (std::size_t)17);
      else if (v.type == 1) same(o.getDefaultedOption<int>(n, -4), -4);
      else same(o.getDefaultedOption<double>(n, 0.25), 0.25);
      continue;
    }
    if (v.type == 3) { same(o.getOption<std::string>(n), t); same(o.getDefaultedOption<std::string>(n, "fallback"), t); pbt::mustThrow([&] { o.getOption<int>(n); }, "access with the wrong type"); }
    else if (v.type == 0) { same(o.getOption<std::size_t>(n), (std::size_t)std::stoull(t)); same(o.getDefaultedOption<std::size_t>(n, 17), (std::size_t)std::stoull(t)); pbt::mustThrow([&] { o.getOption<std::string>(n); }, "access with the wrong type"); }
    else if (v.type == 1) same(o.getOption<int>(n), std::stoi(t));
    else same(o.getOption<double>(n), std::stod(t));
  }
  std::ostringstream desc;
  o.printDescription(desc);
  for (auto const& v : all) PBT_CHECK(desc.str().find("--" + v.o.longName) != std::string::npos, "the description lacks " << v.o.longName);
  if (value.size() > 2 && useFile) c.nontrivial();
}

// ---- filter files ----------------------------------------------------------------
typedef std::vector<std::vector<float>> Filters;
void writeWav(std::string const& path, Filters const& f, int format = SF_FORMAT_FLOAT)
{
  SF_INFO i;
  std::memset(&i, 0, sizeof i);
  i.channels = (int)f.size();
  i.samplerate = 48000;
  i.format = SF_FORMAT_WAV | format;
  SNDFILE* s = sf_open(path.c_str(), SFM_WRITE, &i);
  if (!s) pbt::fail("harness: sf_open");
  std::vector<float> b;
  for (std::size_t k = 0; k < f[0].size(); ++k) for (auto const& ch : f) b.push_back(ch[k]);
  if (sf_writef_float(s, b.data(), (sf_count_t)f[0].size()) != (sf_count_t)f[0].size()) pbt::fail("harness: sf_writef");
  sf_close(s);
}
struct FilterSet
{
  std::string list, offsets;
  std::size_t maxLength = none, maxFilters = none;
  std::string error; // empty: valid
  Filters result;    // rows of the filter matrix
  std::size_t length = 0, files = 0;
};
FilterSet anyFilters(pbt::Case& c, Dir& d, bool errors)
{
  FilterSet s;
  s.files = c.chance(10) ? 0 : c.size(1, 4);
  bool const useOffsets = s.files && c.flag();
  std::vector<Filters> f;
  pbt::Rng r(c.seed());
  std::size_t longest = 0, total = 0;
  for (std::size_t i = 0; i < s.files; ++i)
  {
    std::size_t const n = c.size(1, 4), len = c.size(1, c.chance(20) ? 200 : 20);
    Filters m(n, std::vector<float>(len));
    for (auto& x : m) for (auto& y : x) y = (float)((double)(int64_t)r.below(65536) / 65536 - 0.5);
    f.push_back(m);
    longest = std::max(longest, len);
    total += n;
    std::string const p = d.add("filter" + std::to_string(i) + ".wav");
    writeWav(p, m);
    s.list += (i ? c.pick<std::string>({",", ", ", " ,"}) : c.pick<std::string>({"", " "})) + (c.chance(15) ? "\"" + p + "\"" : p);
  }
  // index ranges
  std::vector<std::size_t> start(s.files), order(s.files);
  std::size_t at = 0, used = 0;
  for (std::size_t i = 0; i < s.files; ++i) order[i] = i;
  if (useOffsets) for (std::size_t i = s.files; i > 1; --i) std::swap(order[i - 1], order[c.size(0, i - 1)]);
  for (std::size_t k : order)
  {
    if (useOffsets && c.chance(40)) at += c.size(0, 5);
    start[k] = at;
    at += f[k].size();
  }
  int const fault = errors && c.chance(40) ? 1 + (int)c.draw(6) : 0;
  if (fault == 1 && useOffsets && s.files > 1) // overlap
  {
    std::size_t const k = c.size(1, s.files - 1), a = order[k - 1], b = order[k];
    start[b] = c.size(start[a], start[a] + f[a].size() - 1);
    s.error = "overlapping files";
  }
  for (std::size_t i = 0; i < s.files; ++i) used = std::max(used, start[i] + f[i].size());
  if (useOffsets)
    for (std::size_t i = 0; i < s.files; ++i) s.offsets += (i ? c.pick<std::string>({",", ", "}) : std::string()) + std::to_string(start[i]);
  if (c.flag() || !s.files) s.maxLength = longest + (c.flag() ? 0 : c.size(0, 20)) + (s.files ? 0 : 1);
  if (c.flag() || !s.files) s.maxFilters = used + (c.flag() ? 0 : c.size(0, 6)) + (s.files ? 0 : 1);
  if (fault == 2 && s.files && longest > 1) { s.maxLength = c.size(1, longest - 1); s.error = "filter too long"; }
  if (fault == 3 && s.files && used > 1) { s.maxFilters = c.size(1, used - 1); s.error = "too many filters"; }
  if (fault == 4 && s.files) { s.list += "," + d.path + "/nosuchfile.wav"; if (useOffsets) s.offsets += "," + std::to_string(used); s.error = "missing file"; }
  if (fault == 5 && s.files) { s.offsets = useOffsets ? s.offsets + "," + std::to_string(used + 3) : s.files > 1 ? "0" : "0,5"; s.error = "wrong number of offsets"; }
  if (fault == 6 && !s.files) { if (c.flag()) s.maxLength = none; else s.maxFilters = none; s.error = "neither files nor sizes"; }
  s.length = s.maxLength == none ? longest : s.maxLength;
  std::size_t const rows = s.maxFilters == none ? used : s.maxFilters;
  if (s.error.empty())
  {
    s.result.assign(rows, std::vector<float>(s.length, 0.f));
    for (std::size_t i = 0; i < s.files; ++i)
      for (std::size_t k = 0; k < f[i].size(); ++k) std::copy(f[i][k].begin(), f[i][k].end(), s.result[start[i] + k].begin());
  }
  c.note() << s.files << " filter files:";
  for (auto const& x : f) c.note() << " " << x.size() << "x" << x[0].size();
  if (useOffsets || !s.offsets.empty()) c.note() << ", offsets " << s.offsets;
  if (s.maxLength != none) c.note() << ", maximum length " << s.maxLength;
  if (s.maxFilters != none) c.note() << ", maximum number " << s.maxFilters;
  c.note() << (s.error.empty() ? "" : ": ") << s.error << "\n";
  return s;
}
template <typename T> void checkFilters(pbt::Case& c, FilterSet const& s)
{
  efl::BasicMatrix<T> m(c.chance(50) ? 0 : c.size(1, 3), 2, (std::size_t)1 << c.draw(5));
  if (m.numberOfRows()) m.fillValue((T)3);
  std::size_t const rows = m.numberOfRows();
  auto run = [&] { apps::matrix_convolver::initFilterMatrix<T>(s.list, s.maxLength, s.maxFilters, s.offsets.empty() ? rbbl::IndexSequence() : rbbl::IndexSequence(s.offsets), m); };
  if (!s.error.empty()) { pbt::mustThrow(run, s.error); PBT_CHECK(m.numberOfRows() == rows, "the matrix has changed"); return; }
  pbt::mustNotThrow(run, "loading the filters");
  PBT_CHECK(m.numberOfRows() == s.result.size(), m.numberOfRows() << " filters instead of " << s.result.size());
  PBT_CHECK(s.result.empty() || m.numberOfColumns() == s.length, "filter length " << m.numberOfColumns() << " instead of " << s.length);
  for (std::size_t i = 0; i < s.result.size(); ++i)
    for (std::size_t k = 0; k < s.length; ++k) PBT_CHECK(m(i, k) == (T)s.result[i][k], "sample " << k << " of filter " << i << " is " << m(i, k) << " instead of " << s.result[i][k]);
}
void filters(pbt::Case& c)
{
  Dir d;
  FilterSet const s = anyFilters(c, d, true);
  c.flushNote();
  c.label(s.error.empty() ? "valid" : s.error);
  if (c.flag()) checkFilters<double>(c, s);
  else checkFilters<float>(c, s);
  if (s.files > 1) c.nontrivial();
}

void feedthrough(pbt::Case& c)
{
  Dir d;
  AppLine a;
  std::size_t const in = c.size(0, 6), out = c.size(0, 9);
  bool const missing = c.chance(5);
  common(c, d, a, {16, 4, 64, 100}, missing ? none : in, out, true);
  if (missing) a.error = "input channels missing";
  if (in == 0 && out > 0 && a.error.empty()) a.error = "outputs without inputs";
  if (c.chance(20)) a.opts.push_back({"realtime", 'r', true, ""});
  Line const l = compose(c, d, a.opts);
  c.note() << l.show();
  c.flushNote();
  c.label(a.error.empty() ? "runs" : a.error);
  pbt::Rng rng(c.seed());
  std::size_t const blocks = c.size(1, 4);
  Run const r = launch(c, feedthrough_main, l, [&](Fake& f) {
    for (std::size_t b = 0; b < blocks; ++b)
    {
      vflow::Audio const x = noise(rng, in, a.period), y = f.process(x);
      for (std::size_t o = 0; o < out; ++o)
        for (std::size_t k = 0; k < a.period; ++k) PBT_CHECK(y[o][k] == x[o % in][k], "output " << o << " sample " << k << " is " << y[o][k] << " instead of " << x[o % in][k]);
    }
  });
  verify(r, a, in, out, true);
  if (in > 1 && out > 1) c.nontrivial();
}

std::string indices(pbt::Case& c, std::vector<std::size_t> const& v)
{
  if (v.size() > 1 && c.flag()) // stride notation where possible
  {
    long const s = (long)v[1] - (long)v[0];
    bool same = s != 0;
    for (std::size_t i = 1; i < v.size(); ++i) same = same && (long)v[i] - (long)v[i - 1] == s;
    if (same) return std::to_string(v[0]) + ":" + (s == 1 && c.flag() ? "" : std::to_string(s) + ":") + std::to_string(v.back());
  }
  std::string r;
  for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
  return r;
}
void convolver(pbt::Case& c)
{
  Dir d;
  AppLine a;
  FilterSet const s = anyFilters(c, d, c.chance(30));
  std::size_t const in = c.size(1, 5), out = c.size(1, 5), rows = s.result.size();
  common(c, d, a, {16, 8, 64}, in, out, c.chance(30));
  if (!s.error.empty()) a.error = s.error;
  if (s.files || c.flag()) a.opts.push_back({"filters", 0, false, s.list.empty() ? " " : s.list});
  if (a.opts.back().value == " ") a.opts.pop_back();
  if (!s.offsets.empty()) a.opts.push_back({"filter-file-index-offsets", 0, false, s.offsets});
  if (s.maxLength != none) a.opts.push_back({"max-filter-length", 'l', false, std::to_string(s.maxLength)});
  if (s.maxFilters != none) a.opts.push_back({"max-filters", 0, false, std::to_string(s.maxFilters)});
  // routings
  struct Route { std::size_t filter; float gain; };
  std::map<std::pair<std::size_t, std::size_t>, Route> routes;
  std::string json;
  std::size_t const entries = rows ? c.size(0, 5) : 0;
  for (std::size_t e = 0; e < entries; ++e)
  {
    bool const wideIn = c.chance(40), wideOut = c.chance(40);
    std::vector<std::size_t> is, os, fs;
    std::size_t n = 1;
    if (wideIn && wideOut) n = c.size(1, std::min(in, out));
    else if (wideIn) n = c.size(1, in);
    else if (wideOut) n = c.size(1, out);
    auto some = [&](std::size_t limit) {
      std::vector<std::size_t> v;
      if (c.flag()) { std::size_t const b = c.size(0, limit - n); for (std::size_t i = 0; i < n; ++i) v.push_back(b + i); if (c.flag()) std::reverse(v.begin(), v.end()); return v; }
      for (std::size_t i = 0; i < limit; ++i) v.push_back(i);
      for (std::size_t i = limit; i > 1; --i) std::swap(v[i - 1], v[c.size(0, i - 1)]);
      v.resize(n);
      return v;
    };
    if (wideIn) is = some(in); else is.push_back(c.size(0, in - 1));
    if (wideOut) os = some(out); else os.push_back(c.size(0, out - 1));
    for (std::size_t i = c.flag() ? n : 1; i > 0; --i) fs.push_back(c.size(0, rows - 1));
    bool const gain = c.flag(), gains = gain && n > 1 && c.flag();
    std::vector<float> g;
    for (std::size_t i = gains ? n : 1; i > 0; --i) g.push_back(gain ? (float)c.range(-16, 16) / 8 : 1);
    for (std::size_t i = 0; i < n; ++i) routes[std::make_pair(is[is.size() > 1 ? i : 0], os[os.size() > 1 ? i : 0])] = Route{fs[fs.size() > 1 ? i : 0], g[gains ? i : 0]};
    json += (json.empty() ? "" : c.pick<std::string>({",", ", "})) + "{\"input\": \"" + indices(c, is) + "\", \"output\":\"" + indices(c, os) + "\", \"filter\": \"" + indices(c, fs) + "\"";
    if (gain) { json += ", \"gain\": \""; for (std::size_t i = 0; i < g.size(); ++i) json += (i ? "," : "") + om::num(g[i]); json += "\""; }
    json += "}";
  }
  if (c.chance(4)) { json += std::string(json.empty() ? "" : ",") + "{\"input\": \"" + std::to_string(in) + "\", \"output\": \"0\", \"filter\": \"0\"}"; a.error = "routing outside the inputs"; }
  else if (c.chance(3)) { json = "{\"input\":"; a.error = "malformed routing"; }
  bool const given = !json.empty() || c.flag();
  if (given) a.opts.push_back({"routings", 'r', false, a.error == "malformed routing" ? json : "[" + json + "]"});
  if (c.chance(30)) a.opts.push_back({"max-routings", 0, false, std::to_string(routes.size() + c.size(0, 3) + (a.error.empty() ? 0 : 1))});
  else if (a.error.empty() && routes.size() > 1 && c.chance(6)) { a.opts.push_back({"max-routings", 0, false, std::to_string(routes.size() - 1)}); a.error = "too many routings"; }
  if (c.chance(15)) a.opts.push_back({"fft-library", 0, false, c.pick<std::string>({"kissfft", "ffts", "default"})});
  if (c.chance(15)) a.opts.push_back({"dsp-optimisation", 'd', true, ""});
  Line const l = compose(c, d, a.opts);
  c.note() << l.show();
  c.flushNote();
  c.label(a.error.empty() ? "runs" : a.error);
  std::size_t const blocks = c.size(1, 5) + (s.length > a.period ? 2 : 0), total = blocks * a.period;
  pbt::Rng rng(c.seed());
  vflow::Audio const x = noise(rng, in, total);
  std::vector<std::vector<double>> want(out, std::vector<double>(total, 0.0));
  double bound = 1;
  for (auto const& e : routes)
  {
    auto const& h = s.result[e.second.filter];
    double n = 0;
    for (float v : h) n += std::abs(v);
    bound += n * std::abs(e.second.gain);
    for (std::size_t k = 0; k < total; ++k)
    {
      double y = 0;
      for (std::size_t t = 0; t < h.size() && t <= k; ++t) y += (double)h[t] * x[e.first.first][k - t];
      want[e.first.second][k] += (double)e.second.gain * y;
    }
  }
  Run const r = launch(c, matrix_convolver_main, l, [&](Fake& f) {
    for (std::size_t b = 0; b < blocks; ++b)
    {
      vflow::Audio const y = f.process(slice(x, b * a.period, a.period));
      for (std::size_t o = 0; o < out; ++o)
        for (std::size_t k = 0; k < a.period; ++k)
        {
          double const w = want[o][b * a.period + k];
          PBT_CHECK(std::abs(y[o][k] - w) <= 2e-6 * bound, "block " << b << " output " << o << " sample " << k << " is " << y[o][k] << " instead of " << w);
        }
    }
  });
  verify(r, a, in, out, true);
  if (routes.size() > 1 && a.error.empty()) c.nontrivial();
}

void transform(pbt::Case& c)
{
  Line l;
  pbt::Rng rng(c.seed());
  std::size_t const blocks = c.size(2, 12), period = 256;
  AppLine a;
  a.period = period;
  c.note() << blocks << " blocks\n";
  vflow::Audio x = noise(rng, 2, blocks * period);
  Run const r = launch(c, tff_main, l, [&](Fake& f) {
    for (std::size_t b = 0; b < blocks; ++b)
    {
      vflow::Audio const y = f.process(slice(x, b * period, period));
      for (std::size_t o = 0; o < 2; ++o)
        for (std::size_t k = 0; k < period; ++k)
        {
          float const w = b ? x[o][(b - 1) * period + k] : 0;
          PBT_CHECK(std::abs(y[o][k] - w) <= 1e-4, "block " << b << " output " << o << " sample " << k << " is " << y[o][k] << " instead of " << w);
        }
    }
  });
  a.config = r.s.config;
  verify(r, a, 2, 2, true);
  PBT_CHECK(a.config.find("\"float32Bit\"") != std::string::npos, "audio interface options " << a.config << " without a known sample format");
  if (blocks > 2) c.nontrivial();
}

// ---- renderers -------------------------------------------------------------------------
std::size_t const diffusionLength = 63, diffusionFilters = 64;
efl::BasicMatrix<float> const& diffusion()
{
  static efl::BasicMatrix<float> const m(diffusionFilters, diffusionLength,
#include <apps/baseline_renderer/files/quasiAllpassFIR_f64_n63_initializer_list.txt>
                                         , cVectorAlignmentSamples);
  return m;
}
void renderer(pbt::Case& c)
{
  bool const visrApp = c.flag(), tracking = c.chance(25), simple = !tracking && c.chance(8);
  Dir d;
  AppLine a;
  Port sp, tp;
  if (simple) { if (!sp.take(4242, 60)) { c.label("port 4242 busy"); return; } }
  else sp.any();
  if (tracking && !tp.take(8888, 60)) { c.label("port 8888 busy"); return; }
  Array m = anyArray(c);
  if (tracking) m.infinite = false;
  for (auto& s : m.spk) s.adj.eq.clear();
  for (auto& s : m.subs) s.adj.eq.clear();
  m.eqs.clear();
  m.hasEq = false;
  for (auto& s : m.spk) if (s.adj.hasDelay) s.adj.delay = (float)((double)c.draw(60) / 48000);
  for (auto& s : m.subs) if (s.adj.hasDelay) s.adj.delay = (float)((double)c.draw(60) / 48000);
  std::string const xml = text(c, m);
  panning::LoudspeakerArray la;
  { Quiet q; la.loadXmlString(xml); }
  pan::Panner p(m);
  std::size_t const nr = m.spk.size();
  std::size_t maxCh = 0;
  for (auto const& s : m.spk) maxCh = std::max(maxCh, s.channel);
  for (auto const& s : m.subs) maxCh = std::max(maxCh, s.channel);
  bool const defaultOutputs = c.flag();
  std::size_t const nIn = c.size(1, 8), channels = maxCh + (defaultOutputs || c.flag() ? 0 : c.size(0, 3));
  std::size_t const sections = simple ? 0 : c.size(0, 2);
  bool const dual = !simple && c.chance(30);
  common(c, d, a, c.chance(15) ? std::vector<std::size_t>() : std::vector<std::size_t>{2048, 4096, 1024, 512}, nIn, defaultOutputs ? none : channels, c.chance(20));
  a.opts.push_back({"array-config", 'c', false, d.file("array.xml", xml)});
  if (c.chance(4)) { a.opts.back().value = d.path + "/nosuch.xml"; a.error = "missing array configuration"; }
  else if (c.chance(3)) { a.opts.pop_back(); a.error = "array configuration not given"; }
  else if (c.chance(3)) { a.opts.back().value = d.file("broken.xml", xml.substr(0, xml.size() / 2)); a.error = "malformed array configuration"; }
  if (!defaultOutputs && channels > 0 && a.error.empty() && c.chance(4)) { for (auto& o : a.opts) if (o.longName == "output-channels") o.value = std::to_string(maxCh - 1); a.error = "too few outputs"; }
  if (!simple) a.opts.push_back({"scene-port", 'r', false, std::to_string(sp.n)});
  if (sections || c.chance(20)) a.opts.push_back({"object-eq-sections", 'e', false, std::to_string(sections)});
  if (dual) a.opts.push_back({"low-frequency-panning", 0, true, ""});
  if (tracking) a.opts.push_back({"tracking", 0, false, c.pick<std::string>({"{ \"port\": 8888 }", "true"})});
  if (c.chance(20)) a.opts.push_back({"reverb-config", 0, false, c.pick<std::string>({"{}", "{ \"numReverbObjects\": 0, \"lateReverbFilterLength\": 0.001 }"})});
  Line const l = [&] {
    if (a.opts.size() > 6 && c.chance(30)) // the array as positional argument
      for (std::size_t i = 0; i < a.opts.size(); ++i)
        if (a.opts[i].longName == "array-config")
        {
          std::string const v = a.opts[i].value;
          a.opts.erase(a.opts.begin() + (std::ptrdiff_t)i);
          Line x = compose(c, d, a.opts);
          x.args.insert(c.flag() ? x.args.begin() : x.args.end(), v);
          return x;
        }
    return compose(c, d, a.opts);
  }();
  std::size_t const period = a.period, steps = std::max<std::size_t>(period, 2048);
  c.note() << (visrApp ? "visr_renderer" : "baseline_renderer") << " with " << nr << " loudspeakers, " << m.subs.size() << " subwoofers, " << channels << " outputs\n" << l.show();
  c.flushNote();
  c.label(a.error.empty() ? visrApp ? "visr_renderer" : "baseline_renderer" : a.error);
  efl::BasicMatrix<float> dm(nr, diffusionLength, cVectorAlignmentSamples);
  for (std::size_t i = 0; i < nr; ++i) for (std::size_t j = 0; j < diffusionLength; ++j) dm(i, j) = diffusion()(i, j);
  om::Scene scene;
  auto const ids = m.ids();
  std::size_t const rounds = c.size(1, 3);
  // the gain fades restart in every block, i.e. the remaining distance shrinks by period/steps per block
  std::size_t const settling = (period < steps ? 7 * steps : steps) + 2048;
  Run const r = launch(c, visrApp ? visr_renderer_main : baseline_renderer_main, l, [&](Fake& f) {
    SignalFlowContext ctx(period, a.rate);
    signalflows::CoreRenderer core(ctx, "c", nullptr, la, nIn, channels, steps, dm, tracking ? "t" : "", sections, "", dual);
    vflow::Rig ref(core);
    Socket tx;
    vflow::Audio in(nIn);
    for (std::size_t i = 0; i < nIn; ++i) in[i].assign(period, 0.25f + 0.125f * (float)i);
    auto steadyApp = [&] { vflow::Audio o; for (std::size_t i = 0; i < settling; i += period) o = f.process(in); return o; };
    auto steadyRef = [&] { vflow::Audio o; for (std::size_t i = 0; i < settling; i += period) o = ref.process(in); return o; };
    auto differs = [&](vflow::Audio const& x, vflow::Audio const& y) -> std::string {
      if (x.size() != y.size()) return "different numbers of outputs";
      for (std::size_t i = 0; i < x.size(); ++i)
        for (std::size_t k = 0; k < period; ++k)
          if (!(std::abs(x[i][k] - y[i][k]) <= 2e-4 * (1 + std::abs(y[i][k])))) { std::ostringstream s; s << "output channel " << i + 1 << " is " << x[i][k] << " instead of " << y[i][k]; return s.str(); }
      return "";
    };
    for (std::size_t t = 0; t < rounds; ++t)
    {
      if (tracking && (t == 0 || c.flag()))
      {
        V3 const pos = pan::anyListener(c, p);
        p.listener(pos);
        float const x = (float)pos[0], y = (float)pos[1], z = (float)pos[2];
        c.note() << "[" << t << "] listener " << x << " " << y << " " << z << "\n";
        ref.param<pml::ListenerPosition>("trackingPositionInput") = pml::ListenerPosition(x, y, z);
        ref.dbl("trackingPositionInput").swapBuffers();
        tx.send("{\"x\": " + om::num(x) + ", \"y\": " + om::num(y) + ", \"z\": " + om::num(z) + ", \"faceId\": 1}", 8888);
      }
      for (std::size_t k = c.size(1, 2); k > 0; --k)
      {
        std::vector<om::Json> js;
        for (std::size_t i = c.size(1, 2); i > 0; --i)
        {
          unsigned const id = (unsigned)c.draw(std::min<std::size_t>(nIn, 4));
          om::Obj o = om::anyObject(c, id, c.pick<int>({om::Point, om::PointDiffuse, om::Plane, om::Channel, om::Diffuse}), 3);
          o.channels.assign(1, id);
          o.level = (float)c.range(1, 16) / 8;
          o.lock = 0;
          if (o.eq.size() > sections) o.eq.clear();
          for (auto& e : o.eq) // no long transients
          {
            e.f = (float)std::min(std::max<double>(e.f, 0.02 * (double)a.rate), 0.4 * (double)a.rate);
            e.q = std::min(std::max(e.q, 0.5f), 2.f);
          }
          o.diffuseness = (float)c.draw(5) / 4;
          if (o.hasPos()) { o.x = (float)c.sym(3); o.y = (float)c.sym(3); o.z = (float)c.sym(2); }
          if (o.kind == om::Plane) { o.az = (float)c.sym(180); o.el = (float)c.sym(60); }
          if (o.kind == om::Channel)
          {
            std::string const& out = ids[(std::size_t)c.draw(nr)];
            bool plain = !out.empty();
            for (char x : out) plain = plain && (std::isalnum((unsigned char)x) || x == '_');
            o.outputs.assign(1, {});
            if (plain) o.outputs[0].push_back(out);
          }
          scene[id] = o;
          js.push_back(om::toJson(c, o, false));
          c.note() << "[" << t << "] object " << id << " " << om::kindName(o.kind) << " level " << o.level << "\n";
        }
        std::string const msg = om::message(c, js);
        c.note() << msg << "\n";
        tx.send(msg, sp.n);
      }
      auto& ov = ref.param<pml::ObjectVector>("objectDataInput");
      ov.clear();
      for (auto const& e : scene) ov.insert(om::toLib(e.second));
      ref.dbl("objectDataInput").swapBuffers();
      c.flushNote();
      steadyRef();
      vflow::Audio const goal = steadyRef();
      std::string df;
      double const end = now() + deadline;
      do { df = differs(steadyApp(), goal); if (!df.empty()) pause(0.001); } while (!df.empty() && now() < end);
      if (!df.empty()) lost();
      PBT_CHECK(df.empty(), "after update " << t << ": " << df);
    }
  });
  verify(r, a, nIn, channels, false);
  if (scene.size() >= 2) c.nontrivial();
}
// large arrays: rendered, or refused when the diffusion filters do not suffice
void arrays(pbt::Case& c)
{
  std::size_t const n = c.chance(60) ? c.size(60, 70) : c.size(3, 100);
  bool const visrApp = c.flag();
  Dir d;
  Port sp;
  sp.any();
  std::ostringstream x;
  x << "<panningConfiguration dimension=\"2\" infinite=\"false\">\n";
  for (std::size_t i = 0; i < n; ++i) x << "<loudspeaker id=\"L" << i << "\" channel=\"" << i + 1 << "\"><polar az=\"" << 360.0 * (double)i / (double)n << "\" el=\"0\" r=\"1\"/></loudspeaker>\n";
  for (std::size_t i = 0; i < n; ++i) x << "<triplet l1=\"L" << i << "\" l2=\"L" << (i + 1) % n << "\"/>\n";
  x << "</panningConfiguration>\n";
  AppLine a;
  common(c, d, a, {2048}, 1, none, false);
  a.opts.push_back({"array-config", 'c', false, d.file("array.xml", x.str())});
  a.opts.push_back({"scene-port", 'r', false, std::to_string(sp.n)});
  if (n > diffusionFilters) a.error = "more loudspeakers than diffusion filters";
  Line const l = compose(c, d, a.opts);
  std::size_t const target = c.size(0, n - 1);
  c.note() << n << " loudspeakers, diffuse object\n" << l.show();
  c.flushNote();
  c.label(a.error.empty() ? "runs" : "too large");
  Run const r = launch(c, visrApp ? visr_renderer_main : baseline_renderer_main, l, [&](Fake& f) {
    Socket tx;
    tx.send("{\"objects\":[{\"id\":0,\"channels\":0,\"type\":\"diffuse\",\"group\":0,\"priority\":0,\"level\":1}]}", sp.n);
    vflow::Audio const in(1, std::vector<float>(a.period, 1.f));
    double h = 0; // response of this loudspeaker's filter to a constant signal
    for (std::size_t k = 0; k < diffusionLength; ++k) h += diffusion()(target, k);
    double const want = h / std::sqrt((double)n), end = now() + deadline;
    double got = 0;
    do { for (int i = 0; i < 3; ++i) got = f.process(in)[target][a.period - 1]; if (std::abs(got - want) > 1e-4) pause(0.001); } while (std::abs(got - want) > 1e-4 && now() < end);
    if (std::abs(got - want) > 1e-4) lost();
    PBT_CHECK(std::abs(got - want) <= 1e-4, "diffuse signal of loudspeaker " << target << " is " << got << " instead of " << want);
  });
  verify(r, a, 1, n, false);
  c.nontrivial();
}
void help(pbt::Case& c)
{
  struct App { char const* n; Main m; std::vector<std::string> names; };
  std::vector<std::string> const conv = {"audio-backend", "audio-ifc-options", "audio-ifc-option-file", "list-fft-libraries", "sampling-frequency", "period", "input-channels", "output-channels", "filters", "filter-file-index-offsets", "routings", "max-filter-length", "max-routings", "max-filters", "fft-library"};
  std::vector<std::string> const rend = {"audio-backend", "sampling-frequency", "period", "array-config", "input-channels", "output-channels", "object-eq-sections", "reverb-config", "tracking", "scene-port", "low-frequency-panning", "audio-ifc-options", "audio-ifc-option-file"};
  std::vector<App> const apps = {{"matrix_convolver", matrix_convolver_main, conv}, {"baseline_renderer", baseline_renderer_main, rend}, {"visr_renderer", visr_renderer_main, rend}, {"feedthrough", feedthrough_main, {"audio-backend", "sampling-frequency", "period", "input-channels", "output-channels"}}};
  App const& a = apps[c.draw(apps.size())];
  Dir d;
  int const what = (int)c.draw(4);
  std::vector<Opt> o;
  if (what == 0) o.push_back({"help", 'h', true, ""});
  else if (what == 1) o.push_back({"version", 'v', true, ""});
  else if (what == 2) o.push_back({"unknown-option", 0, true, ""});
  else o.push_back({"input-channels", 'i', false, "many"});
  if (what != 3 && c.flag()) o.push_back({"input-channels", 'i', false, std::to_string(c.size(0, 5))});
  if (c.flag()) o.push_back({"output-channels", 'o', false, "2"});
  if (c.flag()) o.push_back({"audio-backend", 'D', false, "Fake"});
  Line const l = compose(c, d, o);
  c.note() << a.n << "\n" << l.show();
  c.flushNote();
  Run const r = launch(c, a.m, l, [](Fake&) {});
  PBT_CHECK((r.status == 0) == (what < 2), "exit status " << r.status << ": " << r.output);
  PBT_CHECK(r.s.events.empty(), "an audio interface has been created");
  PBT_CHECK(!r.output.empty(), "no output");
  if (what == 0) for (auto const& n : a.names) PBT_CHECK(r.output.find("--" + n) != std::string::npos, "--" << n << " is missing in the help text");
  if (what == 0 || what == 1) c.label(what ? "version" : "help"); else c.label("error");
  c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  audiointerfaces::AudioInterfaceFactory::registerAudioInterfaceType<FakeA>("Fake");
  audiointerfaces::AudioInterfaceFactory::registerAudioInterfaceType<FakeB>("PortAudio");
  pbt::Spec s;
  s.rule = "options come from both the command line and a file, several filter files, routings, channels or objects are involved";
  s.subs = {{"options", options, 6000, 600000}, {"help", help, 400, 4000}, {"filters", filters, 3000, 300000}, {"feedthrough", feedthrough, 2000, 200000}, {"convolver", convolver, 3000, 300000}, {"transform", transform, 60, 600}, {"arrays", arrays, 100, 3000}, {"renderer", renderer, 500, 30000}};
  s.assumptions = {"the applications run in the checking process on an audio interface that only exists in the check; visr_renderer is compiled without its optional Python part"};
  return pbt::run(argc, argv, s);
}
