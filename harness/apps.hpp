// Command lines, scratch files and a stand-in audio interface for checks that run the applications.
#ifndef VERIF_APPS_HPP
#define VERIF_APPS_HPP
#include "arrays.hpp"
#include "flow.hpp"
#include "pbt.hpp"

#include <libaudiointerfaces/audio_interface.hpp>
#include <libaudiointerfaces/audio_interface_factory.hpp>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace appline
{
using namespace visr;
using arr::Quiet;
std::size_t const none = std::numeric_limits<std::size_t>::max();
struct Dir // scratch directory
{
  std::string path;
  std::vector<std::string> files, dirs;
  Dir()
  {
    char t[] = "/tmp/verif-apps-XXXXXX";
    if (!mkdtemp(t)) pbt::fail("harness: mkdtemp");
    path = t;
  }
  Dir(Dir const&) = delete;
  ~Dir()
  {
    for (auto const& f : files) unlink(f.c_str());
    for (std::size_t i = dirs.size(); i > 0; --i) rmdir(dirs[i - 1].c_str());
    rmdir(path.c_str());
  }
  std::string file(std::string const& n, std::string const& content)
  {
    std::string const p = add(n);
    std::ofstream(p, std::ios::binary) << content;
    return p;
  }
  std::string sub(std::string const& n) // subdirectory
  {
    dirs.push_back(path + "/" + n);
    mkdir(dirs.back().c_str(), 0755);
    return dirs.back();
  }
  std::string add(std::string const& n)
  {
    files.push_back(path + "/" + n);
    return files.back();
  }
};

// ---- command lines -----------------------------------------------------------
struct Opt
{
  std::string longName;
  char shortName = 0;
  bool flag = false;
  std::string value;
};
std::string quoted(pbt::Case& c, std::string const& v)
{
  bool need = v.empty();
  for (char x : v) need = need || std::strchr(" =\n\r\"\\", x);
  if (!need && !c.chance(20)) return v;
  std::string r;
  for (char x : v)
  {
    if (x == '"' || x == '\\') r += '\\';
    if (x == '\n' && c.flag()) r += "\\n";
    else r += x;
  }
  if (v.find('"') == std::string::npos || c.flag() || need) r = "\"" + r + "\"";
  return r;
}
void onLine(pbt::Case& c, Opt const& o, std::vector<std::string>& args)
{
  std::string const s = std::string("-") + o.shortName;
  if (o.flag) { args.push_back(o.shortName && c.flag() ? s : "--" + o.longName); return; }
  switch (o.shortName ? c.draw(4) : c.draw(2))
  {
  case 0: args.push_back("--" + o.longName + "=" + o.value); break;
  case 1: args.push_back("--" + o.longName); args.push_back(o.value); break;
  case 2: args.push_back(s); args.push_back(o.value); break;
  default: args.push_back(s + o.value);
  }
}
std::string inFile(pbt::Case& c, Opt const& o)
{
  std::string const s = std::string("-") + o.shortName;
  if (o.flag) return o.shortName && c.flag() ? s : "--" + o.longName;
  std::string const q = quoted(c, o.value);
  switch (o.shortName ? c.draw(5) : c.draw(2))
  {
  case 0: return "--" + o.longName + "=" + q;
  case 1: return "--" + o.longName + " " + q;
  case 2: return s + " " + q;
  case 3: return s + "=" + q;
  default: return s + q;
  }
}
struct Line
{
  std::vector<std::string> args;
  std::string file; // content of the option file
  bool hasFile = false;
  void addFile(pbt::Case& c, Dir& d, std::string const& content)
  {
    hasFile = true;
    file = content;
    addPath(c, d.file("options" + std::to_string(d.files.size()) + (c.flag() ? ".cfg" : " file"), content));
  }
  void addPath(pbt::Case& c, std::string const& p)
  {
    std::size_t const at = 0;
    switch (c.draw(3))
    {
    case 0: args.insert(args.begin() + at, "@" + p); break;
    case 1: args.insert(args.begin() + at, "--option-file=" + p); break;
    default: args.insert(args.begin() + at, p); args.insert(args.begin() + at, "--option-file");
    }
  }
  std::string show() const
  {
    std::string r = "command line:";
    for (auto const& a : args) r += " [" + a + "]";
    if (hasFile) r += "\noption file:\n" + file + "\n";
    return r + "\n";
  }
  template <typename F> auto with(F f) const
  {
    std::vector<char const*> v(1, "program");
    for (auto const& a : args) v.push_back(a.c_str());
    int const n = (int)v.size();
    v.push_back(nullptr);
    return f(n, v.data());
  }
};
std::string separator(pbt::Case& c)
{
  return c.pick<std::string>({"\n", "\r\n", " ", "\n\n", " \n"});
}
// distribute the options between the command line and an option file
Line compose(pbt::Case& c, Dir& d, std::vector<Opt> opts)
{
  Line l;
  for (std::size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[c.size(0, i - 1)]);
  int const mode = (int)c.draw(3); // all on the command line, mixed, all in the file
  std::string file;
  for (auto const& o : opts)
    if (mode == 2 || (mode == 1 && c.flag())) file += inFile(c, o) + separator(c);
    else onLine(c, o, l.args);
  if (mode) l.addFile(c, d, file);
  return l;
}

// ---- running applications ------------------------------------------------------------
struct Fake;
struct Session
{
  std::function<void(Fake&)> body;
  std::vector<std::string> events;
  std::string interfaceName, config;
  std::size_t in = 0, out = 0, period = 0, rate = 0;
} * session = nullptr;

struct Fake : audiointerfaces::AudioInterface
{
  Configuration conf;
  AudioCallback cb = nullptr;
  void* data = nullptr;
  bool running = false;
  Fake(Configuration const& base, std::string const& text) : conf(base)
  {
    session->events.push_back("create");
    session->config = text;
    session->in = conf.numCaptureChannels();
    session->out = conf.numPlaybackChannels();
    session->period = conf.periodSize();
    session->rate = conf.sampleRate();
    if (text == "reject") throw std::invalid_argument("rejected configuration");
  }
  ~Fake() { session->events.push_back(running ? "destroyed while running" : "destroy"); }
  std::size_t numberOfCaptureChannels() const override { return conf.numCaptureChannels(); }
  std::size_t numberOfPlaybackChannels() const override { return conf.numPlaybackChannels(); }
  std::size_t period() const override { return conf.periodSize(); }
  std::size_t samplingFrequency() const override { return conf.sampleRate(); }
  bool registerCallback(AudioCallback f, void* d) override { cb = f; data = d; session->events.push_back("register"); return true; }
  bool unregisterCallback(AudioCallback f) override { session->events.push_back(f == cb ? "unregister" : "unregister unknown"); cb = nullptr; return true; }
  void start() override
  {
    session->events.push_back("start");
    running = true;
    session->body(*this);
  }
  void stop() override { session->events.push_back("stop"); running = false; }
  vflow::Audio process(vflow::Audio const& in)
  {
    if (!cb) pbt::fail("the audio interface has been started without a callback");
    std::vector<float const*> ip;
    for (auto const& v : in) ip.push_back(v.data());
    vflow::Audio out(conf.numPlaybackChannels(), std::vector<float>(conf.periodSize(), 1234.5f));
    std::vector<float*> op;
    for (auto& v : out) op.push_back(v.data());
    bool status = true;
    cb(data, ip.data(), op.data(), status);
    return out;
  }
};
struct FakeA : Fake { using Fake::Fake; };
struct FakeB : Fake { FakeB(Configuration const& b, std::string const& t) : Fake(b, t) { session->interfaceName = "PortAudio"; } };

struct StdIn
{
  FILE *old, *f;
  char text[64];
  StdIn(pbt::Case& c) : old(stdin)
  {
    std::snprintf(text, sizeof text, "%sq\nxx", c.pick<char const*>({"", "a\n", "Q\n\n", "12 34\n"}));
    f = fmemopen(text, std::strlen(text), "r");
    stdin = f;
  }
  ~StdIn() { stdin = old; std::fclose(f); }
};
struct Run
{
  Session s;
  int status = -1;
  bool crashed = false;
  std::string output;
};
// the options common to all applications
struct AppLine
{
  std::vector<Opt> opts;
  std::string config;   // expected interface configuration
  std::size_t period = 1024, rate = 48000;
  std::string error;
};
void common(pbt::Case& c, Dir& d, AppLine& a, std::vector<std::size_t> const& periods, std::size_t in, std::size_t out, bool errors)
{
  std::string const backend = errors && c.chance(6) ? (a.error = "unknown audio interface", "Nosuch") : "Fake";
  a.opts.push_back({"audio-backend", 'D', false, backend});
  if (in != none) a.opts.push_back({"input-channels", 'i', false, std::to_string(in)});
  if (out != none) a.opts.push_back({"output-channels", 'o', false, std::to_string(out)});
  if (!periods.empty()) { a.period = c.pick(periods); a.opts.push_back({"period", 'p', false, std::to_string(a.period)}); }
  if (c.flag()) { a.rate = c.pick<std::size_t>({44100, 96000, 8000, 48000}); a.opts.push_back({"sampling-frequency", 'f', false, std::to_string(a.rate)}); }
  std::string const json = c.pick<std::string>({"{ \"hostapi\": \"WASAPI\" }", "{\"clientname\": \"x\", \"autoconnect\": \"true\"}", "plain", "{ \"a\":\n  [1, 2] }"});
  bool const asText = c.chance(30), asFile = c.chance(30);
  if (asText) { a.opts.push_back({"audio-ifc-options", 0, false, json}); a.config = json; }
  if (asFile) { a.config = json + (c.flag() ? "\n" : ""); a.opts.push_back({"audio-ifc-option-file", 0, false, d.file("interface.cfg", a.config)}); }
  if (asText && asFile)
  {
    if (errors) a.error = "interface options given twice";
    else { a.opts.pop_back(); a.config = json; }
  }
  else if (!asText && !asFile && errors && c.chance(6))
  {
    if (c.flag()) { a.opts.push_back({"audio-ifc-option-file", 0, false, d.path + "/nosuchfile.cfg"}); a.error = "missing interface option file"; }
    else { a.opts.push_back({"audio-ifc-options", 0, false, "reject"}); a.error = "rejected interface options"; }
  }
}
typedef int (*Main)(int, char const* const*);
Run launch(pbt::Case& c, Main m, Line const& l, std::function<void(Fake&)> body)
{
  Run r;
  std::string failure;
  r.s.body = [&](Fake& f) { try { body(f); } catch (pbt::Failure const& x) { failure = x.msg; } };
  session = &r.s;
  {
    Quiet q;
    StdIn in(c);
    pbt::mustNotThrow([&] { r.status = l.with(m); }, "running the application");
    r.output = q.sink.str();
  }
  session = nullptr;
  if (!failure.empty()) pbt::fail(failure);
  return r;
}
void verify(Run const& r, AppLine const& a, std::size_t in, std::size_t out, bool unregisters)
{
  std::string ev;
  for (auto const& e : r.s.events) ev += (ev.empty() ? "" : ", ") + e;
  if (!a.error.empty())
  {
    PBT_CHECK(r.status != 0, "the application succeeds with: " << a.error);
    PBT_CHECK(!r.output.empty(), "no error message for: " << a.error);
    PBT_CHECK(ev.find("start") == std::string::npos, "audio started with: " << a.error);
    return;
  }
  PBT_CHECK(r.status == 0, "exit status " << r.status << ": " << r.output);
  std::string const want = std::string("create, register, start, stop, ") + (unregisters ? "unregister, " : "") + "destroy";
  PBT_CHECK(ev == want, "audio interface: " << ev << " instead of " << want);
  PBT_CHECK(r.s.in == in && r.s.out == out, "audio interface with " << r.s.in << " inputs and " << r.s.out << " outputs instead of " << in << " and " << out);
  PBT_CHECK(r.s.period == a.period && r.s.rate == a.rate, "audio interface with period " << r.s.period << " and rate " << r.s.rate << " instead of " << a.period << " and " << a.rate);
  PBT_CHECK(r.s.config == a.config, "audio interface options \"" << r.s.config << "\" instead of \"" << a.config << "\"");
}
vflow::Audio noise(pbt::Rng& r, std::size_t channels, std::size_t n)
{
  vflow::Audio a(channels, std::vector<float>(n));
  for (auto& x : a) for (auto& y : x) y = (float)r.uniform(-1, 1);
  return a;
}
vflow::Audio slice(vflow::Audio const& a, std::size_t at, std::size_t n)
{
  vflow::Audio r;
  for (auto const& x : a) r.emplace_back(x.begin() + (std::ptrdiff_t)at, x.begin() + (std::ptrdiff_t)(at + n));
  return r;
}

} // namespace appline
#endif
