// P28: the PortAudio and JACK sound interfaces, driven against stand-ins for both audio servers.
#include "arrays.hpp" // Quiet
#include "pbt.hpp"

#include <libaudiointerfaces/audio_interface.hpp>
#include <libaudiointerfaces/audio_interface_factory.hpp>

#include <jack/jack.h>
#include <portaudio.h>

#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <memory>
#include <set>

using namespace visr;
using namespace pbt;
using audiointerfaces::AudioInterface;
using audiointerfaces::AudioInterfaceFactory;

// ============================================================================ JACK stand-in
struct JPort
{
  std::string name;
  unsigned long flags = 0;
  bool alive = true;
  std::vector<float> buf;
};
struct _jack_port : JPort {};
struct _jack_client
{
  std::string name, server;
  bool active = false, closed = false;
  JackProcessCallback proc = nullptr;
  void* procArg = nullptr;
  std::vector<std::unique_ptr<_jack_port>> ports;
  std::set<std::pair<std::string, std::string>> connections;
};
namespace
{
struct Jack
{
  std::vector<std::unique_ptr<_jack_client>> clients;
  std::string expectedServer = "default";
  bool serverUp = true;
  jack_nframes_t rate = 48000, size = 64;
  bool refuseSize = false, refuseActivate = false;
  int refusePortAt = -1; // the n-th registration fails
  int registrations = 0;
  std::set<std::string> unconnectable;
  std::vector<std::string> misuse;
  Rng inject{0};
  unsigned injectPct = 0;
  bool inCycle = false;
  int lastReturn = 0;
  std::vector<std::string> errors;
} J;
void misuse(std::string const& s) { J.misuse.push_back(s); }
bool valid(jack_client_t* cl, char const* fn)
{
  if (!cl) { misuse(std::string(fn) + " without client"); return false; }
  for (auto const& x : J.clients)
    if (x.get() == cl)
    {
      if (cl->closed) { misuse(std::string(fn) + " on a closed client"); return false; }
      return true;
    }
  misuse(std::string(fn) + " on an unknown client");
  return false;
}
void cycle(_jack_client& cl)
{
  if (!cl.active || cl.closed || !cl.proc || J.inCycle) return;
  J.inCycle = true;
  J.lastReturn = cl.proc(J.size, cl.procArg);
  J.inCycle = false;
}
void perhaps(jack_client_t* cl) // the server may run a cycle at any moment while the client is active
{
  if (cl && J.injectPct && J.inject.below(100) < J.injectPct) cycle(*cl);
}
} // namespace

extern "C" {
jack_client_t* jack_client_open(const char* name, jack_options_t options, jack_status_t* status, ...)
{
  std::string server;
  if (options & JackServerName)
  {
    va_list ap;
    va_start(ap, status);
    char const* s = va_arg(ap, char const*);
    server = s ? s : "";
    va_end(ap);
  }
  *status = (jack_status_t)0;
  if (!J.serverUp || server != J.expectedServer)
  {
    *status = (jack_status_t)(JackFailure | JackServerFailed);
    return nullptr;
  }
  std::unique_ptr<_jack_client> c(new _jack_client);
  c->name = name;
  c->server = server;
  J.clients.push_back(std::move(c));
  return J.clients.back().get();
}
int jack_client_close(jack_client_t* cl)
{
  if (!valid(cl, "jack_client_close")) return 1;
  cl->closed = true;
  cl->active = false;
  return 0;
}
int jack_set_process_callback(jack_client_t* cl, JackProcessCallback f, void* arg)
{
  if (!valid(cl, "jack_set_process_callback")) return 1;
  if (cl->active) misuse("process callback changed while active");
  cl->proc = f;
  cl->procArg = arg;
  return 0;
}
int jack_set_buffer_size_callback(jack_client_t* cl, JackBufferSizeCallback, void*) { return valid(cl, "jack_set_buffer_size_callback") ? 0 : 1; }
int jack_set_sample_rate_callback(jack_client_t* cl, JackSampleRateCallback, void*) { return valid(cl, "jack_set_sample_rate_callback") ? 0 : 1; }
void jack_on_shutdown(jack_client_t* cl, JackShutdownCallback, void*) { valid(cl, "jack_on_shutdown"); }
int jack_set_xrun_callback(jack_client_t* cl, JackXRunCallback, void*) { return valid(cl, "jack_set_xrun_callback") ? 0 : 1; }
int jack_set_buffer_size(jack_client_t* cl, jack_nframes_t n)
{
  if (!valid(cl, "jack_set_buffer_size") || J.refuseSize) return 1;
  J.size = n;
  return 0;
}
jack_nframes_t jack_get_sample_rate(jack_client_t* cl) { return valid(cl, "jack_get_sample_rate") ? J.rate : 0; }
jack_port_t* jack_port_register(jack_client_t* cl, const char* name, const char* type, unsigned long flags, unsigned long)
{
  if (!valid(cl, "jack_port_register")) return nullptr;
  perhaps(cl);
  if (J.registrations++ == J.refusePortAt) return nullptr;
  if (std::strcmp(type, JACK_DEFAULT_AUDIO_TYPE) != 0) misuse("port type " + std::string(type));
  for (auto const& p : cl->ports)
    if (p->alive && p->name == name) return nullptr;
  std::unique_ptr<_jack_port> p(new _jack_port);
  p->name = name;
  p->flags = flags;
  p->buf.assign(J.size, 0.0f);
  cl->ports.push_back(std::move(p));
  jack_port_t* r = cl->ports.back().get();
  perhaps(cl);
  return r;
}
static bool validPort(jack_client_t* cl, jack_port_t const* port, char const* fn)
{
  if (cl)
    for (auto const& p : cl->ports)
      if (p.get() == port && p->alive) return true;
  misuse(std::string(fn) + (port ? " on an unregistered port" : " without port"));
  return false;
}
int jack_port_unregister(jack_client_t* cl, jack_port_t* port)
{
  if (!valid(cl, "jack_port_unregister") || !validPort(cl, port, "jack_port_unregister")) return 1;
  std::string const full = cl->name + ":" + port->name;
  for (auto it = cl->connections.begin(); it != cl->connections.end();)
    it = it->first == full || it->second == full ? cl->connections.erase(it) : std::next(it);
  port->alive = false;
  perhaps(cl);
  return 0;
}
void* jack_port_get_buffer(jack_port_t* port, jack_nframes_t n)
{
  for (auto const& c : J.clients)
    for (auto const& p : c->ports)
      if (p.get() == port)
      {
        if (!p->alive || c->closed) misuse("buffer of an unregistered port requested");
        if (n != J.size) misuse("buffer of a wrong size requested");
        if (!J.inCycle) misuse("buffer requested outside a cycle");
        return p->buf.data();
      }
  misuse("buffer of no port requested");
  static float dummy[1 << 14];
  return dummy;
}
int jack_activate(jack_client_t* cl)
{
  if (!valid(cl, "jack_activate") || J.refuseActivate) return 1;
  cl->active = true;
  perhaps(cl);
  return 0;
}
int jack_deactivate(jack_client_t* cl)
{
  if (!valid(cl, "jack_deactivate")) return 1;
  perhaps(cl);
  cl->active = false;
  return 0;
}
int jack_connect(jack_client_t* cl, const char* src, const char* dst)
{
  if (!valid(cl, "jack_connect")) return 1;
  if (!cl->active) misuse("connection requested while inactive");
  perhaps(cl);
  std::string const pre = cl->name + ":";
  bool own = false;
  for (auto const& p : cl->ports)
    if (p->alive && ((p->flags & JackPortIsOutput) ? pre + p->name == src : pre + p->name == dst)) own = true;
  if (!own) { J.errors.push_back(std::string(src) + "->" + dst); return 1; }
  if (J.unconnectable.count(src) || J.unconnectable.count(dst)) return 1;
  cl->connections.insert({src, dst});
  return 0;
}
int jack_port_disconnect(jack_client_t* cl, jack_port_t* port)
{
  if (!valid(cl, "jack_port_disconnect") || !validPort(cl, port, "jack_port_disconnect")) return 1;
  std::string const full = cl->name + ":" + port->name;
  for (auto it = cl->connections.begin(); it != cl->connections.end();)
    it = it->first == full || it->second == full ? cl->connections.erase(it) : std::next(it);
  perhaps(cl);
  return 0;
}
} // extern "C"

// ============================================================================ PortAudio stand-in
namespace
{
struct Dev { std::string name; PaDeviceInfo info; };
struct Api { std::string name; PaHostApiInfo info; std::vector<int> devs; /* global indices */ };
struct Stream
{
  bool active = false, closed = false;
  PaStreamCallback* cb = nullptr;
  void* user = nullptr;
  int nin = 0, nout = 0;
  bool interleaved = false;
  int inDev = -1, outDev = -1;
  unsigned long frames = 0;
  double rate = 0;
  PaTime inLatency = 0, outLatency = 0;
};
struct PA
{
  int init = 0;
  bool failInit = false, failOpen = false, failStart = false;
  std::vector<Dev> devs;
  std::vector<Api> apis;
  int defaultApi = 0;
  std::set<double> rates;
  std::vector<std::unique_ptr<Stream>> streams;
  std::size_t open() const
  {
    std::size_t n = 0;
    for (auto const& s : streams) n += !s->closed;
    return n;
  }
} P;
void up(char const* fn)
{
  if (P.init <= 0) misuse(std::string(fn) + " while PortAudio is not initialised");
}
Stream* get(PaStream* s, char const* fn)
{
  for (auto const& x : P.streams)
    if (x.get() == s)
    {
      if (x->closed) { misuse(std::string(fn) + " on a closed stream"); return nullptr; }
      return x.get();
    }
  misuse(std::string(fn) + " on an unknown stream");
  return nullptr;
}
PaError checkParams(PaStreamParameters const* in, PaStreamParameters const* out, double rate)
{
  if (!in && !out) return paInvalidDevice;
  int apiIn = -1, apiOut = -1;
  for (int dir = 0; dir < 2; ++dir)
  {
    PaStreamParameters const* p = dir ? out : in;
    if (!p) continue;
    if (p->device < 0 || p->device >= (int)P.devs.size()) return paInvalidDevice;
    if (p->channelCount <= 0) return paInvalidChannelCount;
    PaDeviceInfo const& d = P.devs[(std::size_t)p->device].info;
    if (p->channelCount > (dir ? d.maxOutputChannels : d.maxInputChannels)) return paInvalidChannelCount;
    if ((p->sampleFormat & ~paNonInterleaved) != paFloat32) return paSampleFormatNotSupported;
    (dir ? apiOut : apiIn) = d.hostApi;
  }
  if (in && out && apiIn != apiOut) return paBadIODeviceCombination;
  return P.rates.count(rate) ? paNoError : paInvalidSampleRate;
}
} // namespace

extern "C" {
PaError Pa_Initialize(void)
{
  if (P.failInit) return paUnanticipatedHostError;
  ++P.init;
  return paNoError;
}
PaError Pa_Terminate(void)
{
  if (P.init <= 0) { misuse("more PortAudio terminations than initialisations"); return paNotInitialized; }
  if (--P.init == 0)
    for (auto const& s : P.streams) s->closed = true;
  return paNoError;
}
const char* Pa_GetErrorText(PaError e) { return e < 0 ? "some error" : "no error"; }
PaHostApiIndex Pa_GetHostApiCount(void) { up("Pa_GetHostApiCount"); return (int)P.apis.size(); }
PaHostApiIndex Pa_GetDefaultHostApi(void) { up("Pa_GetDefaultHostApi"); return P.defaultApi; }
PaHostApiIndex Pa_HostApiTypeIdToHostApiIndex(PaHostApiTypeId t)
{
  up("Pa_HostApiTypeIdToHostApiIndex");
  for (std::size_t i = 0; i < P.apis.size(); ++i)
    if (P.apis[i].info.type == t) return (int)i;
  return paHostApiNotFound;
}
const PaHostApiInfo* Pa_GetHostApiInfo(PaHostApiIndex i)
{
  up("Pa_GetHostApiInfo");
  if (i < 0 || i >= (int)P.apis.size()) { misuse("host API out of range"); return nullptr; }
  return &P.apis[(std::size_t)i].info;
}
PaDeviceIndex Pa_HostApiDeviceIndexToDeviceIndex(PaHostApiIndex a, int i)
{
  up("Pa_HostApiDeviceIndexToDeviceIndex");
  if (a < 0 || a >= (int)P.apis.size() || i < 0 || i >= (int)P.apis[(std::size_t)a].devs.size()) { misuse("device out of range"); return paInvalidDevice; }
  return P.apis[(std::size_t)a].devs[(std::size_t)i];
}
const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i)
{
  up("Pa_GetDeviceInfo");
  if (i < 0 || i >= (int)P.devs.size()) { misuse("device index " + std::to_string(i)); return nullptr; }
  return &P.devs[(std::size_t)i].info;
}
PaError Pa_IsFormatSupported(const PaStreamParameters* in, const PaStreamParameters* out, double rate)
{
  up("Pa_IsFormatSupported");
  PaError e = checkParams(in, out, rate);
  return e == paNoError ? paFormatIsSupported : e;
}
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters* in, const PaStreamParameters* out, double rate, unsigned long frames, PaStreamFlags,
                      PaStreamCallback* cb, void* user)
{
  up("Pa_OpenStream");
  PaError e = checkParams(in, out, rate);
  if (e != paNoError) return e;
  if (P.failOpen) return paDeviceUnavailable;
  std::unique_ptr<Stream> st(new Stream);
  st->cb = cb;
  st->user = user;
  st->frames = frames;
  st->rate = rate;
  if (in) { st->nin = in->channelCount; st->inDev = in->device; st->inLatency = in->suggestedLatency; }
  if (out) { st->nout = out->channelCount; st->outDev = out->device; st->outLatency = out->suggestedLatency; }
  bool const ii = in && !(in->sampleFormat & paNonInterleaved), oi = out && !(out->sampleFormat & paNonInterleaved);
  if (in && out && ii != oi) misuse("different interleaving of input and output");
  st->interleaved = ii || oi;
  P.streams.push_back(std::move(st));
  *s = P.streams.back().get();
  return paNoError;
}
PaError Pa_CloseStream(PaStream* s)
{
  up("Pa_CloseStream");
  Stream* x = get(s, "Pa_CloseStream");
  if (!x) return paBadStreamPtr;
  x->closed = true;
  x->active = false;
  return paNoError;
}
PaError Pa_StartStream(PaStream* s)
{
  up("Pa_StartStream");
  Stream* x = get(s, "Pa_StartStream");
  if (!x) return paBadStreamPtr;
  if (P.failStart) return paUnanticipatedHostError;
  if (x->active) return paStreamIsNotStopped;
  x->active = true;
  return paNoError;
}
PaError Pa_StopStream(PaStream* s)
{
  up("Pa_StopStream");
  Stream* x = get(s, "Pa_StopStream");
  if (!x) return paBadStreamPtr;
  if (!x->active) return paStreamIsStopped;
  x->active = false;
  return paNoError;
}
PaError Pa_AbortStream(PaStream* s) { return Pa_StopStream(s); }
PaError Pa_IsStreamStopped(PaStream* s)
{
  Stream* x = get(s, "Pa_IsStreamStopped");
  return x ? (x->active ? 0 : 1) : (PaError)paBadStreamPtr;
}
PaError Pa_IsStreamActive(PaStream* s)
{
  Stream* x = get(s, "Pa_IsStreamActive");
  return x ? (x->active ? 1 : 0) : (PaError)paBadStreamPtr;
}
} // extern "C"

// ============================================================================ checks
namespace
{
void noMisuse(std::string const& when)
{
  PBT_CHECK(J.misuse.empty(), when << ": the audio server was used wrongly: " << J.misuse.front());
}

// The signal processing side: counts calls, checks the captured samples, produces new ones.
struct Proc
{
  std::size_t nin = 0, nout = 0, period = 0;
  std::size_t calls = 0;
  bool throws = false;
  std::vector<std::vector<float>> in; // last captured block
  std::vector<std::vector<float>> out; // next block to play
  static void run(void* u, float const* const* cap, float* const* play, bool& err)
  {
    Proc& p = *static_cast<Proc*>(u);
    ++p.calls;
    if (p.throws) throw std::runtime_error("processing failed");
    p.in.assign(p.nin, {});
    for (std::size_t i = 0; i < p.nin; ++i) p.in[i].assign(cap[i], cap[i] + p.period);
    for (std::size_t i = 0; i < p.nout; ++i) std::copy(p.out[i].begin(), p.out[i].end(), play[i]);
    err = true;
  }
  static void other(void*, float const* const*, float* const*, bool&) {}
};
std::vector<std::vector<float>> block(Rng& r, std::size_t ch, std::size_t n)
{
  std::vector<std::vector<float>> b(ch, std::vector<float>(n));
  for (auto& x : b)
    for (auto& y : x) y = (float)r.uniform(-1, 1);
  return b;
}
std::string diff(std::vector<std::vector<float>> const& a, std::vector<std::vector<float>> const& b)
{
  std::ostringstream o;
  if (a.size() != b.size()) { o << a.size() << " channels instead of " << b.size(); return o.str(); }
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t t = 0; t < b[i].size(); ++t)
      if (a[i][t] != b[i][t]) { o << "channel " << i << " sample " << t << " is " << a[i][t] << " instead of " << b[i][t]; return o.str(); }
  return "";
}
void getters(AudioInterface const& a, std::size_t nin, std::size_t nout, std::size_t period, std::size_t rate)
{
  PBT_CHECK(a.numberOfCaptureChannels() == nin && a.numberOfPlaybackChannels() == nout && a.period() == period && a.samplingFrequency() == rate,
            "configuration reported as " << a.numberOfCaptureChannels() << " in, " << a.numberOfPlaybackChannels() << " out, period " << a.period()
                                         << ", rate " << a.samplingFrequency());
}

// ---- JACK configuration model ----------------------------------------------
struct Ext { bool given = false; std::string client, port; bool hasIdx = false; std::vector<std::size_t> idx; std::string idxText; };
struct Entry { bool hasBase = false; std::string base; bool hasIdx = false; std::vector<std::size_t> idx; std::string idxText; Ext ext; };
struct Dir
{
  bool section = false;
  int autoc = -1;
  bool hasPort = false;
  std::vector<Entry> entries;
  // expected
  bool ok = true, autoOn = false;
  std::vector<std::string> names, ext;
};
std::vector<std::size_t> indices(Case& c, std::size_t n, std::string& text)
{
  std::vector<std::size_t> v;
  std::size_t const start = c.size(0, 12);
  switch (c.weighted({4, 2, 2, 2}))
  {
  case 0: // range
    for (std::size_t i = 0; i < n; ++i) v.push_back(start + i);
    text = n == 1 ? std::to_string(start) : std::to_string(start) + ":" + std::to_string(start + n - 1);
    break;
  case 1: // range with a step
  {
    std::size_t const s = c.size(1, 3);
    for (std::size_t i = 0; i < n; ++i) v.push_back(start + i * s);
    text = n == 1 ? std::to_string(start) : std::to_string(start) + ":" + std::to_string(s) + ":" + std::to_string(start + (n - 1) * s);
    break;
  }
  case 2: // descending
    for (std::size_t i = 0; i < n; ++i) v.push_back(start + n - 1 - i);
    text = n == 1 ? std::to_string(start) : std::to_string(start + n - 1) + ":-1:" + std::to_string(start);
    break;
  default: // list
    for (std::size_t i = 0; i < n; ++i)
    {
      v.push_back(start + 5 * i + c.size(0, 4));
      text += (i ? "," : "") + std::to_string(v.back());
    }
  }
  return v;
}
std::string boolText(Case& c, bool b) { return c.chance(30) ? (b ? "\"true\"" : "\"false\"") : (b ? "true" : "false"); }

Dir genDir(Case& c, std::size_t n, bool capture, bool globalAuto)
{
  Dir d;
  d.section = c.chance(75);
  if (d.section && c.chance(40)) d.autoc = c.flag();
  d.autoOn = d.autoc >= 0 ? d.autoc == 1 : globalAuto;
  d.hasPort = d.section && c.chance(80);
  std::string const defBase = capture ? "in_" : "out_", defExt = capture ? "capture_" : "playback_";
  if (d.hasPort)
  {
    std::size_t left = n;
    std::size_t const max = c.size(1, 3);
    for (std::size_t k = 0; k < max && (left > 0 || k == 0); ++k)
    {
      Entry e;
      bool const whole = k == 0 && (max == 1 || n == 0 || c.chance(20));
      std::size_t m = whole ? n : k + 1 == max ? left : c.size(1, left);
      if (n == 0) m = 0;
      e.hasBase = c.chance(60);
      if (e.hasBase) e.base = c.pick({"p_", "Baseinput_", "ch", "x y "}) + std::string(k ? std::to_string(k) + "_" : "") + (capture ? "i" : "o");
      e.hasIdx = !whole || (m > 0 && c.chance(50));
      if (c.chance(4)) { e.hasIdx = m > 0; m += 1; } // too many
      else if (m > 1 && c.chance(4)) { e.hasIdx = true; m -= 1; } // too few
      if (e.hasIdx) e.idx = indices(c, m, e.idxText);
      e.ext.given = c.chance(70);
      if (e.ext.given)
      {
        if (c.chance(50)) e.ext.client = c.pick({"REAPER", "system", "player one"});
        if (c.chance(50)) e.ext.port = c.pick({"out", "playback_", "src/"});
      }
      // names of the other end are needed for exactly as many ports
      std::size_t const em = c.chance(4) ? m + 1 : m > 1 && c.chance(4) ? m - 1 : m;
      if (e.ext.given && em > 0 && (em != n || c.chance(50))) { e.ext.hasIdx = true; e.ext.idx = indices(c, em, e.ext.idxText); }
      left -= std::min(left, m);
      d.entries.push_back(e);
      if (whole) break;
    }
  }
  std::vector<Entry> es = d.entries;
  if (!d.hasPort) es.assign(1, Entry());
  for (auto const& e : es)
  {
    std::string const b = e.hasBase ? e.base : defBase;
    if (e.hasIdx) for (auto i : e.idx) d.names.push_back(b + std::to_string(i));
    else for (std::size_t i = 0; i < n; ++i) d.names.push_back(b + std::to_string(i));
    std::string const p = (e.ext.client.empty() ? "system" : e.ext.client) + ":" + (e.ext.port.empty() ? defExt : e.ext.port);
    if (e.ext.hasIdx) for (auto i : e.ext.idx) d.ext.push_back(p + std::to_string(i));
    else for (std::size_t i = 0; i < n; ++i) d.ext.push_back(p + std::to_string(i + 1));
  }
  d.ok = d.names.size() == n && (!d.autoOn || d.ext.size() == n);
  return d;
}
std::string quote(std::string const& s) { return "\"" + s + "\""; }
std::string toJson(Case& c, Dir const& d)
{
  std::vector<std::string> f;
  if (d.autoc >= 0) f.push_back("\"autoconnect\": " + boolText(c, d.autoc == 1));
  if (d.hasPort)
  {
    std::string p;
    for (auto const& e : d.entries)
    {
      std::vector<std::string> g;
      if (e.hasBase) g.push_back("\"basename\": " + quote(e.base));
      if (e.hasIdx) g.push_back("\"indices\": " + quote(e.idxText));
      if (e.ext.given)
      {
        std::vector<std::string> h;
        if (!e.ext.client.empty()) h.push_back("\"client\": " + quote(e.ext.client));
        if (!e.ext.port.empty()) h.push_back("\"portname\": " + quote(e.ext.port));
        if (e.ext.hasIdx) h.push_back("\"indices\": " + quote(e.ext.idxText));
        std::string x;
        for (auto const& y : h) x += (x.empty() ? "" : ", ") + y;
        g.push_back("\"externalport\": {" + x + "}");
      }
      std::string x;
      for (auto const& y : g) x += (x.empty() ? "" : ", ") + y;
      p += (p.empty() ? "{" : ", {") + x + "}";
    }
    f.push_back("\"port\": [" + p + "]");
  }
  std::string x;
  for (auto const& y : f) x += (x.empty() ? "" : ", ") + y;
  return "{" + x + "}";
}

void resetJack(Case& c)
{
  J = Jack();
  J.rate = 48000;
  J.injectPct = c.chance(60) ? (unsigned)c.size(10, 100) : 0;
  J.inject = c.rng();
}

void jack(Case& c)
{
  arr::Quiet quiet;
  resetJack(c);
  std::size_t const nin = c.size(0, 6), nout = c.size(0, 6);
  std::size_t const period = c.pick({1u, 2u, 16u, 64u, 100u, 512u});
  std::size_t const rate = c.chance(90) ? 48000 : 44100;
  bool const rateOk = rate == 48000;
  std::string client, server;
  int const globalAuto = c.chance(60) ? (int)c.flag() : -1;
  bool const portconfig = c.chance(80);
  std::vector<std::string> f;
  if (c.chance(60)) { client = c.pick({"BaseRenderer", "x", "VISR two"}); f.push_back("\"clientname\": " + quote(client)); }
  bool const serverGiven = c.chance(30);
  if (serverGiven) { server = c.pick({"", "default", "studio"}); f.push_back("\"servername\": " + quote(server)); }
  J.expectedServer = server.empty() ? "default" : server;
  if (c.chance(4)) J.expectedServer = "elsewhere";
  bool const serverOk = J.expectedServer == (server.empty() ? "default" : server);
  if (globalAuto >= 0) f.push_back("\"autoconnect\": " + boolText(c, globalAuto == 1));
  Dir in, out;
  if (portconfig)
  {
    in = genDir(c, nin, true, globalAuto == 1);
    out = genDir(c, nout, false, globalAuto == 1);
    std::string x;
    if (in.section) x += "\"capture\": " + toJson(c, in);
    if (out.section) x += (x.empty() ? "" : ", ") + std::string("\"playback\": ") + toJson(c, out);
    f.push_back("\"portconfig\": {" + x + "}");
  }
  else
  {
    for (std::size_t i = 0; i < nin; ++i) { in.names.push_back("in_" + std::to_string(i)); in.ext.push_back("system:capture_" + std::to_string(i + 1)); }
    for (std::size_t i = 0; i < nout; ++i) { out.names.push_back("out_" + std::to_string(i)); out.ext.push_back("system:playback_" + std::to_string(i + 1)); }
    in.autoOn = out.autoOn = globalAuto == 1;
  }
  if (c.chance(20)) f.push_back(std::string("\"verbose\": ") + (c.flag() ? "true" : "false"));
  std::string config;
  if (!f.empty() || c.flag())
  {
    for (std::size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[c.size(0, i - 1)]);
    for (auto const& y : f) config += (config.empty() ? "{" : ", ") + y;
    config = (config.empty() ? "{" : config) + "}";
    if (c.chance(10)) config = " \t" + config + "  ";
  }
  bool garbage = false;
  if (!config.empty() && c.chance(2)) { config.pop_back(); config += "{"; garbage = config.find('{') != std::string::npos; }
  std::set<std::string> uniq(in.names.begin(), in.names.end());
  uniq.insert(out.names.begin(), out.names.end());
  bool const unique = uniq.size() == in.names.size() + out.names.size();
  J.refuseSize = c.chance(3);
  c.note() << "JACK " << nin << " in, " << nout << " out, period " << period << ", rate " << rate << " (server 48000)\nconfiguration " << config << "\n";
  bool const ok = in.ok && out.ok && unique && rateOk && serverOk && !garbage && !J.refuseSize;
  c.flushNote();
  if (nin + nout >= 2 && portconfig) c.nontrivial();
  std::unique_ptr<AudioInterface> a;
  std::string msg;
  int const r = outcome([&] { a = AudioInterfaceFactory::create("Jack", AudioInterface::Configuration(nin, nout, rate, period), config); }, &msg);
  PBT_CHECK(r != 2, "creation failed with " << msg);
  noMisuse("creation");
  if (!ok)
  {
    PBT_CHECK(r == 1, "a configuration that cannot be satisfied was accepted");
    for (auto const& x : J.clients) PBT_CHECK(x->closed, "creation failed (" << msg << ") but the client stays registered with the server");
    c.label("rejected");
    return;
  }
  PBT_CHECK(r == 0, "valid configuration rejected: " << msg);
  c.label("accepted");
  getters(*a, nin, nout, period, rate);
  PBT_CHECK(J.clients.size() == 1 && J.clients[0]->name == (client.empty() ? "VISR" : client), "client named " << (J.clients.empty() ? "(none)" : J.clients[0]->name));
  PBT_CHECK(J.size == period, "period not passed to the server");
  _jack_client& cl = *J.clients[0];
  Proc p;
  p.nin = nin; p.nout = nout; p.period = period;
  Rng rng = c.rng();
  p.out = block(rng, nout, period);
  bool registered = false, started = false;
  if (c.chance(20) && in.autoOn && nin) J.unconnectable.insert(in.ext[c.size(0, nin - 1)]);
  if (c.chance(20) && out.autoOn && nout) J.unconnectable.insert(out.ext[c.size(0, nout - 1)]);
  auto state = [&](std::string const& when) {
    noMisuse(when);
    std::vector<std::pair<std::string, unsigned long>> have, want;
    for (auto const& x : cl.ports)
      if (x->alive) have.push_back({x->name, x->flags & (JackPortIsInput | JackPortIsOutput)});
    std::set<std::pair<std::string, std::string>> conn;
    if (started)
    {
      for (auto const& n : in.names) want.push_back({n, JackPortIsInput});
      for (auto const& n : out.names) want.push_back({n, JackPortIsOutput});
      if (in.autoOn) for (std::size_t i = 0; i < nin; ++i) if (!J.unconnectable.count(in.ext[i])) conn.insert({in.ext[i], cl.name + ":" + in.names[i]});
      if (out.autoOn) for (std::size_t i = 0; i < nout; ++i) if (!J.unconnectable.count(out.ext[i])) conn.insert({cl.name + ":" + out.names[i], out.ext[i]});
    }
    PBT_CHECK(have == want, when << ": " << have.size() << " ports are registered, expected " << want.size()
                                 << (have.size() == want.size() && !have.empty() ? " (names or directions differ: " + have[0].first + ", " + want[0].first + " ...)" : ""));
    for (auto const& x : conn) PBT_CHECK(cl.connections.count(x), when << ": port not connected: " << x.first << " -> " << x.second);
    for (auto const& x : cl.connections) PBT_CHECK(conn.count(x), when << ": unexpected connection " << x.first << " -> " << x.second);
    PBT_CHECK(cl.active == started, when << ": client is " << (cl.active ? "" : "not ") << "active");
  };
  auto step = [&](std::string const& when) {
    p.calls = 0;
    p.out = block(rng, nout, period);
    std::vector<std::vector<float>> fed = block(rng, nin, period), old;
    std::size_t i = 0;
    for (auto const& x : cl.ports)
      if (x->alive)
      {
        x->buf = std::vector<float>(period, 7.0f); // moves to another address
        if (i < nin) x->buf = fed[i];
        ++i;
      }
    J.lastReturn = 0;
    cycle(cl);
    noMisuse(when);
    bool const expect = started && registered;
    PBT_CHECK(p.calls == (expect ? 1 : 0), when << ": processing was called " << p.calls << " times in one cycle");
    if (!expect) return;
    if (p.throws) { PBT_CHECK(J.lastReturn != 0, when << ": failed processing was reported as success"); return; }
    PBT_CHECK(J.lastReturn == 0, when << ": successful processing was reported as failure");
    std::string d = diff(p.in, fed);
    PBT_CHECK(d.empty(), when << ": captured " << d);
    std::vector<std::vector<float>> got;
    i = 0;
    for (auto const& x : cl.ports)
      if (x->alive && i++ >= nin) got.push_back(x->buf);
    d = diff(got, p.out);
    PBT_CHECK(d.empty(), when << ": played " << d);
  };
  std::size_t const ops = c.size(2, 10);
  for (std::size_t k = 0; k < ops; ++k)
  {
    std::string const tag = "[" + std::to_string(k) + "] ";
    switch (k == 0 ? 0 : k == 1 ? 1 : c.weighted({2, 3, 2, 6, 1, 1, 2, 1}))
    {
    case 0:
      c.note() << tag << "register callback\n"; c.flushNote();
      PBT_CHECK(a->registerCallback(&Proc::run, &p), "callback refused");
      registered = true;
      break;
    case 1:
    {
      J.refuseActivate = k > 1 && c.chance(10);
      bool const failPort = nin + nout > 0 && k > 1 && c.chance(10);
      J.registrations = 0;
      J.refusePortAt = failPort ? (int)c.size(0, nin + nout - 1) : -1;
      c.note() << tag << "start" << (J.refuseActivate ? " (activation fails)" : failPort ? " (registration of a port fails)" : "") << "\n"; c.flushNote();
      if (J.refuseActivate || failPort)
      {
        mustThrow([&] { a->start(); }, "start although the server refuses");
        noMisuse("failed start");
        for (auto const& x : cl.ports) PBT_CHECK(!x->alive, "ports stay registered after a failed start");
        J.refuseActivate = false;
        J.refusePortAt = -1;
        p.calls = 0;
        cycle(cl);
        noMisuse("cycle after a failed start");
        PBT_CHECK(p.calls == 0, "processing is called after a failed start");
        started = false;
        // leave the state of the client open; a restart must succeed
        mustNotThrow([&] { a->start(); }, "start after a failed start");
        started = true;
      }
      else
      {
        mustNotThrow([&] { a->start(); }, "start");
        started = true;
      }
      break;
    }
    case 2:
      c.note() << tag << "stop\n"; c.flushNote();
      mustNotThrow([&] { a->stop(); }, "stop");
      started = false;
      break;
    case 3:
      c.note() << tag << "cycle\n"; c.flushNote();
      step(tag);
      break;
    case 4:
      c.note() << tag << "unregister callback\n"; c.flushNote();
      PBT_CHECK(a->unregisterCallback(&Proc::run) == registered, "unregistering the callback reported wrongly");
      registered = false;
      break;
    case 5:
      c.note() << tag << "unregister another callback\n"; c.flushNote();
      PBT_CHECK(!a->unregisterCallback(&Proc::other), "unregistering a callback that is not registered succeeded");
      break;
    case 6:
      p.throws = c.flag();
      c.note() << tag << "processing " << (p.throws ? "fails" : "works") << " from now on\n";
      break;
    default:
      c.note() << tag << "cycle of another length\n"; c.flushNote();
      if (started && registered)
      {
        p.calls = 0;
        jack_nframes_t const keep = J.size;
        J.size = (jack_nframes_t)(keep > 1 && c.flag() ? keep - 1 : keep + 1);
        cycle(cl);
        J.size = keep;
        PBT_CHECK(p.calls == 0 && J.lastReturn != 0, "a cycle of another length was processed");
        J.misuse.clear();
      }
      continue;
    }
    state(tag);
  }
  step("last cycle");
  c.note() << "destroy\n"; c.flushNote();
  a.reset();
  noMisuse("destruction");
  PBT_CHECK(cl.closed, "the client stays registered with the server after destruction");
}

// ---- PortAudio -------------------------------------------------------------
struct PaSetup
{
  std::size_t nin, nout, period;
  double rate;
  std::string hostapi, inDev, outDev, format, config;
  bool interleaved = false;
  int api = -1, wantIn = -1, wantOut = -1;
  bool ok = true;
};
struct ApiType { char const* name; PaHostApiTypeId id; };
ApiType const apiTypes[] = {{"ALSA", paALSA}, {"JACK", paJACK}, {"OSS", paOSS}, {"ASIO", paASIO}, {"WASAPI", paWASAPI}, {"CoreAudio", paCoreAudio},
                            {"MME", paMME}, {"DirectSound", paDirectSound}, {"WDMKS", paWDMKS}, {"AudioScienceHPI", paAudioScienceHPI}};

void genSystem(Case& c)
{
  P = PA();
  std::size_t const na = c.size(1, 3);
  std::size_t const off = c.size(0, 9);
  for (std::size_t a = 0; a < na; ++a)
  {
    Api x;
    x.name = apiTypes[(off + a) % 10].name;
    std::memset(&x.info, 0, sizeof x.info);
    x.info.structVersion = 1;
    x.info.type = apiTypes[(off + a) % 10].id;
    x.info.defaultInputDevice = x.info.defaultOutputDevice = paNoDevice;
    P.apis.push_back(x);
  }
  P.defaultApi = (int)c.size(0, na - 1);
  std::size_t const nd = c.size(0, 7);
  for (std::size_t i = 0; i < nd; ++i)
  {
    Dev d;
    d.name = c.pick({"Speaker", "Speaker 2", "Speakers", "hw:1", "hw:1,0", "hw:10", "USB", "USB Audio Device (long name)", "default"});
    std::memset(&d.info, 0, sizeof d.info);
    d.info.structVersion = 2;
    d.info.hostApi = (int)c.size(0, na - 1);
    d.info.maxInputChannels = c.chance(70) ? (int)c.size(1, 8) : 0;
    d.info.maxOutputChannels = c.chance(70) || !d.info.maxInputChannels ? (int)c.size(1, 8) : 0;
    d.info.defaultLowInputLatency = 0.001 * (double)(i + 1);
    d.info.defaultLowOutputLatency = 0.1 * (double)(i + 1);
    d.info.defaultSampleRate = 48000;
    Api& a = P.apis[(std::size_t)d.info.hostApi];
    bool dup = false; // device names are unique per host API and direction
    for (auto g : a.devs)
      if (P.devs[(std::size_t)g].name == d.name)
      {
        auto const& o = P.devs[(std::size_t)g].info;
        if ((o.maxInputChannels && d.info.maxInputChannels) || (o.maxOutputChannels && d.info.maxOutputChannels)) dup = true;
      }
    if (dup) continue;
    int const g = (int)P.devs.size();
    if (d.info.maxInputChannels && (a.info.defaultInputDevice == paNoDevice ? c.chance(85) : c.chance(30))) a.info.defaultInputDevice = g;
    if (d.info.maxOutputChannels && (a.info.defaultOutputDevice == paNoDevice ? c.chance(85) : c.chance(30))) a.info.defaultOutputDevice = g;
    a.devs.push_back(g);
    P.devs.push_back(d);
  }
  for (auto& d : P.devs) d.info.name = d.name.c_str();
  for (auto& a : P.apis) { a.info.name = a.name.c_str(); a.info.deviceCount = (int)a.devs.size(); }
  P.rates = {44100.0, 48000.0};
}

// the device a name (or no name) stands for; -1 if none
int findDevice(std::string const& name, Api const& a, bool input)
{
  if (name.empty()) return input ? a.info.defaultInputDevice : a.info.defaultOutputDevice;
  int best = -1;
  for (int g : a.devs)
  {
    auto const& d = P.devs[(std::size_t)g];
    if ((input ? d.info.maxInputChannels : d.info.maxOutputChannels) < 1) continue;
    if (name.compare(0, d.name.size(), d.name) == 0 && (best < 0 || d.name.size() > P.devs[(std::size_t)best].name.size())) best = g;
  }
  return best;
}

PaSetup genSetup(Case& c)
{
  PaSetup s;
  s.nin = c.size(0, 5);
  s.nout = c.size(s.nin ? 0 : 1, 5);
  s.period = c.pick({1u, 16u, 64u, 100u, 512u});
  s.rate = c.chance(92) ? c.pick({48000.0, 44100.0}) : 96000.0;
  std::vector<std::string> f;
  if (c.chance(60))
  {
    switch (c.weighted({3, 6, 1, 1}))
    {
    case 0: s.hostapi = "default"; s.api = P.defaultApi; break;
    case 1: { std::size_t k = c.size(0, P.apis.size() - 1); s.hostapi = P.apis[k].name; s.api = (int)k; break; }
    case 2: s.hostapi = "SoundManager"; break; // known, but not present
    default: s.hostapi = "Unheard of"; break;
    }
    f.push_back("\"hostapi\": " + quote(s.hostapi));
  }
  else s.api = P.defaultApi;
  s.format = "float32Bit";
  if (c.chance(30))
  {
    if (c.chance(25)) s.format = c.pick({"signedInt16Bit", "signedInt24Bit", "signedInt32Bit", "unsignedInt8Bit", "unsignedInt16Bit", "float64Bit"});
    f.push_back("\"sampleformat\": " + quote(s.format));
  }
  if (c.chance(60)) { s.interleaved = c.flag(); f.push_back("\"interleaved\": " + boolText(c, s.interleaved)); }
  auto name = [&](bool input) -> std::string {
    std::vector<std::string> v;
    if (s.api >= 0)
      for (int g : P.apis[(std::size_t)s.api].devs) v.push_back(P.devs[(std::size_t)g].name);
    if (v.empty() || c.chance(6)) return input ? "No such device" : "Zebra";
    std::string n = c.pick(v);
    if (c.chance(15)) n += c.pick({"x", " (extended)", "0"});
    return n;
  };
  if (c.chance(50)) { s.inDev = name(true); f.push_back("\"inputDevice\": " + quote(s.inDev)); }
  if (c.chance(50)) { s.outDev = name(false); f.push_back("\"outputDevice\": " + quote(s.outDev)); }
  if (!f.empty() || c.flag())
  {
    for (auto const& y : f) s.config += (s.config.empty() ? "{" : ", ") + y;
    s.config = (s.config.empty() ? "{" : s.config) + "}";
  }
  if (s.api >= 0)
  {
    Api const& a = P.apis[(std::size_t)s.api];
    s.wantIn = findDevice(s.inDev, a, true);
    s.wantOut = findDevice(s.outDev, a, false);
    if (s.nin && (s.wantIn < 0 || P.devs[(std::size_t)s.wantIn].info.maxInputChannels < (int)s.nin)) s.ok = false;
    if (s.nout && (s.wantOut < 0 || P.devs[(std::size_t)s.wantOut].info.maxOutputChannels < (int)s.nout)) s.ok = false;
  }
  else s.ok = false;
  if (s.format != "float32Bit" || !P.rates.count(s.rate)) s.ok = false;
  return s;
}

struct PaInstance
{
  PaSetup s;
  std::unique_ptr<AudioInterface> a;
  Proc p;
  Stream* st = nullptr;
  bool registered = false, started = false;
};

void portaudio(Case& c)
{
  arr::Quiet quiet;
  J = Jack();
  genSystem(c);
  for (auto const& a : P.apis)
  {
    c.note() << "host API " << a.name << (&a == &P.apis[(std::size_t)P.defaultApi] ? " (default)" : "") << ":";
    for (int g : a.devs)
      c.note() << " \"" << P.devs[(std::size_t)g].name << "\" " << P.devs[(std::size_t)g].info.maxInputChannels << "/" << P.devs[(std::size_t)g].info.maxOutputChannels
               << (a.info.defaultInputDevice == g ? " <in" : "") << (a.info.defaultOutputDevice == g ? " >out" : "") << ";";
    c.note() << "\n";
  }
  std::vector<std::unique_ptr<PaInstance>> v;
  Rng rng = c.rng();
  std::size_t const ops = c.size(3, 16);
  auto state = [&](std::string const& when) {
    noMisuse(when);
    PBT_CHECK(P.init == (int)v.size(), when << ": PortAudio is initialised " << P.init << " times for " << v.size() << " interfaces");
    std::size_t open = 0;
    for (auto const& i : v)
    {
      PBT_CHECK(!i->st->closed || !i->started, when << ": the stream is closed");
      PBT_CHECK(i->st->active == i->started, when << ": the stream is " << (i->st->active ? "" : "not ") << "running");
      open += !i->st->closed;
    }
    PBT_CHECK(P.open() == open, when << ": " << P.open() - open << " streams stay open without an interface");
  };
  auto step = [&](PaInstance& i, std::string const& when) {
    if (!i.started) return;
    PaSetup const& s = i.s;
    std::vector<std::vector<float>> fed = block(rng, s.nin, s.period);
    i.p.out = block(rng, s.nout, s.period);
    i.p.calls = 0;
    std::vector<float> ib(s.nin * s.period), ob(s.nout * s.period, 7.0f);
    std::vector<float const*> ip(s.nin);
    std::vector<float*> op(s.nout);
    std::vector<std::vector<float>> got(s.nout, std::vector<float>(s.period, 7.0f));
    void const* in = nullptr;
    void* out = nullptr;
    if (s.interleaved)
    {
      for (std::size_t ch = 0; ch < s.nin; ++ch)
        for (std::size_t t = 0; t < s.period; ++t) ib[t * s.nin + ch] = fed[ch][t];
      if (s.nin) in = ib.data();
      if (s.nout) out = ob.data();
    }
    else
    {
      for (std::size_t ch = 0; ch < s.nin; ++ch) ip[ch] = fed[ch].data();
      for (std::size_t ch = 0; ch < s.nout; ++ch) op[ch] = got[ch].data();
      if (s.nin) in = ip.data();
      if (s.nout) out = op.data();
    }
    PaStreamCallbackTimeInfo ti{0, 0, 0};
    int const r = i.st->cb(in, out, s.period, &ti, 0, i.st->user);
    noMisuse(when);
    PBT_CHECK(i.p.calls == (i.registered ? 1 : 0), when << ": processing was called " << i.p.calls << " times");
    if (!i.registered) { PBT_CHECK(r == paContinue, when << ": the stream ends without processing"); return; }
    if (i.p.throws) { PBT_CHECK(r == paAbort, when << ": failed processing does not end the stream"); i.started = false; i.st->active = false; return; }
    PBT_CHECK(r == paContinue, when << ": the stream ends");
    std::string d = diff(i.p.in, fed);
    PBT_CHECK(d.empty(), when << ": captured " << d);
    if (s.interleaved)
      for (std::size_t ch = 0; ch < s.nout; ++ch)
        for (std::size_t t = 0; t < s.period; ++t) got[ch][t] = ob[t * s.nout + ch];
    d = diff(got, i.p.out);
    PBT_CHECK(d.empty(), when << ": played " << d);
  };
  std::size_t accepted = 0;
  for (std::size_t k = 0; k < ops; ++k)
  {
    std::string const tag = "[" + std::to_string(k) + "] ";
    std::size_t const op = v.empty() ? 0 : c.weighted({1, 3, 3, 6, 1, 1, 2});
    PaInstance* i = v.empty() ? nullptr : v[c.size(0, v.size() - 1)].get();
    switch (op)
    {
    case 0:
    {
      if (v.size() >= 3) continue;
      std::unique_ptr<PaInstance> n(new PaInstance);
      n->s = genSetup(c);
      PaSetup const& s = n->s;
      P.failInit = c.chance(3);
      P.failOpen = c.chance(3);
      bool const ok = s.ok && !P.failInit && !P.failOpen;
      c.note() << tag << "create " << s.nin << " in, " << s.nout << " out, period " << s.period << ", rate " << s.rate << " " << s.config
               << (P.failInit ? " (initialisation fails)" : P.failOpen ? " (device busy)" : "") << "\n";
      c.flushNote();
      std::size_t const before = P.streams.size();
      std::string msg;
      int const r = outcome([&] {
        n->a = AudioInterfaceFactory::create("PortAudio", AudioInterface::Configuration(s.nin, s.nout, (std::size_t)s.rate, s.period), s.config);
      }, &msg);
      P.failInit = P.failOpen = false;
      PBT_CHECK(r != 2, "creation failed with " << msg);
      if (!ok) { PBT_CHECK(r == 1, "a configuration that cannot be satisfied was accepted"); c.label("rejected"); break; }
      PBT_CHECK(r == 0, "valid configuration rejected: " << msg);
      ++accepted;
      c.label("stream opened");
      getters(*n->a, s.nin, s.nout, s.period, (std::size_t)s.rate);
      PBT_CHECK(P.streams.size() == before + 1, "no stream was opened");
      n->st = P.streams.back().get();
      PBT_CHECK(n->st->nin == (int)s.nin && n->st->nout == (int)s.nout && n->st->frames == s.period && n->st->rate == s.rate && n->st->interleaved == s.interleaved,
                "stream opened with " << n->st->nin << " in, " << n->st->nout << " out, " << n->st->frames << " samples, rate " << n->st->rate
                                      << (n->st->interleaved ? ", interleaved" : ""));
      if (s.nin)
      {
        PBT_CHECK(n->st->inDev == s.wantIn, "input from \"" << P.devs[(std::size_t)n->st->inDev].name << "\" instead of \"" << P.devs[(std::size_t)s.wantIn].name << "\"");
        PBT_CHECK(n->st->inLatency == P.devs[(std::size_t)s.wantIn].info.defaultLowInputLatency, "input latency " << n->st->inLatency);
      }
      if (s.nout)
      {
        PBT_CHECK(n->st->outDev == s.wantOut, "output to \"" << P.devs[(std::size_t)n->st->outDev].name << "\" instead of \"" << P.devs[(std::size_t)s.wantOut].name << "\"");
        PBT_CHECK(n->st->outLatency == P.devs[(std::size_t)s.wantOut].info.defaultLowOutputLatency, "output latency " << n->st->outLatency);
      }
      n->p.nin = s.nin; n->p.nout = s.nout; n->p.period = s.period;
      if (c.chance(90)) { n->a->registerCallback(&Proc::run, &n->p); n->registered = true; }
      if (c.chance(80)) { mustNotThrow([&] { n->a->start(); }, "start"); n->started = true; }
      v.push_back(std::move(n));
      break;
    }
    case 1:
    {
      if (i->started) continue; // starting twice is an error of the caller
      P.failStart = c.chance(8);
      c.note() << tag << "start" << (P.failStart ? " (fails)" : "") << "\n"; c.flushNote();
      if (P.failStart) mustThrow([&] { i->a->start(); }, "start although the device fails");
      else { mustNotThrow([&] { i->a->start(); }, "start"); i->started = true; }
      P.failStart = false;
      break;
    }
    case 2:
      if (!i->started) continue;
      c.note() << tag << "stop\n"; c.flushNote();
      mustNotThrow([&] { i->a->stop(); }, "stop");
      i->started = false;
      break;
    case 3:
      c.note() << tag << "cycle\n"; c.flushNote();
      step(*i, tag);
      break;
    case 4:
      c.note() << tag << "change callback\n"; c.flushNote();
      PBT_CHECK(!i->a->unregisterCallback(&Proc::other), "unregistering a callback that is not registered succeeded");
      if (i->registered) { PBT_CHECK(i->a->unregisterCallback(&Proc::run), "unregistering the callback failed"); i->registered = false; }
      else { PBT_CHECK(i->a->registerCallback(&Proc::run, &i->p), "callback refused"); i->registered = true; }
      break;
    case 5:
      i->p.throws = c.flag();
      c.note() << tag << "processing " << (i->p.throws ? "fails" : "works") << " from now on\n";
      break;
    default:
      c.note() << tag << "destroy\n"; c.flushNote();
      for (std::size_t q = 0; q < v.size(); ++q)
        if (v[q].get() == i) { v.erase(v.begin() + (std::ptrdiff_t)q); break; }
    }
    state(tag);
  }
  if (accepted) c.nontrivial();
  for (auto const& i : v) step(*i, "last cycle");
  v.clear();
  state("end");
}

void factory(Case& c)
{
  arr::Quiet quiet;
  J = Jack();
  P = PA();
  std::vector<std::string> l = AudioInterfaceFactory::audioInterfacesList();
  std::sort(l.begin(), l.end());
  PBT_CHECK((l == std::vector<std::string>{"Jack", "PortAudio"}), "list of audio interfaces");
  std::string const n = c.pick({"", "default", "jack", "PortAudio ", "Portaudio", "JACK_NATIVE"});
  c.note() << "interface \"" << n << "\"";
  c.nontrivial();
  mustThrow([&] { AudioInterfaceFactory::create(n, AudioInterface::Configuration(1, 1, 48000, 64), ""); }, "creating the audio interface " + n);
  PBT_CHECK(J.clients.empty() && P.init == 0, "an audio server was contacted");
}
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "a JACK interface with a port configuration and at least two ports, or at least one PortAudio stream that is opened";
  s.subs = {{"factory", factory, 40, 400}, {"jack", jack, 20000, 1500000}, {"portaudio", portaudio, 20000, 1500000}};
  s.assumptions = {"the audio servers are stand-ins that follow the documented interfaces of JACK and PortAudio"};
  return pbt::run(argc, argv, s);
}
