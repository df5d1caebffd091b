#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{
namespace
{
constexpr std::size_t kMaxTape = 1u << 18;
constexpr std::size_t kMsg = 1u << 14;

struct Shared
{
  volatile uint64_t caseIdx;
  volatile uint64_t sub;
  volatile uint64_t tapeLen;
  volatile uint64_t busy;      // 1 while inside a case
  volatile uint64_t startedMs; // CPU ms of the process at case start
  volatile uint64_t overrun;
  uint64_t tape[kMaxTape];
  char msg[kMsg];
  char note[kMsg];
};

Shared* gSh = nullptr;
bool gReplay = false;
std::vector<uint64_t> gTapeIn;
std::size_t gPos = 0;
Rng gRng(0);
std::map<std::string, uint64_t> gLabels;

double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

double procCpu(pid_t pid)
{
  char p[64];
  snprintf(p, sizeof p, "/proc/%d/stat", (int)pid);
  std::ifstream f(p);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  auto k = s.rfind(')');
  if (k == std::string::npos) return 0;
  std::istringstream is(s.substr(k + 2));
  std::string tok;
  double ut = 0, st = 0;
  for (int i = 0; i < 13; ++i)
  {
    is >> tok;
    if (i == 11) ut = atof(tok.c_str());
    if (i == 12) st = atof(tok.c_str());
  }
  return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}

double selfCpu()
{
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

void setBuf(char* dst, std::string const& s)
{
  std::size_t n = std::min(s.size(), kMsg - 1);
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

uint64_t hashTape(uint64_t sub)
{
  uint64_t h = 1469598103934665603ull ^ (sub * 0x9E3779B97F4A7C15ull);
  for (uint64_t i = 0; i < gSh->tapeLen; ++i)
  {
    h ^= gSh->tape[i];
    h *= 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}

uint64_t caseSeed(uint64_t seed, uint64_t sub, uint64_t idx)
{
  Rng r(seed * 1000003ull + sub * 7919ull);
  uint64_t a = r.next();
  Rng q(a ^ (idx * 0xD1B54A32D192ED03ull));
  return q.next();
}

std::string jstr(std::string const& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o + "\"";
}

Shared* mapShared()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return static_cast<Shared*>(p);
}

// Runs one case in this process. Returns true if it passed.
bool execCase(Spec const& spec, std::size_t sub, Case& c)
{
  c.resetForCase();
  gPos = 0;
  gSh->sub = sub;
  gSh->tapeLen = 0;
  gSh->overrun = 0;
  gSh->msg[0] = 0;
  gSh->note[0] = 0;
  gSh->startedMs = (uint64_t)(selfCpu() * 1000);
  gSh->busy = 1;
  bool ok = false;
  try
  {
    spec.subs[sub].fn(c);
    ok = true;
  }
  catch (Failure const& f) { setBuf(gSh->msg, f.msg); }
  catch (std::exception const& e) { setBuf(gSh->msg, std::string("unexpected exception: ") + e.what()); }
  catch (char const* s) { setBuf(gSh->msg, std::string("unexpected exception (const char*): ") + s); }
  catch (...) { setBuf(gSh->msg, "unexpected exception of unknown type"); }
  setBuf(gSh->note, c.noteStr());
  gSh->busy = 0;
  return ok;
}

struct RunResult
{
  bool failed = false;
  std::string kind, msg, note, err;
  std::vector<uint64_t> tape;
};

std::string fileTail(std::string const& path, std::size_t n = 6000)
{
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  // prefer the start of a sanitizer report
  auto k = s.find("==ERROR:");
  if (k != std::string::npos) return s.substr(k, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

void redirectOutput(std::string const& path)
{
  int fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); ::close(fd); }
}

// Runs one explicit tape in a child process.
RunResult runTape(Spec const& spec, std::size_t sub, std::vector<uint64_t> const& tape, std::string const& outDir, Shared* sh)
{
  std::string log = outDir + "/replay.log";
  sh->msg[0] = 0;
  sh->note[0] = 0;
  sh->tapeLen = 0;
  pid_t pid = fork();
  if (pid == 0)
  {
    redirectOutput(log);
    gSh = sh;
    gReplay = true;
    gTapeIn = tape;
    Case c;
    bool ok = execCase(spec, sub, c);
    std::cout.flush();
    _exit(ok ? 0 : 42);
  }
  RunResult r;
  int st = 0;
  bool hang = false;
  while (true)
  {
    pid_t q = waitpid(pid, &st, WNOHANG);
    if (q == pid) break;
    if (q < 0 && errno != EINTR) break;
    if (procCpu(pid) > spec.hangCpuSeconds)
    {
      hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(500);
  }
  r.tape.assign(sh->tape, sh->tape + std::min<uint64_t>((uint64_t)sh->tapeLen, kMaxTape));
  r.note = sh->note;
  if (hang) { r.failed = true; r.kind = "hang"; r.msg = "case used more than the allowed CPU time"; }
  else if (WIFSIGNALED(st)) { r.failed = true; r.kind = "signal"; r.msg = std::string("terminated by signal ") + strsignal(WTERMSIG(st)); r.err = fileTail(log); }
  else if (WEXITSTATUS(st) == 42) { r.failed = true; r.kind = "oracle"; r.msg = sh->msg; }
  else if (WEXITSTATUS(st) != 0) { r.failed = true; r.kind = "abort"; r.msg = "process ended with status " + std::to_string(WEXITSTATUS(st)); r.err = fileTail(log); }
  return r;
}

struct Found
{
  std::size_t sub = 0;
  uint64_t idx = 0;
  std::vector<uint64_t> tape;
  RunResult res;
};

void shrink(Spec const& spec, Found& f, std::string const& outDir, Shared* sh, double budget)
{
  double t0 = now();
  std::size_t tries = 0;
  bool slow = f.res.kind == "hang";
  std::size_t maxTries = slow ? 4 : 1500;
  auto attempt = [&](std::vector<uint64_t> const& cand) -> bool {
    if (tries >= maxTries || now() - t0 > budget) return false;
    ++tries;
    RunResult r = runTape(spec, f.sub, cand, outDir, sh);
    if (r.failed && r.kind == f.res.kind)
    {
      // keep what was really consumed
      std::vector<uint64_t> used = r.tape;
      if (used.size() > cand.size() && std::all_of(used.begin() + cand.size(), used.end(), [](uint64_t v) { return v == 0; }))
        used.resize(cand.size());
      f.tape = used.size() <= cand.size() ? used : cand;
      f.res = r;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && tries < maxTries && now() - t0 < budget)
  {
    progress = false;
    // delete chunks
    for (std::size_t len = std::max<std::size_t>(1, f.tape.size() / 2); len >= 1; len /= 2)
    {
      for (std::size_t p = 0; p + len <= f.tape.size();)
      {
        auto cand = f.tape;
        cand.erase(cand.begin() + p, cand.begin() + p + len);
        if (attempt(cand)) progress = true;
        else p += len;
        if (tries >= maxTries || now() - t0 > budget) return;
      }
      if (len == 1) break;
    }
    // zero / halve / decrement values
    for (std::size_t i = 0; i < f.tape.size(); ++i)
    {
      if (f.tape[i] == 0) continue;
      auto cand = f.tape;
      cand[i] = 0;
      if (attempt(cand)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < f.tape.size() ? f.tape[i] : 0;
      while (hi - lo > 1)
      {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= f.tape.size()) break;
        cand = f.tape;
        cand[i] = mid;
        if (attempt(cand)) { progress = true; hi = mid; }
        else lo = mid;
        if (tries >= maxTries || now() - t0 > budget) return;
      }
    }
  }
}

void writeReplay(std::string const& path, std::string const& property, Spec const& spec, Found const& f, uint64_t seed)
{
  std::ofstream o(path);
  o << "property " << property << "\nsub " << spec.subs[f.sub].name << "\nseed " << seed << "\ncase " << f.idx << "\ntape " << f.tape.size();
  for (auto v : f.tape) o << ' ' << v;
  o << "\n# kind: " << f.res.kind << "\n";
  auto dump = [&](char const* tag, std::string const& s) {
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) o << "# " << tag << ": " << l << "\n";
  };
  dump("message", f.res.msg);
  dump("case", f.res.note);
  dump("stderr", f.res.err);
}
} // namespace

uint64_t Case::draw(uint64_t bound)
{
  if (bound == 0) bound = 1;
  uint64_t v = 0;
  if (gReplay)
  {
    if (gPos < gTapeIn.size()) v = gTapeIn[gPos];
    if (v >= bound) v = v % bound;
  }
  else
    v = gRng.next() % bound;
  ++gPos;
  if (gSh->tapeLen < kMaxTape) gSh->tape[gSh->tapeLen++] = v;
  else { gSh->overrun = 1; v = 0; }
  return v;
}

bool Case::tapeExhausted() const { return gReplay && gPos >= gTapeIn.size(); }
void Case::flushNote() { if (gSh) setBuf(gSh->note, mNote.str()); }
void Case::label(std::string const& s) { ++gLabels[s]; }
void Case::resetForCase() { mNontrivial = false; mNote.str(""); mNote.clear(); }

int run(int argc, char** argv, Spec const& spec)
{
  std::string property = "P00", tier = "quick", outDir = ".", replay, onlySub;
  uint64_t seed = 1;
  double wall = 60;
  double scale = 1.0;
  unsigned jobs = (unsigned)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property") property = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") outDir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--wall") wall = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--jobs") jobs = (unsigned)atoi(val().c_str());
    else if (a == "--sub") onlySub = val();
  }
  if (jobs < 1) jobs = 1;
  if (jobs > 16) jobs = 16;

  int seqWorker = -1;
  std::string seqSub;
  uint64_t seqIdx = 0;
  if (!replay.empty())
  {
    std::ifstream f(replay);
    std::string line;
    std::string subName;
    std::vector<uint64_t> tape;
    while (std::getline(f, line))
    {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "sub") is >> subName;
      else if (k == "sequence")
      {
        is >> seed >> seqWorker >> jobs >> tier >> scale >> onlySub;
        if (onlySub == "-") onlySub.clear();
      }
      else if (k == "fails-at") is >> seqSub >> seqIdx;
      else if (k == "tape") { std::size_t n; is >> n; uint64_t v; while (tape.size() < n && (is >> v)) tape.push_back(v); }
    }
    if (seqWorker < 0) {
    std::size_t sub = spec.subs.size();
    for (std::size_t i = 0; i < spec.subs.size(); ++i) if (spec.subs[i].name == subName) sub = i;
    if (sub == spec.subs.size()) { std::cerr << "replay: unknown sub-check " << subName << "\n"; return 2; }
    Shared* sh = mapShared();
    RunResult r = runTape(spec, sub, tape, outDir, sh);
    std::cout << "case: " << r.note << "\n" << (r.failed ? "FAILED: " + r.msg + "\n" + r.err : std::string("passed")) << std::endl;
    if (r.failed) { std::cout << "VIOLATION property=" << property << " replay=" << replay << std::endl; return 1; }
    return 0;
    }
  }

  double t0 = now();
  struct Job { std::size_t sub; uint64_t idx; };
  // interleave subs proportionally so that a wall-clock stop cuts all of them evenly
  std::vector<std::pair<double, Job>> order;
  for (std::size_t s = 0; s < spec.subs.size(); ++s)
  {
    if (!onlySub.empty() && spec.subs[s].name != onlySub) continue;
    std::size_t n = tier == "thorough" ? spec.subs[s].thorough : spec.subs[s].quick;
    n = std::max<std::size_t>(n ? 1 : 0, (std::size_t)(n * scale));
    for (std::size_t i = 0; i < n; ++i) order.push_back({(i + 0.5) / n, {s, i}});
  }
  std::stable_sort(order.begin(), order.end(), [](auto const& a, auto const& b) { return a.first < b.first; });

  // re-runs worker w's cases up to and including the failing one in one process
  auto runSequence = [&](unsigned w, Found const& f) -> bool {
    Shared* s = mapShared();
    pid_t pid = fork();
    if (pid == 0)
    {
      redirectOutput(outDir + "/sequence.log");
      gSh = s;
      Case c;
      for (std::size_t k = w; k < order.size(); k += jobs)
      {
        Job const& j = order[k].second;
        gSh->caseIdx = j.idx;
        gRng = Rng(caseSeed(seed, j.sub, j.idx));
        if (!execCase(spec, j.sub, c)) _exit(42);
        if (j.sub == f.sub && j.idx == f.idx) break;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && s->sub == f.sub && s->caseIdx == f.idx;
    munmap(s, sizeof(Shared));
    return bad;
  };
  if (seqWorker >= 0)
  {
    Found f;
    for (std::size_t i = 0; i < spec.subs.size(); ++i) if (spec.subs[i].name == seqSub) f.sub = i;
    f.idx = seqIdx;
    bool bad = runSequence((unsigned)seqWorker, f);
    std::cout << (bad ? "FAILED" : "passed") << std::endl;
    if (bad) { std::cout << "VIOLATION property=" << property << " replay=" << replay << std::endl; return 1; }
    return 0;
  }

  std::vector<Shared*> sh(jobs);
  std::vector<pid_t> pids(jobs, -1);
  for (unsigned w = 0; w < jobs; ++w)
  {
    sh[w] = mapShared();
    sh[w]->busy = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
      std::string log = outDir + "/worker" + std::to_string(w) + ".log";
      redirectOutput(log);
      gSh = sh[w];
      Case c;
      uint64_t evals = 0, nontriv = 0;
      std::unordered_set<uint64_t> hashes;
      std::vector<std::string> samples;
      std::map<std::string, uint64_t> perSub;
      int rc = 0;
      for (std::size_t k = w; k < order.size(); k += jobs)
      {
        if (now() - t0 > wall) break;
        Job const& j = order[k].second;
        gSh->caseIdx = j.idx;
        gRng = Rng(caseSeed(seed, j.sub, j.idx));
        if (lseek(1, 0, SEEK_END) > (1 << 20)) { std::cout.flush(); if (ftruncate(1, 0)) {} }
        bool ok = execCase(spec, j.sub, c);
        ++evals;
        ++perSub[spec.subs[j.sub].name];
        if (!ok) { rc = 42; break; }
        if (gSh->overrun) ++gLabels["tape-overrun"];
        if (c.isNontrivial())
        {
          ++nontriv;
          hashes.insert(hashTape(j.sub));
          if (samples.size() < 3) samples.push_back(spec.subs[j.sub].name + ": " + c.noteStr());
        }
      }
      std::cout.flush();
      std::ofstream o(outDir + "/stats" + std::to_string(w));
      o << "evals " << evals << "\nnontriv " << nontriv << "\n";
      for (auto const& l : gLabels) o << "label " << l.second << ' ' << l.first << "\n";
      for (auto const& l : perSub) o << "sub " << l.second << ' ' << l.first << "\n";
      for (auto h : hashes) o << "h " << h << "\n";
      for (auto s : samples) { std::replace(s.begin(), s.end(), '\n', ' '); o << "sample " << s.substr(0, 600) << "\n"; }
      o.close();
      _exit(rc);
    }
    pids[w] = pid;
  }

  Found found;
  bool haveFound = false;
  std::string hangInfo;
  unsigned alive = jobs;
  unsigned foundWorker = 0;
  auto collect = [&](unsigned w, std::string const& kind, std::string const& msg) {
    if (haveFound) return;
    haveFound = true;
    foundWorker = w;
    found.sub = (std::size_t)sh[w]->sub;
    found.idx = sh[w]->caseIdx;
    found.tape.assign(sh[w]->tape, sh[w]->tape + std::min<uint64_t>((uint64_t)sh[w]->tapeLen, kMaxTape));
    found.res.failed = true;
    found.res.kind = kind;
    found.res.msg = msg;
    found.res.note = sh[w]->note;
    if (kind != "oracle") found.res.err = fileTail(outDir + "/worker" + std::to_string(w) + ".log");
  };
  std::string envTrouble;
  while (alive && !haveFound)
  {
    for (unsigned w = 0; w < jobs; ++w)
    {
      if (pids[w] < 0) continue;
      int st = 0;
      pid_t q = waitpid(pids[w], &st, WNOHANG);
      if (q == pids[w])
      {
        pids[w] = -1;
        --alive;
        if (WIFSIGNALED(st))
        {
          // SIGKILL does not come from the code under test (memory pressure, operator)
          if (WTERMSIG(st) == SIGKILL) envTrouble = "a worker was killed from outside";
          else collect(w, "signal", std::string("terminated by signal ") + strsignal(WTERMSIG(st)));
        }
        else if (WEXITSTATUS(st) == 42) collect(w, "oracle", sh[w]->msg);
        else if (WEXITSTATUS(st) != 0) collect(w, "abort", "process ended with status " + std::to_string(WEXITSTATUS(st)));
      }
      else if (sh[w]->busy)
      {
        double cpu = procCpu(pids[w]);
        if (cpu - sh[w]->startedMs / 1000.0 > spec.hangCpuSeconds)
        {
          uint64_t idx = sh[w]->caseIdx;
          usleep(20000);
          if (sh[w]->busy && sh[w]->caseIdx == idx && procCpu(pids[w]) - sh[w]->startedMs / 1000.0 > spec.hangCpuSeconds)
          {
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &st, 0);
            pids[w] = -1;
            --alive;
            collect(w, "hang", "case used more than the allowed CPU time");
          }
        }
      }
    }
    usleep(5000);
  }
  for (unsigned w = 0; w < jobs; ++w)
    if (pids[w] > 0)
    {
      kill(pids[w], SIGKILL);
      waitpid(pids[w], nullptr, 0);
    }

  int rc = 0;
  int violations = 0;
  if (haveFound)
  {
    Shared* rs = mapShared();
    // deterministic? three replays of the original tape must fail
    bool solid = true;
    RunResult first;
    for (int i = 0; i < (found.res.kind == "hang" ? 1 : 3); ++i)
    {
      RunResult r = runTape(spec, found.sub, found.tape, outDir, rs);
      if (!r.failed) { solid = false; break; }
      first = r;
    }
    if (solid)
    {
      Found best = found;
      best.res = first;
      shrink(spec, best, outDir, rs, tier == "thorough" ? 60 : 25);
      std::string path = outDir + "/" + property + "-" + spec.subs[found.sub].name + ".replay";
      writeReplay(path, property, spec, best, seed);
      std::cout << "sub-check " << spec.subs[found.sub].name << " case " << found.idx << ": " << best.res.kind << ": " << best.res.msg << "\n";
      std::cout << "minimal case: " << best.res.note << "\n";
      if (!best.res.err.empty()) std::cout << best.res.err.substr(0, 3000) << "\n";
      std::cout << "VIOLATION property=" << property << " replay=" << path << std::endl;
      violations = 1;
      rc = 1;
    }
    else
    {
      // The failing worker had run other cases before: the failure may need their side effects.
      // Re-run the same worker's case sequence; only a reproducible failure is reported.
      std::cout << "note: case " << found.idx << " of " << spec.subs[found.sub].name << " did not fail in isolation: " << found.res.msg << std::endl;
      bool rep = true;
      for (int i = 0; i < 2 && rep; ++i) rep = runSequence(foundWorker, found);
      if (rep)
      {
        std::string path = outDir + "/" + property + "-" + spec.subs[found.sub].name + ".replay";
        std::ofstream o(path);
        o << "property " << property << "\nsequence " << seed << ' ' << foundWorker << ' ' << jobs << ' ' << tier << ' ' << scale << ' ' << (onlySub.empty() ? "-" : onlySub) << "\nfails-at " << spec.subs[found.sub].name << ' ' << found.idx << "\n# " << found.res.kind << ": " << found.res.msg << "\n# case: " << found.res.note << "\n";
        o.close();
        std::cout << "sub-check " << spec.subs[found.sub].name << " case " << found.idx << " (only after the preceding cases in the same process): " << found.res.kind << ": " << found.res.msg << "\n" << found.res.err.substr(0, 3000) << "\n";
        std::cout << "VIOLATION property=" << property << " replay=" << path << std::endl;
        violations = 1;
        rc = 1;
      }
      else
        envTrouble = "non-reproducible failure (not reported as violation): " + found.res.msg;
    }
  }

  // merge statistics
  uint64_t evals = 0, nontriv = 0;
  std::set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels, perSub;
  std::vector<std::string> samples;
  for (unsigned w = 0; w < jobs; ++w)
  {
    std::ifstream f(outDir + "/stats" + std::to_string(w));
    std::string line;
    while (std::getline(f, line))
    {
      std::istringstream is(line);
      std::string k;
      is >> k;
      uint64_t v = 0;
      if (k == "evals") { is >> v; evals += v; }
      else if (k == "nontriv") { is >> v; nontriv += v; }
      else if (k == "h") { is >> v; hashes.insert(v); }
      else if (k == "label" || k == "sub")
      {
        is >> v;
        std::string rest;
        std::getline(is, rest);
        (k == "label" ? labels : perSub)[rest.substr(rest.empty() ? 0 : 1)] += v;
      }
      else if (k == "sample" && samples.size() < 8) samples.push_back(line.substr(7));
    }
  }
  uint64_t planned = order.size();
  std::ofstream o(outDir + "/result.json");
  o << "{\"evaluations\":" << evals << ",\"planned\":" << planned << ",\"nontrivial\":" << nontriv
    << ",\"distinct_nontrivial\":" << hashes.size() << ",\"rule\":" << jstr(spec.rule) << ",\"samples\":[";
  for (std::size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << jstr(samples[i]);
  o << "],\"labels\":{";
  bool first = true;
  for (auto const& l : labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
  o << "},\"subs\":{";
  first = true;
  for (auto const& l : perSub) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
  o << "},\"assumptions\":[";
  for (std::size_t i = 0; i < spec.assumptions.size(); ++i) o << (i ? "," : "") << jstr(spec.assumptions[i]);
  o << "],\"violations\":" << violations << ",\"trouble\":" << jstr(envTrouble) << ",\"wall_s\":" << (now() - t0) << "}\n";
  o.close();
  std::cout << property << " " << tier << " seed=" << seed << ": " << evals << "/" << planned << " cases, "
            << hashes.size() << " distinct non-trivial, " << (now() - t0) << " s" << (envTrouble.empty() ? "" : " [" + envTrouble + "]") << std::endl;
  return rc;
}
} // namespace pbt
