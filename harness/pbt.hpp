// Small property-based testing engine used by all VISR checks.
//
// Every generated case is a function of a "choice tape": the sequence of
// bounded integers it draws.  Generation fills the tape from a PRNG seeded by
// (VERIF_SEED, sub-check, case number); replay and shrinking feed an explicit
// tape.  Cases run in forked workers, so a crash, an ASan report, a failed
// assert or a hang in the code under test is a failing case like any other.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
struct Failure
{
  std::string msg;
};

// Local PRNG (for bulk data such as audio samples; seeded from one tape draw).
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * uniform(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

class Case
{
public:
  // --- choices; value 0 is always the "simplest" one -----------------------
  uint64_t draw(uint64_t bound); // uniform in [0,bound)
  // inclusive range
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  // usually within [lo, hi], now and then up to max
  std::size_t wide(std::size_t lo, std::size_t hi, std::size_t max) { return chance(5) ? size(lo, max) : size(lo, hi); }
  std::size_t size(std::size_t lo, std::size_t hi) { return lo + (std::size_t)draw(hi - lo + 1); }
  // true with probability pct/100 (shrinks to false)
  bool chance(unsigned pct) { return draw(100) >= 100 - pct; }
  bool flag() { return draw(2) != 0; }
  template <typename T> T const& pick(std::vector<T> const& v) { return v[(std::size_t)draw(v.size())]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  // index with the given integer weights
  std::size_t weighted(std::initializer_list<unsigned> w)
  {
    uint64_t tot = 0;
    for (unsigned x : w) tot += x;
    uint64_t r = draw(tot);
    std::size_t i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
  }
  // real number on a grid, with some special values mixed in; 0 in the tape maps to lo
  double real(double lo, double hi)
  {
    uint64_t r = draw(1100001);
    if (r <= 1000000) return lo + (hi - lo) * ((double)r / 1000000.0);
    switch (r % 4)
    {
    case 0: return lo;
    case 1: return hi;
    case 2: return lo <= 1 && hi >= 1 ? 1 : (lo + hi) / 2;
    default: return lo <= 0 && hi >= 0 ? 0 : (lo + hi) / 2;
    }
  }
  // real number in [-mag,mag] that shrinks to 0
  double sym(double mag)
  {
    uint64_t r = draw(2200001);
    if (r > 2000000)
    {
      double const one = mag >= 1 ? 1 : mag / 2;
      switch (r % 5)
      {
      case 0: return 0;
      case 1: return mag;
      case 2: return -mag;
      case 3: return one;
      default: return -one;
      }
    }
    double v = (double)((r + 1) / 2) / 1000000.0;
    return (r & 1 ? v : -v) * mag;
  }
  uint64_t seed() { return draw(1u << 30); }
  Rng rng() { return Rng(seed()); }
  bool tapeExhausted() const;

  // --- reporting ----------------------------------------------------------
  void label(std::string const& s);
  void nontrivial() { mNontrivial = true; flushNote(); }
  void flushNote(); // make the note visible to the parent even if the case crashes
  std::ostringstream& note() { return mNote; }
  void resetForCase();
  bool isNontrivial() const { return mNontrivial; }
  std::string noteStr() const { return mNote.str(); }

private:
  bool mNontrivial = false;
  std::ostringstream mNote;
};

[[noreturn]] inline void fail(std::string const& m) { throw Failure{m}; }

#define PBT_FAIL(stream_expr)                                                  \
  do { std::ostringstream pbt_os_; pbt_os_ << stream_expr; ::pbt::fail(pbt_os_.str()); } while (0)
#define PBT_CHECK(cond, stream_expr)                                           \
  do { if (!(cond)) { PBT_FAIL(stream_expr); } } while (0)

// Run f; returns 0: no exception, 1: std::exception (what in msg), 2: anything else
template <typename F> int outcome(F&& f, std::string* msg = nullptr)
{
  try { f(); return 0; }
  catch (Failure const&) { throw; }
  catch (std::exception const& e) { if (msg) *msg = e.what(); return 1; }
  catch (char const* s) { if (msg) *msg = std::string("const char*: ") + s; return 2; }
  catch (...) { if (msg) *msg = "unknown exception type"; return 2; }
}
// expects a std::exception
template <typename F> void mustThrow(F&& f, std::string const& what)
{
  std::string m;
  int r = outcome(f, &m);
  if (r == 0) fail("expected an error, but the call succeeded: " + what);
  if (r == 2) fail("expected a std::exception, got " + m + ": " + what);
}
template <typename F> void mustNotThrow(F&& f, std::string const& what)
{
  std::string m;
  int r = outcome(f, &m);
  if (r != 0) fail("unexpected error in " + what + ": " + m);
}

struct Sub
{
  std::string name;
  std::function<void(Case&)> fn;
  std::size_t quick;    // cases on the quick tier
  std::size_t thorough; // cases on the thorough tier
};

struct Spec
{
  std::string rule; // what counts as non-trivial
  std::vector<Sub> subs;
  double hangCpuSeconds = 60.0; // CPU time one case may burn
  std::vector<std::string> assumptions;
};

int run(int argc, char** argv, Spec const& spec);

// ---- common helpers ---------------------------------------------------------
inline bool close(double a, double b, double tol)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= tol;
}

// Audio-like test signal of length n: one tape draw for the kind, one for the seed.
// kind 0: zero-ish impulse, 1: noise, 2: integer-valued ramp, 3: sparse
inline std::vector<float> signal(Case& c, std::size_t n)
{
  std::size_t kind = c.weighted({1, 6, 1, 2});
  Rng r(c.seed());
  std::vector<float> v(n, 0.0f);
  switch (kind)
  {
  case 0: if (n) v[r.below(n)] = 1.0f; break;
  case 1: for (auto& x : v) x = (float)r.uniform(-1, 1); break;
  case 2: for (std::size_t i = 0; i < n; ++i) v[i] = (float)((i % 31) + 1) / 32.0f; break;
  default: for (auto& x : v) x = r.below(8) == 0 ? (float)r.uniform(-1, 1) : 0.0f; break;
  }
  return v;
}
} // namespace pbt
#endif
