// P34: scheduled gain transitions: each object follows its own sequence of linear gain
// changes, sample-accurately, whatever the block boundaries and update times.
#include "flow.hpp"

#include <libpanningdsp/initialise_parameter_library.hpp>
#include <libpanningdsp/panning_gain_matrix.hpp>
#include <libpanningdsp/panning_matrix_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>

using namespace visr;
using panningdsp::PanningGainMatrix;
using panningdsp::PanningMatrixParameter;
using pbt::Case;

namespace
{
std::size_t const inf = panningdsp::cTimeStampInfinity;

float genGain(Case& c)
{
  switch (c.weighted({2, 6, 1, 1}))
  {
  case 0: return 0.0f;
  case 1: return (float)c.sym(2.0);
  case 2: return 1.0f;
  default: return (float)c.sym(50.0);
  }
}

// an independent copy of the contents of a message
struct Msg
{
  std::size_t rows = 0, cols = 0;
  std::vector<std::size_t> start, dur;
  std::vector<std::vector<float>> gains;
  Msg(std::size_t r, std::size_t l) : rows(r), cols(l), start(r, inf), dur(r, inf), gains(r, std::vector<float>(l, 0.0f)) {}
  void put(PanningMatrixParameter& p) const
  {
    for (std::size_t o = 0; o < rows; ++o)
    {
      p.timeStamps()[o] = start[o];
      p.transitionTimes()[o] = dur[o];
      for (std::size_t l = 0; l < cols; ++l) p.gains()(o, l) = gains[o][l];
    }
  }
  void check(PanningMatrixParameter const& p, char const* what) const
  {
    PBT_CHECK(p.numberOfObjects() == rows && p.numberOfLoudspeakers() == cols && p.gains().numberOfRows() == rows && p.gains().numberOfColumns() == cols,
              what << ": dimension " << p.numberOfObjects() << "x" << p.numberOfLoudspeakers() << " expected " << rows << "x" << cols);
    PBT_CHECK(p.timeStamps().size() == rows && p.transitionTimes().size() == rows, what << ": number of times");
    for (std::size_t o = 0; o < rows; ++o)
    {
      PBT_CHECK(p.timeStamps()[o] == start[o] && p.transitionTimes()[o] == dur[o], what << ": times of object " << o);
      for (std::size_t l = 0; l < cols; ++l) PBT_CHECK(p.gains()(o, l) == gains[o][l], what << ": gain " << o << "," << l);
    }
  }
};

// the gain history of one object
struct Track
{
  std::vector<double> from, to;
  std::size_t t0 = 0, t1 = inf;
  bool stored = false;
  std::size_t s = 0, d = 0;
  std::vector<double> g;
  double big = 0;
  double at(std::size_t l, std::size_t instant) const
  {
    if (t1 == inf || instant >= t1) return to[l];
    return from[l] + (to[l] - from[l]) * ((double)(instant - t0) / (double)(t1 - t0));
  }
  void begin(std::size_t now, std::size_t dur, std::vector<double> const& goal)
  {
    for (std::size_t l = 0; l < to.size(); ++l) from[l] = dur == 0 ? goal[l] : at(l, now);
    to = goal;
    t0 = now;
    t1 = dur == 0 ? inf : now + dur;
  }
  void reach(std::size_t now)
  {
    if (stored && s == now) { stored = false; begin(now, d, g); }
  }
  void message(std::size_t now, std::size_t start, std::size_t dur, std::vector<float> const& goal)
  {
    for (float x : goal) big = std::max(big, (double)std::abs(x));
    std::vector<double> v(goal.begin(), goal.end());
    if (start == now) { stored = false; begin(now, dur, v); }
    else { stored = true; s = start; d = dur; g = v; }
  }
};

std::size_t genDuration(Case& c, std::size_t block)
{
  switch (c.weighted({3, 2, 5, 2, 2, 1}))
  {
  case 0: return 0;
  case 1: return 1;
  case 2: return c.wide(1, 3 * block + 3, 60 * block);
  case 3: return block * c.wide(1, 4, 30);
  case 4: return c.size(2, 6);
  default: return (std::size_t)1 << c.size(10, 40);
  }
}

std::size_t genStart(Case& c, std::size_t now, std::size_t block, Track const& t)
{
  switch (c.weighted({4, 4, 4, 2, 2, 2}))
  {
  case 0: return now;
  case 1: return now + c.size(0, block);
  case 2: return now + c.wide(1, 4 * block, 50 * block);
  case 3: return t.t1 != inf && t.t1 + 1 > now + 1 ? t.t1 - 1 + c.size(0, 2) : now + block;
  case 4: return t.stored && t.s > now ? t.s - 1 + c.size(0, 2) : now + 2 * block;
  default: return now + block * c.size(0, 3);
  }
}

Msg genMsg(Case& c, std::size_t now, std::size_t block, std::vector<Track> const& tracks, std::size_t L, unsigned active)
{
  Msg m(tracks.size(), L);
  for (std::size_t o = 0; o < tracks.size(); ++o)
  {
    for (auto& g : m.gains[o]) g = genGain(c);
    if (!c.chance(active)) { if (c.flag()) m.dur[o] = genDuration(c, block); continue; }
    m.start[o] = genStart(c, now, block, tracks[o]);
    m.dur[o] = genDuration(c, block);
  }
  return m;
}

void print(Case& c, Msg const& m)
{
  c.note() << " {";
  for (std::size_t o = 0; o < m.rows; ++o)
    if (m.start[o] != inf)
    {
      c.note() << o << "@" << m.start[o] << "+" << m.dur[o] << "=";
      for (float g : m.gains[o]) c.note() << g << ",";
    }
  c.note() << "}";
}

void transitions(Case& c)
{
  std::size_t const block = c.weighted({3, 1}) == 0 ? c.wide(1, 40, 600) : (std::size_t)1 << c.range(0, 7);
  std::size_t const N = c.wide(0, 4, 24), L = c.wide(0, 4, 24);
  SignalFlowContext ctx(block, 48000);
  std::vector<Track> tr(N);
  for (auto& t : tr) t.from = t.to = std::vector<double>(L, 0.0);
  c.note() << N << " objects " << L << " outputs, blocks of " << block << ":";
  std::unique_ptr<PanningGainMatrix> comp;
  int const kind = c.weighted({2, 3, 3});
  std::size_t const al = c.pick<std::size_t>({0, 1, 4, 8});
  if (kind == 0) comp.reset(new PanningGainMatrix(ctx, "", nullptr, N, L));
  else
  {
    efl::BasicMatrix<float> g0(N, L, al);
    for (std::size_t o = 0; o < N; ++o)
      for (std::size_t l = 0; l < L; ++l)
      {
        g0(o, l) = genGain(c);
        tr[o].from[l] = tr[o].to[l] = g0(o, l);
        tr[o].big = std::max(tr[o].big, (double)std::abs(g0(o, l)));
      }
    if (kind == 1) comp.reset(new PanningGainMatrix(ctx, "", nullptr, N, L, g0));
    else
    {
      PanningMatrixParameter p(N, L, al);
      Msg m = genMsg(c, 0, block, tr, L, 70);
      m.put(p);
      print(c, m);
      comp.reset(new PanningGainMatrix(ctx, "", nullptr, N, L, g0, p));
      for (std::size_t o = 0; o < N; ++o) if (m.start[o] != inf) tr[o].message(0, m.start[o], m.dur[o], m.gains[o]);
      if (c.chance(20))
      {
        efl::BasicMatrix<float> bad(N + 1, L, al), bad2(N, L + 1, al);
        PanningMatrixParameter badP(N + c.size(1, 2), L, al), badP2(N, L + 1, al);
        pbt::mustThrow([&] { PanningGainMatrix x(ctx, "", nullptr, N, L, bad); }, "gains for another number of objects");
        pbt::mustThrow([&] { PanningGainMatrix x(ctx, "", nullptr, N, L, bad2); }, "gains for another number of loudspeakers");
        pbt::mustThrow([&] { PanningGainMatrix x(ctx, "", nullptr, N, L, g0, badP); }, "transitions for another number of objects");
        pbt::mustThrow([&] { PanningGainMatrix x(ctx, "", nullptr, N, L, g0, badP2); }, "transitions for another number of loudspeakers");
        c.label("wrong dimension");
      }
    }
  }
  vflow::Rig rig(*comp);
  std::vector<Msg> buf(2, Msg(N, L)); // contents of the two buffers; front is buf[0]
  std::size_t now = 0, changes = 0, interrupted = 0;
  for (std::size_t blk = 0, nb = c.wide(1, 12, 80); blk < nb; ++blk)
  {
    bool late = false;
    for (std::size_t k = c.weighted({5, 5, 1}); k > 0; --k)
    {
      auto& p = rig.param<PanningMatrixParameter>("gainInput");
      buf[0].check(p, "message about to be written");
      if (c.chance(85)) buf[0] = genMsg(c, now, block, tr, L, 60); // else: the old contents, unchanged, once more
      else c.label("stale message");
      if (N > 0 && now > 0 && c.chance(4)) buf[0].start[c.size(0, N - 1)] = now - 1 - c.size(0, std::min<std::size_t>(now - 1, 3));
      buf[0].put(p);
      bool const copy = c.flag();
      print(c, buf[0]);
      rig.dbl("gainInput").swapBuffers(copy);
      if (copy) buf[1] = buf[0];
      else std::swap(buf[0], buf[1]);
      if (k > 1) { c.label("replaced before use"); continue; }
      Msg const& m = buf[1];
      for (std::size_t o = 0; o < N; ++o)
      {
        if (m.start[o] == inf) continue;
        if (m.start[o] < now) { late = true; continue; }
        if (m.start[o] > now && tr[o].t1 != inf && m.start[o] < tr[o].t1) { ++interrupted; }
        if (tr[o].stored) c.label("stored transition replaced");
        tr[o].message(now, m.start[o], m.dur[o], m.gains[o]);
        ++changes;
      }
    }
    auto in = vflow::noise(c, N, block);
    if (late)
    {
      // reported once; the block is not completed, and nothing else is lost
      pbt::mustThrow([&] { rig.process(in); }, "transition starting in the past");
      c.label("transition in the past");
      c.note() << " late";
    }
    auto out = rig.process(in);
    c.note() << " p";
    for (std::size_t n = 0; n < block; ++n)
    {
      for (auto& t : tr) t.reach(now + n);
      for (std::size_t l = 0; l < L; ++l)
      {
        double want = 0, tol = 1e-6;
        for (std::size_t o = 0; o < N; ++o)
        {
          want += tr[o].at(l, now + n + 1) * in[o][n];
          tol += 1e-5 * tr[o].big * std::abs(in[o][n]);
        }
        PBT_CHECK(pbt::close(out[l][n], want, tol), "output " << l << " at sample " << now + n << " (block " << blk << "): " << out[l][n] << " expected " << want);
      }
    }
    now += block;
    for (auto& t : tr) t.reach(now);
  }
  if (interrupted) c.label("started during another transition");
  if (changes > 0 && L > 0) c.nontrivial();
}

// The messages themselves are plain values.
void messages(Case& c)
{
  struct Slot { std::unique_ptr<PanningMatrixParameter> p; Msg m; };
  std::vector<Slot> slots;
  auto fresh = [&]() {
    std::size_t n = c.wide(0, 4, 20), l = c.wide(0, 4, 20), al = c.pick<std::size_t>({0, 1, 2, 4, 8, 16});
    Msg m(n, l);
    auto fill = [&] {
      for (std::size_t o = 0; o < n; ++o)
      {
        m.start[o] = c.chance(30) ? inf : (std::size_t)1 << c.size(0, 50);
        m.dur[o] = c.size(0, 1000);
        for (auto& g : m.gains[o]) g = genGain(c);
      }
    };
    std::unique_ptr<PanningMatrixParameter> p;
    switch (c.weighted({2, 2, 1, 1, 2}))
    {
    case 0: p.reset(new PanningMatrixParameter(n, l, al)); break;
    case 1: p.reset(new PanningMatrixParameter(pml::MatrixParameterConfig(n, l))); break;
    case 2:
    {
      pml::MatrixParameterConfig const cfg(n, l);
      p.reset(new PanningMatrixParameter(static_cast<ParameterConfigBase const&>(cfg)));
      break;
    }
    case 3:
    {
      m = Msg(2, 3);
      n = 2, l = 3;
      fill();
      auto const& g = m.gains;
      p.reset(new PanningMatrixParameter({{g[0][0], g[0][1], g[0][2]}, {g[1][0], g[1][1], g[1][2]}}, {m.start[0], m.start[1]}, {m.dur[0], m.dur[1]}, al));
      break;
    }
    default:
    {
      fill();
      efl::BasicMatrix<float> g(n, l, al);
      std::size_t extra = c.chance(15) ? c.size(1, 2) : 0, extra2 = c.chance(15) ? c.size(1, 2) : 0;
      efl::AlignedArray<std::size_t> s(n + extra, al), d(n + extra2, al);
      for (std::size_t o = 0; o < n; ++o)
      {
        s[o] = m.start[o];
        d[o] = m.dur[o];
        for (std::size_t k = 0; k < l; ++k) g(o, k) = m.gains[o][k];
      }
      if (extra + extra2 > 0)
      {
        pbt::mustThrow([&] { PanningMatrixParameter x(g, s, d); }, "number of times differs from the number of objects");
        c.label("wrong number of times");
        p.reset(new PanningMatrixParameter(n, l, al));
        m = Msg(n, l);
      }
      else p.reset(new PanningMatrixParameter(g, s, d));
    }
    }
    slots.push_back({std::move(p), m});
    c.note() << " new(" << n << "x" << l << ")";
  };
  fresh();
  std::size_t copies = 0;
  for (std::size_t k = c.wide(1, 10, 60); k > 0; --k)
  {
    std::size_t i = c.size(0, slots.size() - 1), j = c.size(0, slots.size() - 1);
    switch (c.weighted({2, 2, 2, 3, 3, 1}))
    {
    case 0: fresh(); break;
    case 1: c.note() << " copy " << i; slots.push_back({std::unique_ptr<PanningMatrixParameter>(new PanningMatrixParameter(*slots[i].p)), slots[i].m}); ++copies; break;
    case 2:
    {
      c.note() << " clone " << i;
      auto q = slots[i].p->clone();
      auto* t = dynamic_cast<PanningMatrixParameter*>(q.get());
      PBT_CHECK(t != nullptr, "clone is of another type");
      q.release();
      slots.push_back({std::unique_ptr<PanningMatrixParameter>(t), slots[i].m});
      ++copies;
      break;
    }
    case 3:
      c.note() << " " << i << "=" << j;
      if (c.flag()) *slots[i].p = *slots[j].p;
      else slots[i].p->assign(*slots[j].p);
      slots[i].m = slots[j].m;
      ++copies;
      break;
    case 4:
    {
      Msg& m = slots[i].m;
      c.note() << " change " << i;
      for (std::size_t o = 0; o < m.rows; ++o)
      {
        if (c.flag()) m.start[o] = c.size(0, 100000);
        if (c.flag()) m.dur[o] = c.size(0, 100000);
        for (auto& g : m.gains[o]) g = genGain(c);
      }
      m.put(*slots[i].p);
      break;
    }
    default:
      pbt::mustThrow([&] { pml::VectorParameterConfig const v(3); PanningMatrixParameter x(static_cast<ParameterConfigBase const&>(v)); }, "wrong configuration type");
    }
    for (auto const& s : slots) s.m.check(*s.p, "message");
  }
  if (copies > 0) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  panningdsp::initialiseParameterLibrary();
  pbt::Spec s;
  s.rule = "transitions: at least one scheduled transition of an object reached the component and there is at least one output; messages: at least one message was copied, cloned or assigned";
  s.assumptions = {"a stored transition that starts exactly at the beginning of a period starts before the message of that period is looked at"};
  s.subs = {{"transitions", transitions, 60000, 2500000}, {"messages", messages, 20000, 500000}};
  return pbt::run(argc, argv, s);
}
