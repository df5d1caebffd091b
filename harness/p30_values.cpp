// Parameter values created by type id: configuration, copying, assignment, independence; protocols and configurations by value.
#include "flow.hpp"
#include "objects.hpp"

#include <libpml/biquad_parameter.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>

#include <complex>

using namespace visr;
using namespace visr::pml;
namespace
{
// ---- the configuration of a parameter: kind and dimensions
enum Kind { Empty, Vector, Matrix, TF, Interp, NumKinds };
char const* kindName(int k) { static char const* n[] = {"empty", "vector", "matrix", "time-frequency", "interpolation"}; return n[k]; }
struct Cfg { int kind = Empty; std::size_t a = 0, b = 0, c = 0; bool operator==(Cfg const& o) const { return kind == o.kind && a == o.a && b == o.b && c == o.c; } };
std::unique_ptr<ParameterConfigBase> make(Cfg const& g)
{
  switch (g.kind)
  {
  case Vector: return std::unique_ptr<ParameterConfigBase>(new VectorParameterConfig(g.a));
  case Matrix: return std::unique_ptr<ParameterConfigBase>(new MatrixParameterConfig(g.a, g.b));
  case TF: return std::unique_ptr<ParameterConfigBase>(new TimeFrequencyParameterConfig(g.a, g.b, g.c));
  case Interp: return std::unique_ptr<ParameterConfigBase>(new InterpolationParameterConfig(g.a));
  default: return std::unique_ptr<ParameterConfigBase>(new EmptyParameterConfig());
  }
}
Cfg anyCfg(pbt::Case& c, int kind)
{
  Cfg g;
  g.kind = kind;
  if (kind == Vector || kind == Interp) g.a = c.wide(0, 5, 60);
  if (kind == Matrix) { g.a = c.wide(0, 4, 20); g.b = c.wide(0, 5, 20); }
  if (kind == TF) { g.a = c.wide(0, 5, 60); g.b = c.size(0, 3); g.c = c.size(0, 3); }
  return g;
}

// ---- text form of values
struct Out
{
  std::ostringstream s;
  template <typename T> typename std::enable_if<std::is_arithmetic<T>::value, Out&>::type operator<<(T v)
  {
    if (std::is_floating_point<T>::value) { char t[64]; std::snprintf(t, sizeof t, "%.17g ", (double)v); s << t; }
    else s << v << ' ';
    return *this;
  }
  template <typename T> Out& operator<<(std::complex<T> v) { return *this << v.real() << v.imag(); }
  Out& operator<<(char const* v) { s << '"' << v << "\" "; return *this; }
  Out& operator<<(std::string const& v) { return *this << v.c_str(); }
};
template <typename T> struct Any { static T get(pbt::Case& c) { return (T)c.sym(4); } };
template <> struct Any<bool> { static bool get(pbt::Case& c) { return c.flag(); } };
template <> struct Any<int> { static int get(pbt::Case& c) { return c.chance(20) ? -2147483647 - 1 : (int)c.range(-9, 9); } };
template <> struct Any<unsigned> { static unsigned get(pbt::Case& c) { return c.chance(20) ? 4294967295u : (unsigned)c.range(0, 9); } };
template <typename T> struct Any<std::complex<T>> { static std::complex<T> get(pbt::Case& c) { T a = (T)c.sym(4); return {a, (T)c.sym(4)}; } };

// Handler<P>: kind of configuration; fill with generated values, giving the expected text; text through the accessors; text after creation
template <typename P> struct Handler;
template <typename E> struct Handler<VectorParameter<E>>
{
  using P = VectorParameter<E>;
  static int const kind = Vector;
  static void fill(pbt::Case& c, P& p, Cfg const& g, Out& o) { o << g.a; for (std::size_t i = 0; i < g.a; ++i) { E v = Any<E>::get(c); p[i] = v; o << v; } }
  static void text(P const& p, Out& o) { o << p.size(); for (std::size_t i = 0; i < p.size(); ++i) o << p[i]; }
  static void fresh(Cfg const& g, Out& o) { o << g.a; for (std::size_t i = 0; i < g.a; ++i) o << E(); }
};
template <typename E> struct Handler<MatrixParameter<E>>
{
  using P = MatrixParameter<E>;
  static int const kind = Matrix;
  static void fill(pbt::Case& c, P& p, Cfg const& g, Out& o) { o << g.a << g.b; for (std::size_t i = 0; i < g.a; ++i) for (std::size_t j = 0; j < g.b; ++j) { E v = Any<E>::get(c); p(i, j) = v; o << v; } }
  static void text(P const& p, Out& o) { o << p.numberOfRows() << p.numberOfColumns(); for (std::size_t i = 0; i < p.numberOfRows(); ++i) for (std::size_t j = 0; j < p.numberOfColumns(); ++j) o << p(i, j); }
  static void fresh(Cfg const& g, Out& o) { o << g.a << g.b; for (std::size_t i = 0; i < g.a * g.b; ++i) o << E(); }
};
template <typename E> struct Handler<TimeFrequencyParameter<E>>
{
  using P = TimeFrequencyParameter<E>;
  static int const kind = TF;
  static std::size_t frames(Cfg const& g) { return g.b ? g.c : 0; } // no channels: no frames
  static void fill(pbt::Case& c, P& p, Cfg const& g, Out& o)
  {
    o << g.a << g.b << frames(g);
    for (std::size_t f = 0; f < frames(g); ++f)
      for (std::size_t k = 0; k < g.b; ++k)
        for (std::size_t i = 0; i < g.a; ++i) { auto v = Any<std::complex<E>>::get(c); p.at(f, k, i) = v; o << v; }
  }
  static void text(P const& p, Out& o)
  {
    o << p.numberOfDftBins() << p.numberOfChannels() << p.numberOfFrames();
    for (std::size_t f = 0; f < p.numberOfFrames(); ++f)
      for (std::size_t k = 0; k < p.numberOfChannels(); ++k)
        for (std::size_t i = 0; i < p.numberOfDftBins(); ++i)
        {
          o << p.at(f, k, i);
          PBT_CHECK(p.channelSlice(f, k) + i == &p.at(f, k, i) && p.frameSlice(f) + k * p.channelStride() + i == &p.at(f, k, i)
              && p.data() + f * p.frameStride() + k * p.channelStride() + i == &p.at(f, k, i), "access paths to one sample disagree");
        }
  }
  static void fresh(Cfg const& g, Out& o) { o << g.a << g.b << frames(g); for (std::size_t i = 0; i < g.a * g.b * frames(g); ++i) o << std::complex<E>(); }
};
template <typename E> struct Handler<BiquadParameterMatrix<E>>
{
  using P = BiquadParameterMatrix<E>;
  static int const kind = Matrix;
  static void fill(pbt::Case& c, P& p, Cfg const& g, Out& o)
  {
    o << g.a << (g.a ? g.b : 0);
    for (std::size_t i = 0; i < g.a; ++i) for (std::size_t j = 0; j < g.b; ++j) for (std::size_t k = 0; k < 5; ++k) { E v = Any<E>::get(c); p(i, j)[k] = v; o << v; }
  }
  static void text(P const& p, Out& o)
  {
    std::size_t const n = p.numberOfFilters(), s = n ? p.numberOfSections() : 0;
    o << n << s;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < s; ++j) { auto const& b = p(i, j); o << b.b0() << b.b1() << b.b2() << b.a1() << b.a2(); }
  }
  static void fresh(Cfg const& g, Out& o) { o << g.a << (g.a ? g.b : 0); for (std::size_t i = 0; i < g.a * g.b; ++i) o << E(1) << E() << E() << E() << E(); }
};
template <typename E> struct Handler<BiquadCoefficientListParameter<E>>
{
  using P = BiquadCoefficientListParameter<E>;
  static int const kind = Vector;
  static void fill(pbt::Case& c, P& p, Cfg const& g, Out& o) { o << g.a; for (std::size_t j = 0; j < g.a; ++j) for (std::size_t k = 0; k < 5; ++k) { E v = Any<E>::get(c); p[j][k] = v; o << v; } }
  static void text(P const& p, Out& o) { o << p.size(); for (std::size_t j = 0; j < p.size(); ++j) { auto const& b = p[j]; o << b.b0() << b.b1() << b.b2() << b.a1() << b.a2(); } }
  static void fresh(Cfg const& g, Out& o) { o << g.a; for (std::size_t i = 0; i < g.a; ++i) o << E(1) << E() << E() << E() << E(); }
};
template <typename E> struct Handler<BiquadCoefficientParameter<E>>
{
  using P = BiquadCoefficientParameter<E>;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o) { for (std::size_t k = 0; k < 5; ++k) { E v = Any<E>::get(c); p[k] = v; o << v; } }
  static void text(P const& p, Out& o) { o << p.b0() << p.b1() << p.b2() << p.a1() << p.a2(); }
  static void fresh(Cfg const&, Out& o) { o << E(1) << E() << E() << E() << E(); }
};
template <typename E> struct Handler<ScalarParameter<E>>
{
  using P = ScalarParameter<E>;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o) { E v = Any<E>::get(c); p = v; o << v; }
  static void text(P const& p, Out& o) { o << p.value(); }
  static void fresh(Cfg const&, Out& o) { o << E(); }
};
std::string word(pbt::Case& c) { std::string s(c.size(0, 5), 'a'); for (auto& x : s) x = (char)('a' + c.draw(26)); return s; }
template <> struct Handler<StringParameter>
{
  using P = StringParameter;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o) { std::string const v = word(c); switch (c.draw(3)) { case 0: p.assign(v); break; case 1: p.assign(v.c_str()); break; default: p = v; } o << v << v.size() << v.empty(); }
  static void text(P const& p, Out& o) { o << p.str() << p.size() << (p.empty() != 0); }
  static void fresh(Cfg const&, Out& o) { o << "" << std::size_t(0) << true; }
};
template <typename V> struct Handler<IndexedValueParameter<std::size_t, V>>
{
  using P = IndexedValueParameter<std::size_t, V>;
  static int const kind = Empty;
  static void put(Out& o, std::string const& v) { o << v; }
  template <typename E> static void put(Out& o, std::vector<E> const& v) { o << v.size(); for (E x : v) o << x; }
  static void gen(pbt::Case& c, std::string& v) { v = word(c); }
  template <typename E> static void gen(pbt::Case& c, std::vector<E>& v) { v.resize(c.size(0, 4)); for (auto& x : v) x = Any<E>::get(c); }
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o) { std::size_t i = c.size(0, 99); V v; gen(c, v); p.setIndex(i); p.setValue(v); o << i; put(o, v); }
  static void text(P const& p, Out& o) { o << p.index(); put(o, p.value()); }
  static void fresh(Cfg const&, Out& o) { o << std::size_t(0); put(o, V()); }
};
template <> struct Handler<InterpolationParameter>
{
  using P = InterpolationParameter;
  static int const kind = Interp;
  static void fill(pbt::Case& c, P& p, Cfg const& g, Out& o)
  {
    P::IndexContainer ix(g.a);
    P::WeightContainer w(g.a);
    P::IdType const id = (P::IdType)c.size(0, 9);
    for (auto& v : ix) v = (P::IndexType)c.size(0, 20);
    for (auto& v : w) v = (P::WeightType)c.sym(2);
    p = P(id, ix, w);
    o << id << g.a;
    for (std::size_t i = 0; i < g.a; ++i) o << ix[i] << w[i];
  }
  static void text(P const& p, Out& o)
  {
    o << p.id() << p.numberOfInterpolants();
    PBT_CHECK(p.indices().size() == p.numberOfInterpolants() && p.weights().size() == p.numberOfInterpolants(), "number of indices and weights");
    for (std::size_t i = 0; i < p.numberOfInterpolants(); ++i) { o << p.index(i) << p.weight(i); PBT_CHECK(p.index(i) == p.indices()[i] && p.weight(i) == p.weights()[i], "access by index"); }
  }
  static void fresh(Cfg const& g, Out& o) { o << P::IdType(P::cInvalidId) << g.a; for (std::size_t i = 0; i < g.a; ++i) o << P::IndexType(P::cInvalidIndex) << P::WeightType(0); }
};
template <> struct Handler<ListenerPosition>
{
  using P = ListenerPosition;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    float x[3], q[4];
    for (auto& v : x) v = (float)c.sym(3);
    for (auto& v : q) v = (float)(0.25 * (double)c.range(1, 4));
    std::uint64_t t = c.chance(20) ? ~std::uint64_t(0) : (std::uint64_t)c.size(0, 99);
    unsigned f = (unsigned)c.size(0, 9);
    p.set(x[0], x[1], x[2]);
    p.setOrientationQuaternion(P::OrientationQuaternion(q[0], q[1], q[2], q[3], false));
    p.setTimeNs(t);
    p.setFaceID(f);
    for (auto v : x) o << v;
    for (auto v : q) o << v;
    o << t << f;
  }
  static void text(P const& p, Out& o) { auto const& q = p.orientationQuaternion(); o << p.x() << p.y() << p.z() << q.w() << q.x() << q.y() << q.z() << std::uint64_t(p.timeNs()) << unsigned(p.faceID()); }
  static void fresh(Cfg const&, Out& o) { o << 0.f << 0.f << 0.f << 1.f << 0.f << 0.f << 0.f << std::uint64_t(0) << 0u; }
};
template <> struct Handler<ObjectVector>
{
  using P = ObjectVector;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    p.clear();
    std::map<unsigned, om::Obj> m;
    for (std::size_t i = 0, n = c.size(0, 4); i < n; ++i) { unsigned id = (unsigned)c.size(0, 6); m[id] = om::anyObject(c, id, (int)c.draw(om::NumKinds)); }
    for (auto const& e : m) p.insert(om::toLib(e.second));
    text(p, o); // the objects themselves are the subject of the object property; here only that copies are equal
    PBT_CHECK(p.size() == m.size(), "number of objects");
    for (auto const& e : m) { std::string d = om::diff(om::fromLib(p.at(e.first)), e.second); PBT_CHECK(d.empty(), "object " << e.first << ": " << d); }
  }
  static void text(P const& p, Out& o)
  {
    o << p.size();
    for (auto const& e : p)
    {
      om::Obj const b = om::fromLib(e);
      o << b.kind << b.id << b.group << b.priority << b.order << b.level << b.x << b.y << b.z << b.lock << b.diffuseness << b.width << b.height << b.depth << b.az << b.el << b.refdist << b.lateDelay;
      for (auto v : b.channels) o << v;
      for (auto const& q : b.eq) o << q.type << q.f << q.q << q.gain;
      for (auto const& l : b.outputs) { o << l.size(); for (auto const& v : l) o << v; }
      for (auto const& r : b.refl) { o << r.delay << r.level << r.x << r.y << r.z; for (auto const& q : r.biquads) for (float v : q) o << v; }
      for (auto const* a : {&b.lateLevel, &b.lateAttack, &b.lateDecay}) for (float v : *a) o << v;
    }
  }
  static void fresh(Cfg const&, Out& o) { o << std::size_t(0); }
};
template <> struct Handler<SignalRoutingParameter>
{
  using P = SignalRoutingParameter;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    p.clear();
    std::map<std::size_t, std::size_t> m;
    for (std::size_t i = 0, n = c.size(0, 5); i < n; ++i) { std::size_t a = c.size(0, 7), b = c.size(0, 7); p.addRouting(a, b); m[b] = a; }
    if (c.chance(30)) { std::size_t b = c.size(0, 7); PBT_CHECK(p.removeEntry(b) == (m.erase(b) == 1), "result of removing an output"); }
    if (c.chance(30))
    {
      std::size_t a = c.size(0, 7), b = c.size(0, 7);
      bool const there = m.count(b) && m[b] == a;
      if (there) m.erase(b);
      PBT_CHECK(p.removeEntry(P::Entry{a, b}) == there, "result of removing a routing");
    }
    o << m.size();
    for (auto const& e : m) o << e.second << e.first;
  }
  static void text(P const& p, Out& o)
  {
    o << p.size();
    std::map<std::size_t, std::size_t> m;
    for (auto const& e : p) { o << e.input << e.output; m[e.output] = e.input; }
    PBT_CHECK(p.empty() == m.empty(), "empty");
    for (std::size_t i = 0; i < 9; ++i)
    {
      auto const it = m.find(i);
      PBT_CHECK(p.getInput(i) == (it == m.end() ? std::size_t(P::cInvalidIndex) : it->second), "input of output " << i);
      P::Entry const& en = p.getEntry(i);
      PBT_CHECK(it == m.end() ? en.output == std::size_t(P::cInvalidIndex) : en.output == i && en.input == it->second, "entry of output " << i);
      std::size_t const out = p.getOutput(i);
      if (out == std::size_t(P::cInvalidIndex)) { for (auto const& e : m) PBT_CHECK(e.second != i, "output of input " << i << " not found"); }
      else PBT_CHECK(m.count(out) && m[out] == i, "wrong output of input " << i);
    }
  }
  static void fresh(Cfg const&, Out& o) { o << std::size_t(0); }
};
template <> struct Handler<FilterRoutingParameter>
{
  using P = FilterRoutingParameter;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    p.inputIndex = c.size(0, 9); p.outputIndex = c.size(0, 9); p.filterIndex = c.size(0, 9); p.gainLinear = c.sym(3);
    o << p.inputIndex << p.outputIndex << p.filterIndex << p.gainLinear;
  }
  static void text(P const& p, Out& o) { o << p.inputIndex << p.outputIndex << p.filterIndex << p.gainLinear; }
  static void fresh(Cfg const&, Out& o) { std::size_t const i = rbbl::FilterRouting::cInvalidIndex; o << i << i << i << 0.0; }
};
template <> struct Handler<FilterRoutingListParameter>
{
  using P = FilterRoutingListParameter;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    P e;
    p.swap(e);
    std::map<std::pair<std::size_t, std::size_t>, std::pair<std::size_t, double>> m;
    for (std::size_t i = 0, n = c.size(0, 5); i < n; ++i)
    {
      std::size_t a = c.size(0, 4), b = c.size(0, 4), f = c.size(0, 4);
      double g = c.sym(3);
      p.addRouting(rbbl::FilterRouting(a, b, f, g));
      m[{a, b}] = {f, g};
    }
    o << m.size();
    for (auto const& r : m) o << r.first.first << r.first.second << r.second.first << r.second.second;
  }
  static void text(P const& p, Out& o) { o << p.size(); for (auto const& r : p) o << r.inputIndex << r.outputIndex << r.filterIndex << r.gainLinear; }
  static void fresh(Cfg const&, Out& o) { o << std::size_t(0); }
};
template <> struct Handler<SparseGainRoutingParameter>
{
  using P = SparseGainRoutingParameter;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    p.entryIndex = c.size(0, 9); p.rowIndex = c.size(0, 9); p.columnIndex = c.size(0, 9); p.gain = (float)c.sym(3);
    text(p, o);
  }
  static void text(P const& p, Out& o) { o << p.entryIndex << p.rowIndex << p.columnIndex << p.gain; }
  static void fresh(Cfg const&, Out& o) { std::size_t const i = rbbl::SparseGainRouting::cInvalidIndex; o << i << i << i << 0.f; }
};
template <> struct Handler<SparseGainRoutingListParameter>
{
  using P = SparseGainRoutingListParameter;
  static int const kind = Empty;
  static void fill(pbt::Case& c, P& p, Cfg const&, Out& o)
  {
    rbbl::SparseGainRoutingList e;
    static_cast<rbbl::SparseGainRoutingList&>(p) = e;
    std::map<std::size_t, rbbl::SparseGainRouting> m;
    for (std::size_t i = 0, n = c.size(0, 5); i < n; ++i)
    {
      rbbl::SparseGainRouting r(c.size(0, 5), c.size(0, 4), c.size(0, 4), (float)c.sym(3));
      p.addRouting(r);
      m[r.entryIndex] = r;
    }
    o << m.size();
    for (auto const& r : m) o << r.first << r.second.rowIndex << r.second.columnIndex << r.second.gain;
  }
  static void text(P const& p, Out& o) { o << p.size(); for (auto const& r : p) o << r.entryIndex << r.rowIndex << r.columnIndex << r.gain; }
  static void fresh(Cfg const&, Out& o) { o << std::size_t(0); }
};

// ---- the table of types
struct Type
{
  char const* name;
  ParameterType id;
  int kind;
  std::function<std::string(pbt::Case&, ParameterBase&, Cfg const&)> fill;
  std::function<std::string(ParameterBase const&)> text;
  std::function<std::string(Cfg const&)> fresh;
  std::function<bool(ParameterBase const&)> is;
};
template <typename P> Type type(char const* name)
{
  using H = Handler<P>;
  return {name, P::staticType(), H::kind,
      [](pbt::Case& c, ParameterBase& p, Cfg const& g) { Out o; H::fill(c, dynamic_cast<P&>(p), g, o); return o.s.str(); },
      [](ParameterBase const& p) { Out o; H::text(dynamic_cast<P const&>(p), o); return o.s.str(); },
      [](Cfg const& g) { Out o; H::fresh(g, o); return o.s.str(); },
      [](ParameterBase const& p) { return dynamic_cast<P const*>(&p) != nullptr && ParameterToId<P>::id == P::staticType(); }};
}
#define T(x) type<x>(#x)
std::vector<Type> const& types()
{
  static std::vector<Type> const t = {T(ScalarParameter<bool>), T(ScalarParameter<int>), T(ScalarParameter<unsigned int>), T(ScalarParameter<float>), T(ScalarParameter<double>),
      T(ScalarParameter<std::complex<float>>), T(ScalarParameter<std::complex<double>>), T(StringParameter), T(VectorParameter<float>), T(VectorParameter<double>),
      T(VectorParameter<std::complex<float>>), T(VectorParameter<std::complex<double>>), T(MatrixParameter<float>), T(MatrixParameter<double>), T(MatrixParameter<std::complex<float>>),
      T(MatrixParameter<std::complex<double>>), T(TimeFrequencyParameter<float>), T(TimeFrequencyParameter<double>), T(BiquadParameterMatrix<float>), T(BiquadParameterMatrix<double>),
      T(IndexedVectorDoubleType), T(IndexedVectorFloatType), T(IndexedStringType), T(InterpolationParameter), T(ListenerPosition), T(ObjectVector), T(SignalRoutingParameter),
      T(FilterRoutingParameter), T(FilterRoutingListParameter), T(SparseGainRoutingParameter), T(SparseGainRoutingListParameter), T(BiquadCoefficientParameter<float>),
      T(BiquadCoefficientParameter<double>), T(BiquadCoefficientListParameter<float>), T(BiquadCoefficientListParameter<double>)};
  return t;
}

// ---- a population of values
struct Value { std::size_t t; Cfg g; std::unique_ptr<ParameterBase> p; std::string text; };
void population(pbt::Case& c)
{
  std::vector<Value> v;
  // few types and dimensions, so that values that fit one another are common
  std::vector<std::size_t> ts;
  for (std::size_t i = 0, n = c.size(1, 3); i < n; ++i) ts.push_back((std::size_t)c.draw(types().size()));
  std::vector<std::vector<Cfg>> gs(ts.size());
  for (std::size_t i = 0; i < ts.size(); ++i) for (int k = 0; k < 2; ++k) gs[i].push_back(anyCfg(c, types()[ts[i]].kind));
  std::size_t copies = 0, changes = 0;
  for (std::size_t step = 0, n = c.wide(1, 14, 100); step < n; ++step)
  {
    switch (v.empty() ? 0 : c.weighted({3, 4, 3, 4, 1, 2}))
    {
    case 0:
    {
      std::size_t const k = (std::size_t)c.draw(ts.size());
      Value x;
      x.t = ts[k];
      x.g = c.pick(gs[k]);
      Type const& t = types()[x.t];
      c.note() << " create " << t.name << "[" << x.g.a << "," << x.g.b << "," << x.g.c << "]";
      auto const g = make(x.g);
      pbt::mustNotThrow([&] { x.p = ParameterFactory::create(t.id, *g); }, std::string("creating ") + t.name);
      PBT_CHECK(x.p && t.is(*x.p), "an object of another class was created for " << t.name);
      x.text = t.fresh(x.g);
      v.push_back(std::move(x));
      break;
    }
    case 1:
    {
      Value& x = v[(std::size_t)c.draw(v.size())];
      c.note() << " fill";
      x.text = types()[x.t].fill(c, *x.p, x.g);
      ++changes;
      break;
    }
    case 2:
    {
      Value const& x = v[(std::size_t)c.draw(v.size())];
      c.note() << " clone";
      Value y{x.t, x.g, x.p->clone(), x.text};
      PBT_CHECK(y.p.get() != x.p.get() && types()[y.t].is(*y.p), "clone of " << types()[y.t].name << " is of another class");
      v.push_back(std::move(y));
      ++copies;
      break;
    }
    case 3:
    {
      std::size_t const i = (std::size_t)c.draw(v.size()), j = (std::size_t)c.draw(v.size());
      Value& x = v[i];
      Value& y = v[j];
      c.note() << " assign";
      if (x.t != y.t) { pbt::mustThrow([&] { x.p->assign(*y.p); }, "assigning a value of another type"); c.label("assign another type"); }
      else if (x.g == y.g)
      {
        pbt::mustNotThrow([&] { x.p->assign(*y.p); }, "assigning a value of the same type");
        x.text = y.text;
        ++copies;
        c.label(i == j ? "assign itself" : "assign");
      }
      else
      {
        // other dimensions: refused, or taken over completely
        bool done = true;
        try { x.p->assign(*y.p); } catch (std::exception const&) { done = false; }
        if (done) { x.text = y.text; x.g = y.g; }
        c.label("assign other dimensions");
      }
      break;
    }
    case 4:
      c.note() << " destroy";
      v.erase(v.begin() + (std::ptrdiff_t)c.draw(v.size()));
      break;
    default:
    {
      Value const& x = v[(std::size_t)c.draw(v.size())];
      Cfg const g = anyCfg(c, (int)c.draw(NumKinds));
      c.note() << " create from " << kindName(g.kind);
      if (g.kind != types()[x.t].kind && types()[x.t].id != SignalRoutingParameter::staticType())
      {
        auto const b = make(g);
        pbt::mustThrow([&] { ParameterFactory::create(types()[x.t].id, *b); }, std::string("creating ") + types()[x.t].name + " from a configuration of kind " + kindName(g.kind));
        c.label("wrong configuration");
      }
    }
    }
    for (std::size_t i = 0; i < v.size(); ++i)
    {
      PBT_CHECK(v[i].p->type() == types()[v[i].t].id, "type of " << types()[v[i].t].name);
      std::string const s = types()[v[i].t].text(*v[i].p);
      PBT_CHECK(s == v[i].text, "value " << i << " (" << types()[v[i].t].name << "): expected " << v[i].text << ", got " << s);
    }
  }
  if (copies && changes) c.nontrivial();
}

// ---- configurations and the tables of types and protocols
struct Custom : TypedParameterBase<Custom, EmptyParameterConfig, detail::compileTimeHashFNV1("VerifCustom")>
{
  int v = 0;
  Custom() {}
  explicit Custom(ParameterConfigBase const&) : v(7) {}
};
void tables(pbt::Case& c)
{
  Cfg const a = anyCfg(c, (int)c.draw(NumKinds)), b = c.chance(40) ? a : anyCfg(c, c.flag() ? a.kind : (int)c.draw(NumKinds));
  c.note() << kindName(a.kind) << "(" << a.a << "," << a.b << "," << a.c << ") against " << kindName(b.kind) << "(" << b.a << "," << b.b << "," << b.c << ")";
  auto const pa = make(a), pb = make(b), ca = pa->clone();
  PBT_CHECK(ca.get() != pa.get() && pa->compare(*ca) && ca->compare(*pa), "a configuration differs from its clone");
  if (a.kind != b.kind) pbt::mustThrow([&] { pa->compare(*pb); }, "comparing configurations of different kinds");
  else PBT_CHECK(pa->compare(*pb) == (a == b) && pb->compare(*ca) == (a == b), "comparison of configurations");
  c.nontrivial();

  std::size_t const n = ParameterFactory::numberOfParameterTypes();
  PBT_CHECK(n == types().size(), "number of parameter types " << n << ", expected " << types().size());
  for (auto const& t : types()) PBT_CHECK(ParameterFactory::typeExists(t.id), t.name << " is not registered");
  std::set<ParameterType> ids;
  for (auto const& t : types()) PBT_CHECK(ids.insert(t.id).second, "the type id of " << t.name << " is used twice");
  ParameterType const unknown = c.seed() | 1;
  if (!ids.count(unknown))
  {
    PBT_CHECK(!ParameterFactory::typeExists(unknown), "unknown type exists");
    pbt::mustThrow([&] { ParameterFactory::create(unknown, EmptyParameterConfig()); }, "creating an unknown type");
    pbt::mustThrow([&] { CommunicationProtocolFactory::createProtocol(unknown, types()[0].id, EmptyParameterConfig()); }, "creating an unknown protocol");
    pbt::mustThrow([&] { CommunicationProtocolFactory::createInput(unknown); }, "creating an endpoint of an unknown protocol");
    pbt::mustThrow([&] { CommunicationProtocolFactory::createOutput(unknown); }, "creating an endpoint of an unknown protocol");
    pbt::mustThrow([&] { CommunicationProtocolFactory::typeToName(unknown); }, "name of an unknown protocol");
    PBT_CHECK(!CommunicationProtocolFactory::typeExists(unknown), "unknown protocol exists");
  }
  pbt::mustThrow([&] { CommunicationProtocolFactory::typeFromName(("x" + word(c)).c_str()); }, "unknown protocol name");
  {
    ParameterRegistrar<Custom> r;
    PBT_CHECK(ParameterFactory::numberOfParameterTypes() == n + 1 && ParameterFactory::typeExists(Custom::staticType()), "a registered type is unknown");
    auto const p = ParameterFactory::create(Custom::staticType(), *pa);
    PBT_CHECK(dynamic_cast<Custom*>(p.get()) && static_cast<Custom&>(*p).v == 7, "a registered type is not created");
    static_cast<Custom&>(*p).v = 3;
    PBT_CHECK(static_cast<Custom&>(*p->clone()).v == 3, "clone of a registered type");
  }
  PBT_CHECK(ParameterFactory::numberOfParameterTypes() == n && !ParameterFactory::typeExists(Custom::staticType()), "an unregistered type is still known");

  // protocols
  struct Pr { CommunicationProtocolType id; char const* name; };
  Pr const pr[] = {{SharedDataProtocol::staticType(), "SharedData"}, {DoubleBufferingProtocol::staticType(), "DoubleBuffering"}, {MessageQueueProtocol::staticType(), "MessageQueue"}};
  PBT_CHECK(CommunicationProtocolFactory::numberOfProtocols() == 3, "number of protocols");
  std::size_t const t = (std::size_t)c.draw(types().size());
  Cfg const g = anyCfg(c, types()[t].kind);
  auto const pg = make(g);
  for (auto const& x : pr)
  {
    PBT_CHECK(CommunicationProtocolFactory::typeExists(x.id) && CommunicationProtocolFactory::typeFromName(x.name) == x.id && CommunicationProtocolFactory::typeToName(x.id) == x.name, "protocol " << x.name);
    std::unique_ptr<CommunicationProtocolBase> p;
    pbt::mustNotThrow([&] { p = CommunicationProtocolFactory::createProtocol(x.id, types()[t].id, *pg); }, std::string("protocol ") + x.name + " for " + types()[t].name);
    PBT_CHECK(p->protocolType() == x.id && p->parameterType() == types()[t].id, "types of the created protocol");
    auto in = CommunicationProtocolFactory::createInput(x.id);
    auto out = CommunicationProtocolFactory::createOutput(x.id);
    pbt::mustNotThrow([&] { p->connectInput(in.get()); p->connectOutput(out.get()); }, "connecting the endpoints");
    auto other = CommunicationProtocolFactory::createInput(pr[(&x - pr + 1) % 3].id);
    pbt::mustThrow([&] { p->connectInput(other.get()); }, "connecting an endpoint of another protocol");
    p->disconnectInput(in.get());
    p->disconnectOutput(out.get());
  }
}
// A routing table given as a list.
void lists(pbt::Case& c)
{
  using E = SignalRoutingParameter::Entry;
  std::vector<E> e;
  std::map<std::size_t, std::size_t> m;
  for (int i = 0; i < 3; ++i) { e.push_back(E{c.size(0, 3), c.size(0, 4)}); m[e.back().output] = e.back().input; }
  c.note() << e[0].input << "=" << e[0].output << "," << e[1].input << "=" << e[1].output << "," << e[2].input << "=" << e[2].output;
  c.nontrivial();
  if (m.size() < 3) { pbt::mustThrow([&] { SignalRoutingParameter p{e[0], e[1], e[2]}; }, "two routings to one output"); return; }
  SignalRoutingParameter p{e[0], e[1], e[2]};
  PBT_CHECK(p.size() == 3, "number of routings " << p.size());
  for (auto const& x : m) PBT_CHECK(p.getInput(x.first) == x.second, "input of output " << x.first);
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "population: values of 1-3 of all 35 parameter types are created, filled, cloned, assigned and destroyed, all values compared with their models after each step; non-trivial: at least one value was copied and one changed";
  s.subs = {{"population", population, 60000, 1200000}, {"tables", tables, 15000, 150000}, {"lists", lists, 8000, 40000}};
  return pbt::run(argc, argv, s);
}
