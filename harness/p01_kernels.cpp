// P01: vector kernels equal their element-wise definition for every length,
// alignment, element type and processor variant.
#include "pbt.hpp"

#include <libefl/error_codes.hpp>
#include <libefl/filter_functions.hpp>
#include <libefl/initialise_library.hpp>
#include <libefl/matrix_functions.hpp>
#include <libefl/vector_conversions.hpp>
#include <libefl/vector_functions.hpp>
#include <libefl/intel_x86_64/vector_functions.hpp>

#include <complex>
#include <cstdlib>
#include <type_traits>

using namespace visr;
using pbt::Case;

namespace
{
template <typename T> struct Real { using type = T; };
template <typename T> struct Real<std::complex<T>> { using type = T; };
template <typename T> struct Name;
template <> struct Name<float> { static char const* s() { return "float"; } };
template <> struct Name<double> { static char const* s() { return "double"; } };
template <> struct Name<std::complex<float>> { static char const* s() { return "cfloat"; } };
template <> struct Name<std::complex<double>> { static char const* s() { return "cdouble"; } };

// long double model arithmetic
template <typename T> struct Wide { using type = long double; };
template <typename T> struct Wide<std::complex<T>> { using type = std::complex<long double>; };
template <typename T> typename Wide<T>::type widen(T v) { return typename Wide<T>::type(v); }
inline long double mag(long double v) { return std::fabs(v); }
inline long double mag(std::complex<long double> v) { return std::abs(v.real()) + std::abs(v.imag()); }

template <typename T> void setVal(pbt::Rng& r, T& v) { v = (T)r.uniform(-2, 2); }
template <typename T> void setVal(pbt::Rng& r, std::complex<T>& v) { T a = (T)r.uniform(-2, 2); v = std::complex<T>(a, (T)r.uniform(-2, 2)); }

// Buffer of n elements at a chosen element offset from a 128-byte boundary; the
// allocation ends with the last element (ASan sees overruns), the front holds guards.
template <typename T> struct Buf
{
  void* mem = nullptr;
  T* p = nullptr;
  std::size_t n, off;
  Buf(std::size_t n_, std::size_t off_, pbt::Rng& r) : n(n_), off(off_)
  {
    std::size_t bytes = (off + n) * sizeof(T);
    if (posix_memalign(&mem, 128, bytes ? bytes : 1)) abort();
    T* b = static_cast<T*>(mem);
    for (std::size_t i = 0; i < off; ++i) b[i] = T(7777);
    p = b + off;
    for (std::size_t i = 0; i < n; ++i) setVal(r, p[i]);
  }
  Buf(Buf const&) = delete;
  ~Buf() { free(mem); }
  void guard(char const* op) const
  {
    T const* b = static_cast<T const*>(mem);
    for (std::size_t i = 0; i < off; ++i) PBT_CHECK(b[i] == T(7777), op << ": wrote before the destination (element -" << off - i << ")");
  }
  std::vector<typename Wide<T>::type> model() const
  {
    std::vector<typename Wide<T>::type> v(n);
    for (std::size_t i = 0; i < n; ++i) v[i] = widen(p[i]);
    return v;
  }
};

char const* gVariant = "reference";

template <efl::intel_x86_64::Feature f> void setFeature()
{
  using namespace efl;
  VectorMultiplyWrapper<float>::set(&intel_x86_64::vectorMultiply<float, f>);
  VectorMultiplyWrapper<double>::set(&intel_x86_64::vectorMultiply<double, f>);
  VectorMultiplyWrapper<std::complex<float>>::set(&intel_x86_64::vectorMultiply<std::complex<float>, f>);
  VectorMultiplyAddInplaceWrapper<float>::set(&intel_x86_64::vectorMultiplyAddInplace<float, f>);
  VectorMultiplyAddInplaceWrapper<double>::set(&intel_x86_64::vectorMultiplyAddInplace<double, f>);
  VectorMultiplyAddInplaceWrapper<std::complex<float>>::set(&intel_x86_64::vectorMultiplyAddInplace<std::complex<float>, f>);
  VectorMultiplyConstantAddInplaceWrapper<float>::set(&intel_x86_64::vectorMultiplyConstantAddInplace<float, f>);
  VectorMultiplyConstantAddInplaceWrapper<std::complex<float>>::set(&intel_x86_64::vectorMultiplyConstantAddInplace<std::complex<float>, f>);
  VectorRampScalingWrapper<float>::set(&intel_x86_64::vectorRampScaling<float, f>);
}

void chooseVariant(std::size_t v)
{
  using F = efl::intel_x86_64::Feature;
  PBT_CHECK(efl::uninitialiseLibrary(), "uninitialiseLibrary() returned false");
  gVariant = "reference";
  switch (v)
  {
  case 0: break;
  case 1: PBT_CHECK(efl::initialiseLibrary(), "initialiseLibrary() returned false"); gVariant = "initialised"; break;
  case 2: if (__builtin_cpu_supports("sse4.2")) { setFeature<F::SSE>(); gVariant = "SSE"; } break;
  case 3: if (__builtin_cpu_supports("avx")) { setFeature<F::AVX>(); gVariant = "AVX"; } break;
  case 4: if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma")) { setFeature<F::FMA>(); gVariant = "FMA"; } break;
  }
}

template <typename T> void kernel(Case& c, std::size_t op)
{
  using W = typename Wide<T>::type;
  using R = typename Real<T>::type;
  std::size_t n = c.weighted({1, 2, 1}) == 0 ? c.size(0, 3) : c.wide(0, 70, 3000);
  std::size_t align = c.pick<std::size_t>({0, 1, 2, 4, 8});
  // buffer offsets: usually consistent with the promised alignment
  bool broken = align > 1 && c.chance(10);
  std::size_t offs[4];
  std::size_t step = std::max<std::size_t>(align, 1);
  for (auto& o : offs) o = step * c.size(0, step >= 8 ? 1 : 3);
  std::size_t badArg = c.size(0, 3);
  if (broken) offs[badArg] += 1;
  pbt::Rng r(c.seed());
  Buf<T> a(n, offs[0], r), b(n, offs[1], r), d(n, offs[2], r), y(n, offs[3], r);
  T k;
  setVal(r, k);
  T k2;
  setVal(r, k2);
  bool f1 = c.flag(), f2 = c.flag();
  auto ma = a.model(), mb = b.model(), md = d.model(), my = y.model();
  auto mk = widen(k), mk2 = widen(k2);
  std::vector<W> ref(n);
  std::vector<long double> bound(n); // magnitude scale for the tolerance
  efl::ErrorCode rc = efl::noError;
  char const* name = "";
  unsigned used = 0; // which buffers are arguments: 1 a, 2 b, 4 d, 8 y
#define EACH(NAME, CALL, EXPR, MAG, USED)                                      \
  name = NAME; rc = CALL; used = USED;                                         \
  for (std::size_t i = 0; i < n; ++i) { ref[i] = EXPR; bound[i] = MAG; } break
  switch (op)
  {
  case 0: EACH("zero", efl::vectorZero(y.p, n, align), W(0), 0, 8);
  case 1: EACH("fill", efl::vectorFill(k, y.p, n, align), mk, 0, 8);
  case 2: EACH("copy", efl::vectorCopy(a.p, y.p, n, align), ma[i], 0, 9);
  case 3: EACH("add", efl::vectorAdd(a.p, b.p, y.p, n, align), ma[i] + mb[i], mag(ma[i]) + mag(mb[i]), 11);
  case 4: EACH("addInplace", efl::vectorAddInplace(a.p, y.p, n, align), ma[i] + my[i], mag(ma[i]) + mag(my[i]), 9);
  case 5: EACH("addConstant", efl::vectorAddConstant(k, a.p, y.p, n, align), ma[i] + mk, mag(ma[i]) + mag(mk), 9);
  case 6: EACH("addConstantInplace", efl::vectorAddConstantInplace(k, y.p, n, align), my[i] + mk, mag(my[i]) + mag(mk), 8);
  case 7: EACH("subtract", efl::vectorSubtract(a.p, b.p, y.p, n, align), ma[i] - mb[i], mag(ma[i]) + mag(mb[i]), 11);
  case 8: EACH("subtractInplace", efl::vectorSubtractInplace(a.p, y.p, n, align), ma[i] - my[i], mag(ma[i]) + mag(my[i]), 9);
  case 9: EACH("subtractConstant", efl::vectorSubtractConstant(k, a.p, y.p, n, align), ma[i] - mk, mag(ma[i]) + mag(mk), 9);
  case 10: EACH("subtractConstantInplace", efl::vectorSubtractConstantInplace(k, y.p, n, align), my[i] - mk, mag(my[i]) + mag(mk), 8);
  case 11: EACH("multiply", efl::vectorMultiply(a.p, b.p, y.p, n, align), ma[i] * mb[i], mag(ma[i]) * mag(mb[i]), 11);
  case 12: EACH("multiplyInplace", efl::vectorMultiplyInplace(a.p, y.p, n, align), ma[i] * my[i], mag(ma[i]) * mag(my[i]), 9);
  case 13: EACH("multiplyConstant", efl::vectorMultiplyConstant(k, a.p, y.p, n, align), mk * ma[i], mag(ma[i]) * mag(mk), 9);
  case 14: EACH("multiplyConstantInplace", efl::vectorMultiplyConstantInplace(k, y.p, n, align), mk * my[i], mag(my[i]) * mag(mk), 8);
  case 15: EACH("multiplyAdd", efl::vectorMultiplyAdd(a.p, b.p, d.p, y.p, n, align), md[i] + ma[i] * mb[i], mag(ma[i]) * mag(mb[i]) + mag(md[i]), 15);
  case 16: EACH("multiplyAddInplace", efl::vectorMultiplyAddInplace(a.p, b.p, y.p, n, align), my[i] + ma[i] * mb[i], mag(ma[i]) * mag(mb[i]) + mag(my[i]), 11);
  case 17: EACH("multiplyConstantAdd", efl::vectorMultiplyConstantAdd(k, a.p, b.p, y.p, n, align), mb[i] + mk * ma[i], mag(ma[i]) * mag(mk) + mag(mb[i]), 11);
  case 18: EACH("multiplyConstantAddInplace", efl::vectorMultiplyConstantAddInplace(k, a.p, y.p, n, align), my[i] + mk * ma[i], mag(ma[i]) * mag(mk) + mag(my[i]), 9);
  case 19:
    EACH(f1 ? "rampScaling+acc" : "rampScaling", efl::vectorRampScaling(a.p, b.p, y.p, k, k2, n, f1, align),
         (f1 ? my[i] : W(0)) + (mk + mk2 * mb[i]) * ma[i], (mag(mk) + mag(mk2) * mag(mb[i])) * mag(ma[i]) + mag(my[i]), 11);
  case 20:
  {
    name = "ramp";
    used = 8;
    rc = efl::vectorRamp(y.p, n, k, k2, f1, f2, align);
    for (std::size_t i = 0; i < n; ++i)
    {
      W v;
      if (n == 1)
      {
        v = f1 == f2 ? (mk + mk2) * (typename Wide<R>::type)0.5L : (f1 ? mk : mk2);
      }
      else
      {
        long double steps = (long double)(n + 1 - (f1 ? 1 : 0) - (f2 ? 1 : 0));
        v = mk + (mk2 - mk) * W((long double)(i + (f1 ? 0 : 1)) / steps);
      }
      ref[i] = v;
      bound[i] = 4 * (mag(mk) + mag(mk2));
    }
    break;
  }
  }
#undef EACH
  c.label(std::string(name) + "/" + gVariant);
  c.note() << name << " " << Name<T>::s() << " variant=" << gVariant << " n=" << n << " align=" << align << " offs=" << offs[0] << "," << offs[1] << "," << offs[2] << "," << offs[3] << " flags=" << f1 << f2;
  bool misaligned = broken && (used & (1u << badArg));
  if (n >= 1) c.nontrivial();
  if (misaligned)
  {
    PBT_CHECK(rc == efl::alignmentError, name << " " << Name<T>::s() << " [" << gVariant << "]: pointer not meeting the promised alignment was accepted (rc=" << rc << ")");
    for (std::size_t i = 0; i < n; ++i) PBT_CHECK(widen(y.p[i]) == my[i], name << ": destination changed although the call was refused");
    c.label("misaligned-refused");
    return;
  }
  PBT_CHECK(rc == efl::noError, name << " " << Name<T>::s() << " [" << gVariant << "]: returned error " << rc);
  long double eps = std::numeric_limits<R>::epsilon();
  for (std::size_t i = 0; i < n; ++i)
  {
    long double e = mag(widen(y.p[i]) - ref[i]);
    long double tol = 4 * eps * bound[i];
    PBT_CHECK(e <= tol, name << " " << Name<T>::s() << " [" << gVariant << "] n=" << n << " element " << i << ": got " << y.p[i] << ", definition gives " << (T)ref[i]);
  }
  for (Buf<T> const* q : {&a, &b, &d, &y}) q->guard(name);
  for (std::size_t i = 0; i < n; ++i)
    PBT_CHECK(widen(a.p[i]) == ma[i] && widen(b.p[i]) == mb[i] && widen(d.p[i]) == md[i], name << ": modified one of its inputs at element " << i);
}

void kernels(Case& c)
{
  // SIMD-specialised kernels get more weight
  std::size_t variant = c.size(0, 4);
  chooseVariant(variant);
  std::size_t op;
  if (c.flag()) op = c.pick<std::size_t>({11, 16, 18, 19});
  else op = c.size(0, 20);
  switch (c.size(0, 3))
  {
  case 0: kernel<float>(c, op); break;
  case 1: kernel<double>(c, op); break;
  case 2: kernel<std::complex<float>>(c, op); break;
  default: kernel<std::complex<double>>(c, op); break;
  }
}

// strided copy / fill
template <typename T> void stridedT(Case& c)
{
  std::size_t n = c.wide(0, 20, 500), ss = c.wide(1, 5, 40), ds = c.wide(1, 5, 40);
  pbt::Rng r(c.seed());
  Buf<T> src(n ? (n - 1) * ss + 1 : 0, 0, r), dst(n ? (n - 1) * ds + 1 : 0, c.size(0, 2), r);
  std::vector<T> before(dst.p, dst.p + dst.n);
  bool fill = c.flag();
  T k;
  setVal(r, k);
  efl::ErrorCode rc = fill ? efl::vectorFillStrided(k, dst.p, ds, n, 0) : efl::vectorCopyStrided(src.p, dst.p, ss, ds, n, 0);
  c.note() << (fill ? "fillStrided" : "copyStrided") << " n=" << n << " strides " << ss << "," << ds;
  if (n > 1 && (ss > 1 || ds > 1)) c.nontrivial();
  PBT_CHECK(rc == efl::noError, "strided call returned an error");
  for (std::size_t i = 0; i < dst.n; ++i)
  {
    T want = i % ds == 0 ? (fill ? k : src.p[i / ds * ss]) : before[i];
    PBT_CHECK(dst.p[i] == want, "strided result differs at element " << i);
  }
  dst.guard("strided");
}

template <typename I, typename O> void convertT(Case& c, std::size_t form)
{
  std::size_t n = c.wide(0, 40, 2000), is = form & 1 ? c.size(1, 4) : 1, os = form & 2 ? c.size(1, 4) : 1;
  pbt::Rng r(c.seed());
  std::vector<I> src(n ? (n - 1) * is + 1 : 0);
  std::vector<O> dst(n ? (n - 1) * os + 1 : 0, O(99)), want = dst;
  for (auto& v : src)
  {
    // values representable in every target type, with ties in between
    double x = (double)((int64_t)r.below(241) - 120);
    if (std::is_floating_point<I>::value) x += (r.below(4)) * 0.25;
    v = (I)x;
  }
  for (std::size_t i = 0; i < n; ++i)
  {
    double x = (double)src[i * is];
    if (std::is_integral<O>::value && std::is_floating_point<I>::value)
    {
      double fl = std::floor(x), fr = x - fl;
      x = fr < 0.5 ? fl : fr > 0.5 ? fl + 1 : (std::fmod(fl, 2) == 0 ? fl : fl + 1);
    }
    want[i * os] = (O)x;
  }
  efl::ErrorCode rc;
  switch (form)
  {
  case 0: rc = efl::vectorConvert(src.data(), dst.data(), n); break;
  case 1: rc = efl::vectorConvertInputStride(src.data(), dst.data(), n, is); break;
  case 2: rc = efl::vectorConvertOutputStride(src.data(), dst.data(), n, os); break;
  default: rc = efl::vectorConvertInputOutputStride(src.data(), dst.data(), n, is, os); break;
  }
  c.note() << "convert size " << sizeof(I) << (std::is_integral<I>::value ? "i" : "f") << "->" << sizeof(O) << (std::is_integral<O>::value ? "i" : "f") << " n=" << n << " strides " << is << "," << os;
  if (n > 0) c.nontrivial();
  PBT_CHECK(rc == efl::noError, "conversion returned an error");
  for (std::size_t i = 0; i < dst.size(); ++i) PBT_CHECK(dst[i] == want[i], "conversion differs at element " << i << ": got " << (double)dst[i] << ", expected " << (double)want[i]);
}
template <typename I> void convertI(Case& c, std::size_t form)
{
  switch (c.size(0, 5))
  {
  case 0: convertT<I, float>(c, form); break;
  case 1: convertT<I, double>(c, form); break;
  case 2: convertT<I, int8_t>(c, form); break;
  case 3: convertT<I, int16_t>(c, form); break;
  case 4: convertT<I, int32_t>(c, form); break;
  default: convertT<I, int64_t>(c, form); break;
  }
}

template <typename T> void productT(Case& c)
{
  std::size_t R = c.wide(1, 5, 40), C = c.wide(1, 5, 40), K = c.wide(0, 6, 60);
  bool t1 = c.flag(), t2 = c.flag(), t3 = c.flag();
  std::size_t pad = c.size(0, 3);
  std::size_t r1 = t1 ? 1 : K + pad, c1 = t1 ? R + pad : 1, r2 = t2 ? 1 : C + pad, c2 = t2 ? K + pad : 1, r3 = t3 ? 1 : C + pad, c3 = t3 ? R + pad : 1;
  auto len = [](std::size_t R, std::size_t C, std::size_t rs, std::size_t cs) { return R && C ? (R - 1) * rs + (C - 1) * cs + 1 : 0; };
  pbt::Rng r(c.seed());
  std::vector<T> a(len(R, K, r1, c1)), b(len(K, C, r2, c2)), y(len(R, C, r3, c3), T(55)), want = y;
  std::vector<long double> mag(y.size(), 0);
  for (auto& v : a) setVal(r, v);
  for (auto& v : b) setVal(r, v);
  for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j)
  {
    long double s = 0;
    for (std::size_t k = 0; k < K; ++k) { s += (long double)a[i * r1 + k * c1] * b[k * r2 + j * c2]; mag[i * r3 + j * c3] += std::abs((long double)a[i * r1 + k * c1] * b[k * r2 + j * c2]); }
    want[i * r3 + j * c3] = (T)s;
  }
  efl::ErrorCode rc = efl::product(a.data(), b.data(), y.data(), R, C, K, r1, c1, r2, c2, r3, c3);
  c.note() << "product " << R << "x" << K << "x" << C;
  c.nontrivial();
  PBT_CHECK(rc == efl::noError, "product returned an error");
  for (std::size_t i = 0; i < y.size(); ++i) PBT_CHECK(std::abs((long double)y[i] - want[i]) <= 4 * (K + 2) * std::numeric_limits<T>::epsilon() * mag[i], "matrix product differs at storage index " << i << ": " << y[i] << " vs " << want[i]);
}

void others(Case& c)
{
  switch (c.size(0, 2))
  {
  case 0:
    switch (c.size(0, 3))
    {
    case 0: stridedT<float>(c); break;
    case 1: stridedT<double>(c); break;
    case 2: stridedT<std::complex<float>>(c); break;
    default: stridedT<std::complex<double>>(c); break;
    }
    break;
  case 1:
  {
    std::size_t form = c.size(0, 3);
    switch (c.size(0, 5))
    {
    case 0: convertI<float>(c, form); break;
    case 1: convertI<double>(c, form); break;
    case 2: convertI<int8_t>(c, form); break;
    case 3: convertI<int16_t>(c, form); break;
    case 4: convertI<int32_t>(c, form); break;
    default: convertI<int64_t>(c, form); break;
    }
    break;
  }
  default:
    if (c.flag()) productT<float>(c); else productT<double>(c);
  }
}
} // namespace

int main(int argc, char** argv)
{
  pbt::Spec s;
  s.rule = "random kernel, element type, processor variant, length 0..70, alignment and buffer offset; non-trivial: at least one element processed";
  s.subs = {{"kernels", kernels, 400000, 6000000}, {"strided-convert-product", others, 120000, 1500000}};
  return pbt::run(argc, argv, s);
}
