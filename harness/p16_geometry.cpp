// P16: rotations, positions, listener poses and their decoding from tracker messages.
#include "flow.hpp"
#include "objects.hpp"
#include "pbt.hpp"

#include <libefl/cartesian_spherical_conversion.hpp>
#include <libefl/db_linear_conversion.hpp>
#include <libefl/degree_radian_conversion.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/string_parameter.hpp>
#include <librbbl/position_3d.hpp>
#include <librbbl/quaternion.hpp>
#include <librcl/position_decoder.hpp>

#include <boost/property_tree/ptree.hpp>

#include <array>
#include <iostream>

using namespace visr;

namespace
{
using V3 = std::array<double, 3>;
using M3 = std::array<V3, 3>;
using V4 = std::array<double, 4>;
double const PI = 3.14159265358979323846;

M3 mul(M3 const& a, M3 const& b)
{
  M3 r{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
V3 mul(M3 const& a, V3 const& v)
{
  V3 r{};
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i] += a[i][k] * v[k];
  return r;
}
M3 transpose(M3 const& a)
{
  M3 r;
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i][k] = a[k][i];
  return r;
}
M3 unit() { return {{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}}; }
// rotation about an axis (Rodrigues)
M3 axisAngle(V3 k, double a)
{
  double const n = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]);
  for (auto& x : k) x /= n;
  M3 const K{{{{0, -k[2], k[1]}}, {{k[2], 0, -k[0]}}, {{-k[1], k[0], 0}}}};
  M3 const KK = mul(K, K);
  M3 r = unit();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] += std::sin(a) * K[i][j] + (1 - std::cos(a)) * KK[i][j];
  return r;
}
M3 ypr(double y, double p, double r) { return mul(mul(axisAngle({{0, 0, 1}}, y), axisAngle({{0, 1, 0}}, p)), axisAngle({{1, 0, 0}}, r)); }
M3 fromQuat(V4 q)
{
  double n = 0;
  for (double x : q) n += x * x;
  for (auto& x : q) x /= std::sqrt(n);
  double const w = q[0], x = q[1], y = q[2], z = q[3];
  return {{{{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}}, {{2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}}, {{2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}}}};
}
double maxDiff(M3 const& a, M3 const& b)
{
  double d = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double const e = std::abs(a[i][j] - b[i][j]); if (!(e <= d)) d = e; }
  return d;
}
template <typename T> V4 comp(rbbl::Quaternion<T> const& q) { return {{(double)q.w(), (double)q.x(), (double)q.y(), (double)q.z()}}; }
template <typename T> V3 comp(rbbl::Position3D<T> const& p) { return {{(double)p.x(), (double)p.y(), (double)p.z()}}; }
template <typename A> double norm(A const& a) { double s = 0; for (double x : a) s += x * x; return std::sqrt(s); }
template <typename A> double dotp(A const& a, A const& b) { double s = 0; for (std::size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
template <typename A> std::string str(A const& a) { std::ostringstream s; s << "("; for (double x : a) s << " " << x; s << " )"; return s.str(); }
template <typename A> void same(A const& got, A const& ref, double tol, char const* what)
{
  for (std::size_t i = 0; i < got.size(); ++i) PBT_CHECK(std::abs(got[i] - ref[i]) <= tol, what << ": " << str(got) << " instead of " << str(ref));
}
void sameRot(M3 const& a, M3 const& b, double tol, std::string const& what) { double const d = maxDiff(a, b); PBT_CHECK(d <= tol, what << ": the rotation differs by " << d); }

template <typename T> double eps() { return 4e-6; }
template <> double eps<double>() { return 1e-13; }

double angleValue(pbt::Case& c, double mag) { return c.chance(30) ? PI / 12 * (double)c.range(-(int64_t)(mag / PI * 12), (int64_t)(mag / PI * 12)) : c.sym(mag); }
template <typename T> rbbl::Position3D<T> anyPos(pbt::Case& c, double mag = 5) { T const x = (T)c.sym(mag), y = (T)c.sym(mag), z = (T)c.sym(mag); return rbbl::Position3D<T>(x, y, z); }
template <typename T> rbbl::Position3D<T> nonZero(pbt::Case& c) { auto p = anyPos<T>(c); if (norm(comp(p)) < 0.01) p.setY((T)1); return p; }

// a unit quaternion together with the rotation it has to be
template <typename T> rbbl::Quaternion<T> anyRot(pbt::Case& c, M3& ref)
{
  using Q = rbbl::Quaternion<T>;
  switch (c.draw(3))
  {
  case 0:
  {
    T const y = (T)angleValue(c, PI), r = (T)angleValue(c, PI);
    T p = (T)angleValue(c, PI);
    if (c.chance(15)) p = (T)((c.flag() ? 1 : -1) * (PI / 2 - c.pick<int>({1, -1}) * std::pow(10.0, -c.real(0.3, 6)))); // close to the poles
    ref = ypr(y, p, r);
    if (c.flag()) return Q::fromYPR(y, p, r);
    Q q;
    q.setYPR(y, p, r);
    return q;
  }
  case 1:
  {
    auto const v = nonZero<T>(c);
    T const a = c.chance(15) ? (T)std::pow(10.0, -c.real(1, 6)) : (T)angleValue(c, 2 * PI);
    ref = axisAngle(comp(v), a);
    if (c.flag()) return Q::fromRotationVector(v, a);
    Q q;
    q.setRotationVector(v, a);
    return q;
  }
  default:
  {
    V4 v{{c.sym(2), c.sym(2), c.sym(2), c.sym(2)}};
    if (norm(v) < 0.05) v[0] = 1;
    ref = fromQuat(v);
    switch (c.draw(3))
    {
    case 0: return Q((T)v[0], (T)v[1], (T)v[2], (T)v[3], true);
    case 1: { Q q; q.set((T)v[0], (T)v[1], (T)v[2], (T)v[3]); bool const adj = c.flag(); q.normalise(adj); PBT_CHECK(!adj || q.w() >= 0, "normalised quaternion has a negative real part"); return q; }
    default: { Q q((T)v[0], (T)v[1], (T)v[2], (T)v[3]); return rbbl::normalise(q); }
    }
  }
  }
}

template <typename T> void rotationsT(pbt::Case& c)
{
  using Q = rbbl::Quaternion<T>;
  using P = rbbl::Position3D<T>;
  double const e = eps<T>();
  M3 A, B;
  Q const a = anyRot<T>(c, A), b = anyRot<T>(c, B);
  c.note() << "a " << str(comp(a)) << " b " << str(comp(b));
  c.flushNote();
  c.nontrivial();
  PBT_CHECK(std::abs(norm(comp(a)) - 1) <= e && std::abs(a.norm() - 1) <= e && std::abs(a.normSquare() - 1) <= 2 * e, "quaternion is not normalised: " << str(comp(a)));
  sameRot(fromQuat(comp(a)), A, 8 * e, "quaternion a");
  sameRot(fromQuat(comp(b)), B, 8 * e, "quaternion b");
  P const p = anyPos<T>(c), s = anyPos<T>(c);
  double const mag = 1 + norm(comp(p)) + norm(comp(s));
  // rotation of positions
  same(comp(rbbl::rotate(p, a)), mul(A, comp(p)), 10 * e * mag, "rotate()");
  P m(p);
  m.rotate(b);
  m.rotate(a);
  same(comp(m), mul(A, mul(B, comp(p))), 20 * e * mag, "two rotations");
  V3 t = mul(A, comp(p));
  for (int i = 0; i < 3; ++i) t[i] += comp(s)[i];
  same(comp(rbbl::transform(p, a, s)), t, 10 * e * mag, "transform()");
  m = p;
  m.transform(a, s);
  same(comp(m), t, 10 * e * mag, "transform() in place");
  m = rbbl::rotate(p, a);
  m.translate(s);
  same(comp(m), t, 10 * e * mag, "rotation and translation");
  // composition
  sameRot(fromQuat(comp(a * b)), mul(A, B), 16 * e, "product");
  Q q(a);
  q *= b;
  sameRot(fromQuat(comp(q)), mul(A, B), 16 * e, "product in place");
  q = b;
  q.rotate(a);
  sameRot(fromQuat(comp(q)), mul(A, B), 16 * e, "rotate() of a quaternion");
  sameRot(fromQuat(comp(rbbl::conjugate(a))), transpose(A), 8 * e, "conjugate()");
  q = a;
  q.conjugate();
  sameRot(fromQuat(comp(q)), transpose(A), 8 * e, "conjugate() in place");
  sameRot(fromQuat(comp(-a)), A, 8 * e, "negated quaternion");
  // angles
  double const pitch = a.pitch(), cp = std::cos(pitch);
  PBT_CHECK(std::abs(pitch) <= PI / 2 + e && std::abs((double)a.yaw()) <= PI + e && std::abs((double)a.roll()) <= PI + e, "angles out of range");
  V4 const ac = comp(a);
  PBT_CHECK(pbt::close(std::sin(pitch), std::max(-1.0, std::min(1.0, 2 * (ac[0] * ac[2] - ac[3] * ac[1]))), e), "pitch is " << pitch << " (sine " << std::sin(pitch) << " instead of " << 2 * (ac[0] * ac[2] - ac[3] * ac[1]) << ")");
  if (cp > 0.02) sameRot(ypr(a.yaw(), pitch, a.roll()), A, 20 * e / (cp * cp), "yaw, pitch, roll");
  else PBT_CHECK(std::abs(A[2][0]) > 0.99, "pitch is " << pitch);
  PBT_CHECK(std::abs(norm(comp(a.rotationVector())) - 1) <= 2 * e, "rotation vector is not normalised");
  sameRot(axisAngle(comp(a.rotationVector()), a.rotationAngle()), A, 16 * e, "rotation vector and angle");
  // angular distance
  T const k1 = (T)c.real(0.2, 4), k2 = (T)c.real(0.2, 4);
  double const d = std::abs(dotp(comp(a), comp(b)));
  for (double an : {(double)rbbl::angleNormalised(a, b), (double)rbbl::angle(k1 * a, k2 * b)})
    PBT_CHECK(an >= 0 && an <= PI + e && std::abs(std::cos(an / 2) - std::min(d, 1.0)) <= 10 * e, "angular distance " << an << " instead of " << 2 * std::acos(std::min(d, 1.0)));
  PBT_CHECK(std::abs(rbbl::dot(a, b) - dotp(comp(a), comp(b))) <= 4 * e, "dot()");
  // arithmetic
  V4 const x = comp(a), y = comp(b);
  auto lin = [&](double f, double g) { V4 r; for (int i = 0; i < 4; ++i) r[i] = f * x[i] + g * y[i]; return r; };
  same(comp(a + b), lin(1, 1), 4 * e, "sum");
  same(comp(a - b), lin(1, -1), 4 * e, "difference");
  same(comp(k1 * a), lin(k1, 0), 8 * e, "scaled quaternion");
  same(comp(a / k1), lin(1 / (double)k1, 0), 16 * e, "divided quaternion");
  q = a; q += b; same(comp(q), lin(1, 1), 4 * e, "sum in place");
  q = a; q -= b; same(comp(q), lin(1, -1), 4 * e, "difference in place");
  q = a; q *= k2; same(comp(q), lin(k2, 0), 8 * e, "scaled in place");
  q = a; q.setW((T)2); q.setX((T)3); q.setY((T)4); q.setZ((T)5);
  same(comp(q), V4{{2, 3, 4, 5}}, 0, "set components");
  T const tiny = (T)1e-30;
  pbt::mustThrow([&] { rbbl::normalise(Q(tiny, 0, tiny, 0)); }, "normalisation of a zero quaternion");
  // interpolation on the sphere
  Q const b2 = dotp(x, y) < 0 ? -b : b;
  T const u = (T)c.real(0, 1);
  double const om = std::acos(std::min(1.0, d));
  V4 ref;
  if (om < 0.02) for (int i = 0; i < 4; ++i) ref[i] = (1 - u) * x[i] + u * comp(b2)[i];
  else for (int i = 0; i < 4; ++i) ref[i] = std::cos(u * om) * x[i] + std::sin(u * om) * (comp(b2)[i] - d * x[i]) / std::sin(om);
  same(comp(rbbl::interpolateSpherical(a, b2, u)), ref, 40 * e + (om < 0.02 ? 1e-4 : 10 * e / std::sin(om)), "spherical interpolation of quaternions");
  same(comp(rbbl::interpolateSpherical(a, a, u)), x, 2e-3 * (sizeof(T) == 4) + 20 * e, "interpolation between equal quaternions");
}
void rotations(pbt::Case& c) { if (c.flag()) rotationsT<double>(c); else rotationsT<float>(c); }

template <typename T> void positionsT(pbt::Case& c)
{
  using P = rbbl::Position3D<T>;
  double const e = eps<T>();
  P const a = nonZero<T>(c), b = nonZero<T>(c);
  V3 const x = comp(a), y = comp(b);
  c.note() << str(x) << " " << str(y);
  c.flushNote();
  c.nontrivial();
  double const nx = norm(x), ny = norm(y), mag = 1 + nx + ny;
  T const k = (T)c.real(0.1, 4);
  auto lin = [&](double f, double g) { V3 r; for (int i = 0; i < 3; ++i) r[i] = f * x[i] + g * y[i]; return r; };
  same(comp(a + b), lin(1, 1), e * mag, "sum");
  same(comp(a - b), lin(1, -1), e * mag, "difference");
  same(comp(-a), lin(-1, 0), 0, "negated position");
  same(comp(k * a), lin(k, 0), 4 * e * mag, "scaled position");
  same(comp(a / k), lin(1 / (double)k, 0), 40 * e * mag, "divided position");
  P q(a); q += b; same(comp(q), lin(1, 1), e * mag, "sum in place");
  q = a; q -= b; same(comp(q), lin(1, -1), e * mag, "difference in place");
  q = a; q *= k; same(comp(q), lin(k, 0), 4 * e * mag, "scaled in place");
  q[1] = (T)7; q.setX((T)1); q.z() = (T)3;
  same(comp(q), V3{{1, 7, 3}}, 0, "set components");
  PBT_CHECK(std::abs(a.norm() - nx) <= 2 * e * mag && std::abs(a.normSquare() - nx * nx) <= 4 * e * mag * mag, "norm " << a.norm() << " instead of " << nx);
  PBT_CHECK(std::abs(rbbl::dot(a, b) - dotp(x, y)) <= 4 * e * mag * mag, "dot()");
  q = a; q.normalise();
  same(comp(q), lin(1 / nx, 0), 4 * e, "normalised position");
  double const cosA = std::max(-1.0, std::min(1.0, dotp(x, y) / nx / ny));
  for (double an : {(double)rbbl::angle(a, b), (double)rbbl::angleNormalised(rbbl::normalise(a), rbbl::normalise(b))})
    PBT_CHECK(an >= 0 && an <= PI + e && std::abs(std::cos(an) - cosA) <= 10 * e, "angle " << an << " instead of " << std::acos(cosA));
  pbt::mustThrow([&] { rbbl::angle(P((T)1e-30, 0, 0), b); }, "angle with a zero vector");
  pbt::mustThrow([&] { rbbl::normalise(P((T)1e-30, 0, 0)); }, "normalisation of a zero vector");
  // interpolation
  double const om = std::acos(cosA);
  if (om > 0.02 && om < PI - 0.05)
  {
    T const u = (T)c.real(0, 1);
    V3 ref;
    double const rad = (1 - u) * nx + u * ny;
    for (int i = 0; i < 3; ++i) ref[i] = rad * (std::cos(u * om) * x[i] / nx + std::sin(u * om) * (y[i] / ny - cosA * x[i] / nx) / std::sin(om));
    same(comp(rbbl::interpolateSpherical(a, b, u)), ref, mag * (40 * e + 10 * e / std::pow(std::sin(om), 2)), "spherical interpolation of positions");
  }
  same(comp(rbbl::interpolateSpherical(a, k * a, (T)0.25)), lin(0.75 + 0.25 * k, 0), mag * (2e-3 * (sizeof(T) == 4) + 1e-6), "interpolation along a radius");
  // coordinate systems
  P const g = c.chance(5) ? P((T)0, (T)0, (T)0) : c.chance(10) ? P((T)0, (T)0, (T)c.sym(3)) : anyPos<T>(c);
  T az, el, r;
  std::tie(az, el, r) = efl::cartesian2spherical(g.x(), g.y(), g.z());
  PBT_CHECK(std::abs((double)az) <= PI + e && std::abs((double)el) <= PI / 2 + e && r >= 0, "spherical coordinates (" << az << "," << el << "," << r << ") of " << str(comp(g)));
  V3 back;
  std::tie(back[0], back[1], back[2]) = std::tuple<double, double, double>((double)r * std::cos((double)el) * std::cos((double)az), (double)r * std::cos((double)el) * std::sin((double)az), (double)r * std::sin((double)el));
  double const se = sizeof(T) == 4 ? 1e-3 : 1e-7; // elevations near the poles are ill-conditioned
  same(back, comp(g), (std::abs(g.z()) > 0.999 * r ? se : 10 * e) * mag, "spherical coordinates");
  T px, py, pz;
  std::tie(px, py, pz) = efl::spherical2cartesian((T)az, (T)el, (T)r);
  same(V3{{(double)px, (double)py, (double)pz}}, back, 4 * e * mag, "cartesian coordinates");
  T const deg = (T)c.sym(720), db = (T)c.sym(80);
  PBT_CHECK(std::abs(efl::degree2radian(deg) - deg * PI / 180) <= 2 * e * std::abs(deg) && std::abs(efl::radian2degree(deg) - deg * 180 / PI) <= 50 * e * std::abs(deg), "degrees and radians");
  double const lin20 = std::pow(10.0, (double)db / 20);
  PBT_CHECK(std::abs(efl::dB2linear(db) - lin20) <= 20 * e * lin20 && std::abs(efl::linear2dB((T)lin20) - db) <= 200 * e, "decibels: " << db);
}
void positions(pbt::Case& c) { if (c.flag()) positionsT<double>(c); else positionsT<float>(c); }

// ---------------------------------------------------------------------------------------------
// listener poses
struct Pose
{
  V3 p{};
  M3 R = unit();
  uint64_t time = 0;
  unsigned face = 0;
  std::size_t n = 1;
};
using LP = pml::ListenerPosition;
void samePose(LP const& l, Pose const& m, double tol, std::string const& what)
{
  same(comp(l.position()), m.p, tol * (1 + norm(m.p)), (what + ": position").c_str());
  PBT_CHECK(l.x() == l.position().x() && l.y() == l.position().y() && l.z() == l.position().z(), what << ": coordinates");
  sameRot(fromQuat(comp(l.orientationQuaternion())), m.R, 4 * tol, what + ": orientation");
  PBT_CHECK(l.timeNs() == m.time && l.faceID() == m.face && l.numberOfListeners() == m.n, what << ": time " << l.timeNs() << " face " << l.faceID() << " listeners " << l.numberOfListeners() << " instead of " << m.time << " " << m.face << " " << m.n);
}
uint64_t anyTime(pbt::Case& c) { return c.chance(20) ? c.draw(1ull << 62) : c.draw(6); }

std::string numJ(pbt::Case& c, double v) { std::string s = om::num(v); return c.chance(20) ? "\"" + s + "\"" : s; }
// text of a pose; returns false if the text is faulty
bool poseText(pbt::Case& c, std::string& text, Pose& m, bool faults)
{
  m = Pose();
  std::vector<std::string> f;
  char const* const xyz[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) if (c.chance(80)) { m.p[i] = (float)c.sym(5); f.push_back(std::string("\"") + xyz[i] + "\": " + numJ(c, m.p[i])); }
  int const fault = faults ? (int)c.range(1, 4) : 0;
  int kind = (int)c.draw(5);
  if (fault == 1 && kind != 2 && kind != 3) kind = 2 + (int)c.draw(2);
  if (fault == 2 && kind == 4) kind = 1;
  std::vector<std::string> o;
  if (kind == 1)
  {
    V3 a{};
    char const* const n[] = {"yaw", "pitch", "roll"};
    bool any = false;
    for (int i = 0; i < 3; ++i) if (c.chance(70) || (i == 2 && !any)) { any = true; a[i] = (float)(angleValue(c, PI) * 180 / PI); o.push_back(std::string("\"") + n[i] + "\": " + numJ(c, a[i])); }
    m.R = ypr(a[0] * PI / 180, a[1] * PI / 180, a[2] * PI / 180);
  }
  else if (kind == 2 || kind == 3)
  {
    V4 q{{c.sym(1), c.sym(1), c.sym(1), c.sym(1)}};
    std::vector<std::string> e;
    char const* const n[] = {kind == 2 ? "w" : "angle", "x", "y", "z"};
    if (kind == 2)
    {
      if (norm(q) < 0.05) q[0] = 1;
      double const nn = norm(q);
      for (auto& v : q) v = (float)(v / nn);
      m.R = fromQuat(q);
    }
    else
    {
      q[0] = (float)(angleValue(c, PI) * 180 / PI);
      if (std::sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) < 0.05) q[3] = 1;
      m.R = axisAngle({{q[1], q[2], q[3]}}, q[0] * PI / 180);
    }
    std::size_t const drop = fault == 1 ? c.draw(4) : 4;
    for (std::size_t i = 0; i < 4; ++i) if (i != drop) e.push_back(std::string("\"") + n[i] + "\": " + numJ(c, q[i]));
    else if (c.flag()) e.push_back(std::string("\"") + n[i] + "\": \"abc\"");
    std::string s = std::string("\"") + (kind == 2 ? "quaternion" : "rotationVector") + "\": {";
    for (std::size_t i = 0; i < e.size(); ++i) s += (i ? ", " : "") + e[i];
    o.push_back(s + "}");
  }
  if (fault == 2) // two different notations
  {
    if (kind != 1) o.push_back("\"yaw\": 0");
    if (kind != 2 && (kind == 1 || kind == 0 || c.flag())) o.push_back("\"quaternion\": {\"w\": 1, \"x\": 0, \"y\": 0, \"z\": 0}");
    if (o.size() < 2) o.push_back("\"rotationVector\": {\"angle\": 0, \"x\": 0, \"y\": 0, \"z\": 1}");
  }
  if (kind != 4)
  {
    std::string s = "\"orientation\": {";
    for (std::size_t i = 0; i < o.size(); ++i) s += (i ? "," : "") + o[i];
    f.push_back(s + "}");
  }
  if (c.flag()) { m.time = anyTime(c); f.push_back("\"timeStamp\": " + std::to_string(m.time)); }
  if (c.flag()) { m.face = (unsigned)c.draw(4); f.push_back("\"faceId\": " + std::to_string(m.face)); }
  if (c.chance(30)) { m.n = c.draw(4); f.push_back("\"numListeners\": " + std::to_string(m.n)); }
  for (std::size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[c.draw(i)]);
  text = "{";
  for (std::size_t i = 0; i < f.size(); ++i) text += (i ? ", " : " ") + f[i];
  text += " }";
  if (fault == 3) text = text.substr(0, text.size() - 1 - c.draw(text.size() - 1));
  if (fault == 4) text = c.pick<std::string>({"", "x", "{\"x\": }", "{\"x\" 1}", "{'x': 1}", "{\"x\": 1,}"});
  return fault == 0;
}
void pose(pbt::Case& c)
{
  LP l;
  Pose m;
  double const tol = 3e-5;
  samePose(l, m, tol, "default pose");
  std::size_t const n = c.wide(1, 10, 60);
  for (std::size_t k = 0; k < n; ++k)
  {
    std::string what;
    switch (c.draw(11))
    {
    case 0:
    {
      what = "construction";
      auto const p = anyPos<float>(c);
      float const y = (float)angleValue(c, PI), pi = (float)angleValue(c, PI), r = (float)angleValue(c, PI);
      m = Pose();
      m.p = comp(p);
      m.R = ypr(y, pi, r);
      switch (c.draw(4))
      {
      case 0: l = LP(p.x(), p.y(), p.z(), y, pi, r); break;
      case 1: l = LP(p, LP::OrientationYPR{{y, pi, r}}); break;
      case 2: l = LP(p, LP::OrientationQuaternion::fromYPR(y, pi, r)); break;
      default: { auto const v = nonZero<float>(c); l = LP::fromRotationVector(p, v, y); m.R = axisAngle(comp(v), y); }
      }
      break;
    }
    case 1:
    {
      what = "setPosition()";
      auto const p = anyPos<float>(c);
      m.p = comp(p);
      switch (c.draw(4))
      {
      case 0: l.set(p.x(), p.y(), p.z()); break;
      case 1: l.setPosition(p); break;
      case 2: l.setPosition(p.x(), p.y(), p.z()); break;
      default: l.setX(p.x()); l.setY(p.y()); l.setZ(p.z());
      }
      break;
    }
    case 2:
    {
      what = "set orientation";
      float const y = (float)angleValue(c, PI), pi = (float)angleValue(c, PI), r = (float)angleValue(c, PI);
      m.R = ypr(y, pi, r);
      switch (c.draw(4))
      {
      case 0: l.setOrientationYPR(y, pi, r); break;
      case 1: l.setOrientationYPR(LP::OrientationYPR{{y, pi, r}}); break;
      case 2: l.setOrientationQuaternion(LP::OrientationQuaternion::fromYPR(y, pi, r)); break;
      default: { auto const v = nonZero<float>(c); l.setOrientationRotationVector(v, y); m.R = axisAngle(comp(v), y); }
      }
      break;
    }
    case 3:
    {
      what = "translate()";
      auto const p = anyPos<float>(c);
      l.translate(p);
      for (int i = 0; i < 3; ++i) m.p[i] += comp(p)[i];
      break;
    }
    case 4:
    case 5:
    {
      what = "rotation";
      M3 A;
      auto const q = anyRot<float>(c, A);
      auto const p = anyPos<float>(c);
      switch (c.draw(4))
      {
      case 0: l.rotate(q); m.p = mul(A, m.p); m.R = mul(A, m.R); break;
      case 1: l.rotatePosition(q); m.p = mul(A, m.p); break;
      case 2: l.rotateOrientation(q); m.R = mul(A, m.R); break;
      default: l.transform(q, p); m.p = mul(A, m.p); for (int i = 0; i < 3; ++i) m.p[i] += comp(p)[i]; m.R = mul(A, m.R);
      }
      break;
    }
    case 6:
      what = "attributes";
      l.setTimeNs(m.time = anyTime(c));
      l.setFaceID(m.face = (unsigned)c.draw(5));
      l.setNumberOfListeners(m.n = c.draw(5));
      break;
    case 7:
    case 8:
    {
      what = "writing and reading";
      auto const f = c.pick<LP::RotationFormat>({LP::RotationFormat::YPR, LP::RotationFormat::RotationVector, LP::RotationFormat::Quaternion});
      bool const pretty = c.flag();
      std::ostringstream os;
      l.writeJson(os, f, pretty);
      std::string const s = l.writeJson(f, pretty);
      PBT_CHECK(s == os.str(), "text from the stream and the string version differ: " << os.str() << " / " << s);
      LP r;
      if (f == LP::RotationFormat::YPR && std::abs(std::cos(l.pitch())) < 0.05) break; // gimbal lock
      switch (c.draw(5))
      {
      case 0: r = LP::fromJson(s); break;
      case 1: { std::istringstream is(s); r = LP::fromJson(is); break; }
      case 2: { boost::property_tree::ptree t; l.writeJson(t, f); r = LP::fromJson(t); break; }
      case 3: r.setTimeNs(99); r.setX(3); r.parseJson(s); break;
      default: { std::istringstream is(s); r.parseJson(is); }
      }
      samePose(r, m, f == LP::RotationFormat::YPR ? 1e-3 : 2 * tol, what + " " + s);
      break;
    }
    default:
    {
      std::string t;
      Pose q;
      bool const ok = poseText(c, t, q, c.chance(30));
      what = "parsing of " + t;
      c.note() << t << "\n";
      c.flushNote();
      std::string err;
      int const res = pbt::outcome([&] { if (c.flag()) l.parseJson(t); else { std::istringstream is(t); l.parseJson(is); } }, &err);
      if (ok) { PBT_CHECK(res == 0, "valid pose rejected: " << t << ": " << err); m = q; }
      else { PBT_CHECK(res == 1, "faulty pose accepted: " << t); what = "rejection of " + t; c.label("faulty"); }
    }
    }
    samePose(l, m, tol * (double)(k + 1), what);
  }
  LP cp(l);
  samePose(cp, m, tol * (double)n, "copy");
  if (n > 2) c.nontrivial();
}

struct Quiet
{
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
void decoder(pbt::Case& c)
{
  Quiet quiet;
  SignalFlowContext ctx(c.size(1, 32), 48000);
  M3 A = unit();
  V3 off{};
  std::unique_ptr<rcl::PositionDecoder> dec;
  auto const p = anyPos<float>(c);
  switch (c.draw(4))
  {
  case 0: dec.reset(new rcl::PositionDecoder(ctx, "dec", nullptr)); break;
  case 1: dec.reset(new rcl::PositionDecoder(ctx, "dec", nullptr, p)); off = comp(p); break;
  case 2: { auto const q = anyRot<float>(c, A); off = comp(p); dec.reset(new rcl::PositionDecoder(ctx, "dec", nullptr, p, q)); break; }
  default:
  {
    LP::OrientationYPR const o{{(float)angleValue(c, PI), (float)angleValue(c, PI), (float)angleValue(c, PI)}};
    A = ypr(o[0], o[1], o[2]);
    off = comp(p);
    dec.reset(new rcl::PositionDecoder(ctx, "dec", nullptr, p, o));
  }
  }
  vflow::Rig rig(*dec);
  auto& out = rig.dblOut("positionOutput");
  out.resetChanged();
  Pose cur;
  bool have = false;
  std::size_t const blocks = c.wide(1, 6, 40);
  std::size_t total = 0;
  for (std::size_t b = 0; b < blocks; ++b)
  {
    std::size_t const n = c.wide(0, 4, 20);
    Pose best;
    bool found = false;
    c.note() << "block " << b << "\n";
    for (std::size_t k = 0; k < n; ++k)
    {
      std::string t;
      Pose q;
      bool const ok = poseText(c, t, q, c.chance(20));
      c.note() << (ok ? "" : "<faulty> ") << t << "\n";
      rig.enqueue("messageInput", pml::StringParameter(t));
      if (!ok) continue;
      ++total;
      // the listener with the lowest id counts, with its latest position
      if (!found || q.face < best.face || (q.face == best.face && q.time >= best.time)) { best = q; found = true; }
    }
    c.flushNote();
    rig.process({});
    if (found)
    {
      cur = best;
      cur.p = mul(A, cur.p);
      for (int i = 0; i < 3; ++i) cur.p[i] += off[i];
      cur.R = mul(A, cur.R);
      have = true;
    }
    PBT_CHECK(out.changed() == found, (found ? "new position not signalled" : "position signalled without a valid message"));
    out.resetChanged();
    if (have) samePose(static_cast<LP const&>(out.data()), cur, 1e-4, "block " + std::to_string(b));
  }
  if (total >= 2) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  pbt::Spec s;
  s.rule = "random rotations and positions; pose history of more than two operations; at least two valid tracker messages";
  s.subs = {{"rotations", rotations, 60000, 1500000}, {"positions", positions, 60000, 1500000}, {"pose", pose, 20000, 500000}, {"decoder", decoder, 12000, 300000}};
  s.assumptions = {"yaw/pitch/roll are not compared close to gimbal lock", "positions that are (nearly) opposite are not interpolated"};
  return pbt::run(argc, argv, s);
}
