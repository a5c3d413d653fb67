// Reference mathematics the contracts are written against.  Nothing here comes from /repo.
#pragma once
#include "contract.hpp"
namespace vp
{
using std::atan2;
using std::cos;
using std::exp;
using std::sin;
using std::sqrt;
inline M3 I3()
{
  return M3::Identity();
}
inline V3 ez()
{
  return V3(R(0), R(0), R(1));
}
// a nonzero rotation vector (the zero vector has its own contracts)
inline V3 nonzero3(const std::string & n, double a = 2)
{
  V3 v = vec3(n, a);
  assumeLt(R(1e-30), v.squaredNorm());
  return v;
}
inline void assumeAngle(const V3 & v)
{
  assumeLt(R(1e-30), v.squaredNorm());
}
// exponential map of a nonzero rotation vector (Rodrigues)
inline M3 expM(const V3 & v)
{
  R n = v.norm();
  M3 s = skewOf(v);
  return I3() + s * R(sin(n) / n) + (s * s) * R((1 - cos(n)) / (n * n));
}
inline Q4 expQ(const V3 & v)
{
  R n = v.norm();
  R k = sin(n / 2) / n;
  return Q4(R(cos(n / 2)), v.x() * k, v.y() * k, v.z() * k);
}
// the same exponential written with half angles
inline M3 expMh(const V3 & v)
{
  R n = v.norm();
  R h = sin(n / 2), c = cos(n / 2);
  M3 s = skewOf(v);
  return I3() + s * R(2 * h * c / n) + (s * s) * R(2 * h * h / (n * n));
}
// Hamilton product
inline Q4 mulQ(const Q4 & a, const Q4 & b)
{
  return Q4(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(),
            a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
            a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(),
            a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
inline Vec v4(const Q4 & q)
{
  Vec v(4);
  v << q.x(), q.y(), q.z(), q.w();
  return v;
}
inline Q4 conjQ(const Q4 & q)
{
  return Q4(q.w(), -q.x(), -q.y(), -q.z());
}
// principal logarithm (angle in [0, pi])
inline V3 logQ(const Q4 & q)
{
  V3 u(q.x(), q.y(), q.z());
  R n2 = u.squaredNorm();
  if(!(n2 > R(0))) return V3(R(0), R(0), R(0));
  R n = u.norm();
  bool neg = q.w() < R(0);
  R w = neg ? R(-q.w()) : R(q.w());
  R k = 2 * atan2(n, w) / n;
  if(neg) k = -k;
  return V3(u.x() * k, u.y() * k, u.z() * k);
}
inline M3 rotX(const R & a)
{
  M3 m;
  m << R(1), R(0), R(0), R(0), cos(a), -sin(a), R(0), sin(a), cos(a);
  return m;
}
inline M3 rotY(const R & a)
{
  M3 m;
  m << cos(a), R(0), sin(a), R(0), R(1), R(0), -sin(a), R(0), cos(a);
  return m;
}
inline M3 rotZ(const R & a)
{
  M3 m;
  m << cos(a), -sin(a), R(0), sin(a), cos(a), R(0), R(0), R(0), R(1);
  return m;
}
inline V3 crossOf(const V3 & a, const V3 & b)
{
  return V3(a.y() * b.z() - a.z() * b.y(), a.z() * b.x() - a.x() * b.z(), a.x() * b.y() - a.y() * b.x());
}
inline R pi()
{
  return R(M_PI);
}
inline void ensureRotation(const std::string & l, const M3 & m)
{
  ensureEq(l + ": orthogonal", m.transpose() * m, I3());
  ensureEq(l + ": det 1", R(m.determinant()), R(1));
}
} // namespace vp
