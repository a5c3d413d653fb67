// C25: numeric helpers: saturation, sign, derivative, normalization, finite time control, projection on rotations
// ASSUMES: square roots and vectors in exact arithmetic; the projection on rotations and tools::sqrt are sampled only
#include "ref.hpp"
#include <state-observation/tools/miscellaneous-algorithms.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
CONTRACT(clamps, "tools::clampScalar")
{
  R x = in("x"), hi = in("hi"), lo = in("lo"), l = pos("l");
  assumeLe(lo, hi);
  R c = tools::clampScalar(x, hi, lo);
  ensureLe("not above", c, hi);
  ensureLe("not below", lo, c);
  ensure("the value itself when it is inside", !(lo <= x && x <= hi) || c == x);
  ensure("a bound otherwise", (lo <= x && x <= hi) || c == hi || c == lo);
  ensure("the closest bound", !(x > hi) || c == hi);
  R s = tools::clampScalar(x, l);
  ensureLe("symmetric: not above", s, l);
  ensureLe("symmetric: not below", R(-l), s);
  ensure("symmetric: the value itself when it is inside", !(-l <= x && x <= l) || s == x);
  ensure("symmetric: the closest bound", (!(x > l) || s == l) && (!(x < -l) || s == R(-l)));
}
CONTRACT(signs, "tools::signum, square, derivate")
{
  R x = in("x"), y = in("y"), dt = pos("dt");
  int s = tools::signum(x);
  ensure("sign", (x > R(0) && s == 1) || (x < R(0) && s == -1) || (x == R(0) && s == 0));
  long i = pick("i", -2, 2);
  ensure("sign of integers", tools::signum(i) == (i > 0) - (i < 0));
  ensureEq("square", tools::square(x), R(x * x));
  ensureEq("derivative", tools::derivate(x, y, dt), R((y - x) / dt));
  Vector3 a = vec3("a"), b = vec3("b");
  ensureEq("derivative of vectors", tools::derivate<Vector3>(a, b, dt), V3((b - a) / dt));
}
CONTRACT(comparisons, "isApprox, isApproxAbs")
{
  R a = in("a"), b = in("b"), d = pos("precision"), gap = a - b, sum = a + b;
  if(gap < R(0)) gap = -gap;
  if(sum < R(0)) sum = -sum;
  machine(fabs(gap - d) > 1e-9 && fabs(gap - sum * d) > 1e-9);
  ensure("close", isApproxAbs(a, b, d) == bool(gap < d));
  ensure("close, relatively", isApprox(a, b, d) == bool(gap < sum * d));
  R close = R(1e-17), far = R(1e-3);
  ensure("default precision", isApproxAbs(R(1), R(R(1) + close)) && !isApproxAbs(R(1), R(R(1) + far)));
  ensure("default relative precision", isApprox(R(1), R(R(1) + close)) && !isApprox(R(1), R(R(1) + far)));
}
CONTRACT(normalization, "tools::checkIfNormalized, normalizedLazy")
{
  V3 v = vec3("v");
  R n = v.squaredNorm(), out = R(-1);
  const R eps = R(cst::epsilon1);
  assumeLt(R(1e-12), n);
  bool unit = n - 1 <= eps && 1 - n <= eps;
  ensure("normalized", tools::checkIfNormalized(v) == unit);
  ensure("normalized, with the norm", tools::checkIfNormalized(v, out) == unit);
  ensureEq("the squared norm", out, n);
  V3 u = tools::normalizedLazy(v);
  if(unit)
    ensureEq("kept when already unit", u, v);
  else
    ensureEq("unit vector along it", V3(u * v.norm()), v);
}
namespace
{
// the law makes e = xd - kp sign(x) sqrt|x| follow de/dt = kv sign(e) sqrt|e|, hence reach zero in finite time
void law(const R & x, const R & xd, const R & kp, const R & kv, const R & a)
{
  R sx = x > R(0) ? R(1) : R(-1), r = sqrt(R(sx * x)), e = xd - kp * sx * r;
  R de = a - kp * xd / (2 * r);
  if(e > R(0))
    ensureEq("error decreasing in finite time", de, R(kv * sqrt(e)));
  else if(e < R(0))
    ensureEq("error increasing in finite time", de, R(-kv * sqrt(R(-e))));
  else
    ensureEq("no error", de, R(0));
}
} // namespace
CONTRACT(finite_time, "tools::finiteTimeAccControl")
{
  R x = in("x"), xd = in("xd"), kp = -pos("kp"), kv = -pos("kv");
  bool defaults = pick("defaults", 0, 1);
  if(defaults) kp = kv = R(-1);
  if(pick("origin", 0, 1)) x = R(0);
  if(x == R(0))
  {
    R a = defaults ? tools::finiteTimeAccControl(x, xd) : tools::finiteTimeAccControl(x, xd, kp, kv);
    if(xd == R(0))
      ensureEq("rest at the origin", a, R(0));
    else if(xd > R(0))
      ensureEq("slows down at the origin", a, R(kv * sqrt(xd)));
    else
      ensureEq("slows down at the origin, backwards", a, R(-kv * sqrt(R(-xd))));
    return;
  }
  law(x, xd, kp, kv, defaults ? tools::finiteTimeAccControl(x, xd) : tools::finiteTimeAccControl(x, xd, kp, kv));
}
CONTRACT(finite_time_vectors, "tools::finiteTimeAccControl (vectors)")
{
  long n = pick("n", 0, 3);
  Vec x = vec("x", n), xd = vec("xd", n);
  for(long i = 0; i < n; ++i) x(i) = pos("p" + std::to_string(i)), xd(i) = i == 1 ? pos("q") : R(0);
  Vector a = tools::finiteTimeAccControl(Vector(x), Vector(xd), R(-2), R(-3));
  ensure("size", a.size() == n);
  for(long i = 0; i < n && a.size() == n; ++i)
    ensureEq("every component", a(i), tools::finiteTimeAccControl(x(i), xd(i), R(-2), R(-3)));
}
BOUNDED(projection, "kine::orthogonalizeRotationMatrix")
{
  // any matrix with separate singular values is a rotation times a symmetric matrix
  M3 r = rotOf(unitQ("q")), u = rotOf(unitQ("u")), d = M3::Zero();
  bool mirrored = pick("mirrored", 0, 1);
  d(0, 0) = pos("a", 3, 1.5);
  d(1, 1) = pos("b", 1.4, 1);
  d(2, 2) = (mirrored ? -1 : 1) * pos("c", 0.9, 0.2);
  M3 p = kine::orthogonalizeRotationMatrix(M3(r * u * d * u.transpose()));
  ensureEq("orthogonal", M3(p * p.transpose()), I3(), 1e-9);
  ensureEq("a rotation", R(p.determinant()), R(1), 1e-9);
  ensureEq("the closest rotation", p, r, 1e-7);
}
BOUNDED(constant_sqrt, "tools::sqrt")
{
  R x = pos("x", 1000, 0.001), y = pick("large", 0, 1) ? R(x * x * x * x * x) : x;
  R s = tools::sqrt(y);
  ensureEq("square root", R(s * s / y), R(1), 1e-12);
  ensureLe("positive", R(0), s);
}
