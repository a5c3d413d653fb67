// C16: tilt estimator: one step of the complementary filter, its unit tilt, and its agreement with the motion
// ASSUMES: norm of the tilt before normalization not zero
#include "ref.hpp"
#include <state-observation/observer/tilt-estimator.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
struct Params
{
  R alpha, beta, gamma, dt;
  V3 p, v, w, vc;
  Q4 q;
};
Params anyParams(TiltEstimator & e, const R & a, const R & b, const R & c, bool defaults)
{
  Params s;
  s.alpha = a;
  s.beta = b;
  s.gamma = c;
  s.dt = R(0.005);
  s.p = s.v = s.w = s.vc = V3::Zero();
  s.q = Q4(R(1), R(0), R(0), R(0));
  if(defaults) return s;
  s.dt = pos("dt", 0.2, 0.01);
  s.p = vec3("p");
  s.v = vec3("v");
  s.w = vec3("w");
  s.vc = vec3("vc");
  s.q = unitQ("q");
  e.setSamplingTime(s.dt);
  e.setSensorPositionInC(s.p);
  e.setSensorOrientationInC(rotOf(s.q));
  e.setSensorLinearVelocityInC(s.v);
  e.setSensorAngularVelocityInC(s.w);
  e.setControlOriginVelocityInW(s.vc);
  ensureEq("period", e.getSamplingTime(), s.dt);
  ensureEq("position", e.getSensorPositionInC(), s.p);
  ensureEq("orientation", e.getSensorOrientationInC(), rotOf(s.q));
  ensureEq("linear velocity", e.getSensorLinearVelocityInC(), s.v);
  ensureEq("angular velocity", e.getSensorAngularVelocityInC(), s.w);
  ensureEq("velocity of the control origin", e.getControlOriginVelocityInW(), s.vc);
  return s;
}
Vec step(const Params & s, const Vec & x, const V3 & ya, const V3 & yg)
{
  M3 r = rotOf(s.q).transpose();
  // velocity of the sensor in its own frame, from the motion of the control frame
  V3 x1 = r * V3(s.vc + s.v) + crossOf(V3(yg - r * s.w), V3(r * s.p)), h = x.head(3), t1 = x.segment(3, 3),
     t2 = x.tail(3), e = x1 - h;
  Vec y = x;
  const R g = R(9.8);
  y.head(3) += s.dt * V3(crossOf(h, yg) - g * t1 + ya + s.alpha * e);
  y.segment(3, 3) += s.dt * V3(crossOf(t1, yg) - s.beta * e);
  y.tail(3) += s.dt * crossOf(t2, V3(yg - s.gamma * crossOf(t2, t1)));
  return y;
}
Vec normalized(const Vec & y)
{
  Vec z = y;
  z.tail(3) = y.tail(3) / R(y.tail(3).norm());
  return z;
}
} // namespace
CONTRACT(gains, "TiltEstimator::TiltEstimator, set*, get*")
{
  R a = in("a"), b = in("b"), c = in("c");
  TiltEstimator e(a, b, c);
  ensureEq("alpha", e.getAlpha(), a);
  ensureEq("beta", e.getBeta(), b);
  ensureEq("gamma", e.getGamma(), c);
  ensure("sizes", e.getStateSize() == 9 && e.getMeasureSize() == 6 && e.getInputSize() == 0);
  e.setAlpha(b);
  ensureEq("alpha set", e.getAlpha(), b);
  e.setBeta(c);
  ensureEq("beta set", e.getBeta(), c);
  e.setGamma(a);
  ensureEq("gamma set", e.getGamma(), a);
  ensureEq("alpha kept", e.getAlpha(), b);
  ensureEq("beta kept", e.getBeta(), c);
}
CONTRACT(one_step, "TiltEstimator::oneStepEstimation_")
{
  bool defaults = pick("defaults", 0, 1), vector = pick("vector", 0, 1);
  R a = in("a"), b = in("b"), c = in("c");
  TiltEstimator e(a, b, c);
  Params s = anyParams(e, a, b, c, defaults);
  long k = pick("k", 0, 1) * 7;
  Vec x = vec("x", 9);
  V3 ya = vec3("ya"), yg = vec3("yg");
  Vec y = step(s, x, ya, yg);
  assumeLt(R(1e-12), R(y.tail(3).squaredNorm()));
  e.setState(x, k);
  if(vector)
  {
    Vec m(6);
    m << ya, yg;
    e.ZeroDelayObserver::setMeasurement(m, k + 1);
  }
  else
    e.setMeasurement(ya, yg, k + 1);
  Vec z = normalized(y);
  Vec r = e.getEstimatedState(k + 1);
  ensureEq("velocity, tilt and unit tilt of the step", r, z);
  ensureEq("current estimate", e.getCurrentEstimatedState(), z);
  ensure("current time", e.getCurrentTime() == k + 1);
  ensure("the measurement is used", e.getMeasurementsNumber() == 0);
}
CONTRACT(unit_tilt, "TiltEstimator::oneStepEstimation_ (unit tilt)")
{
  TiltEstimator e(R(2), R(0.5), in("c"));
  Params s = anyParams(e, R(2), R(0.5), in("c"), true);
  Vec x = vec("x", 9);
  V3 ya = vec3("ya"), yg = vec3("yg");
  assumeLt(R(1e-12), R(step(s, x, ya, yg).tail(3).squaredNorm()));
  e.setState(x, 0);
  e.setMeasurement(ya, yg, 1);
  ensureEq("unit tilt", R(e.getEstimatedState(1).tail(3).squaredNorm()), R(1));
}
CONTRACT(several_steps, "TiltEstimator, several measurements")
{
  R a(2), b(3), c = in("c");
  TiltEstimator e(a, b, c), f(a, b, c);
  V3 p = vec3("p");
  Vec x = vec("x", 9);
  long n = 2;
  bool reset = pick("reset", 0, 1);
  std::vector<V3> ya, yg;
  for(TiltEstimator * t : {&e, &f})
  {
    t->setSensorPositionInC(p);
    t->setState(x, 2);
  }
  for(long i = 1; i <= n; ++i)
  {
    ya.push_back(V3(in("ya" + std::to_string(i)), R(0.5), R(-1)));
    yg.push_back(V3(R(0.25), in("yg" + std::to_string(i)), R(1)));
  }
  Params s = anyParams(e, a, b, c, true);
  s.p = p;
  for(long i = 0; i < n; ++i) e.setMeasurement(ya[i], yg[i], 3 + i);
  Vec z = x;
  for(long i = 0; i < n; ++i)
  {
    // each step is the one of a fresh estimator at the same state
    TiltEstimator g(a, b, c);
    g.setSensorPositionInC(p);
    g.setState(z, 0);
    g.setMeasurement(ya[i], yg[i], 1);
    assumeLt(R(1e-12), R(step(s, z, ya[i], yg[i]).tail(3).squaredNorm()));
    z = g.getEstimatedState(1);
    f.setMeasurement(ya[i], yg[i], 3 + i);
    if(reset && i > 0) f.setState(f.getCurrentEstimatedState(), 2 + i), f.setMeasurement(ya[i], yg[i], 3 + i);
    ensureEq("one by one", f.getEstimatedState(3 + i), z);
    if(!reset)
    {
      ensureEq("all given in advance", e.getEstimatedState(3 + i), z);
      ensure("time", e.getCurrentTime() == 3 + i);
    }
  }
  ensureEq("all asked at once", e.getEstimatedState(2 + n), z);
}
CONTRACT(consistency, "TiltEstimator::oneStepEstimation_ (true motion)")
{
  // a sensor that moves with the control frame: the estimates equal to the true velocity and tilt move as the truth does
  Q4 qc = unitQ("qc"), qs = unitQ("qs");
  M3 rc = rotOf(qc), rs = rotOf(qs), r = rc * rs;
  V3 p = vec3("p"), w = vec3("w"), a = vec3("a"), vc = vec3("vc"), vs = vec3("vs"), ws = vec3("ws");
  // world velocities of the sensor
  V3 v = rc * V3(vc + vs + crossOf(w, p)), o = rc * V3(w + ws);
  R dt = pos("dt", 0.2, 0.01);
  TiltEstimator e(in("alpha"), in("beta"), in("gamma"));
  e.setSamplingTime(dt);
  e.setSensorPositionInC(p);
  e.setSensorOrientationInC(rs);
  e.setSensorLinearVelocityInC(vs);
  e.setSensorAngularVelocityInC(ws);
  e.setControlOriginVelocityInW(vc);
  V3 tilt = r.transpose() * ez(), u = r.transpose() * v, g = r.transpose() * o;
  V3 ya = r.transpose() * V3(a + R(9.8) * ez());
  Vec x(9);
  x << u, tilt, tilt;
  e.setState(x, 0);
  e.setMeasurement(ya, g, 1);
  Vec z = e.getEstimatedState(1);
  // d/dt (R^T v) = R^T a - g x R^T v, d/dt (R^T e_z) = - g x R^T e_z
  V3 du = r.transpose() * a - crossOf(g, u), dtilt = -crossOf(g, tilt);
  ensureEq("velocity", z.head(3), u + dt * du);
  ensureEq("tilt", z.segment(3, 3), tilt + dt * dtilt);
  // |tilt + dt tilt x g|^2 = 1 + dt^2 |tilt x g|^2
  ensureEq("unit tilt along it", V3(z.tail(3) * R((tilt + dt * dtilt).norm())), tilt + dt * dtilt);
}
