// C15: the multiplicative inertial model: quaternion state, tangent space, Jacobians
#include "models.hpp"
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
struct State
{
  V3 p, v, w, a, e;
  Q4 q;
  static State any(const std::string & n)
  {
    State s;
    s.p = vec3(n + "p");
    s.q = unitQ(n + "q");
    s.v = vec3(n + "v");
    s.w = vec3(n + "w");
    s.a = vec3(n + "a");
    s.e = vec3(n + "e");
    return s;
  }
  Vec all() const
  {
    Vec x(19);
    x << p, q.x(), q.y(), q.z(), q.w(), v, w, a, e;
    return x;
  }
};
// the angular velocity that makes the rotation over the period d
V3 through(const V3 & d, const V3 & e, const R & dt)
{
  return (d - e * R(dt * dt / 2)) / dt;
}
} // namespace
CONTRACT(state, "IMUMltpctiveDynamicalSystem::stateDynamics")
{
  IMUMltpctiveDynamicalSystem m;
  State s = State::any("s");
  R dt = R(1);
  if(pick("period", 0, 1)) m.setSamplingPeriod(dt = pos("dt", 0.5));
  V3 d = V3::Zero();
  if(pick("rotating", 0, 1)) d = nonzero3("d");
  s.w = through(d, s.e, dt);
  Q4 dq = d.x() == R(0) && d.y() == R(0) && d.z() == R(0) ? Q4(R(1), R(0), R(0), R(0)) : expQ(d);
  Vec u = vec("u", 6), x = s.all(), xn(19);
  bool scaled = pick("notNormalised", 0, 1);
  R scale(1);
  if(scaled)
  {
    scale = pos("scale", 3, 0.1);
    assumeS(scale * scale - 1 - R(2e-6), pick("longer", 0, 1) ? 4 : 7);
    if(!(scale * scale > R(1 + 2e-6))) assumeLt(scale * scale, R(1 - 2e-6));
    x.segment(3, 4) *= scale;
  }
  xn << s.p + s.v * dt + s.a * R(dt * dt / 2), v4(mulQ(dq, s.q)), s.v + s.a * dt, s.w + s.e * dt, u;
  Noise e;
  long how = pick("noise", 0, 2);
  if(how) m.setProcessNoise(&e);
  if(how == 2) m.resetProcessNoise();
  Vec r = m.stateDynamics(x, u, 4);
  ensure("one draw of the process noise", e.draws == (how == 1));
  ensureEq("constant acceleration, unit orientation, then the input accelerations", r, how == 1 ? e.last(xn) : xn);
}
CONTRACT(measure, "IMUMltpctiveDynamicalSystem::measureDynamics")
{
  IMUMltpctiveDynamicalSystem m;
  State s = State::any("s");
  if(pick("before", 0, 1)) m.measureDynamics(State::any("B").all(), vec("Bu", 6), 1);
  Noise e;
  bool n = pick("noisy", 0, 1);
  if(n) m.setMeasurementNoise(&e);
  Vec y = imuMeasure(rotOf(s.q), s.a, s.w), r = m.measureDynamics(s.all(), vec("u", 6), 3);
  ensureEq("accelerometer and gyrometer", r, n ? e.last(y) : y);
}
CONTRACT(sizes_noises, "IMUMltpctiveDynamicalSystem sizes, noises and refusals")
{
  IMUMltpctiveDynamicalSystem m;
  ensure("sizes", m.getStateSize() == 19 && m.getInputSize() == 6 && m.getMeasurementSize() == 6);
  Noise e, f;
  ensure("no noise at first", m.getProcessNoise() == nullptr && m.getMeasurementNoise() == nullptr);
  m.setProcessNoise(&e);
  m.setMeasurementNoise(&f);
  ensure("noises", m.getProcessNoise() == &e && m.getMeasurementNoise() == &f);
  m.resetMeasurementNoise();
  ensure("only the measurement noise is removed", m.getMeasurementNoise() == nullptr && m.getProcessNoise() == &e);
  m.setMeasurementNoise(&f);
  m.resetProcessNoise();
  ensure("only the process noise is removed", m.getMeasurementNoise() == &f && m.getProcessNoise() == nullptr);
  refuses("a longer state", [&] { m.stateDynamics(Vec::Zero(20), Vec::Zero(6), 0); });
  refuses("measuring a longer state", [&] { m.measureDynamics(Vec::Zero(20), Vec::Zero(6), 0); });
  refuses("a state of another size", [&] { m.stateDynamics(Vec::Zero(18), Vec::Zero(6), 0); });
  refuses("an input of another size", [&] { m.stateDynamics(Vec::Zero(19), Vec::Zero(5), 0); });
  refuses("measuring a state of another size", [&] { m.measureDynamics(Vec::Zero(18), Vec::Zero(6), 0); });
}
// tangent order: position, orientation, linear velocity, angular velocity, linear acceleration, angular acceleration
CONTRACT(jacobian_state, "IMUMltpctiveDynamicalSystem::getAMatrix")
{
  IMUMltpctiveDynamicalSystem m;
  State s = State::any("s");
  R dt = R(1);
  V3 d = nonzero3("d");
  if(pick("before", 0, 1))
  {
    m.setSamplingPeriod(R(0.5));
    State b = s;
    b.w = through(V3(vec3("Bd")), b.e, R(0.5));
    m.getAMatrix(b.all());
    m.setSamplingPeriod(R(1));
  }
  if(pick("period", 0, 1)) m.setSamplingPeriod(dt = pos("dt", 0.5));
  s.w = through(d, s.e, dt);
  Mat A = Mat::Identity(18, 18);
  // the derivative of exp(d + dd) exp(dr) exp(d)^T: Rodrigues and the left Jacobian of the exponential
  R n = d.norm();
  M3 S = skewOf(d), J = I3() + S * R((1 - cos(n)) / (n * n)) + (S * S) * R((n - sin(n)) / (n * n * n));
  A.block(0, 6, 3, 3) = I3() * dt;
  A.block(0, 12, 3, 3) = I3() * R(dt * dt / 2);
  A.block(3, 3, 3, 3) = expM(d);
  A.block(3, 9, 3, 3) = J * dt;
  A.block(3, 15, 3, 3) = J * R(dt * dt / 2);
  A.block(6, 12, 3, 3) = I3() * dt;
  A.block(9, 15, 3, 3) = I3() * dt;
  A.block(12, 12, 6, 6).setZero(); // the next accelerations are the inputs
  machine(n > 1e-3);
  ensureEq("derivative of the dynamics in the tangent space", m.getAMatrix(s.all()), A, 1e-5);
}
CONTRACT(jacobian_measure, "IMUMltpctiveDynamicalSystem::getCMatrix")
{
  IMUMltpctiveDynamicalSystem m;
  State s = State::any("s");
  if(pick("before", 0, 1)) m.getCMatrix(State::any("B").all());
  Mat C = Mat::Zero(6, 18);
  M3 Rt = rotOf(s.q).transpose();
  C.block(0, 3, 3, 3) = Rt * skewOf(s.a + gravityVec());
  C.block(0, 12, 3, 3) = Rt;
  C.block(3, 3, 3, 3) = Rt * skewOf(s.w);
  C.block(3, 9, 3, 3) = Rt;
  ensureEq("derivative of the measurement in the tangent space", m.getCMatrix(s.all()), C);
}
CONTRACT(derivative_measure, "IMUMltpctiveDynamicalSystem::getCMatrix, measureDynamics, stateSum (first order)")
{
  // along any tangent direction t, d/ds measure(x + s t) at s = 0 is C t: the measurement is the transposed rotation
  // applied to affine functions of s, and the derivative of exp(s r) at 0 is the skew matrix of r
  IMUMltpctiveDynamicalSystem m;
  State s = State::any("s");
  Vec t = vec("t", 18);
  t.segment(3, 3).setZero();
  Vec x2;
  m.stateSum(s.all(), t, x2);
  Vec u = vec("u", 6);
  ensureEq("exact in the linear directions", m.measureDynamics(x2, u, 0),
           m.measureDynamics(s.all(), u, 0) + m.getCMatrix(s.all()) * t);
}
CONTRACT(sum, "IMUMltpctiveDynamicalSystem::stateSum")
{
  IMUMltpctiveDynamicalSystem m;
  State s = State::any("s");
  Vec t = vec("t", 18), r = vec("old", pick("size", 0, 1) ? 19 : 3);
  Q4 q = s.q;
  if(pick("rotating", 0, 1))
  {
    V3 d = nonzero3("d");
    t.segment(3, 3) = d;
    q = mulQ(expQ(d), s.q);
  }
  else
    t.segment(3, 3).setZero();
  m.stateSum(s.all(), t, r);
  Vec x(19);
  x << s.p + t.head(3), v4(q), s.v + t.segment(6, 3), s.w + t.segment(9, 3), s.a + t.segment(12, 3), s.e + t.tail(3);
  ensureEq("sums, and the exponential of the rotation in the world frame", r, x);
}
CONTRACT(difference, "IMUMltpctiveDynamicalSystem::stateDifference")
{
  IMUMltpctiveDynamicalSystem m;
  State b = State::any("b"), a = State::any("a");
  Q4 d = unitQ("d");
  assumeLt(R(1e-12), R(V3(d.x(), d.y(), d.z()).norm()));
  machine(fabs(d.w()) > 1e-3);
  a.q = mulQ(d, b.q);
  Vec r = vec("old", pick("size", 0, 1) ? 18 : 3), x(18);
  m.stateDifference(a.all(), b.all(), r);
  x << a.p - b.p, logQ(d), a.v - b.v, a.w - b.w, a.a - b.a, a.e - b.e;
  ensureEq("differences, and the rotation vector from the second to the first", r, x);
  m.stateDifference(b.all(), b.all(), r);
  ensureEq("no difference", r, Vec::Zero(18));
}
CONTRACT(sum_of_difference, "IMUMltpctiveDynamicalSystem::stateSum, stateDifference")
{
  IMUMltpctiveDynamicalSystem m;
  State b = State::any("b"), a = State::any("a");
  Q4 d = unitQ("d");
  assumeLt(R(1e-12), R(V3(d.x(), d.y(), d.z()).norm()));
  machine(fabs(d.w()) > 1e-3);
  a.q = mulQ(d, b.q);
  Vec t, r;
  m.stateDifference(a.all(), b.all(), t);
  assumeAngle(V3(t.segment(3, 3)));
  m.stateSum(b.all(), t, r);
  Q4 q(r(6), r(3), r(4), r(5));
  ensureEq("adding the difference gives the first state: orientation", rotOf(q), rotOf(a.q));
  Vec x = a.all();
  x.segment(3, 4).setZero();
  r.segment(3, 4).setZero();
  ensureEq("adding the difference gives the first state", r, x);
}
