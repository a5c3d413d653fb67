// C14: the inertial models: state dynamics and measurements
#include "models.hpp"
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
using namespace vp;
using namespace stateObservation;
using flexibilityEstimation::IMUFixedContactDynamicalSystem;
using flexibilityEstimation::StableIMUFixedContactDynamicalSystem;
namespace
{
// state with a rotation vector: position, orientation, linear and angular velocity, linear and angular acceleration
struct State
{
  bool zero, still = false;
  V3 p, o, v, w, a, e;
  static State any(const std::string & n, bool zeroRotation = false)
  {
    State s;
    s.p = vec3(n + "p");
    s.zero = zeroRotation;
    s.o = zeroRotation ? V3(V3::Zero()) : nonzero3(n + "o", 1.5);
    s.v = vec3(n + "v");
    s.w = vec3(n + "w");
    s.a = vec3(n + "a");
    s.e = vec3(n + "e");
    return s;
  }
  Vec all() const
  {
    Vec x(18);
    x << p, o, v, w, a, e;
    return x;
  }
  Q4 q() const
  {
    return zero ? Q4(R(1), R(0), R(0), R(0)) : expQ(o);
  }
};
// every nonzero vector, by its first nonzero component
void firstNonzero(V3 & v)
{
  long c = pick("firstNonzero", 0, 2);
  for(long i = 0; i < c; ++i) v(i) = R(0);
  assumeNe(v(c), R(0));
  assumeAngle(v);
}
// a rotation vector that first differs from another one in some component
V3 differing(const std::string & n, const V3 & ref)
{
  long c = pick(n + ".differsIn", 0, 2);
  V3 v = vec3(n, 1.5);
  for(long i = 0; i < c; ++i) v(i) = ref(i);
  assumeNe(v(c), ref(c));
  assumeAngle(v);
  return v;
}
State start()
{
  State s = State::any("s", pick("zero", 0, 1));
  if(!s.zero) firstNonzero(s.o);
  return s;
}
// no rotation at all over the period
void mayStandStill(State & s, const R & dt, long b)
{
  s.still = b == 0 && pick("still", 0, 1);
  if(s.still) s.w = s.e * R(-dt / 2);
}
// constant acceleration over one period (the integration has its own contract, C08), then the rotation vector; the
// accelerations of the next state are the caller's
Vec predict(const State & s, const V3 & a, const V3 & e, const R & dt, const V3 & an, const V3 & en)
{
  Vector3 p = s.p, v = s.v, w = s.w;
  Quaternion q = s.q();
  if(!s.still) assumeAngle(V3(s.w * dt + e * R(dt * dt / 2)));
  kine::integrateKinematics(p, v, Vector3(a), q, w, Vector3(e), dt);
  machine(fabs(q.w()) > 1e-3);
  V3 im(q.x(), q.y(), q.z());
  assumeLt(R(0), R(im.squaredNorm()));
  assumeLt(R(0), R(im.norm()));
  assumeLt(R(1e-12), R(im.norm())); // below, the rotation vector is a rounding matter
  Vec x(18);
  x << p, logQ(q), v, w, an, en;
  return x;
}
// the common interface: sizes, noises, refusals
template<class M>
void interface(M & m, long ns, long nu, long nm)
{
  ensure("sizes", m.getStateSize() == ns && m.getInputSize() == nu && m.getMeasurementSize() == nm);
  Noise e, f;
  ensure("no noise at first", m.getProcessNoise() == nullptr && m.getMeasurementNoise() == nullptr);
  m.setProcessNoise(&e);
  m.setMeasurementNoise(&f);
  ensure("noises", m.getProcessNoise() == &e && (m.getMeasurementNoise() == &f || nm == 0));
  m.resetProcessNoise();
  ensure("only the process noise is removed", m.getProcessNoise() == nullptr && (nm == 0 || m.getMeasurementNoise() == &f));
  m.setProcessNoise(&e);
  m.resetMeasurementNoise();
  ensure("only the measurement noise is removed", m.getMeasurementNoise() == nullptr && m.getProcessNoise() == &e);
  ensure("size checks", m.checkStateVector(Vec::Zero(ns)) && !m.checkStateVector(Vec::Zero(ns + 1))
                            && m.checkInputvector(Vec::Zero(nu)) && !m.checkInputvector(Vec::Zero(nu + 1)));
  refuses("a state of another size", [&] { m.stateDynamics(Vec::Zero(ns + 1), Vec::Zero(nu), 0); });
  m.resetProcessNoise();
}
// the assumptions made while computing what is expected come first
template<class M>
Vec noisy(M & m, const Vec & x, const Vec & u, Noise & e, bool mayBeNoisy)
{
  long how = mayBeNoisy ? pick("noise", 0, 2) : 0;
  if(how) m.setProcessNoise(&e);
  if(how == 2) m.resetProcessNoise();
  Vec r = m.stateDynamics(x, u, 2);
  ensure("one draw of the process noise per step", e.draws == (how == 1));
  return r;
}
Vec withNoise(const Vec & x, Noise & e)
{
  return e.draws ? e.last(x) : x;
}
// something else was computed before: the caches must not matter
template<class M>
long before(M & m, const State & s, long nu)
{
  if(s.zero)
  {
    // no rotation, after a rotation or not
    if(!pick("before", 0, 1)) return 0;
    State o = State::any("B");
    Vec u = vec("Bu", nu);
    o.o = V3(R(0.5), R(-1), R(0.25));
    if(nu == 15) u.segment(3, 3) = V3(R(0), R(0), R(0));
    m.measureDynamics(o.all(), u, 1);
    return 4;
  }
  long b = s.o.x() == R(0) ? 0 : pick("before", 0, 3);
  if(b == 0) return b;
  State o = State::any("B");
  Vec u = vec("Bu", nu);
  o.o = b == 3 ? s.o : b == 2 ? V3(R(1), R(0), R(0)) : differing("Bo", s.o); // the same orientation, or another one
  if(b == 2)
  {
    o.w = o.e = V3::Zero();
    assumeNe(s.o.x(), R(1));
  }
  if(nu == 15)
  {
    u.segment(3, 3) = V3(R(1), R(0.5), R(0));
    if(b != 2) assumeNe(o.o.x(), R(1));
    assumeNe(s.o.x(), R(1));
  }
  if(b == 2)
    m.stateDynamics(o.all(), u, 1);
  else
    m.measureDynamics(o.all(), u, 1);
  return b;
}
} // namespace
CONTRACT(imu_state, "IMUDynamicalSystem::stateDynamics, setSamplingPeriod")
{
  IMUDynamicalSystem m;
  State s = start();
  long b = before(m, s, 6);
  R dt = pos("dt", 0.5);
  m.setSamplingPeriod(dt);
  mayStandStill(s, dt, b);
  Noise e;
  Vec u = vec("u", 6), x = predict(s, s.a, s.e, dt, u.head(3), u.tail(3)), r = noisy(m, s.all(), u, e, s.zero && !s.still);
  ensureEq("constant acceleration, then the input accelerations", r, withNoise(x, e));
}
CONTRACT(imu_default_period, "IMUDynamicalSystem::stateDynamics (period of one second by default)")
{
  IMUDynamicalSystem m;
  IMUMagnetometerDynamicalSystem g;
  State s = State::any("s");
  Vec u = vec("u", 6), x = predict(s, s.a, s.e, R(1), u.head(3), u.tail(3));
  ensureEq("imu", m.stateDynamics(s.all(), u, 0), x);
  x.tail(6).setZero();
  ensureEq("with magnetometer", g.stateDynamics(s.all(), Vec(), 0), x);
}
CONTRACT(imu_measure, "IMUDynamicalSystem::measureDynamics")
{
  IMUDynamicalSystem m;
  State s = State::any("s", pick("zero", 0, 1));
  long b = before(m, s, 6);
  Noise e;
  bool n = b == 0 && pick("noisy", 0, 1);
  if(n) m.setMeasurementNoise(&e);
  Vec y = imuMeasure(rotOf(s.q()), s.a, s.w), r = m.measureDynamics(s.all(), vec("u", 6), 3);
  ensureEq("accelerometer and gyrometer", r, n ? e.last(y) : y);
  ensure("one draw of the measurement noise", e.draws == n);
}
CONTRACT(imu_interface, "IMUDynamicalSystem sizes, noises and refusals")
{
  IMUDynamicalSystem m;
  interface(m, 18, 6, 6);
  refuses("an input of another size", [&] { m.stateDynamics(Vec::Zero(18), Vec::Zero(5), 0); });
  refuses("measuring a state of another size", [&] { m.measureDynamics(Vec::Zero(19), Vec::Zero(6), 0); });
}
CONTRACT(magneto_state, "IMUMagnetometerDynamicalSystem::stateDynamics")
{
  IMUMagnetometerDynamicalSystem m;
  State s = start();
  long b = before(m, s, 0);
  R dt = pos("dt", 0.5);
  m.setSamplingPeriod(dt);
  mayStandStill(s, dt, b);
  Noise e;
  Vec x = predict(s, s.a, s.e, dt, V3::Zero(), V3::Zero()), r = noisy(m, s.all(), Vec(), e, s.zero && !s.still);
  ensureEq("constant acceleration, then none", r, withNoise(x, e));
}
CONTRACT(magneto_measure, "IMUMagnetometerDynamicalSystem::measureDynamics")
{
  IMUMagnetometerDynamicalSystem m;
  State s = State::any("s", pick("zero", 0, 1));
  long b = before(m, s, 0);
  Noise e;
  bool n = b == 0 && pick("noisy", 0, 1);
  if(n) m.setMeasurementNoise(&e);
  M3 r = rotOf(s.q());
  Vec y(9), z = m.measureDynamics(s.all(), Vec(), 3);
  y << imuMeasure(r, s.a, s.w), r.transpose() * magneticField();
  ensureEq("accelerometer, gyrometer and magnetometer", z, n ? e.last(y) : y);
}
CONTRACT(magneto_interface, "IMUMagnetometerDynamicalSystem sizes, noises and refusals")
{
  IMUMagnetometerDynamicalSystem m;
  interface(m, 18, 0, 9);
  refuses("measuring a state of another size", [&] { m.measureDynamics(Vec::Zero(19), Vec(), 0); });
}
namespace
{
template<class M>
void contactMeasure()
{
  M m(pos("dt", 0.5));
  bool zero = pick("zero", 0, 1);
  State s = State::any("s", zero);
  long b = before(m, s, 15);
  long nc = b ? 1 : pick("contacts", 0, 2);
  if(b == 0 && pick("renumbered", 0, 1))
  {
    m.setContactsNumber(3);
    m.setContactPosition(2, vec3("old"));
  }
  m.setContactsNumber(nc);
  ensure("measurement size", m.getMeasurementSize() == 6 + 3 * nc);
  std::vector<V3> c;
  for(long i = 0; i < nc; ++i)
  {
    c.push_back(vec3("c" + std::to_string(i)));
    m.setContactPosition(i, c[i]);
  }
  refuses("a contact out of range", [&] { m.setContactPosition(nc, vec3("out")); });
  V3 pc = vec3("pc"), oc = zero || pick("otherControl", 0, 1) ? differing("oc", s.o) : s.o, vc = vec3("vc"), wc = vec3("wc"), ac = vec3("ac");
  Vec u(15);
  u << pc, oc, vc, wc, ac;
  Noise e;
  bool n = b == 0 && pick("noisy", 0, 1);
  if(n) m.setMeasurementNoise(&e);
  Vec r = m.measureDynamics(s.all(), u, 3);
  M3 F = rotOf(s.q());
  V3 rp = F * pc, rv = F * vc;
  V3 acc = crossOf(s.e, rp) + crossOf(s.w, crossOf(s.w, rp)) + R(2) * crossOf(s.w, rv) + s.a + F * ac;
  V3 w = s.w + F * wc;
  Vec y = imuMeasure(rotOf(mulQ(s.q(), expQ(oc))), acc, w);
  if(n) y = e.last(y);
  ensureEq("sensor carried by the flexibility", r.head(6), y);
  ensure("rows", r.size() == 6 + 3 * nc);
  for(long i = 0; i < nc; ++i) ensureEq("displacement of the contact", r.segment(6 + 3 * i, 3), F * c[i] + s.p - c[i]);
}
} // namespace
CONTRACT(contact_state, "IMUFixedContactDynamicalSystem::stateDynamics")
{
  R dt = pos("dt", 0.5);
  IMUFixedContactDynamicalSystem m(R(1));
  State s = start();
  long b = before(m, s, 15);
  m.setSamplingPeriod(dt);
  mayStandStill(s, dt, b);
  Noise e;
  Vec x = predict(s, s.a, s.e, dt, s.a, s.e), r = noisy(m, s.all(), vec("u", 15), e, s.zero && !s.still);
  ensureEq("constant acceleration, kept", r, withNoise(x, e));
}
CONTRACT(contact_measure, "IMUFixedContactDynamicalSystem::measureDynamics, setContactsNumber, setContactPosition")
{
  contactMeasure<IMUFixedContactDynamicalSystem>();
}
CONTRACT(contact_interface, "IMUFixedContactDynamicalSystem sizes, noises and refusals")
{
  IMUFixedContactDynamicalSystem m(0.1);
  interface(m, 18, 15, 6);
  Vec x = Vec::Zero(18), u = Vec::Zero(15);
  x.head(3) = vec3("p");
  x.segment(6, 3) = vec3("v");
  x.segment(12, 3) = vec3("a");
  ensureEq("the period given first", Vec(m.stateDynamics(x, u, 0).head(3)),
           Vec(x.head(3) + x.segment(6, 3) * R(0.1) + x.segment(12, 3) * R(0.005)));
  refuses("measuring with an input of another size", [&] { m.measureDynamics(Vec::Zero(18), Vec::Zero(16), 0); });
}
CONTRACT(stable_state, "StableIMUFixedContactDynamicalSystem::stateDynamics, setSamplingPeriod")
{
  R dt = pos("dt", 0.5);
  StableIMUFixedContactDynamicalSystem m(R(1));
  State s = start();
  long b = before(m, s, 15);
  m.setSamplingPeriod(dt);
  Noise e;
  // second-order return to rest: natural frequency 5, damping ratio 0.1
  V3 a = R(-25) * s.p - s.v, d = R(-25) * s.o - s.w;
  Vec x = predict(s, a, d, dt, a, d), r = noisy(m, s.all(), vec("u", 15), e, s.zero && !s.still);
  ensureEq("spring-damper accelerations, integrated and stored", r, withNoise(x, e), 1e-5);
}
CONTRACT(stable_measure, "StableIMUFixedContactDynamicalSystem::measureDynamics, setContactsNumber, setContactPosition")
{
  contactMeasure<StableIMUFixedContactDynamicalSystem>();
}
CONTRACT(stable_interface, "StableIMUFixedContactDynamicalSystem sizes, noises and refusals")
{
  StableIMUFixedContactDynamicalSystem m(0.1);
  interface(m, 18, 15, 6);
  Vec x = Vec::Zero(18), u = Vec::Zero(15);
  x.head(3) = vec3("p");
  x.segment(6, 3) = vec3("v");
  ensureEq("the period given first", Vec(m.stateDynamics(x, u, 0).head(3)),
           Vec(x.head(3) + x.segment(6, 3) * R(0.1) + (R(-25) * x.head(3) - x.segment(6, 3)) * R(0.005)));
}
CONTRACT(pendulum, "BidimElasticInvPendulum::stateDynamics")
{
  BidimElasticInvPendulum m;
  R M = R(1), h = R(1), k = R(0), dt = R(1);
  if(pick("configured", 0, 1))
  {
    m.setMass(M = pos("m"));
    m.setHeight(h = pos("h"));
    m.setElasticity(k = in("k", 0, 5));
    m.setSamplingPeriod(dt = pos("dt", 0.5));
  }
  R p = in("p"), t = in("t"), v = in("v"), w = in("w"), a = in("a");
  Vec x(4), u(1);
  x << p, t, v, w;
  u << a;
  Noise e;
  Vec r = noisy(m, x, u, e, true);
  // angular momentum of the mass at (p, h) about the joint: d/dt M ((p^2 + h^2) w - h v) = torques
  // equation of motion: M (p^2 + h^2) w' + 2 M p v w - M h a = -k t - M g (p cos t - h sin t)
  if(e.draws == 0)
  {
    ensureEq("position", r(0), R(p + dt * v));
    ensureEq("angle", r(1), R(t + dt * w));
    ensureEq("velocity", r(2), R(v + dt * a));
    R wd = (r(3) - w) / dt;
    ensureEq("angular momentum balance", R(M * (p * p + h * h) * wd + 2 * M * p * v * w - M * h * a),
             R(-k * t - M * R(9.8) * (p * cos(t) - h * sin(t))), 1e-5);
  }
  else
  {
    Noise none;
    m.resetProcessNoise();
    ensureEq("process noise", r, e.last(m.stateDynamics(x, u, 2)));
  }
  ensure("no measurement", m.measureDynamics(x, u, 0).size() == 0);
}
CONTRACT(pendulum_interface, "BidimElasticInvPendulum sizes, noises and refusals")
{
  BidimElasticInvPendulum m;
  interface(m, 4, 1, 0);
  refuses("an input of another size", [&] { m.stateDynamics(Vec::Zero(4), Vec::Zero(2), 0); });
}
