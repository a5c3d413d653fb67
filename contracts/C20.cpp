// C20: the kinetics observer: rigid-body dynamics, viscoelastic contacts, measurements, and what update() gives the filter
#include "kinetics.hpp"
using namespace vp;
namespace
{
struct Contact
{
  bool set;
  V3 p;
  Q4 q;
  M3 kl, dl, ka, da;
};
struct Scene
{
  Layout l;
  R m, dt;
  V3 c, cd, cdd, s, sd, f, t;
  M3 i, id;
  Contact k[2];
  Vec x;
};
M3 symmetric3(const std::string & n)
{
  return sym(n, 3);
}
M3 diag3(const std::string & n)
{
  M3 d = M3::Zero();
  for(int i = 0; i < 3; ++i) d(i, i) = pos(n + std::to_string(i), 3, 0.5);
  return d;
}
// contacts 0..1, IMUs 1; how much is symbolic is up to the contract
Scene any(KO & o, long contacts, bool inertia)
{
  Scene s;
  s.l.imus = 1;
  s.l.contacts = 2;
  s.m = pos("m", 5, 0.5);
  s.dt = pos("dt", 0.2, 0.01);
  s.c = vec3("c");
  s.cd = vec3("cd");
  s.cdd = vec3("cdd");
  s.s = vec3("s");
  s.sd = vec3("sd");
  s.f = vec3("f");
  s.t = vec3("t");
  if(inertia)
  {
    // at the center of mass, any symmetric invertible matrix; the inputs the inertia does not multiply are zero
    M3 j = symmetric3("j");
    for(int a = 0; a < 3; ++a) j(a, a) = pos("j" + std::to_string(a), 9, 5);
    assumeNe(R(j.determinant()), R(0));
    s.i = j - s.m * skewOf(s.c) * skewOf(s.c);
    s.cd = s.cdd = s.s = s.sd = s.f = V3::Zero();
  }
  else
  {
    s.c = V3(R(0.25), R(-0.5), R(0.75));
    s.m = R(2);
    s.i << R(9), R(1), R(0.5), R(1), R(8), R(0.25), R(0.5), R(0.25), R(7);
  }
  s.id = inertia ? M3(M3::Zero()) : symmetric3("id");
  s.x = inertia ? Vec(Vec::Zero(s.l.size())) : anyState(s.l, "x");
  if(inertia)
  {
    s.x(6) = R(1);
    s.x.segment(10, 3) = vec3("w");
  }
  o.setMass(s.m);
  o.setSamplingTime(s.dt);
  o.setCenterOfMass(s.c, s.cd, s.cdd);
  o.setAngularMomentum(s.s, s.sd);
  o.setInertiaMatrix(s.i, s.id);
  o.setAdditionalWrench(s.f, s.t);
  for(long j = 0; j < 2; ++j)
  {
    std::string n = "k" + std::to_string(j);
    Contact & k = s.k[j];
    k.set = contacts & (1 << j);
    if(!k.set) continue;
    k.p = vec3(n + "p");
    k.q = unitQ(n + "q");
    o.addContact(still(), j);
    o.updateContactWithNoSensor(pose(k.p, k.q), j);
  }
  o.setStateVector(s.x, false);
  return s;
}
void wrench(const Scene & s, V3 & f, V3 & t)
{
  f = s.f + s.x.segment(s.l.wrench(), 3);
  t = s.t + s.x.segment(s.l.wrench() + 3, 3);
  for(long j = 0; j < 2; ++j)
    if(s.k[j].set)
    {
      V3 fj = rotOf(s.k[j].q) * V3(s.x.segment(s.l.contact(j) + 7, 3));
      f += fj;
      t += rotOf(s.k[j].q) * V3(s.x.segment(s.l.contact(j) + 10, 3)) + crossOf(s.k[j].p, fj);
    }
}
V3 gravity()
{
  return gravityVec();
}
} // namespace
CONTRACT(newton, "KineticsObserver::estimateAccelerations (force)")
{
  KO o(2, 1);
  Scene s = any(o, pick("contacts", 0, 3), false);
  Kinematics k = o.estimateAccelerations();
  M3 r = rotOf(quatAt(s.x, 3));
  V3 w = r.transpose() * V3(s.x.segment(10, 3)), e = r.transpose() * V3(k.angAcc()), f, t;
  wrench(s, f, t);
  // m times the acceleration of the center of mass is the resultant force and the weight
  V3 a = r.transpose() * V3(k.linAcc()) + s.cdd + 2 * crossOf(w, s.cd) + crossOf(w, crossOf(w, s.c)) + crossOf(e, s.c);
  ensureEq("m a = F + m g", V3(s.m * a), V3(f - s.m * (r.transpose() * gravity())));
  ensureEq("position kept", k.position(), s.x.head(3));
  ensureEq("linear velocity kept", k.linVel(), s.x.segment(7, 3));
  ensureEq("angular velocity kept", k.angVel(), s.x.segment(10, 3));
  ensureEq("the same accelerations afterwards", o.getKinematics().linAcc(), k.linAcc());
}
namespace
{
void eulerLaw(bool inertia)
{
  KO o(2, 1);
  Scene s = any(o, inertia ? 0 : pick("contacts", 0, 3), inertia);
  Kinematics k = o.estimateAccelerations();
  M3 r = rotOf(quatAt(s.x, 3));
  V3 w = r.transpose() * V3(s.x.segment(10, 3)), e = r.transpose() * V3(k.angAcc()),
     a = r.transpose() * V3(k.linAcc()), f, t;
  wrench(s, f, t);
  // rate of the angular momentum about the origin of the frame, which accelerates
  V3 h = s.i * w + s.s;
  V3 rate = s.i * e + s.id * w + s.sd + crossOf(w, h) + s.m * crossOf(s.c, V3(a + r.transpose() * gravity()));
  ensureEq("rate of the angular momentum = torque of the forces and of the weight", rate, t);
}
} // namespace
CONTRACT(euler, "KineticsObserver::estimateAccelerations (torque)")
{
  eulerLaw(false);
}
CONTRACT(euler_inertia, "KineticsObserver::estimateAccelerations (torque, any mass, inertia and center of mass)")
{
  eulerLaw(true);
}

CONTRACT(kinematics_of, "KineticsObserver::getKinematicsOf")
{
  KO o(2, 1);
  Vec x = anyState({1, 2}, "x");
  o.setStateVector(x, false);
  Kinematics l = anyPose("l");
  V3 v = vec3("v"), w = vec3("w");
  l.linVel = v;
  l.angVel = w;
  Kinematics k = o.getKinematicsOf(l);
  M3 r = rotOf(quatAt(x, 3));
  V3 p = x.head(3), pv = x.segment(7, 3), pw = x.segment(10, 3), q = r * l.position();
  ensureEq("position", k.position(), p + q);
  ensureEq("orientation", k.orientation.toMatrix3(), r * l.orientation.toMatrix3());
  ensureEq("linear velocity", k.linVel(), pv + crossOf(pw, q) + r * v);
  ensureEq("angular velocity", k.angVel(), pw + r * w);
}
namespace
{
M3 gain(const std::string & n, long how, const R & def, M3 & given)
{
  // zero stands for the default value
  if(how == 0)
  {
    given = M3::Zero();
    return M3::Identity() * def;
  }
  given = mat(n, 3, 3);
  assumeLt(R(0), R(given(0, 0)));
  return given;
}
} // namespace
namespace
{
// contact < 0: any rigid-body motion; otherwise the frame starts at a given orientation with unit inertia at its center
// of mass, and turns by any angle
void dynamicsOf(long contact)
{
  KO o(2, 1);
  long given = contact < 0 ? 0 : pick("given", 0, 4);
  bool wrench = contact >= 0 && pick("wrench", 0, 1);
  Scene s;
  V3 lp = vec3("lp"), lv = vec3("lv"), lw = vec3("lw");
  Q4 lq = unitQ("lq");
  if(contact < 0)
    s = any(o, 0, false);
  else
  {
    s.l = Layout{1, 2};
    s.dt = pos("dt", 0.2, 0.01);
    o.setSamplingTime(s.dt);
    o.setMass(R(1));
    o.setCenterOfMass(V3(V3::Zero()), V3(V3::Zero()), V3(V3::Zero()));
    o.setInertiaMatrix(M3(M3::Identity()), M3(M3::Zero()));
    s.x = anyState(s.l, "x");
    Q4 q(R(0.5), R(-0.5), R(0.5), R(0.5));
    putQ(s.x, 3, q);
    long c = s.l.contact(contact);
    if(wrench)
    {
      lp = V3(R(1), R(-2), R(3));
      lq = Q4(R(0.1), R(-0.7), R(0.5), R(0.5));
    }
    else
      s.x.segment(c + 7, 6).setZero();
    // any acceleration and any angular velocity: the rotation of the step is the vector d
    V3 acc = vec3("t"), f = s.x.segment(c + 7, 3), t = s.x.segment(c + 10, 3), d = vec3("d");
    f = rotOf(lq) * f;
    t = rotOf(lq) * t + crossOf(lp, f);
    o.setAdditionalWrench(V3(vec3("f") - f), V3(acc - t - V3(s.x.segment(s.l.wrench() + 3, 3))));
    s.x.segment(10, 3) = (d - rotOf(q) * acc * R(s.dt * s.dt / 2)) / s.dt;
  }
  M3 g[4], e[4];
  const R def[4] = {KineticsObserver::linearStiffnessDefault, KineticsObserver::linearDampingDefault,
                    KineticsObserver::angularStiffnessDefault, KineticsObserver::angularDampingDefault};
  for(long i = 0; i < 4; ++i) e[i] = gain("g" + std::to_string(i), given == i + 1, def[i], g[i]);
  if(contact >= 0)
  {
    o.addContact(still(), contact, g[0], g[1], g[2], g[3]);
    Kinematics l = pose(lp, lq);
    l.linVel = lv;
    l.angVel = lw;
    o.updateContactWithNoSensor(l, contact);
    o.setStateVector(s.x, false);
  }
  Kinematics k = o.estimateAccelerations();
  V3 d = V3(s.x.segment(10, 3)) * s.dt + k.angAcc() * R(s.dt * s.dt / 2);
  assumeAngle(d);
  Vec x = s.x;
  x.head(3) += V3(s.x.segment(7, 3)) * s.dt + k.linAcc() * R(s.dt * s.dt / 2);
  x.segment(7, 3) += k.linAcc() * s.dt;
  x.segment(10, 3) += k.angAcc() * s.dt;
  Noise n;
  bool noise = !wrench && pick("noise", 0, 1);
  if(noise) o.setProcessNoise(&n);
  Vec r = o.stateDynamics(s.x, Vec(0), 0);
  k.integrate(s.dt);
  putQ(x, 3, k.orientation.toQuaternion());
  if(contact >= 0)
  {
    // spring and damper between the rest pose and the contact carried by the frame, in the frame of the contact
    long c = s.l.contact(contact);
    Kinematics l = pose(lp, lq);
    l.linVel = lv;
    l.angVel = lw;
    Kinematics a(k, l);
    M3 t = a.orientation.toMatrix3().transpose();
    V3 rest = s.x.segment(c, 3);
    Q4 turn = mulQ(a.orientation.toQuaternion(), conjQ(quatAt(s.x, c + 3)));
    x.segment(c + 7, 3) = t * (e[0] * (rest - a.position()) - e[1] * a.linVel());
    x.segment(c + 10, 3) =
        t * (e[2] * V3(turn.x(), turn.y(), turn.z()) * R(-0.5) - e[3] * a.angVel());
  }
  if(noise) x = n.of(x, 1);
  ensureEq("constant acceleration motion, wrenches of the deformed contacts, all the rest kept, noise", r, x);
}
} // namespace
CONTRACT(dynamics, "KineticsObserver::stateDynamics (motion)")
{
  dynamicsOf(-1);
}
CONTRACT(dynamics_contact, "KineticsObserver::stateDynamics (contacts)")
{
  dynamicsOf(pick("contact", 0, 1));
}
CONTRACT(measure, "KineticsObserver::measureDynamics")
{
  KO o(2, 2);
  Layout l{2, 2};
  Vec x = anyState(l, "x");
  long imu = pick("imu", 0, 2);
  bool bias = imu && pick("bias", 0, 1);
  o.setWithGyroBias(bias);
  bool w0 = pick("wrench0", 0, 1), w1 = pick("wrench1", 0, 1), abs = pick("pose", 0, 1),
       noise = !bias && w1 && pick("noise", 0, 1);
  Kinematics ik = anyPose("i");
  ik.linVel = vec3("iv");
  ik.angVel = vec3("iw");
  ik.linAcc = vec3("ia");
  Vec start = Vec::Zero(l.size());
  for(long i : {3L, l.contact(0) + 3, l.contact(1) + 3}) start(i + 3) = R(1);
  o.setStateVector(start, false);
  if(w0 || w1)
  {
    o.addContact(still(), 0);
    o.addContact(still(), 1);
  }
  Vec y(0);
  auto add = [&](const Vec & v) {
    Vec z(y.size() + v.size());
    z << y, v;
    y = z;
  };
  auto contacts = [&](bool first) {
    if(!w0 && !w1) return;
    for(long i = 0; i < 2; ++i)
      if((i ? w1 : w0) == first)
      {
        if(first)
          o.updateContactWithWrenchSensor(Vec::Zero(6), Mat::Identity(6, 6), still(), i);
        else
          o.updateContactWithNoSensor(still(), i);
      }
  };
  contacts(true);
  if(imu) o.setIMU(V3::Zero(), V3::Zero(), M3::Identity(), M3::Identity(), ik, imu - 1);
  if(abs) o.setAbsolutePoseSensor(still(), Mat::Identity(6, 6));
  contacts(false);
  long m = (imu ? 6 : 0) + (w0 ? 6 : 0) + (w1 ? 6 : 0) + (abs ? 6 : 0);
  if(m == 0) return;
  o.useFiniteDifferencesJacobians(false);
  o.a = Mat::Zero(l.tsize(), l.tsize());
  o.c = Mat::Zero(m, l.tsize());
  bool seen = false;
  o.during = [&]() {
    // the filter asks for measurements here
    seen = true;
    o.setCenterOfMass(vec3("c"), vec3("cd"), vec3("cdd"));
    M3 in;
    in << R(9), R(1), R(0.5), R(1), R(8), R(0.25), R(0.5), R(0.25), R(7);
    o.setInertiaMatrix(in, M3(M3::Zero()));
    KO e(2, 2);
    e.setCenterOfMass(vec3("c"), vec3("cd"), vec3("cdd"));
    e.setInertiaMatrix(in, M3(M3::Zero()));
    if(w0 || w1)
      for(long i = 0; i < 2; ++i)
      {
        e.addContact(still(), i);
        e.updateContactWithNoSensor(still(), i);
      }
    e.setStateVector(x, false);
    Kinematics k = e.estimateAccelerations();
    if(imu)
    {
      Kinematics g(k, ik);
      M3 t = g.orientation.toMatrix3().transpose();
      Vec v(6);
      v << t * (g.linAcc() + gravity()), t * g.angVel();
      if(bias) v.tail(3) += x.segment(l.bias(imu - 1), 3);
      add(v);
    }
    if(w0) add(x.segment(l.contact(0) + 7, 6));
    if(w1) add(x.segment(l.contact(1) + 7, 6));
    if(abs) add(x.head(7));
    Noise n;
    if(noise)
    {
      o.setMeasurementNoise(&n);
      y = n.of(y, 1);
    }
    ensureEq("specific force and angular velocity of the IMU frame, bias, wrenches, pose, noise",
             o.measureDynamics(x, Vec(0), o.getStateVectorTimeIndex() + 1), y);
    o.resetMeasurementNoise();
  };
  o.update();
  ensure("the filter measures", seen);
}
namespace
{
// the model and the arithmetics of the state, each under its own contract (C18, dynamics, measure), as arbitrary functions
Vec cat(const Vec & a, const Vec & b)
{
  Vec r(a.size() + b.size());
  r << a, b;
  return r;
}
struct Opaque : public KO
{
  Layout l;
  long m;
  Opaque(long contacts, long imus) : KO(contacts, imus), l{imus, contacts}, m(0) {}
  Vec f(const Vec & x, long k)
  {
    return ufVec("f" + std::to_string(k), l.size(), x);
  }
  Vec h(const Vec & x, long k)
  {
    return ufVec("h" + std::to_string(k), m, x);
  }
  Vec sum(const Vec & x, const Vec & t)
  {
    return ufVec("sum", l.size(), cat(x, t));
  }
  Vec diff(const Vec & x, const Vec & y)
  {
    return ufVec("diff", l.tsize(), cat(x, y));
  }
  long mt;
  Vec mdiff(const Vec & x, const Vec & y)
  {
    return ufVec("mdiff", mt, cat(x, y));
  }
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    ensure("no input", u.size() == 0);
    return f(x, k);
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    ensure("no input", u.size() == 0);
    return h(x, k);
  }
  using KineticsObserver::stateDifference;
  using KineticsObserver::stateSum;
  void stateSum(const Vector & x, const Vector & t, Vector & s)
  {
    s = sum(x, t);
  }
  void stateDifference(const Vector & x, const Vector & y, Vector & d)
  {
    d = diff(x, y);
  }
  void measurementDifference(const Vector & x, const Vector & y, Vector & d)
  {
    d = mdiff(x, y);
  }
};
} // namespace
CONTRACT(jacobians, "KineticsObserver::update (Jacobians), setFiniteDifferenceStep, computeAMatrix_, computeCMatrix_")
{
  // the filter is given the differences of the model around the state and around the prediction, component by component
  Opaque o(1, 1);
  Layout & l = o.l;
  bool contact = pick("contact", 0, 1), wrench = contact && pick("wrench", 0, 1), imu = !wrench || pick("imu", 0, 1),
       abs = pick("pose", 0, 1), finite = pick("finiteDifferences", 0, 1), step = pick("step", 0, 1);
  Vec x = anyState(l, "x"), d = Vec::Constant(l.tsize(), R(1e-6)), z(0);
  if(step)
    for(long i = 0; i < d.size(); ++i) d(i) = pos("d" + std::to_string(i));
  o.m = o.mt = (imu ? 6 : 0) + (wrench ? 6 : 0) + (abs ? 6 : 0);
  if(!o.m) return;
  if(abs) ++o.m;
  if(contact) o.addContact(still(), 0);
  o.setStateVector(x, false);
  if(imu) o.setIMU(vec3("a"), vec3("g"), anyPose("i"), 0);
  if(wrench)
    o.updateContactWithWrenchSensor(vec("w", 6), still(), 0);
  else if(contact)
    o.updateContactWithNoSensor(still(), 0);
  if(abs) o.setAbsolutePoseSensor(still());
  if(step) o.setFiniteDifferenceStep(d);
  o.useFiniteDifferencesJacobians(finite);
  o.forgetCovariance();
  long k = o.getStateVectorTimeIndex();
  refuses("no covariance, no correction", [&] { o.update(); });
  Mat A = o.getEKF().getA(), C = o.getEKF().getC();
  ensure("sizes", A.rows() == l.tsize() && A.cols() == l.tsize() && C.rows() == o.mt && C.cols() == l.tsize());
  Vec xb = o.f(x, k), yb = o.h(xb, k + 1);
  for(long i = 0; i < l.tsize(); ++i)
  {
    Vec t = Vec::Zero(l.tsize());
    t(i) = d(i);
    ensureEq("state Jacobian", Vec(A.col(i)), Vec(o.diff(o.f(o.sum(x, t), k), xb) / d(i)));
    ensureEq("measurement Jacobian", Vec(C.col(i)), Vec(o.mdiff(o.h(o.sum(xb, t), k + 1), yb) / d(i)));
  }
}
CONTRACT(measurement_noise, "KineticsObserver::update (covariance of the measurements), set*DefaultCovarianceMatrix, resetSensorsDefaultCovMat")
{
  // the filter is given one block per sensor of the iteration, in the order of the measurements
  Opaque o(2, 2);
  Layout & l = o.l;
  bool imu[2], wrench[2], abs = pick("pose", 0, 1);
  long how = pick("how", 0, 3); // given with the measurement, default given, default kept, default reset
  Mat r(0, 0);
  auto add = [&](const Mat & b) {
    Mat z = Mat::Zero(r.rows() + b.rows(), r.cols() + b.cols());
    z.topLeftCorner(r.rows(), r.cols()) = r;
    z.bottomRightCorner(b.rows(), b.cols()) = b;
    r = z;
  };
  auto c3 = [&](const std::string & n) { return M3(sym(how == 0 ? n : n.substr(0, 1), 3)); };
  auto c6 = [&](const std::string & n) { return Mat(sym(how == 0 ? n : n.substr(0, 1), 6)); };
  o.addContact(still(), 0);
  o.addContact(still(), 1);
  o.setStateVector(anyState(l, "x"), false);
  if(how == 1 || how == 3)
  {
    o.setIMUDefaultCovarianceMatrix(c3("a"), c3("g"));
    o.setContactWrenchSensorDefaultCovarianceMatrix(c6("w"));
    o.setAbsolutePoseSensorDefaultCovarianceMatrix(c6("p"));
  }
  if(how == 3) o.resetSensorsDefaultCovMat();
  auto constant = [](const R & x, const R & y) {
    Mat c = Mat::Zero(6, 6);
    for(long i = 0; i < 6; ++i) c(i, i) = i < 3 ? x : y;
    return c;
  };
  Vec v = vec("v", 6);
  for(long i = 0; i < 2; ++i)
  {
    std::string n = std::to_string(i);
    imu[i] = pick("imu" + n, 0, 1);
    if(!imu[i]) continue;
    if(how == 0)
      o.setIMU(V3(v.head(3)), V3(v.tail(3)), c3("a" + n), c3("g" + n), still(), i);
    else
      o.setIMU(V3(v.head(3)), V3(v.tail(3)), still(), i);
    if(how < 2)
    {
      add(c3("a" + n));
      add(c3("g" + n));
    }
    else
      add(constant(R(KO::acceleroVarianceDefault), R(KO::gyroVarianceDefault)));
  }
  for(long i = 0; i < 2; ++i)
  {
    std::string n = std::to_string(i);
    wrench[i] = pick("wrench" + n, 0, 1);
    if(!wrench[i])
    {
      o.updateContactWithNoSensor(still(), i);
      continue;
    }
    if(how == 0)
      o.updateContactWithWrenchSensor(v, c6("w" + n), still(), i);
    else
      o.updateContactWithWrenchSensor(v, still(), i);
    add(how < 2 ? c6("w" + n) : constant(R(KO::forceSensorVarianceDefault), R(KO::torqueSensorVarianceDefault)));
  }
  if(abs)
  {
    if(how == 0)
      o.setAbsolutePoseSensor(still(), c6("p"));
    else
      o.setAbsolutePoseSensor(still());
    add(how < 2 ? c6("p") : constant(R(KO::positionSensorVarianceDefault), R(KO::orientationSensorVarianceDefault)));
  }
  o.mt = r.rows();
  o.m = o.mt + (abs ? 1 : 0);
  if(!o.m) return;
  o.forgetCovariance();
  refuses("no covariance, no correction", [&] { o.update(); });
  ensureEq("one block per sensor", o.getEKF().getR(), r);
}
CONTRACT(update, "KineticsObserver::update")
{
  // at rest, with Jacobians that make the gain diagonal: the filter gets these measurements and covariances
  Layout l{2, 2};
  KO o(2, 2);
  long imus = pick("imus", 0, 2);
  bool wrench[2] = {bool(pick("wrench0", 0, 1)), bool(pick("wrench1", 0, 1))}, abs = pick("pose", 0, 1),
       acc = pick("acceleration", 0, 1), defaults = pick("defaults", 0, 1);
  long m = 6 * imus + (wrench[0] ? 6 : 0) + (wrench[1] ? 6 : 0) + (abs ? 6 : 0);
  if(m == 0) return;
  Vec x = Vec::Zero(l.size());
  for(long i : {3L, l.contact(0) + 3, l.contact(1) + 3}) x(i + 3) = R(1);
  for(long i = 0; i < 2; ++i) o.addContact(still(), i);
  o.setMass(R(2));
  o.setSamplingTime(R(0.5));
  o.setAdditionalWrench(R(2) * gravity(), V3::Zero());
  o.setWithAccelerationEstimation(acc);
  o.setWithUnmodeledWrench(true);
  o.setStateVector(x, false);
  o.useFiniteDifferencesJacobians(false);
  o.setStateCovarianceMat(Mat::Zero(l.tsize(), l.tsize()));
  o.setProcessNoiseCovarianceMat(Mat::Identity(l.tsize(), l.tsize()));
  o.a = Mat::Zero(l.tsize(), l.tsize());
  Vec r(m), y(m);

  auto six = [](double a, double b) {
    Mat c = Mat::Identity(6, 6) * R(a);
    for(int i = 3; i < 6; ++i) c(i, i) = R(b);
    return c;
  };
  long j = 0;
  // variances with 1 + r a perfect square
  if(defaults)
  {
    o.setIMUDefaultCovarianceMatrix(M3::Identity() * R(3), M3::Identity() * R(8));
    o.setContactWrenchSensorDefaultCovarianceMatrix(six(15, 24));
    o.setAbsolutePoseSensorDefaultCovarianceMatrix(six(35, 48));
  }
  for(long i = 0; i < imus; ++i)
  {
    Vec a = vec("a" + std::to_string(i), 6);
    double f = defaults || i == 0 ? 3 : 80, g = defaults || i == 0 ? 8 : 99;
    if(defaults)
      o.setIMU(V3(a.head(3)), V3(a.tail(3)), still());
    else
      o.setIMU(V3(a.head(3)), V3(a.tail(3)), M3::Identity() * R(f), M3::Identity() * R(g), still());
    y.segment(j, 6) = a;
    y.segment(j, 3) -= gravity();
    r.segment(j, 3).setConstant(R(f));
    r.segment(j + 3, 3).setConstant(R(g));
    j += 6;
  }
  for(long i = 0; i < 2; ++i)
  {
    Vec w = vec("w" + std::to_string(i), 6);
    if(!wrench[i])
    {
      o.updateContactWithNoSensor(still(), i);
      continue;
    }
    double f = defaults || i == 0 ? 15 : 120, g = defaults || i == 0 ? 24 : 143;
    if(defaults)
      o.updateContactWithWrenchSensor(w, still(), i);
    else
      o.updateContactWithWrenchSensor(w, six(f, g), still(), i);
    y.segment(j, 6) = w;
    r.segment(j, 3).setConstant(R(f));
    r.segment(j + 3, 3).setConstant(R(g));
    j += 6;
  }
  if(abs)
  {
    V3 p = vec3("p");
    if(defaults)
      o.setAbsolutePoseSensor(pose(p, Q4(R(1), R(0), R(0), R(0))));
    else
      o.setAbsolutePoseSensor(pose(p, Q4(R(1), R(0), R(0), R(0))), six(35, 48));
    y.segment(j, 6) << p, V3::Zero();
    r.segment(j, 3).setConstant(R(35));
    r.segment(j + 3, 3).setConstant(R(48));
  }
  // measurement i corrects the external wrench, the biases, then the wrenches of the contacts and the velocities
  std::vector<std::pair<long, long>> to;
  for(long i = 0; i < 6; ++i) to.push_back({l.twrench() + i, l.wrench() + i});
  for(long i = 0; i < 6; ++i) to.push_back({l.tbias(0) + i, l.bias(0) + i});
  for(long i = 0; i < 6; ++i) to.push_back({l.tcontact(0) + 6 + i, l.contact(0) + 7 + i});
  for(long i = 0; i < 6; ++i) to.push_back({l.tcontact(1) + 6 + i, l.contact(1) + 7 + i});
  for(long i = 0; i < 6; ++i) to.push_back({6 + i, 7 + i});
  o.c = Mat::Zero(m, l.tsize());
  Vec e = x;
  Mat p = Mat::Identity(l.tsize(), l.tsize());
  for(long i = 0; i < m; ++i)
  {
    o.c(i, to[i].first) = R(1);
    e(to[i].second) = y(i) / (1 + r(i));
    p(to[i].first, to[i].first) = r(i) / (1 + r(i));
  }
  TimeIndex k = o.getStateVectorTimeIndex();
  bool again = pick("again", 0, 1);
  Vec s = o.update();
  ensureEq("prediction corrected by the measurements of this iteration", s, e);
  ensureEq("current state", o.getCurrentStateVector(), e);
  ensureEq("covariance", o.getStateCovarianceMat(), p);
  ensure("time", o.getStateVectorTimeIndex() == k + 1);
  ensureEq("kinematics of the state: position", o.getKinematics().position(), e.head(3));
  ensureEq("kinematics of the state: linear velocity", o.getKinematics().linVel(), e.segment(7, 3));
  ensureEq("kinematics of the state: angular velocity", o.getKinematics().angVel(), e.segment(10, 3));
  ensure("accelerations when asked for",
         o.getKinematics().linAcc.isSet() == acc && o.getKinematics().angAcc.isSet() == acc);
  ensure("the measurements are used once", o.getMeasurementSize() == 0);
  if(again)
  {
    ensureEq("nothing new, nothing changes", o.update(), e);
    ensure("nor the time", o.getStateVectorTimeIndex() == k + 1);
  }
}
