// C19: the kinetics observer: contacts, sensors and inputs of each iteration, covariances, state resets
#include "kinetics.hpp"
using namespace vp;
namespace
{
Mat block(Mat p, const Mat & b, long i)
{
  long n = b.rows();
  p.middleRows(i, n).setZero();
  p.middleCols(i, n).setZero();
  p.block(i, i, n, n) = b;
  return p;
}
Mat diag(const R & a, const R & b, const R & c, const R & d)
{
  Mat m = Mat::Zero(12, 12);
  for(long i = 0; i < 3; ++i)
  {
    m(i, i) = R(a);
    m(3 + i, 3 + i) = R(b);
    m(6 + i, 6 + i) = R(c);
    m(9 + i, 9 + i) = R(d);
  }
  return m;
}
Mat I(long n, const R & c)
{
  return Mat::Identity(n, n) * R(c);
}
typedef KineticsObserver K;
Mat kineInit()
{
  return diag(K::statePoseInitVarianceDefault, K::stateOriInitVarianceDefault, K::stateLinVelInitVarianceDefault,
              K::stateAngVelInitVarianceDefault);
}
Mat kineProcess()
{
  return diag(K::statePoseProcessVarianceDefault, K::stateOriProcessVarianceDefault,
              K::stateLinVelProcessVarianceDefault, K::stateAngVelProcessVarianceDefault);
}
Mat contactProcess()
{
  return diag(K::contactPositionProcessVarianceDefault, K::contactOrientationProcessVarianceDefault,
              K::contactForceProcessVarianceDefault, K::contactTorqueProcessVarianceDefault);
}
void stateIs(const std::string & l, const KO & o, const Vec & x)
{
  ensureEq(l + ": state", o.getCurrentStateVector(), x);
  ensureEq(l + ": state of the filter", const_cast<KO &>(o).getEKF().getCurrentEstimatedState(), x);
}
} // namespace
CONTRACT(contact_history, "KineticsObserver::addContact, removeContact, clearContacts, getListOfContacts")
{
  KO o(2, 1);
  bool set[2] = {false, false};
  for(long s = 0; s < 3; ++s)
  {
    long op = pick("op" + std::to_string(s), 0, 5);
    if(op == 0)
    {
      long i = !set[0] ? 0 : 1;
      if(set[i])
      {
        refuses("no room left", [&]() { o.addContact(still()); });
        return;
      }
      ensure("the first free number", o.addContact(still()) == i);
      set[i] = true;
    }
    else if(op < 3)
    {
      long i = op - 1;
      if(set[i])
      {
        refuses("contact already there", [&]() { o.addContact(still(), i); });
        return;
      }
      ensure("the number asked for", o.addContact(still(), i) == i);
      set[i] = true;
    }
    else if(op < 5)
    {
      long i = op - 3;
      if(!set[i])
      {
        refuses("no such contact", [&]() { o.removeContact(i); });
        return;
      }
      o.removeContact(i);
      set[i] = false;
    }
    else
    {
      o.clearContacts();
      set[0] = set[1] = false;
    }
    std::vector<int> l;
    for(int i = 0; i < 2; ++i)
      if(set[i]) l.push_back(i);
    ensure("number of contacts", o.getNumberOfContacts() == long(l.size()));
    ensure("list of contacts", o.getListOfContacts() == l);
  }
  refuses("no contact beyond the maximum", [&]() { o.addContact(still(), 2); });
  refuses("a contact has a pose", [&]() {
    o.clearContacts();
    o.addContact(Kinematics(), 0);
  });
}
CONTRACT(add_contact, "KineticsObserver::addContact, getContactPosition, getContactWrench")
{
  Layout l;
  l.imus = 1;
  l.contacts = 2;
  KO o(2, 1);
  long i = pick("contact", 0, 1);
  Vec x = anyState(l, "x");
  o.setStateVector(x, false);
  Mat p = mat("p", l.tsize(), l.tsize()), q = mat("q", l.tsize(), l.tsize());
  o.setStateCovarianceMat(p);
  o.setProcessNoiseCovarianceMat(q);
  V3 c = vec3("c");
  Q4 r = unitQ("r");
  Mat ci = mat("ci", 12, 12), cp = mat("cp", 12, 12);
  long how = pick("covariances", 0, 2);
  if(how == 0)
  {
    ci = contactProcess();
    ci.bottomRightCorner(6, 6) = Mat::Identity(6, 6) * R(K::contactForceInitVarianceDefault);
    cp = contactProcess();
    o.addContact(pose(c, r), i);
  }
  else if(how == 1)
  {
    o.setContactInitCovMatDefault(ci);
    cp = contactProcess();
    o.addContact(pose(c, r), i);
  }
  else
    o.addContact(pose(c, r), ci, cp, i);
  x.segment(l.contact(i), 3) = c;
  putQ(x, l.contact(i) + 3, r);
  x.segment(l.contact(i) + 7, 6).setZero();
  stateIs("the pose of the contact, no wrench, the rest as before", o, x);
  ensureEq("covariance of the state", o.getStateCovarianceMat(), block(p, ci, l.tcontact(i)));
  ensureEq("covariance of the process", o.getEKF().getQ(), block(q, cp, l.tcontact(i)));
  ensureEq("position", o.getContactPosition(i).position(), c);
  ensureEq("orientation", o.getContactPosition(i).orientation.toMatrix3(), rotOf(r));
  ensureEq("wrench", o.getContactWrench(i), Vec::Zero(6));
}
CONTRACT(set_state, "KineticsObserver::setState*, setGyroBias, get*")
{
  Layout l;
  l.imus = 2;
  l.contacts = 2;
  KO o(2, 2);
  bool set[2] = {bool(pick("set0", 0, 1)), bool(pick("set1", 0, 1))};
  for(long i = 0; i < 2; ++i)
    if(set[i]) o.addContact(still(), i);
  Vec x = anyState(l, "x");
  o.setStateVector(x, false);
  Mat p = mat("p", l.tsize(), l.tsize());
  o.setStateCovarianceMat(p);
  long what = pick("what", 0, 3);
  bool cov = pick("covariance", 0, 1);
  if(what == 0)
  {
    bool wrenches = pick("wrenches", 0, 1);
    V3 c = vec3("c"), v = vec3("v"), w = vec3("w");
    Q4 r = unitQ("r");
    Kinematics k = pose(c, r);
    k.linVel = v;
    k.angVel = w;
    o.setStateKinematics(k, wrenches, cov);
    x.head(3) = c;
    putQ(x, 3, r);
    x.segment(7, 3) = v;
    x.segment(10, 3) = w;
    Mat ci = contactProcess();
    ci.bottomRightCorner(6, 6) = Mat::Identity(6, 6) * R(K::contactForceInitVarianceDefault);
    if(cov) p = block(p, kineInit(), 0);
    if(wrenches)
      for(long i = 0; i < 2; ++i)
        if(set[i])
        {
          x.segment(l.contact(i) + 7, 6).setZero();
          if(cov) p = block(p, ci, l.tcontact(i));
        }
    ensureEq("position given back", o.getKinematics().position(), c);
    ensureEq("orientation given back", o.getKinematics().orientation.toMatrix3(), rotOf(r));
    ensureEq("linear velocity given back", o.getKinematics().linVel(), v);
    ensureEq("angular velocity given back", o.getKinematics().angVel(), w);
  }
  if(what == 1)
  {
    long i = pick("imu", 0, 1);
    V3 b = vec3("b");
    o.setGyroBias(b, i, cov);
    x.segment(l.bias(i), 3) = b;
    if(cov) p = block(p, I(3, K::gyroBiasInitVarianceDefault), l.tbias(i));
  }
  if(what == 2)
  {
    Vec w = vec("w", 6);
    o.setStateUnmodeledWrench(w, cov);
    x.segment(l.wrench(), 6) = w;
    if(cov) p = block(p, I(6, K::unmodeledWrenchInitVarianceDefault), l.twrench());
    ensureEq("given back", o.getUnmodeledWrench(), w);
  }
  if(what == 3)
  {
    x = anyState(l, "y");
    o.setStateVector(x, cov);
    if(cov)
    {
      p = block(p, kineInit(), 0);
      for(long i = 0; i < 2; ++i) p = block(p, I(3, K::gyroBiasInitVarianceDefault), l.tbias(i));
      p = block(p, I(6, K::unmodeledWrenchInitVarianceDefault), l.twrench());
      Mat ci = contactProcess();
      ci.bottomRightCorner(6, 6) = Mat::Identity(6, 6) * R(K::contactForceInitVarianceDefault);
      for(long i = 0; i < 2; ++i)
        if(set[i]) p = block(p, ci, l.tcontact(i));
    }
    ensureEq("position", o.getKinematics().position(), x.head(3));
    ensureEq("orientation", o.getKinematics().orientation.toMatrix3(), rotOf(quatAt(x, 3)));
    ensureEq("linear velocity", o.getKinematics().linVel(), x.segment(7, 3));
    ensureEq("angular velocity", o.getKinematics().angVel(), x.segment(10, 3));
    ensureEq("external wrench", o.getUnmodeledWrench(), x.segment(l.wrench(), 6));
    for(long i = 0; i < 2; ++i)
      if(set[i])
      {
        ensureEq("contact wrench", o.getContactWrench(i), x.segment(l.contact(i) + 7, 6));
        ensureEq("contact position", o.getContactPosition(i).position(), x.segment(l.contact(i), 3));
      }
  }
  stateIs("the component set, the others kept", o, x);
  ensureEq("covariance reset for the component only, when asked", o.getStateCovarianceMat(), p);
}
CONTRACT(covariances, "KineticsObserver: set*Cov*, reset*CovMat")
{
  Layout l;
  l.imus = 2;
  l.contacts = 2;
  KO o(2, 2);
  bool set0 = pick("set0", 0, 1);
  if(set0) o.addContact(still(), 0);
  o.addContact(still(), 1);
  Mat p = mat("p", l.tsize(), l.tsize()), q = mat("q", l.tsize(), l.tsize());
  o.setStateCovarianceMat(p);
  o.setProcessNoiseCovarianceMat(q);
  Mat k = mat("k", 12, 12), g = mat("g", 3, 3), w = mat("w", 6, 6), ci = mat("ci", 12, 12);
  long imu = pick("imu", 0, 1);
  switch(pick("what", 0, 16))
  {
    case 0:
      o.setKinematicsStateCovariance(k);
      p = block(p, k, 0);
      break;
    case 1:
      o.setKinematicsInitCovarianceDefault(k);
      o.resetStateKinematicsCovMat();
      p = block(p, k, 0);
      break;
    case 2:
      o.resetProcessKinematicsCovMat();
      q = block(q, kineProcess(), 0);
      break;
    case 3:
      o.setGyroBiasStateCovariance(g, imu);
      p = block(p, g, l.tbias(imu));
      break;
    case 4:
      o.setGyroBiasInitCovarianceDefault(g);
      o.resetStateGyroBiasCovMat(imu);
      p = block(p, g, l.tbias(imu));
      break;
    case 5:
      o.setGyroBiasProcessCovariance(g, imu);
      q = block(q, g, l.tbias(imu));
      break;
    case 6:
      o.resetProcessGyroBiasCovMat(imu);
      q = block(q, I(3, K::gyroBiasProcessVarianceDefault), l.tbias(imu));
      break;
    case 7:
      o.setUnmodeledWrenchStateCovMat(w);
      p = block(p, w, l.twrench());
      break;
    case 8:
      o.setUnmodeledWrenchInitCovMatDefault(w);
      o.resetStateUnmodeledWrenchCovMat();
      p = block(p, w, l.twrench());
      break;
    case 9:
      o.setUnmodeledWrenchProcessCovMat(w);
      q = block(q, w, l.twrench());
      break;
    case 10:
      o.resetProcessUnmodeledWrenchCovMat();
      q = block(q, I(6, K::unmodeledWrenchProcessVarianceDefault), l.twrench());
      break;
    case 11:
      o.setContactStateCovMat(1, ci);
      p = block(p, ci, l.tcontact(1));
      break;
    case 12:
      o.setContactProcessCovMat(1, ci);
      q = block(q, ci, l.tcontact(1));
      break;
    case 13:
      o.setContactInitCovMatDefault(ci);
      o.resetStateContactsCovMat();
      for(long i = set0 ? 0 : 1; i < 2; ++i) p = block(p, ci, l.tcontact(i));
      break;
    case 14:
      o.resetProcessContactCovMat(1);
      q = block(q, contactProcess(), l.tcontact(1));
      break;
    case 15:
      o.setKinematicsInitCovarianceDefault(k);
      o.setGyroBiasInitCovarianceDefault(g);
      o.setUnmodeledWrenchInitCovMatDefault(w);
      o.setContactInitCovMatDefault(ci);
      o.resetStateCovarianceMat();
      p = block(p, k, 0);
      for(long i = 0; i < 2; ++i) p = block(p, g, l.tbias(i));
      p = block(p, w, l.twrench());
      for(long i = set0 ? 0 : 1; i < 2; ++i) p = block(p, ci, l.tcontact(i));
      break;
    default:
      o.resetProcessCovarianceMat();
      q = block(q, kineProcess(), 0);
      for(long i = 0; i < 2; ++i) q = block(q, I(3, K::gyroBiasProcessVarianceDefault), l.tbias(i));
      q = block(q, I(6, K::unmodeledWrenchProcessVarianceDefault), l.twrench());
      for(long i = set0 ? 0 : 1; i < 2; ++i) q = block(q, contactProcess(), l.tcontact(i));
  }
  ensureEq("covariance of the state: only the block changes, its correlations vanish", o.getStateCovarianceMat(), p);
  ensureEq("covariance of the process: only the block changes, its correlations vanish", o.getEKF().getQ(), q);
}
CONTRACT(measurements, "KineticsObserver::setIMU, updateContact*, setAbsolutePoseSensor, getMeasurementVector")
{
  // two iterations with any sensors, in any of two orders
  KO o(2, 2);
  o.addContact(still(), 0);
  o.addContact(still(), 1);
  for(long it = 0; it < 2; ++it)
  {
    std::string n = std::to_string(it);
    bool imu[2] = {bool(pick("imu0" + n, 0, 1)), bool(pick("imu1" + n, 0, 1))};
    bool wrench[2] = {bool(pick("wrench0" + n, 0, 1)), bool(pick("wrench1" + n, 0, 1))};
    bool abs = pick("pose" + n, 0, 1), reversed = it == 1 && wrench[0];
    ensure("nothing given yet", o.getMeasurementSize() == 0 && o.getMeasurementVector().size() == 0);
    Vec y(0);
    auto add = [&](const Vec & v) {
      Vec z(y.size() + v.size());
      z << y, v;
      y = z;
    };
    Vec a[2], w[2];
    Vec ps(7);
    V3 pp = vec3("p" + n);
    Q4 pq = unitQ("q" + n);
    ps << pp, v4(pq);
    for(long i = 0; i < 2; ++i)
    {
      a[i] = vec("a" + n + std::to_string(i), 6);
      w[i] = vec("w" + n + std::to_string(i), 6);
      if(imu[i]) add(a[i]);
    }
    for(long i = 0; i < 2; ++i)
      if(wrench[i]) add(w[i]);
    if(abs) add(ps);
    for(long s = 0; s < 5; ++s)
    {
      long j = reversed ? 4 - s : s;
      if(j < 2 && imu[j])
        ensure("number of the IMU",
               o.setIMU(V3(a[j].head(3)), V3(a[j].tail(3)), still(), reversed || !imu[0] ? j : -1) == j);
      if(j == 2 || j == 3)
      {
        if(wrench[j - 2])
          o.updateContactWithWrenchSensor(w[j - 2], still(), j - 2);
        else
          o.updateContactWithNoSensor(still(), j - 2);
      }
      if(j == 4 && abs) o.setAbsolutePoseSensor(pose(pp, pq));
    }
    ensure("size of the measurements of this iteration", o.getMeasurementSize() == y.size());
    ensureEq("IMUs, wrenches of the contacts, pose", o.getMeasurementVector(), y);
    if(imu[0]) refuses("an IMU is set once", [&]() { o.setIMU(V3::Zero(), V3::Zero(), still(), 0); });
    if(imu[0]) refuses("an IMU is set once", [&]() { o.setIMU(V3::Zero(), V3::Zero(), M3::Identity(), M3::Identity(), still(), 0); });
    if(it == 0 && pick("reset", 0, 1))
    {
      o.resetInputs();
      ensure("nothing given after a reset", o.getMeasurementSize() == 0 && o.getMeasurementVector().size() == 0);
      o.setIMU(V3(a[1].head(3)), V3(a[1].tail(3)), still(), 1);
      ensureEq("only what was given after the reset", o.getMeasurementVector(), a[1]);
      return;
    }
    o.next();
  }
}
CONTRACT(imu_numbers, "KineticsObserver::setIMU (automatic number)")
{
  KO o(1, 3);
  bool cov = pick("cov", 0, 1);
  auto set = [&](int n) {
    return cov ? o.setIMU(V3::Zero(), V3::Zero(), M3::Identity(), M3::Identity(), still(), n)
               : o.setIMU(V3::Zero(), V3::Zero(), still(), n);
  };
  for(long it = 0; it < 2; ++it)
  {
    bool used[3] = {false, false, false};
    for(long s = 0; s < 3; ++s)
    {
      long n = pick("n" + std::to_string(it) + std::to_string(s), -1, s == 0 ? 2 : -1);
      long e = n;
      if(n < 0)
        for(e = 0; used[e]; ++e) {}
      ensure("the first number not used in the iteration", set(n) == e);
      used[e] = true;
    }
    refuses("no more IMU than the maximum", [&]() { set(-1); });
    refuses("no IMU number beyond the maximum", [&]() { set(3); });
    o.next();
  }
}
namespace
{
void kineIs(const std::string & l, const Kinematics & k, const V3 & p, const Q4 & q, const V3 & v, const V3 & w)
{
  ensureEq(l + ": position", k.position(), p);
  ensureEq(l + ": orientation", k.orientation.toMatrix3(), rotOf(q));
  ensureEq(l + ": linear velocity", k.linVel(), v);
  ensureEq(l + ": angular velocity", k.angVel(), w);
}
} // namespace
CONTRACT(sensor_kinematics, "KineticsObserver::setIMU, updateContactWith* (kinematics of the sensor frame)")
{
  KO o(1, 1);
  R dt = pos("dt", 0.5);
  o.setSamplingTime(dt);
  bool imu = pick("imu", 0, 1), cov = pick("cov", 0, 1), wrench = !imu && pick("wrench", 0, 1);
  auto give = [&](const Kinematics & k) {
    if(imu && cov)
      o.setIMU(V3::Zero(), V3::Zero(), M3::Identity(), M3::Identity(), k, 0);
    else if(imu)
      o.setIMU(V3::Zero(), V3::Zero(), k, 0);
    else if(wrench && cov)
      o.updateContactWithWrenchSensor(Vec::Zero(6), I(6, R(1)), k, 0);
    else if(wrench)
      o.updateContactWithWrenchSensor(Vec::Zero(6), k, 0);
    else
      o.updateContactWithNoSensor(k, 0);
  };
  auto kine = [&]() { return imu ? o.imuKinematics(0) : o.contactKinematics(0); };
  V3 p = vec3("p"), v = vec3("v"), w = vec3("w"), a = vec3("a");
  Q4 q = unitQ("q");
  long skipped = imu ? pick("skipped", 0, 1) : 0;
  bool known = pick("known", 0, 1);
  Kinematics k = pose(p, q);
  if(!imu) o.addContact(still(), 0);
  if(known)
  {
    k.linVel = v;
    k.angVel = w;
    k.linAcc = a;
  }
  else
    v = w = a = V3::Zero();
  give(k);
  kineIs("first", kine(), p, q, v, w);
  if(imu) ensureEq("first: linear acceleration", kine().linAcc(), a);
  o.next();
  if(!imu && pick("again", 0, 1))
  {
    // a new contact with the same number does not move away from the former one
    o.removeContact(0);
    o.addContact(still(), 0);
    V3 p1 = vec3("P");
    give(pose(p1, q));
    kineIs("contact set again", kine(), p1, q, V3::Zero(), V3::Zero());
    return;
  }
  for(long i = 0; i < skipped; ++i)
  {
    o.setAbsolutePoseSensor(still());
    o.next();
  }
  R dT = dt * R(1 + skipped);
  V3 p1 = vec3("P"), v1 = vec3("V"), w1 = vec3("W");
  Kinematics k1 = pose(p1, q);
  if(pick("velocity", 0, 1))
  {
    k1.linVel = v1;
    k1.angVel = w1;
    give(k1);
    kineIs("given", kine(), p1, q, v1, w1);
    if(imu) ensureEq("acceleration from the velocities", kine().linAcc(), (v1 - v) / dT);
  }
  else
  {
    give(k1);
    kineIs("finite differences", kine(), p1, q, (p1 - p) / dT, V3::Zero());
    if(imu) ensureEq("finite differences: acceleration", kine().linAcc(), ((p1 - p) / dT - v) / dT);
  }
}
CONTRACT(inputs, "KineticsObserver::setCenterOfMass, setInertiaMatrix, setAngularMomentum")
{
  // the values without derivatives mean the same thing as the finite differences given explicitly
  KO o(0, 1), e(0, 1);
  R dt = pos("dt", 0.5), m = pos("mass", 5, 0.5);
  Vec x = vec("x", o.getStateSize());
  putQ(x, 3, unitQ("q"));
  for(KO * k : {&o, &e})
  {
    k->setSamplingTime(dt);
    k->setMass(m);
    k->setStateVector(x, false);
  }
  auto pause = [&](KO & k) {
    k.setAbsolutePoseSensor(still());
    k.next();
  };
  long skipped = pick("skipped", 0, 1);
  R dT = dt * R(1 + skipped);
  V3 c0 = vec3("c0"), c1 = vec3("c1"), v0 = vec3("v0"), v1 = vec3("v1"), a0 = vec3("a0");
  Vec i0v(6), i1v(6), i1d(6);
  i0v << R(4), R(5), R(6), R(0.5), R(0.25), R(0.125);
  i1v = i0v;
  V3 s0 = vec3("s0"), s1 = vec3("s1"), sd = vec3("sd");
  auto full = [](const Vec & v) {
    M3 r;
    r << v(0), v(3), v(4), v(3), v(1), v(5), v(4), v(5), v(2);
    return r;
  };
  long what = pick("what", 0, 5);
  bool vectors = what > 2 && pick("vectors", 0, 1);
  if(vectors && pick("before", 0, 1)) o.setAbsolutePoseSensor(still()), e.setAbsolutePoseSensor(still()), o.next(), e.next();
  for(KO * k : {&o, &e})
  {
    // the first value given to the iteration, as a vector or a matrix
    if(k == &o && vectors) k->setInertiaMatrix(Vector6(i0v), Vector6(Vec::Zero(6)));
    k->setCenterOfMass(what < 2 ? c0 : V3::Zero(), what < 2 ? v0 : V3::Zero(), what < 2 ? a0 : V3::Zero());
    if(k == &e || !vectors) k->setInertiaMatrix(full(i0v), M3(M3::Zero()));
    k->setAngularMomentum(s0, sd);
    k->next();
    for(long i = 0; i < skipped; ++i) pause(*k);
  }
  if(what == 0)
  {
    o.setCenterOfMass(c1, v1);
    e.setCenterOfMass(c1, v1, (v1 - v0) / dT);
  }
  if(what == 1)
  {
    o.setCenterOfMass(c1);
    V3 v = (c1 - c0) / dT;
    e.setCenterOfMass(c1, v, (v - v0) / dT);
  }
  if(what == 2)
  {
    o.setAngularMomentum(s1);
    e.setAngularMomentum(s1, (s1 - s0) / dT);
  }
  i1v << R(5), R(4), R(7), R(0.25), R(0.5), R(0.75);
  i1d = (i1v - i0v) / dT;
  if(what == 3)
  {
    o.setInertiaMatrix(full(i1v));
    e.setInertiaMatrix(full(i1v), full(i1d));
  }
  if(what == 4)
  {
    o.setInertiaMatrix(Vector6(i1v));
    e.setInertiaMatrix(full(i1v), full(i1d));
  }
  if(what == 5)
  {
    o.setInertiaMatrix(Vector6(i1v), Vector6(i1d));
    e.setInertiaMatrix(full(i1v), full(i1d));
  }
  if(what < 2 && pick("twice", 0, 1))
  {
    // a second value in the same iteration does not change the derivatives
    what == 0 ? o.setCenterOfMass(c0, v1) : o.setCenterOfMass(c0);
    V3 v = (c1 - c0) / dT;
    what == 0 ? e.setCenterOfMass(c0, v1, (v1 - v0) / dT) : e.setCenterOfMass(c0, v, (v - v0) / dT);
  }
  Kinematics ko = o.estimateAccelerations(), ke = e.estimateAccelerations();
  ensureEq("linear acceleration", ko.linAcc(), ke.linAcc());
  ensureEq("angular acceleration", ko.angAcc(), ke.angAcc());
}
CONTRACT(contact_lost, "KineticsObserver::update (contacts not updated in the iteration)")
{
  KO o(2, 0);
  for(long i = 0; i < 2; ++i) o.addContact(still(), unsigned(i));
  // whether the update goes on to its Jacobians
  bool goes = false;
  Layout l;
  l.imus = 0;
  l.contacts = 2;
  o.a = Mat::Identity(l.tsize(), l.tsize());
  o.during = [&] { goes = true; };
  o.useFiniteDifferencesJacobians(false);
  o.forgetCovariance();
  o.setAbsolutePoseSensor(still());
  long updated = pick("updated", 0, 3); // neither, the first, the second, both
  bool sensor = pick("sensor", 0, 1), lost = pick("removed", 0, 1);
  o.c = Mat::Zero(6 * (1 + (sensor ? (updated + 1) / 2 : 0)), l.tsize());
  for(long i = 0; i < 2; ++i)
  {
    if(!(updated & (1 << i))) continue;
    if(sensor)
      o.updateContactWithWrenchSensor(Vector6(vec("w" + std::to_string(i), 6)), still(), unsigned(i));
    else
      o.updateContactWithNoSensor(still(), unsigned(i));
  }
  if(lost)
    for(long i = 0; i < 2; ++i)
      if(!(updated & (1 << i))) o.removeContact(unsigned(i));
  refuses("without a covariance no estimation", [&] { o.update(); });
  ensure("an iteration takes place exactly when every contact that is set was given", goes == (lost || updated == 3));
}
CONTRACT(sensor_replaced, "KineticsObserver::updateContactWithNoSensor, updateContactWithWrenchSensor (same iteration)")
{
  // the last update of a contact decides whether it is measured
  KO o(2, 1);
  o.addContact(still(), 0);
  o.addContact(still(), 1);
  Vec last[2];
  for(long i = 0; i < 2; ++i)
  {
    long n = pick("updates" + std::to_string(i), 1, 3);
    for(long j = 0; j < n; ++j)
    {
      std::string s = std::to_string(i) + std::to_string(j);
      last[i] = pick("wrench" + s, 0, 1) ? vec("w" + s, 6) : Vec(0);
      if(!last[i].size())
        o.updateContactWithNoSensor(still(), i);
      else if(j == 1)
        o.updateContactWithWrenchSensor(last[i], Mat::Identity(6, 6), still(), i);
      else
        o.updateContactWithWrenchSensor(last[i], still(), i);
    }
  }
  Vec y(last[0].size() + last[1].size());
  y << last[0], last[1];
  ensure("size", o.getMeasurementSize() == y.size());
  ensureEq("the last wrenches", o.getMeasurementVector(), y);
}
CONTRACT(settings, "KineticsObserver: sampling time, noises, input size")
{
  KO o(2, 1);
  R dt = pos("dt", 0.5);
  o.setSamplingTime(dt);
  ensureEq("sampling time", o.getSamplingTime(), dt);
  ensure("no input", o.getInputSize() == 0);
  Noise a, b;
  ensure("no noise at first", o.getProcessNoise() == nullptr && o.getMeasurementNoise() == nullptr);
  o.setProcessNoise(&a);
  o.setMeasurementNoise(&b);
  ensure("noises", o.getProcessNoise() == &a && o.getMeasurementNoise() == &b);
  o.resetProcessNoise();
  ensure("only the process noise is removed", o.getProcessNoise() == nullptr && o.getMeasurementNoise() == &b);
  o.setProcessNoise(&a);
  o.resetMeasurementNoise();
  ensure("only the measurement noise is removed", o.getProcessNoise() == &a && o.getMeasurementNoise() == nullptr);
}
