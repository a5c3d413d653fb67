// C18: the state of the kinetics observer: layout, sum, difference; difference of measurements
#include "kinetics.hpp"
using namespace vp;
CONTRACT(layout, "KineticsObserver: state and tangent indices and sizes")
{
  Layout l;
  l.imus = pick("imus", 0, 3);
  l.contacts = pick("contacts", 0, 3);
  KO o(l.contacts, l.imus);
  ensure("state size", o.getStateSize() == l.size());
  ensure("filter sizes", o.getEKF().getStateSize() == l.size() && o.getEKF().stateTangentVectorZero().size() == l.tsize()
                             && o.getCurrentStateVector().size() == l.size());
  ensure("covariance size",
         o.getStateCovarianceMat().rows() == l.tsize() && o.getStateCovarianceMat().cols() == l.tsize());
  ensure("kinematics",
         o.kineIndex() == 0 && o.posIndex() == 0 && o.oriIndex() == 3 && o.linVelIndex() == 7 && o.angVelIndex() == 10);
  ensure("tangent kinematics", o.kineIndexTangent() == 0 && o.posIndexTangent() == 0 && o.oriIndexTangent() == 3
                                   && o.linVelIndexTangent() == 6 && o.angVelIndexTangent() == 9);
  for(long i = 0; i < l.imus; ++i)
    ensure("gyrometer biases", o.gyroBiasIndex(i) == l.bias(i) && o.gyroBiasIndexTangent(i) == l.tbias(i));
  refuses("no bias for other IMUs", [&]() { o.gyroBiasIndex(l.imus); });
  refuses("no tangent bias for other IMUs", [&]() { o.gyroBiasIndexTangent(l.imus); });
  ensure("external wrench", o.unmodeledWrenchIndex() == l.wrench() && o.unmodeledForceIndex() == l.wrench()
                                && o.unmodeledTorqueIndex() == l.wrench() + 3);
  ensure("tangent external wrench", o.unmodeledWrenchIndexTangent() == l.twrench()
                                        && o.unmodeledForceIndexTangent() == l.twrench()
                                        && o.unmodeledTorqueIndexTangent() == l.twrench() + 3);
  ensure("contacts", o.contactsIndex() == l.contact(0) && o.contactsIndexTangent() == l.tcontact(0));
  for(long i = 0; i < l.contacts; ++i)
  {
    refuses("no index before the contact is set", [&]() { o.contactIndex(i); });
    refuses("no tangent index before the contact is set", [&]() { o.contactIndexTangent(i); });
    o.addContact(pose(V3::Zero(), Q4(R(1), R(0), R(0), R(0))), i);
    long c = l.contact(i), t = l.tcontact(i);
    ensure("contact", o.contactIndex(i) == c && o.contactKineIndex(i) == c && o.contactPosIndex(i) == c
                          && o.contactOriIndex(i) == c + 3 && o.contactWrenchIndex(i) == c + 7
                          && o.contactForceIndex(i) == c + 7 && o.contactTorqueIndex(i) == c + 10);
    ensure("tangent contact", o.contactIndexTangent(i) == t && o.contactKineIndexTangent(i) == t
                                  && o.contactPosIndexTangent(i) == t && o.contactOriIndexTangent(i) == t + 3
                                  && o.contactWrenchIndexTangent(i) == t + 6 && o.contactForceIndexTangent(i) == t + 6
                                  && o.contactTorqueIndexTangent(i) == t + 9);
  }
  refuses("no index beyond the contacts", [&]() { o.contactIndex(l.contacts); });
}
namespace
{
struct Setting
{
  Layout l;
  bool bias, wrench, set[2];
  void apply(KO & o)
  {
    o.setWithGyroBias(bias);
    o.setWithUnmodeledWrench(wrench);
    for(long i = 0; i < l.contacts; ++i)
      if(set[i]) o.addContact(pose(V3::Zero(), Q4(R(1), R(0), R(0), R(0))), i);
  }
};
Setting anySetting()
{
  Setting s;
  s.l.imus = pick("imus", 0, 2);
  s.l.contacts = pick("contacts", 0, 2);
  s.bias = pick("bias", 0, 1);
  s.wrench = pick("wrench", 0, 1);
  for(long i = 0; i < 2; ++i) s.set[i] = i < s.l.contacts && pick("set" + std::to_string(i), 0, 1);
  return s;
}
Q4 turn(Vec & t, long i, const std::string & n)
{
  if(pick(n + "turns", 0, 1))
  {
    V3 d = nonzero3(n);
    t.segment(i, 3) = d;
    return expQ(d);
  }
  t.segment(i, 3).setZero();
  return Q4(R(1), R(0), R(0), R(0));
}
} // namespace
CONTRACT(sum, "KineticsObserver::stateSum")
{
  Setting s = anySetting();
  const Layout & l = s.l;
  KO o(l.contacts, l.imus);
  s.apply(o);
  Vec x = anyState(l, "x"), t = vec("t", l.tsize()), e = x;
  e.head(3) += t.head(3);
  putQ(e, 3, mulQ(turn(t, 3, "d"), quatAt(x, 3)));
  e.segment(7, 6) += t.segment(6, 6);
  if(s.bias) e.segment(13, 3 * l.imus) += t.segment(12, 3 * l.imus);
  if(s.wrench) e.segment(l.wrench(), 6) += t.segment(l.twrench(), 6);
  for(long i = 0; i < l.contacts; ++i)
    if(s.set[i])
    {
      long c = l.contact(i), k = l.tcontact(i);
      e.segment(c, 3) += t.segment(k, 3);
      putQ(e, c + 3, mulQ(turn(t, k + 3, "d" + std::to_string(i)), quatAt(x, c + 3)));
      e.segment(c + 7, 6) += t.segment(k + 6, 6);
    }
  Vec r;
  o.stateSum(x, t, r);
  ensureEq("sum of the estimated components, exponential of the rotations", r, e);
  ensureEq("allocating version", o.stateSum(x, t), e);
}
namespace
{
V3 apart(Vec & a, const Vec & b, long i, const std::string & n)
{
  if(pick(n + "apart", 0, 1))
  {
    Q4 d = unitQ(n);
    V3 v(d.x(), d.y(), d.z());
    assumeLt(R(0), R(v.squaredNorm()));
    assumeLt(R(0), R(v.norm()));
    assumeLt(R(1e-12), R(v.norm()));
    machine(fabs(d.w()) > 1e-3);
    putQ(a, i, mulQ(d, quatAt(b, i)));
    return logQ(d);
  }
  putQ(a, i, quatAt(b, i));
  return V3::Zero();
}
} // namespace
CONTRACT(difference, "KineticsObserver::stateDifference")
{
  Setting s = anySetting();
  const Layout & l = s.l;
  KO o(l.contacts, l.imus);
  s.apply(o);
  Vec b = anyState(l, "b"), a = vec("a", l.size()), e = Vec::Zero(l.tsize());
  V3 d = apart(a, b, 3, "d");
  e.head(3) = a.head(3) - b.head(3);
  e.segment(3, 3) = d;
  e.segment(6, 6) = a.segment(7, 6) - b.segment(7, 6);
  if(s.bias) e.segment(12, 3 * l.imus) = a.segment(13, 3 * l.imus) - b.segment(13, 3 * l.imus);
  if(s.wrench) e.segment(l.twrench(), 6) = a.segment(l.wrench(), 6) - b.segment(l.wrench(), 6);
  for(long i = 0; i < l.contacts; ++i)
  {
    long c = l.contact(i), k = l.tcontact(i);
    if(!s.set[i]) continue;
    V3 di = apart(a, b, c + 3, "d" + std::to_string(i));
    e.segment(k, 3) = a.segment(c, 3) - b.segment(c, 3);
    e.segment(k + 3, 3) = di;
    e.segment(k + 6, 6) = a.segment(c + 7, 6) - b.segment(c + 7, 6);
  }
  Vec r = vec("old", pick("size", 0, 1) ? l.tsize() : 3);
  o.stateDifference(a, b, r);
  ensureEq("differences of the estimated components, logarithm of the rotations, zero elsewhere", r, e);
  ensureEq("allocating version", o.stateDifference(a, b), e);
}
CONTRACT(sum_of_difference, "KineticsObserver::stateSum, stateDifference")
{
  Layout l;
  l.imus = 1;
  l.contacts = 1;
  KO o(1, 1);
  o.setWithGyroBias(true);
  o.setWithUnmodeledWrench(true);
  o.addContact(pose(V3::Zero(), Q4(R(1), R(0), R(0), R(0))), 0);
  Vec b = anyState(l, "b"), a = vec("a", l.size());
  apart(a, b, 3, "d");
  apart(a, b, l.contact(0) + 3, "c");
  Vec t, r;
  o.stateDifference(a, b, t);
  if(t(3) != R(0) || t(4) != R(0) || t(5) != R(0)) assumeAngle(V3(t.segment(3, 3)));
  long k = l.tcontact(0) + 3;
  if(t(k) != R(0) || t(k + 1) != R(0) || t(k + 2) != R(0)) assumeAngle(V3(t.segment(k, 3)));
  o.stateSum(b, t, r);
  for(long i : {3L, l.contact(0) + 3})
  {
    ensureEq("adding the difference gives the first state: orientations", rotOf(quatAt(r, i)), rotOf(quatAt(a, i)));
    a.segment(i, 4).setZero();
    r.segment(i, 4).setZero();
  }
  ensureEq("adding the difference gives the first state", r, a);
}
CONTRACT(measurement_difference, "KineticsObserver::measurementDifference")
{
  long imus = pick("imus", 0, 2), wrenches = pick("wrenches", 0, 2), n = 6 * imus + 6 * wrenches;
  bool abs = pick("pose", 0, 1);
  if(n == 0 && !abs) return;
  KO o(2, 2);
  Kinematics k = pose(V3::Zero(), Q4(R(1), R(0), R(0), R(0)));
  o.setCenterOfMass(V3::Zero(), V3::Zero(), V3::Zero());
  for(long i = 0; i < wrenches; ++i) o.addContact(k, i);
  for(long i = 0; i < imus; ++i) o.setIMU(V3::Zero(), V3::Zero(), k, i);
  for(long i = 0; i < wrenches; ++i) o.updateContactWithWrenchSensor(Vec::Zero(6), k, i);
  if(abs) o.setAbsolutePoseSensor(k);
  ensure("measurement size", o.getMeasurementSize() == n + (abs ? 7 : 0));
  o.tangentMeasurementSize(n + (abs ? 6 : 0));
  long m = n + (abs ? 7 : 0);
  Vec a = vec("a", m), b = vec("b", m), e(n + (abs ? 6 : 0)), r;
  e.head(n) = a.head(n) - b.head(n);
  if(abs)
  {
    putQ(b, n + 3, unitQ("q"));
    e.segment(n + 3, 3) = apart(a, b, n + 3, "d");
    e.segment(n, 3) = a.segment(n, 3) - b.segment(n, 3);
  }
  o.measurementDifference(a, b, r);
  ensureEq("differences, and the logarithm of the rotation of the pose", r, e);
}
