// C12: advancing kinematics in time, updating them from partial new values, and packing them in vectors
#include "ref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
using kine::Kinematics;
typedef Kinematics::Flags F;
CONTRACT(integrate, "Kinematics::integrate")
{
  long f = pick("f", 0, 63);
  V3 p = vec3("p"), v = vec3("v"), w = vec3("w"), a = vec3("a"), e = vec3("e");
  Q4 q = unitQ("q");
  R dt = pos("dt");
  Kinematics k;
  if(f & 1) k.position = p;
  if(f & 2) k.orientation = Quaternion(q);
  if(f & 4) k.linVel = v;
  if(f & 8) k.angVel = w;
  if(f & 16) k.linAcc = a;
  if(f & 32) k.angAcc = e;
  V3 d = w * dt;
  if(f & 32) d += e * R(dt * dt / 2);
  assumeAngle(d);
  k.integrate(dt);
  ensure("the known quantities stay the same ones", k.position.isSet() == bool(f & 1)
                                                         && k.orientation.isSet() == bool(f & 2)
                                                         && k.linVel.isSet() == bool(f & 4)
                                                         && k.angVel.isSet() == bool(f & 8)
                                                         && k.linAcc.isSet() == bool(f & 16)
                                                         && k.angAcc.isSet() == bool(f & 32));
  if(f & 1)
  {
    V3 r = p;
    if(f & 4)
    {
      r += v * dt;
      if(f & 16) r += a * R(dt * dt / 2);
    }
    ensureEq("position", k.position(), r);
  }
  if(f & 2)
  {
    M3 r = rotOf(q);
    if(f & 8) r = M3(expMh(d) * rotOf(q));
    ensureEq("orientation", k.orientation.toMatrix3(), r);
  }
  if(f & 4) ensureEq("linear velocity", k.linVel(), f & 16 ? V3(v + a * dt) : v);
  if(f & 8) ensureEq("angular velocity", k.angVel(), f & 32 ? V3(w + e * dt) : w);
  if(f & 16) ensureEq("linear acceleration kept", k.linAcc(), a);
  if(f & 32) ensureEq("angular acceleration kept", k.angAcc(), e);
}
// t: known before, n: newly known, g: requested (bits: position, velocity, acceleration)
static bool acceptable(long t, long n, long g)
{
  bool tp = t & 1, tv = t & 2, ta = t & 4, np = n & 1, nv = n & 2, na = n & 4;
  if((g & 1) && !np && !tp) return false;
  if((g & 2) && !nv && !(tp && np) && !tv) return false;
  if((g & 4) && !na && !(tv && nv) && !(tp && np) && !ta) return false;
  return true;
}
CONTRACT(update_linear, "Kinematics::update (position, linear velocity, linear acceleration)")
{
  long t = pick("t", 0, 7), n = pick("n", 0, 7), g = pick("g", 0, 7);
  if(!acceptable(t, n, g)) return;
  bool tp = t & 1, tv = t & 2, ta = t & 4, np = n & 1, nv = n & 2, na = n & 4;
  bool gp = g & 1, gv = g & 2, ga = g & 4;
  V3 p = vec3("p"), v = vec3("v"), a = vec3("a"), p1 = vec3("P"), v1 = vec3("V"), a1 = vec3("A");
  R dt = pos("dt");
  Kinematics k, m;
  if(tp) k.position = p;
  if(tv) k.linVel = v;
  if(ta) k.linAcc = a;
  if(np) m.position = p1;
  if(nv) m.linVel = v1;
  if(na) m.linAcc = a1;
  k.update(m, dt, (gp ? F::position : 0) | (gv ? F::linVel : 0) | (ga ? F::linAcc : 0));
  ensure("position known iff requested", k.position.isSet() == gp);
  ensure("linear velocity known iff requested", k.linVel.isSet() == gv);
  ensure("linear acceleration known iff requested", k.linAcc.isSet() == ga);
  ensure("nothing angular appears", !k.orientation.isSet() && !k.angVel.isSet() && !k.angAcc.isSet());
  if(gp)
  {
    V3 r = p;
    if(np)
      r = p1;
    else
    {
      if(tv) r += v * dt;
      // the acceleration over the step: the one that reaches the new velocity when it is being derived, else the
      // last known one
      if(ta) r += (ga && !na && tv && nv ? V3((v1 - v) / dt) : a) * R(dt * dt / 2);
    }
    ensureEq("position", k.position(), r);
  }
  if(gv)
  {
    V3 r = nv ? v1 : tp && np ? V3((p1 - p) / dt) : ta ? V3(v + a * dt) : v;
    ensureEq("linear velocity", k.linVel(), r);
  }
  if(ga)
  {
    V3 r = a;
    if(na)
      r = a1;
    else if(tv && nv)
      r = (v1 - v) / dt;
    else if(tv && gv && tp && np)
      r = ((p1 - p) / dt - v) / dt;
    else if(tp && np)
      r = R(2) * (p1 - p) / R(dt * dt);
    ensureEq("linear acceleration", k.linAcc(), r);
  }
}
CONTRACT(update_angular, "Kinematics::update (orientation, angular velocity, angular acceleration)")
{
  long t = pick("t", 0, 7), n = pick("n", 0, 7), g = pick("g", 0, 7);
  if(!acceptable(t, n, g)) return;
  bool tp = t & 1, tv = t & 2, ta = t & 4, np = n & 1, nv = n & 2, na = n & 4;
  bool gp = g & 1, gv = g & 2, ga = g & 4;
  V3 v = vec3("v"), a = vec3("a"), v1 = vec3("V"), a1 = vec3("A");
  Q4 q = unitQ("q"), d = unitQ("d"), q1 = mulQ(d, q);
  machine(d.w() > R(1e-6) || d.w() < R(-1e-6));
  R dt = pos("dt");
  Kinematics k, m;
  if(tp) k.orientation = Quaternion(q);
  if(tv) k.angVel = v;
  if(ta) k.angAcc = a;
  if(np) m.orientation = Quaternion(q1);
  if(nv) m.angVel = v1;
  if(na) m.angAcc = a1;
  V3 move = V3::Zero();
  if(tv) move += v * dt;
  if(ta) move += (ga && !na && tv && nv ? V3((v1 - v) / dt) : a) * R(dt * dt / 2);
  bool moves = gp && !np && (tv || ta);
  if(moves) assumeAngle(move);
  V3 dl = tp && np ? kine::quaternionToRotationVector(Quaternion(d)) : V3(V3::Zero());
  k.update(m, dt, (gp ? F::orientation : 0) | (gv ? F::angVel : 0) | (ga ? F::angAcc : 0));
  ensure("orientation known iff requested", k.orientation.isSet() == gp);
  ensure("angular velocity known iff requested", k.angVel.isSet() == gv);
  ensure("angular acceleration known iff requested", k.angAcc.isSet() == ga);
  ensure("nothing linear appears", !k.position.isSet() && !k.linVel.isSet() && !k.linAcc.isSet());
  if(gp)
  {
    M3 r = np ? rotOf(q1) : rotOf(q);
    if(moves) r = M3(expMh(move) * rotOf(q));
    ensureEq("orientation", k.orientation.toMatrix3(), r);
  }
  if(gv)
  {
    V3 r = nv ? v1 : tp && np ? V3(dl / dt) : ta ? V3(v + a * dt) : v;
    ensureEq("angular velocity", k.angVel(), r);
  }
  if(ga)
  {
    V3 r = a;
    if(na)
      r = a1;
    else if(tv && nv)
      r = (v1 - v) / dt;
    else if(tv && gv && tp && np)
      r = (dl / dt - v) / dt;
    else if(tp && np)
      r = R(2) * dl / R(dt * dt);
    ensureEq("angular acceleration", k.angAcc(), r);
  }
}
CONTRACT(pack, "Kinematics::toVector, fromVector, constructor from a vector")
{
  long f = pick("f", 0, 63), how = pick("how", 0, 2);
  Vec v = vec("v", 19);
  std::vector<R> all;
  Q4 q = unitQ("q");
  V3 p = vec3("p"), lv = vec3("l"), av = vec3("w"), la = vec3("a"), aa = vec3("e");
  auto add = [&](const V3 & x) {
    for(int i = 0; i < 3; ++i) all.push_back(x(i));
  };
  if(f & 1) add(p);
  if(f & 2)
  {
    add(V3(q.x(), q.y(), q.z()));
    all.push_back(q.w());
  }
  if(f & 4) add(lv);
  if(f & 8) add(av);
  if(f & 16) add(la);
  if(f & 32) add(aa);
  Vector x(all.size());
  for(size_t i = 0; i < all.size(); ++i) x(i) = all[i];
  Kinematics k;
  if(how == 0)
    k.fromVector(x, f);
  else if(how == 1)
    k = Kinematics(x, f);
  else
  {
    if(f & 1) k.position = p;
    if(f & 2) k.orientation = Quaternion(q);
    if(f & 4) k.linVel = lv;
    if(f & 8) k.angVel = av;
    if(f & 16) k.linAcc = la;
    if(f & 32) k.angAcc = aa;
  }
  ensure("exactly the requested quantities are known", k.position.isSet() == bool(f & 1)
                                                           && k.orientation.isSet() == bool(f & 2)
                                                           && k.linVel.isSet() == bool(f & 4)
                                                           && k.angVel.isSet() == bool(f & 8)
                                                           && k.linAcc.isSet() == bool(f & 16)
                                                           && k.angAcc.isSet() == bool(f & 32));
  if(f & 1) ensureEq("position", k.position(), p);
  if(f & 2) ensureEq("orientation", v4(k.orientation.toQuaternion()), v4(q));
  if(f & 4) ensureEq("linear velocity", k.linVel(), lv);
  if(f & 8) ensureEq("angular velocity", k.angVel(), av);
  if(f & 16) ensureEq("linear acceleration", k.linAcc(), la);
  if(f & 32) ensureEq("angular acceleration", k.angAcc(), aa);
  ensureEq("vector of the known quantities", k.toVector(), x);
  ensureEq("vector of the requested quantities", k.toVector(f), x);
}
CONTRACT(pack_subset, "Kinematics::toVector(flags)")
{
  long f = pick("f", 0, 63);
  Kinematics k;
  Vector x(19);
  for(int i = 0; i < 19; ++i) x(i) = in("x" + std::to_string(i));
  k.fromVector(x);
  std::vector<R> all;
  int start[6] = {0, 3, 7, 10, 13, 16}, len[6] = {3, 4, 3, 3, 3, 3};
  for(int b = 0; b < 6; ++b)
    if(f & (1 << b))
      for(int i = 0; i < len[b]; ++i) all.push_back(x(start[b] + i));
  Vector y(all.size());
  for(size_t i = 0; i < all.size(); ++i) y(i) = all[i];
  ensureEq("requested subset of a full one, in order", k.toVector(f), y);
  ensureEq("full vector", k.toVector(), x);
}
CONTRACT(zero, "Kinematics::setZero, reset")
{
  long f = pick("f", 0, 63), m = pick("m", 0, 1), pre = pick("pre", 0, 1);
  Kinematics k;
  Vector x(19);
  for(int i = 0; i < 19; ++i) x(i) = in("x" + std::to_string(i));
  if(pre) k.fromVector(x);
  if(m)
    k.setZero(f);
  else
    k.setZero<Matrix3>(f);
  V3 z = V3::Zero();
  auto seg = [&](int i) { return V3(x.segment(i, 3)); };
  ensure("known", k.position.isSet() == (bool(f & 1) || pre) && k.orientation.isSet() == (bool(f & 2) || pre)
                      && k.linVel.isSet() == (bool(f & 4) || pre) && k.angVel.isSet() == (bool(f & 8) || pre)
                      && k.linAcc.isSet() == (bool(f & 16) || pre) && k.angAcc.isSet() == (bool(f & 32) || pre));
  if(k.position.isSet()) ensureEq("position", k.position(), f & 1 ? z : seg(0));
  if(f & 2) ensureEq("orientation", k.orientation.toMatrix3(), I3());
  if(k.linVel.isSet()) ensureEq("linear velocity", k.linVel(), f & 4 ? z : seg(7));
  if(k.angVel.isSet()) ensureEq("angular velocity", k.angVel(), f & 8 ? z : seg(10));
  if(k.linAcc.isSet()) ensureEq("linear acceleration", k.linAcc(), f & 16 ? z : seg(13));
  if(k.angAcc.isSet()) ensureEq("angular acceleration", k.angAcc(), f & 32 ? z : seg(16));
  k.reset();
  ensure("nothing known after a reset", !k.position.isSet() && !k.orientation.isSet() && !k.linVel.isSet()
                                            && !k.angVel.isSet() && !k.linAcc.isSet() && !k.angAcc.isSet());
}
