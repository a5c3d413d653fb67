// C22: the elastic local-frame model: contact laws, Newton-Euler, prediction, measurements, Jacobians
// ASSUMES: rotations of angle-axis and matrices to angle-axis are those of Eigen; rotation vectors have their own contract (C07)
#include "models.hpp"
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
typedef flexibilityEstimation::IMUElasticLocalFrameDynamicalSystem Model;
namespace
{
M3 mat3(const std::string & n)
{
  return M3(mat(n, 3, 3));
}
M3 rotation(const V3 & v)
{
  return M3(kine::rotationVectorToAngleAxis(Vector3(v)).toRotationMatrix());
}
// zero, or any nonzero rotation vector by its first nonzero component
// (told apart from the one of a previous call, (1, 0, 0), whose rotation may be cached)
V3 anyRotationVector(const std::string & n, bool previous = false)
{
  long c = pick(n + ".firstNonzero", 0, previous ? 6 : 3);
  V3 v = V3::Zero();
  if(c == 3) return v;
  v = vec3(n, 1.5);
  if(c > 3)
  {
    v(0) = R(1);
    for(long i = 5; i <= 6; ++i)
      if(c < i) v(i - 4) = R(0);
    if(c > 4) assumeNe(v(c - 4), R(0));
    return v;
  }
  if(previous && c == 0) assumeNe(v(0), R(1));
  for(long i = 0; i < c; ++i) v(i) = R(0);
  assumeNe(v(c), R(0));
  assumeAngle(v);
  return v;
}
struct Contacts
{
  long n;
  std::vector<V3> p, o, v, w;
  std::vector<M3> r;
  IndexedVectorArray P, O, V, W;
  void add(const V3 & pos, const V3 & ori, const V3 & vel, const V3 & ang)
  {
    p.push_back(pos);
    o.push_back(ori);
    v.push_back(vel);
    w.push_back(ang);
    bool zero = ori.x() == R(0) && ori.y() == R(0) && ori.z() == R(0);
    r.push_back(zero ? I3() : expM(ori));
    P.setValue(Vector(pos), p.size() - 1);
    O.setValue(Vector(ori), p.size() - 1);
    V.setValue(Vector(vel), p.size() - 1);
    W.setValue(Vector(ang), p.size() - 1);
  }
};
} // namespace
CONTRACT(elastic_contacts, "IMUElasticLocalFrameDynamicalSystem::computeElastContactForcesAndMoments")
{
  Model m(0.005);
  M3 kfe = mat3("kfe"), kfv = mat3("kfv"), kte = mat3("kte"), ktv = mat3("ktv");
  m.setKfe(kfe);
  m.setKfv(kfv);
  m.setKte(kte);
  m.setKtv(ktv);
  ensureEq("linear stiffness", m.getKfe(), kfe);
  ensureEq("linear damping", m.getKfv(), kfv);
  ensureEq("angular stiffness", m.getKte(), kte);
  ensureEq("angular damping", m.getKtv(), ktv);
  long n = pick("contacts", 0, 2);
  m.setContactsNumber(unsigned(n));
  V3 p = vec3("p"), o = vec3("o"), v = vec3("v"), w = vec3("w");
  M3 r = rotOf(unitQ("q"));
  long calls = n ? pick("calls", 1, 2) : 1;
  for(long call = 0; call < calls; ++call)
  {
    std::string l = std::to_string(call);
    Contacts c;
    for(long i = 0; i < n; ++i)
    {
      std::string s = std::to_string(i) + l;
      c.add(vec3("cp" + s), i == 0 && call == calls - 1 ? anyRotationVector("co" + s, call == 1) : V3(R(1), R(i), R(0)), vec3("cv" + s), vec3("cw" + s));
    }
    Vector f(6), t(6);
    f << vec("f" + l, 6);
    t << vec("t" + l, 6);
    m.computeElastContactForcesAndMoments(c.P, c.O, c.V, c.W, Vector3(p), Vector3(v), Vector3(o), Matrix3(r), Vector3(w), f, t);
    for(long i = 0; i < 2; ++i)
    {
      V3 fe = V3::Zero(), te = V3::Zero();
      if(i < n)
      {
        // in the frame of the contact: springs and dampers bring the contact back to where it is without flexibility
        M3 k = (r * c.r[i]).transpose();
        fe = -kfe * (k * V3(p + r * c.p[i] - c.p[i])) - kfv * (k * V3(v + crossOf(w, V3(r * c.p[i])) + r * c.v[i]));
        te = -kte * (k * o) - ktv * (k * w);
      }
      ensureEq("contact force", f.segment(3 * i, 3), fe);
      ensureEq("contact torque", t.segment(3 * i, 3), te);
    }
    Vec all = m.getForcesAndMoments();
    ensure("as many wrenches as contacts", all.size() == 6 * n);
  }
}
CONTRACT(pendulum_ropes, "IMUElasticLocalFrameDynamicalSystem::computeElastPendulumForcesAndMoments")
{
  Model m(0.005);
  long n = pick("ropes", 0, 2);
  M3 kfe = n == 2 ? M3(I3() * in("kfe")) : mat3("kfe"), kfv = mat3("kfv"), kte = mat3("kte"), ktv = mat3("ktv");
  m.setKfeRopes(kfe);
  m.setKfvRopes(kfv);
  m.setKteRopes(kte);
  m.setKtvRopes(ktv);
  V3 e = V3::Zero();
  if(pick("anchor", 0, 1))
  {
    e = vec3("e");
    m.setPe(Vector3(e));
  }
  m.setContactsNumber(unsigned(n));
  V3 p = vec3("p"), o = vec3("o"), v = vec3("v"), w = vec3("w");
  M3 r = rotOf(unitQ("q"));
  Contacts c;
  V3 fe = -kfv * v, te = -ktv * w;
  te.z() -= kte(2, 2) * o.z();
  for(long i = 0; i < n; ++i)
  {
    V3 cp = vec3("cp" + std::to_string(i));
    c.add(cp, V3::Zero(), V3::Zero(), V3::Zero());
    V3 g = p + r * cp, d = g - e;
    assumeLt(R(1e-6), d.squaredNorm());
    // a spring along the rope, of its length without flexibility, at the attachment
    V3 f = kfe * d * R((V3(cp - e).norm() - d.norm()) / d.norm());
    fe += f;
    te += crossOf(g, f);
  }
  Vector f(6), t(6);
  f << vec("f", 6);
  t << vec("t", 6);
  m.computeElastPendulumForcesAndMoments(c.P, Vector3(p), Vector3(v), Vector3(o), Matrix3(r), Vector3(w), f, t);
  ensureEq("force of the ropes", f.head(3), fe);
  ensureEq("moment of the ropes", t.head(3), te);
  ensureEq("nothing else", f.tail(3), V3(V3::Zero()));
  ensureEq("no other moment", t.tail(3), V3(V3::Zero()));
}
namespace
{
struct Body
{
  M3 r, i, id;
  V3 p, v, w, c, cd, cdd, s, sd, fm, tm, fa, ta;
  R m;
};
// what the environment exerts at the origin of the world, weight excepted
void wrenchOf(const Body & b, const Contacts & c, const Vec & f, const Vec & t, bool elastic, V3 & F, V3 & T)
{
  F = b.r * b.fa;
  T = b.r * b.ta + crossOf(b.p, F);
  F += b.fm;
  T += b.tm;
  for(size_t i = 0; i < c.p.size(); ++i)
  {
    if(!elastic) break;
    M3 k = b.r * c.r[i];
    V3 fi = k * V3(f.segment(3 * i, 3));
    F += fi;
    T += k * V3(t.segment(3 * i, 3)) + crossOf(V3(b.p + b.r * c.p[i]), fi);
  }
  if(!elastic)
  {
    F += f.head(3);
    T += t.head(3);
  }
}
void newtonEuler(bool inertia)
{
  Model m(0.005);
  Body b;
  bool elastic = pick("elastic", 0, 1);
  long n = inertia ? 0 : pick("contacts", 0, 2);
  m.setContactsNumber(unsigned(n));
  m.setContactModel(elastic ? Model::contactModel::elasticContact : Model::contactModel::pendulum);
  b.m = pos("m", 60, 1);
  if(pick("mass", 0, 1))
    m.setRobotMass(b.m);
  else
    b.m = R(56.8);
  ensureEq("mass", R(m.getRobotMass()), b.m);
  Q4 q = unitQ("q");
  b.r = rotOf(q);
  b.p = vec3("p");
  b.v = vec3("v");
  b.w = vec3("w");
  // center of mass, and inertia at the origin of the frame, written in the world: any of them
  V3 c0 = inertia ? vec3("c") : V3(R(0.25), R(-0.5), R(0.75));
  M3 j;
  if(inertia)
  {
    M3 l = M3::Zero();
    for(int a = 0; a < 3; ++a)
      for(int d = 0; d <= a; ++d) l(a, d) = a == d ? pos("l" + std::to_string(a), 3, 1) : in("l" + std::to_string(a) + std::to_string(d));
    j = l * l.transpose();
  }
  else
    j << R(9), R(1), R(0.5), R(1), R(8), R(0.25), R(0.5), R(0.25), R(7);
  b.c = b.r.transpose() * c0;
  b.i = b.r.transpose() * M3(j - b.m * skewOf(c0) * skewOf(c0)) * b.r;
  b.id = inertia ? M3(M3::Zero()) : M3(sym("id", 3));
  b.cd = vec3("cd");
  b.cdd = vec3("cdd");
  b.s = vec3("s");
  b.sd = vec3("sd");
  b.fm = vec3("fm");
  b.tm = vec3("tm");
  b.fa = vec3("fa");
  b.ta = vec3("ta");
  if(inertia) b.cd = b.cdd = b.s = b.sd = b.fm = b.fa = b.p = V3::Zero();
  Contacts c;
  for(long i = 0; i < n; ++i)
  {
    std::string s = std::to_string(i);
    c.add(vec3("cp" + s), i == 0 ? anyRotationVector("co") : V3(R(1), R(i), R(0)), V3::Zero(), V3::Zero());
  }
  Vector f(6), t(6);
  f << vec("f", 6);
  t << vec("t", 6);
  Vector3 a, e;
  m.computeAccelerations(Vector3(b.c), Vector3(b.cd), Vector3(b.cdd), Vector3(b.s), Vector3(b.sd), Matrix3(b.i), Matrix3(b.id), c.P, c.O,
                         Vector3(b.p), Vector3(b.v), a, Vector3(vec3("o")), Matrix3(b.r), Vector3(b.w), e, f, t, Vector3(b.fm), Vector3(b.tm),
                         Vector3(b.fa), Vector3(b.ta));
  V3 F, T;
  wrenchOf(b, c, f, t, elastic, F, T);
  V3 C = b.r * b.c, acc = V3(a) + crossOf(V3(e), C) + crossOf(b.w, crossOf(b.w, C)) + R(2) * crossOf(b.w, V3(b.r * b.cd)) + b.r * b.cdd;
  ensureEq("mass times the acceleration of the center of mass", V3(b.m * acc), V3(F - b.m * gravityVec()));
  // about the origin of the world
  M3 I = b.r * b.i * b.r.transpose();
  V3 rate = b.m * crossOf(b.p, acc) + b.m * crossOf(C, V3(a)) + I * V3(e) + crossOf(b.w, V3(I * b.w)) + b.r * b.id * b.r.transpose() * b.w
            + crossOf(b.w, V3(b.r * b.s)) + b.r * b.sd;
  ensureEq("rate of the angular momentum", rate, V3(T - b.m * crossOf(V3(b.p + C), gravityVec())));
}
} // namespace
CONTRACT(newton_euler, "IMUElasticLocalFrameDynamicalSystem::computeAccelerations, computeContactWrench")
{
  newtonEuler(false);
}
CONTRACT(newton_euler_inertia, "IMUElasticLocalFrameDynamicalSystem::computeAccelerations (any mass, inertia and center of mass)")
{
  newtonEuler(true);
}
namespace
{
typedef Model::input IN;
typedef Model::state ST;
M3 inertiaOf(const Vec & v)
{
  M3 i;
  i << v(0), v(3), v(4), v(3), v(1), v(5), v(4), v(5), v(2);
  return i;
}
// the state and the input, by parts
struct Scene
{
  long n = 0;
  bool comBias = false, elastic = true;
  V3 p, o, v, w, fm, tm, drift;
  Vec f, b; // wrenches of both contacts, bias of the center of mass
  V3 c, cd, cdd, s, sd, pi, oi, vi, wi, ai, fa, ta;
  Vec i, id;
  Contacts k;
  static Scene any(const std::string & n, long contacts, const V3 & ori)
  {
    Scene a;
    a.n = contacts;
    a.p = vec3(n + "p");
    a.o = ori;
    a.v = vec3(n + "v");
    a.w = vec3(n + "w");
    a.f = vec(n + "f", 12);
    a.fm = vec3(n + "fm");
    a.tm = vec3(n + "tm");
    a.b = vec(n + "b", 2);
    a.drift = vec3(n + "drift");
    a.c = vec3(n + "c");
    a.cd = vec3(n + "cd");
    a.cdd = vec3(n + "cdd");
    a.i = vec(n + "i", 6);
    a.id = vec(n + "id", 6);
    a.s = vec3(n + "s");
    a.sd = vec3(n + "sd");
    a.pi = vec3(n + "pi");
    a.oi = V3(R(0), R(1), R(0));
    a.vi = vec3(n + "vi");
    a.wi = vec3(n + "wi");
    a.ai = vec3(n + "ai");
    a.fa = vec3(n + "fa");
    a.ta = vec3(n + "ta");
    for(long j = 0; j < contacts; ++j)
    {
      std::string m = n + std::to_string(j);
      a.k.add(vec3("cp" + m), V3(R(1), R(j), R(0)), vec3("cv" + m), vec3("cw" + m));
    }
    return a;
  }
  Vec x() const
  {
    Vec r(35);
    r.segment(ST::pos, 3) = p;
    r.segment(ST::ori, 3) = o;
    r.segment(ST::linVel, 3) = v;
    r.segment(ST::angVel, 3) = w;
    r.segment(ST::fc, 12) = f;
    r.segment(ST::unmodeledForces, 6) << fm, tm;
    r.segment(ST::comBias, 2) = b;
    r.segment(ST::drift, 3) = drift;
    return r;
  }
  Vec u() const
  {
    Vec r(48 + 12 * n);
    r.segment(IN::posCom, 3) = c;
    r.segment(IN::velCom, 3) = cd;
    r.segment(IN::accCom, 3) = cdd;
    r.segment(IN::inertia, 6) = i;
    r.segment(IN::angMoment, 3) = s;
    r.segment(IN::dotInertia, 6) = id;
    r.segment(IN::dotAngMoment, 3) = sd;
    r.segment(IN::posIMU, 3) = pi;
    r.segment(IN::oriIMU, 3) = oi;
    r.segment(IN::linVelIMU, 3) = vi;
    r.segment(IN::angVelIMU, 3) = wi;
    r.segment(IN::linAccIMU, 3) = ai;
    r.segment(IN::additionalForces, 6) << fa, ta;
    for(long j = 0; j < n; ++j) r.segment(IN::contacts + 12 * j, 12) << k.p[j], k.o[j], k.v[j], k.w[j];
    return r;
  }
  V3 com() const
  {
    return comBias ? V3(c - V3(b(0), b(1), R(0))) : c;
  }
  M3 r() const
  {
    return o.x() == R(0) && o.y() == R(0) && o.z() == R(0) ? I3() : rotation(o);
  }
};
// The functions below the one under contract are replaced by their contract (proved above): any accelerations, any
// contact wrenches, from the arguments they must be given.
struct Probe : public Model
{
  Probe(const R & dt) : Model(dt) {}
  using Model::computeAccelerations;
  Scene now, next;
  bool advance = false; // the wrenches are those of the next position
  V3 a, e;
  Vec f = Vec::Zero(6), t = Vec::Zero(6);
  M3 rot; // orientation the wrenches are computed with
  long accelerations = 0, wrenches = 0;
  static void same(const std::string & l, const IndexedVectorArray & x, const std::vector<V3> & y)
  {
    for(size_t i = 0; i < y.size(); ++i) ensureEq(l, x[i], y[i]);
  }
  void computeAccelerations(const Vector3 & c, const Vector3 & cd, const Vector3 & cdd, const Vector3 & s, const Vector3 & sd, const Matrix3 & i,
                            const Matrix3 & id, const IndexedVectorArray & cp, const IndexedVectorArray & co, const Vector3 & p,
                            const Vector3 & v, Vector3 & acc, const Vector3 & o, const Matrix3 & r, const Vector3 & w, Vector3 & ang,
                            const Vector & fc, const Vector & tc, const Vector3 & fm, const Vector3 & tm, const Vector3 & fa,
                            const Vector3 & ta) override
  {
    ++accelerations;
    ensureEq("accelerations: center of mass", c, now.com());
    ensureEq("accelerations: velocity of the center of mass", cd, now.cd);
    ensureEq("accelerations: acceleration of the center of mass", cdd, now.cdd);
    ensureEq("accelerations: angular momentum", s, now.s);
    ensureEq("accelerations: rate of the angular momentum", sd, now.sd);
    ensureEq("accelerations: inertia", i, inertiaOf(now.i));
    ensureEq("accelerations: rate of the inertia", id, inertiaOf(now.id));
    same("accelerations: position of the contacts", cp, now.k.p);
    same("accelerations: orientation of the contacts", co, now.k.o);
    ensureEq("accelerations: position", p, now.p);
    ensureEq("accelerations: linear velocity", v, now.v);
    ensureEq("accelerations: orientation vector", o, now.o);
    ensureEq("accelerations: orientation", r, now.r());
    ensureEq("accelerations: angular velocity", w, now.w);
    for(long j = 0; j < 2; ++j)
    {
      ensureEq("accelerations: forces", fc.segment(3 * j, 3), now.f.segment(6 * j, 3));
      ensureEq("accelerations: torques", tc.segment(3 * j, 3), now.f.segment(6 * j + 3, 3));
    }
    ensureEq("accelerations: unmodeled force", fm, now.fm);
    ensureEq("accelerations: unmodeled torque", tm, now.tm);
    ensureEq("accelerations: additional force", fa, now.fa);
    ensureEq("accelerations: additional torque", ta, now.ta);
    acc = a;
    ang = e;
    if(advance) now = next;
  }
  void give(const IndexedVectorArray & cp, const V3 & p, const V3 & v, const V3 & o, const M3 & r, const V3 & w, Vector & F, Vector & T)
  {
    ++wrenches;
    same("wrenches: position of the contacts", cp, now.k.p);
    ensureEq("wrenches: position", p, now.p);
    ensureEq("wrenches: linear velocity", v, now.v);
    ensureEq("wrenches: orientation vector", o, now.o);
    ensureEq("wrenches: orientation", r, rot);
    ensureEq("wrenches: angular velocity", w, now.w);
    F = f;
    T = t;
  }
  void computeElastContactForcesAndMoments(const IndexedVectorArray & cp, const IndexedVectorArray & co, const IndexedVectorArray & cv,
                                           const IndexedVectorArray & cw, const Vector3 & p, const Vector3 & v, const Vector3 & o,
                                           const Matrix3 & r, const Vector3 & w, Vector & F, Vector & T) override
  {
    ensure("contacts are elastic", now.elastic);
    same("wrenches: orientation of the contacts", co, now.k.o);
    same("wrenches: velocity of the contacts", cv, now.k.v);
    same("wrenches: angular velocity of the contacts", cw, now.k.w);
    give(cp, p, v, o, r, w, F, T);
  }
  void computeElastPendulumForcesAndMoments(const IndexedVectorArray & cp, const Vector3 & p, const Vector3 & v, const Vector3 & o,
                                            const Matrix3 & r, const Vector3 & w, Vector & F, Vector & T) override
  {
    ensure("ropes hold the pendulum", !now.elastic);
    give(cp, p, v, o, r, w, F, T);
  }
};
// anything computed before, with another orientation: caches must not matter
void options(Probe & m, Scene & s, bool all = true)
{
  m.setContactsNumber(unsigned(s.n));
  s.elastic = !all || pick("elastic", 0, 1);
  m.setContactModel(s.elastic ? Model::contactModel::elasticContact : Model::contactModel::pendulum);
  s.comBias = all && pick("comBias", 0, 1);
  m.setWithComBias(s.comBias);
  ensure("center of mass bias", m.getWithComBias() == s.comBias);
  m.a = vec3("acc");
  m.e = vec3("ang");
  m.f << vec("nf", 6);
  m.t << vec("nt", 6);
}
} // namespace
CONTRACT(accelerations, "IMUElasticLocalFrameDynamicalSystem::computeAccelerations(x, u), getForcesAndMoments(x, u)")
{
  Probe m(pos("dt", 0.1));
  Scene s = Scene::any("", pick("contacts", 0, 2), anyRotationVector("o"));
  options(m, s);
  m.now = s;
  m.rot = s.r();
  Vec r = m.Model::computeAccelerations(s.x(), s.u()), y(6);
  y << m.a, m.e;
  ensureEq("linear, then angular acceleration", r, y);
  ensure("one evaluation", m.accelerations == 1);
  Vec w = m.getForcesAndMoments(s.x(), s.u());
  ensure("one evaluation of the wrenches", m.wrenches == 1 && w.size() == 6 * s.n);
  for(long j = 0; j < s.n; ++j)
  {
    ensureEq("forces", w.segment(6 * j, 3), m.f.segment(3 * j, 3));
    ensureEq("torques", w.segment(6 * j + 3, 3), m.t.segment(3 * j, 3));
  }
}
CONTRACT(momenta, "IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces, getMomentaDotFromKinematics")
{
  Probe m(pos("dt", 0.1));
  Scene s = Scene::any("", pick("contacts", 0, 2), pick("zero", 0, 1) ? V3(V3::Zero()) : nonzero3("o", 1.5));
  options(m, s);
  m.now = s;
  R mass = R(56.8);
  if(pick("mass", 0, 1))
  {
    mass = pos("m", 60, 1);
    m.setRobotMass(mass);
  }
  if(pick("which", 0, 1))
  {
    Body b;
    b.r = s.r();
    b.p = s.p;
    b.fm = s.fm;
    b.tm = s.tm;
    b.fa = s.fa;
    b.ta = s.ta;
    Vec f(6), t(6);
    f << s.f.segment(0, 3), s.f.segment(6, 3);
    t << s.f.segment(3, 3), s.f.segment(9, 3);
    V3 F, T;
    wrenchOf(b, s.k, f, t, s.elastic, F, T);
    Vec d = m.getMomentaDotFromForces(s.x(), s.u());
    ensureEq("rate of the momentum: forces", d.head(3), V3(F - mass * gravityVec()));
    ensureEq("rate of the angular momentum: torques", d.tail(3), V3(T - mass * crossOf(V3(s.p + b.r * s.com()), gravityVec())));
    return;
  }
  Vec d = m.getMomentaDotFromKinematics(s.x(), s.u());
  M3 r = s.r(), I = r * inertiaOf(s.i) * r.transpose();
  V3 C = r * s.com();
  V3 acc = m.a + crossOf(m.e, C) + crossOf(s.w, crossOf(s.w, C)) + R(2) * crossOf(s.w, V3(r * s.cd)) + r * s.cdd;
  ensureEq("rate of the momentum: acceleration", d.head(3), V3(mass * acc));
  V3 rate = mass * crossOf(s.p, acc) + mass * crossOf(C, m.a) + I * m.e + crossOf(s.w, V3(I * s.w)) + r * inertiaOf(s.id) * r.transpose() * s.w
            + crossOf(s.w, V3(r * s.s)) + r * s.sd;
  ensureEq("rate of the angular momentum: accelerations", d.tail(3), rate);
  ensure("one evaluation", m.accelerations == 1);
}
namespace
{
V3 vectorOf(const M3 & r)
{
  Eigen::AngleAxis<R> a(r);
  return V3(a.angle() * a.axis());
}
} // namespace
namespace
{
// one period: the accelerations are constant, the wrenches are those of the next configuration
void period(const Scene & given, bool still, const R & dt, bool whole)
{
  Scene s = given;
  Probe m(R(1));
  m.setSamplingPeriod(dt);
  options(m, s);
  if(still) m.e = s.w * R(-2 / dt);
  bool unmodeled = pick("unmodeled", 0, 1);
  m.setWithUnmodeledForces(unmodeled);
  Vector3 p = s.p, v = s.v, w = s.w;
  Matrix3 r = s.r();
  if(!still) assumeAngle(V3(s.w * dt + m.e * R(dt * dt / 2)));
  kine::integrateKinematics(p, v, Vector3(m.a), r, w, Vector3(m.e), dt);
  Scene z = s;
  z.p = p;
  z.v = v;
  z.w = w;
  z.o = vectorOf(r);
  z.f << m.f.head(3), m.t.head(3), m.f.tail(3), m.t.tail(3);
  z.fm = unmodeled ? V3(s.fm * R(0.9999)) : V3(V3::Zero());
  z.tm = unmodeled ? V3(s.tm * R(0.9999)) : V3(V3::Zero());
  m.now = s;
  m.next = z;
  m.advance = true;
  m.rot = r;
  Noise e;
  long how = whole ? pick("noise", 0, 2) : 0;
  if(how) m.setProcessNoise(&e);
  if(how == 2) m.resetProcessNoise();
  Vec y = m.stateDynamics(s.x(), s.u(), 3);
  ensure("one evaluation", m.accelerations == 1 && m.wrenches == 1);
  ensure("one draw of the process noise", e.draws == (how == 1));
  ensureEq("next state", y, how == 1 ? e.last(z.x()) : z.x());
}
} // namespace
CONTRACT(state, "IMUElasticLocalFrameDynamicalSystem::stateDynamics, iterateDynamicsEuler")
{
  period(Scene::any("", pick("contacts", 0, 2), V3::Zero()), true, pos("dt", 0.1), true);
}
CONTRACT(state_turning, "IMUElasticLocalFrameDynamicalSystem::stateDynamics, iterateDynamicsEuler (from no rotation)")
{
  period(Scene::any("", 1, V3::Zero()), false, pos("dt", 0.1), false);
}
CONTRACT(state_turned, "IMUElasticLocalFrameDynamicalSystem::stateDynamics, iterateDynamicsEuler (constant rotation)")
{
  period(Scene::any("", 1, nonzero3("o", 1.5)), true, pos("dt", 0.1), false);
}
BOUNDED(state_any, "IMUElasticLocalFrameDynamicalSystem::stateDynamics, iterateDynamicsEuler (any rotation)")
{
  period(Scene::any("", 1, vec3("o", 1.5)), false, pos("dt", 0.1), false);
}
namespace
{
// everything the measurement depends on
Vec measured(const Scene & s, const V3 & a, const V3 & e, bool forces, bool absolute)
{
  M3 r = s.r(), ri = r * rotation(s.oi);
  V3 rp = r * s.pi;
  V3 acc = a + crossOf(e, rp) + crossOf(s.w, crossOf(s.w, rp)) + R(2) * crossOf(s.w, V3(r * s.vi)) + r * s.ai;
  Vec y(6 + (forces ? 6 * s.n : 0) + (absolute ? 6 : 0));
  y.head(6) = imuMeasure(ri, acc, V3(s.w + r * s.wi));
  long k = 6;
  if(forces)
    for(long j = 0; j < s.n; ++j, k += 6) y.segment(k, 6) = s.f.segment(6 * j, 6);
  if(absolute)
  {
    M3 d = rotZ(s.drift.z());
    y.segment(k, 3) = d * s.p + V3(s.drift.x(), s.drift.y(), R(0));
    y.segment(k + 3, 3) = vectorOf(M3(d * r));
  }
  return y;
}
} // namespace
CONTRACT(measure, "IMUElasticLocalFrameDynamicalSystem::measureDynamics")
{
  pruning(20);
  Probe m(pos("dt", 0.1));
  bool zero = pick("zero", 0, 1), forces = pick("forces", 0, 1), absolute = pick("absolute", 0, 1);
  Scene s = Scene::any("", absolute ? 1 : pick("contacts", 0, 2), zero ? V3(V3::Zero()) : nonzero3("o", 1.5));
  bool imuTilted = !absolute && pick("imuTilted", 0, 1);
  if(!imuTilted) s.oi = V3::Zero();
  options(m, s, !absolute);
  if(pick("order", 0, 1))
  {
    m.setWithForceMeasurements(forces);
    m.setWithAbsolutePosition(absolute);
  }
  else
  {
    m.setWithAbsolutePosition(absolute);
    m.setWithForceMeasurements(forces);
  }
  m.now = s;
  Noise e;
  bool noisy = !absolute && pick("noisy", 0, 1);
  if(noisy) m.setMeasurementNoise(&e);
  Vec y = measured(s, m.a, m.e, forces, absolute), z = m.measureDynamics(s.x(), s.u(), 5);
  ensure("measurement size", m.getMeasurementSize() == y.size() && z.size() == y.size());
  ensure("one draw of the measurement noise", e.draws == noisy);
  ensureEq("measurement", z, noisy ? e.last(y) : y);
}
CONTRACT(caches, "IMUElasticLocalFrameDynamicalSystem::measureDynamics, after another state and input")
{
  Probe m(pos("dt", 0.1));
  long n = pick("contacts", 0, 2);
  Scene b = Scene::any("b", pick("contactsBefore", 0, 2), V3(R(1), R(0), R(0)));
  Scene s = Scene::any("", n, anyRotationVector("o", true));
  b.oi = V3(R(1), R(0), R(0)); // the orientation of the IMU may be the same, or change
  s.oi = pick("sameIMU", 0, 1) ? b.oi : V3(R(0), R(1), R(0));
  m.a = vec3("acc");
  m.e = vec3("ang");
  m.setContactModel(Model::contactModel::elasticContact);
  m.setContactsNumber(unsigned(b.n));
  m.setWithForceMeasurements(true);
  m.now = b;
  ensure("size before", m.measureDynamics(b.x(), b.u(), 4).size() == 6 + 6 * b.n);
  m.setContactsNumber(unsigned(n));
  m.now = s;
  ensureEq("measurement", m.measureDynamics(s.x(), s.u(), 5), measured(s, m.a, m.e, true, false));
}
CONTRACT(settings, "IMUElasticLocalFrameDynamicalSystem: sizes, options, noises and refusals")
{
  Model m(0.01);
  Noise e, f;
  ensure("sizes at first", m.getStateSize() == 35 && m.getInputSize() == 48 && m.getMeasurementSize() == 6 && m.getContactsNumber() == 0);
  ensure("options at first", !m.getWithForceMeasurements() && !m.getWithAbsolutePosition() && !m.getWithComBias());
  long n = 0;
  bool forces = false, absolute = false;
  for(int i = 0; i < 4; ++i)
  {
    long what = pick("event" + std::to_string(i), 0, 4);
    if(what < 3) m.setContactsNumber(unsigned(n = what));
    if(what == 3) m.setWithForceMeasurements(forces = !forces);
    if(what == 4) m.setWithAbsolutePosition(absolute = !absolute);
    ensure("input size", m.getInputSize() == 48 + 12 * n);
    ensure("measurement size", m.getMeasurementSize() == 6 + (forces ? 6 * n : 0) + (absolute ? 6 : 0));
    ensure("options", m.getContactsNumber() == n && m.getWithForceMeasurements() == forces && m.getWithAbsolutePosition() == absolute);
  }
  ensure("no noise at first", m.getProcessNoise() == nullptr && m.getMeasurementNoise() == nullptr);
  m.setProcessNoise(&e);
  m.setMeasurementNoise(&f);
  ensure("noises", m.getProcessNoise() == &e && m.getMeasurementNoise() == &f);
  m.resetProcessNoise();
  ensure("only the process noise is removed", m.getProcessNoise() == nullptr && m.getMeasurementNoise() == &f);
  m.setProcessNoise(&e);
  m.resetMeasurementNoise();
  ensure("only the measurement noise is removed", m.getMeasurementNoise() == nullptr && m.getProcessNoise() == &e);
  refuses("a state of another size", [&] { m.stateDynamics(Vec::Zero(34), Vec::Zero(48 + 12 * n), 0); });
  refuses("an input of another size", [&] { m.stateDynamics(Vec::Zero(35), Vec::Zero(47 + 12 * n), 0); });
  refuses("measuring a state of another size", [&] { m.measureDynamics(Vec::Zero(36), Vec::Zero(48 + 12 * n), 0); });
  refuses("measuring with an input of another size", [&] { m.measureDynamics(Vec::Zero(35), Vec::Zero(49 + 12 * n), 0); });
  refuses("contact forces without a contact model", [&] {
    m.setContactModel(Model::contactModel::none);
    m.getForcesAndMoments(Vec::Zero(35), Vec::Zero(48 + 12 * n));
  });
}
namespace
{
// any dynamics: what the steps compute is an arbitrary function of what they are given
struct Any : public Model
{
  Any() : Model(R(0.1)) {}
  using Model::computeAccelerations;
  static Vec args(const std::vector<Vec> & v)
  {
    long n = 0;
    for(auto & a : v) n += a.size();
    Vec r(n);
    n = 0;
    for(auto & a : v)
    {
      r.segment(n, a.size()) = a;
      n += a.size();
    }
    return r;
  }
  void iterateDynamicsEuler(const Vector3 & c, const Vector3 & cd, const Vector3 & cdd, const Vector3 & s, const Vector3 & sd, const Matrix3 &,
                            const Matrix3 &, const IndexedVectorArray & cp, const IndexedVectorArray & co, Vector3 & p, Vector3 & v, Vector & fc,
                            Vector3 & o, Vector3 & w, Vector & tc, const Vector3 & fm, const Vector3 & tm, const Vector3 & fa,
                            const Vector3 & ta, R) override
  {
    Vec y = ufVec("step", 24, args({c, cd, cdd, s, sd, cp[0], co[0], p, v, fc, o, w, tc, fm, tm, fa, ta}));
    p = y.segment(0, 3);
    v = y.segment(3, 3);
    o = y.segment(6, 3);
    w = y.segment(9, 3);
    fc = y.segment(12, 6);
    tc = y.segment(18, 6);
  }
  void computeAccelerations(const Vector3 & c, const Vector3 & cd, const Vector3 & cdd, const Vector3 & s, const Vector3 & sd, const Matrix3 &,
                            const Matrix3 &, const IndexedVectorArray & cp, const IndexedVectorArray & co, const Vector3 & p,
                            const Vector3 & v, Vector3 & acc, const Vector3 & o, const Matrix3 &, const Vector3 & w, Vector3 & ang,
                            const Vector & fc, const Vector & tc, const Vector3 & fm, const Vector3 & tm, const Vector3 & fa,
                            const Vector3 & ta) override
  {
    Vec y = ufVec("acceleration", 6, args({c, cd, cdd, s, sd, cp[0], co[0], p, v, o, w, fc, tc, fm, tm, fa, ta}));
    acc = y.head(3);
    ang = y.tail(3);
  }
};
// columns of the components that are estimated; the others are decoupled
void jacobian(bool measurement, bool absolute)
{
  Any m, g;
  bool unmodeled = pick("unmodeled", 0, 1), bias = pick("bias", 0, 1);
  Scene s = Scene::any("", 1, V3(R(0.5), R(0.25), R(-0.5)));
  s.drift.z() = R(0.25);
  Vec d = measurement ? Vec(Vec::Constant(35, R(1) / R(1024))) : vec("dx", 35);
  if(!measurement)
    for(int i = 0; i < 35; ++i) d(i) = pos("d" + std::to_string(i), 1e-2, 1e-3);
  for(Any * a : {&m, &g})
  {
    a->setContactsNumber(1);
    a->setContactModel(Model::contactModel::elasticContact);
    a->setWithUnmodeledForces(unmodeled);
    a->setWithComBias(bias);
    a->setWithAbsolutePosition(absolute);
    a->setWithForceMeasurements(measurement);
    a->setFDstep(Vector(d));
  }
  Vec x = s.x(), u = s.u();
  auto value = [&](Any & a, const Vec & z) -> Vec { return measurement ? a.measureDynamics(z, u, 1) : a.stateDynamics(z, u, 1); };
  if(pick("before", 0, 1)) value(m, Vec(x + d));
  Vec y = value(m, x);
  Mat j = measurement ? m.measureDynamicsJacobian() : m.stateDynamicsJacobian();
  ensure("size", j.rows() == y.size() && j.cols() == 35);
  for(int i = 0; i < 35; ++i)
  {
    bool estimated = i < 24 || (i < 30 ? unmodeled : i < 32 ? bias : absolute);
    std::string part = i < 24 ? "motion and wrenches" : i < 30 ? "unmodeled forces" : i < 32 ? "bias" : "drift";
    Vec c = Vec::Zero(y.size());
    if(estimated)
    {
      Vec z = x;
      z(i) += d(i);
      c = (value(g, z) - y) / d(i);
    }
    else if(!measurement)
      c(i) = R(1);
    ensureEq("derivative with respect to the " + part, j.col(i), c, measurement ? 1e-4 : 1e-6);
  }
  Mat j2 = measurement ? m.measureDynamicsJacobian() : m.stateDynamicsJacobian();
  ensureEq("the same when asked again", j2, j);
}
} // namespace
CONTRACT(jacobian_state, "IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacobian")
{
  jacobian(false, pick("absolute", 0, 1));
}
CONTRACT(jacobian_measure, "IMUElasticLocalFrameDynamicalSystem::measureDynamicsJacobian")
{
  jacobian(true, false);
}
BOUNDED(jacobian_measure_absolute, "IMUElasticLocalFrameDynamicalSystem::measureDynamicsJacobian (absolute position)")
{
  jacobian(true, true);
}
namespace
{
// fourth-order Runge-Kutta over one period, whatever the accelerations
struct Stages : public Model
{
  Stages() : Model(R(0.1)) {}
  using Model::computeAccelerations;
  long k = 0, wrenches = 0;
  V3 a[4], e[4], p[4], v[4], w[4];
  M3 r[4];
  Vec f, t, nf, nt;
  void computeAccelerations(const Vector3 &, const Vector3 &, const Vector3 &, const Vector3 &, const Vector3 &, const Matrix3 &, const Matrix3 &,
                            const IndexedVectorArray &, const IndexedVectorArray &, const Vector3 & P, const Vector3 & V, Vector3 & acc,
                            const Vector3 &, const Matrix3 & O, const Vector3 & W, Vector3 & ang, const Vector & F, const Vector & T,
                            const Vector3 &, const Vector3 &, const Vector3 &, const Vector3 &) override
  {
    ensure("four stages", k < 4);
    ensureEq("stage: position", P, p[k]);
    ensureEq("stage: velocity", V, v[k]);
    ensureEq("stage: orientation", O, r[k]);
    ensureEq("stage: angular velocity", W, w[k]);
    ensureEq("stage: forces", F, f);
    ensureEq("stage: torques", T, t);
    acc = a[k];
    ang = e[k];
    ++k;
  }
  void computeElastContactForcesAndMoments(const IndexedVectorArray &, const IndexedVectorArray &, const IndexedVectorArray &,
                                           const IndexedVectorArray &, const Vector3 &, const Vector3 &, const Vector3 &, const Matrix3 &,
                                           const Vector3 &, Vector & F, Vector & T) override
  {
    ++wrenches;
    F = nf;
    T = nt;
  }
};
void rungeKutta(bool turning)
{
  Stages m;
  m.setContactModel(Model::contactModel::elasticContact);
  R dt = pos("dt", 0.1);
  V3 p = vec3("p"), v = vec3("v"), w = turning ? nonzero3("w") : V3(V3::Zero()), o = turning ? nonzero3("o", 1.5) : V3(V3::Zero());
  M3 r = turning ? rotation(o) : I3();
  for(int k = 0; k < 4; ++k)
  {
    m.a[k] = vec3("a" + std::to_string(k));
    m.e[k] = turning ? vec3("e" + std::to_string(k)) : V3(V3::Zero());
    R h = k == 0 ? R(0) : k == 3 ? dt : R(dt / 2);
    m.v[k] = k ? V3(v + h * m.a[k - 1]) : v;
    m.w[k] = k ? V3(w + h * m.e[k - 1]) : w;
    m.p[k] = k ? V3(p + h * m.v[k - 1]) : p;
    m.r[k] = k && turning ? M3(rotation(V3(h * m.w[k - 1])) * r) : r;
  }
  m.f = vec("f", 6);
  m.t = vec("t", 6);
  m.nf = vec("nf", 6);
  m.nt = vec("nt", 6);
  Vector3 P = p, V = v, O = o, W = w, z = Vector3::Zero();
  Vector F = m.f, T = m.t;
  IndexedVectorArray none;
  m.iterateDynamicsRK4(z, z, z, z, z, Matrix3::Zero(), Matrix3::Zero(), none, none, P, V, F, O, W, T, z, z, z, z, dt);
  ensure("all stages", m.k == 4 && m.wrenches == 1);
  ensureEq("position", P, V3(p + R(dt / 6) * (m.v[0] + R(2) * m.v[1] + R(2) * m.v[2] + m.v[3])));
  ensureEq("velocity", V, V3(v + R(dt / 6) * (m.a[0] + R(2) * m.a[1] + R(2) * m.a[2] + m.a[3])));
  ensureEq("angular velocity", W, V3(w + R(dt / 6) * (m.e[0] + R(2) * m.e[1] + R(2) * m.e[2] + m.e[3])));
  M3 q = r;
  if(turning)
    for(int k = 0; k < 4; ++k) q = rotation(V3(m.w[k] * R(dt / (k % 3 ? 3 : 6)))) * q;
  ensureEq("orientation", rotation(V3(O)), q);
  ensureEq("forces", F, m.nf);
  ensureEq("torques", T, m.nt);
}
} // namespace
CONTRACT(runge_kutta, "IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4 (no rotation)")
{
  rungeKutta(false);
}
BOUNDED(runge_kutta_turning, "IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4")
{
  rungeKutta(true);
}
