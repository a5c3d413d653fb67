// C08: kinematic integration, finite-difference derivation, multiplicative Jacobians, trajectory reconstruction
#include "ref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
CONTRACT(int_position, "kine::integrateKinematics(position, velocity[, acceleration])")
{
  V3 p = vec3("p"), v = vec3("v"), a = vec3("a");
  R dt = in("dt");
  Vector3 p1 = p, v1 = v;
  kine::integrateKinematics(p1, v1, a, dt);
  ensureEq("position, constant acceleration", p1, V3(p + v * dt + a * R(dt * dt / 2)));
  ensureEq("velocity, constant acceleration", v1, V3(v + a * dt));
  Vector3 p2 = p;
  kine::integrateKinematics(p2, v, dt);
  ensureEq("position, constant velocity", p2, V3(p + v * dt));
}
CONTRACT(int_matrix, "kine::integrateKinematics(Matrix3, ...)")
{
  Q4 q = unitQ("q");
  V3 w = vec3("w"), a = vec3("a"), p = vec3("p"), v = vec3("v"), l = vec3("l");
  R dt = pos("dt");
  assumeAngle(V3(w * dt));
  V3 d = w * dt + a * R(dt * dt / 2);
  assumeAngle(d);
  Matrix3 m = rotOf(q);
  Vector3 w1 = w;
  kine::integrateKinematics(m, w, dt);
  ensureEq("constant velocity", m, expM(w * dt) * rotOf(q));
  m = rotOf(q);
  kine::integrateKinematics(m, w1, a, dt);
  ensureEq("constant acceleration", m, expM(d) * rotOf(q));
  ensureEq("angular velocity", w1, V3(w + a * dt));
  Vector3 p1 = p, v1 = v;
  m = rotOf(q);
  w1 = w;
  kine::integrateKinematics(p1, v1, l, m, w1, a, dt);
  ensureEq("full: position", p1, V3(p + v * dt + l * R(dt * dt / 2)));
  ensureEq("full: velocity", v1, V3(v + l * dt));
  ensureEq("full: orientation", m, expM(d) * rotOf(q));
  ensureEq("full: angular velocity", w1, V3(w + a * dt));
  p1 = p;
  m = rotOf(q);
  kine::integrateKinematics(p1, v, m, w, dt);
  ensureEq("velocities only: position", p1, V3(p + v * dt));
  ensureEq("velocities only: orientation", m, expM(w * dt) * rotOf(q));
}
CONTRACT(int_quaternion, "kine::integrateKinematics(Quaternion, ...)")
{
  Q4 q = unitQ("q");
  V3 w = vec3("w"), a = vec3("a"), p = vec3("p"), v = vec3("v"), l = vec3("l");
  R dt = pos("dt");
  assumeAngle(V3(w * dt));
  V3 d = w * dt + a * R(dt * dt / 2);
  assumeAngle(d);
  Quaternion m = q;
  Vector3 w1 = w;
  kine::integrateKinematics(m, w, dt);
  ensureEq("constant velocity", rotOf(m), rotOf(mulQ(expQ(w * dt), q)));
  m = q;
  kine::integrateKinematics(m, w1, a, dt);
  ensureEq("constant acceleration", rotOf(m), rotOf(mulQ(expQ(d), q)));
  ensureEq("angular velocity", w1, V3(w + a * dt));
  ensureEq("unit norm kept", R(m.squaredNorm()), R(1));
  Vector3 p1 = p, v1 = v;
  m = q;
  w1 = w;
  kine::integrateKinematics(p1, v1, l, m, w1, a, dt);
  ensureEq("full: position", p1, V3(p + v * dt + l * R(dt * dt / 2)));
  ensureEq("full: velocity", v1, V3(v + l * dt));
  ensureEq("full: orientation", rotOf(m), rotOf(mulQ(expQ(d), q)));
  ensureEq("full: angular velocity", w1, V3(w + a * dt));
  p1 = p;
  m = q;
  kine::integrateKinematics(p1, v, m, w, dt);
  ensureEq("velocities only: position", p1, V3(p + v * dt));
  ensureEq("velocities only: orientation", rotOf(m), rotOf(mulQ(expQ(w * dt), q)));
}
CONTRACT(int_rest, "kine::integrateKinematics (zero rotation)")
{
  Q4 q = unitQ("q");
  Matrix3 m = rotOf(q);
  Quaternion k = q;
  Vector3 w = V3::Zero();
  R dt = pos("dt");
  kine::integrateKinematics(m, w, dt);
  kine::integrateKinematics(k, w, dt);
  ensureEq("matrix kept", m, rotOf(q));
  ensureEq("quaternion kept", v4(k), v4(q));
}
CONTRACT(fd_quaternion, "kine::derivateRotationFD(Quaternion)")
{
  Q4 a = unitQ("a"), b = unitQ("b");
  R dt = pos("dt");
  // every second orientation is some unit b times the first
  V3 w = kine::derivateRotationFD(a, mulQ(b, a), dt);
  assumeAngle(V3(w * dt));
  ensureEq("integrating it over dt leads from the first to the second", expM(w * dt), rotOf(b));
  ensureLe("shortest rotation", R((w * dt).squaredNorm()), R(pi() * pi()));
}
CONTRACT(fd_quaternion_same, "kine::derivateRotationFD(Quaternion)")
{
  Q4 a = unitQ("a");
  ensureEq("no motion, no velocity", kine::derivateRotationFD(a, a, pos("dt")), V3(V3::Zero()));
}
CONTRACT(fd_vector, "kine::derivateRotationFD(Vector3)")
{
  V3 a = nonzero3("a"), b = nonzero3("b");
  R dt = pos("dt");
  V3 w = kine::derivateRotationFD(a, b, dt);
  ensureEq("that of the quaternions", w, kine::derivateRotationFD(expQ(a), expQ(b), dt));
}
CONTRACT(fd_homogeneous, "kine::derivateHomogeneousMatrixFD")
{
  Q4 a = unitQ("a"), b = unitQ("b");
  R dt = pos("dt");
  V3 s = vec3("s"), t = vec3("t");
  Matrix4 m1 = Matrix4::Identity(), m2 = Matrix4::Identity();
  // the second orientation is the first moved by b
  m1.block(0, 0, 3, 3) = rotOf(a);
  m2.block(0, 0, 3, 3) = rotOf(b) * rotOf(a);
  m1.block(0, 3, 3, 1) = s;
  m2.block(0, 3, 3, 1) = t;
  Vector6 v = kine::derivateHomogeneousMatrixFD(m1, m2, dt);
  ensureEq("linear velocity first", V3(v.head(3)), V3((t - s) / dt));
  V3 w = v.tail(3);
  assumeAngle(V3(w * dt));
  ensureEq("angular velocity last", expM(w * dt), rotOf(b));
}
CONTRACT(fd_pose, "kine::derivatePoseThetaUFD")
{
  V3 a = nonzero3("a"), b = nonzero3("b"), s = vec3("s"), t = vec3("t");
  R dt = pos("dt");
  Vector6 v1, v2;
  v1 << s, a;
  v2 << t, b;
  Vector6 v = kine::derivatePoseThetaUFD(v1, v2, dt);
  ensureEq("linear velocity", V3(v.head(3)), V3((t - s) / dt));
  ensureEq("angular velocity", V3(v.tail(3)), kine::derivateRotationFD(expQ(a), expQ(b), dt));
}
// d exp(delta): left Jacobian of SO(3)
CONTRACT(jac_multiplicative, "kine::derivateRotationMultiplicative")
{
  V3 d = nonzero3("d", 4);
  Matrix3 a, b;
  kine::derivateRotationMultiplicative(d, a, b);
  ensureEq("dR/dR", a, expM(d));
  R n = d.norm();
  M3 s = skewOf(d);
  ensureEq("dR/ddeltaR: left Jacobian of the exponential", b,
           M3(I3() + s * R((1 - cos(n)) / (n * n)) + (s * s) * R((n - sin(n)) / (n * n * n))));
}
CONTRACT(jac_multiplicative_zero, "kine::derivateRotationMultiplicative")
{
  Matrix3 a, b;
  kine::derivateRotationMultiplicative(V3(V3::Zero()), a, b);
  ensureEq("dR/dR", a, I3());
  ensureEq("dR/ddeltaR", b, I3());
}
// exp(d) R: the derivative of R^T exp(-d) v at d = 0
CONTRACT(jac_rtv, "kine::derivateRtvMultiplicative")
{
  Q4 q = unitQ("q");
  V3 v = vec3("v"), d = vec3("d");
  ensureEq("first-order variation of R^T v", kine::derivateRtvMultiplicative(rotOf(q), v) * d,
           rotOf(q).transpose() * crossOf(v, d));
}
CONTRACT(fixed_point, "kine::fixedPointRotationToTranslation")
{
  Q4 q = unitQ("q");
  V3 w = vec3("w"), a = vec3("a"), f = vec3("f");
  Vector3 t, v, l;
  kine::fixedPointRotationToTranslation(rotOf(q), w, a, f, t, v, l);
  V3 r = rotOf(q) * f;
  ensureEq("the point stays in place", V3(t + r), f);
  ensureEq("its velocity is zero", V3(v + crossOf(w, r)), V3(V3::Zero()));
  ensureEq("its acceleration is zero", V3(l + crossOf(a, r) + crossOf(w, crossOf(w, r))), V3(V3::Zero()));
}
// state = (p, theta u, v, w, a, dw): rigid transform and its inverse
CONTRACT(invert_state, "kine::invertState")
{
  V3 p = vec3("p"), o = nonzero3("o"), v = vec3("v"), w = vec3("w"), a = vec3("a"), dw = vec3("e");
  Vector s(18);
  s << p, o, v, w, a, dw;
  Vec i = kine::invertState(s);
  ensure("size", i.size() == 18);
  M3 Rt = expM(o).transpose();
  V3 p2 = i.segment(0, 3), o2 = i.segment(3, 3), v2 = i.segment(6, 3), w2 = i.segment(9, 3), a2 = i.segment(12, 3),
     e2 = i.segment(15, 3);
  ensureEq("orientation", o2, V3(-o));
  // composition with the original is the identity at rest
  ensureEq("position", p2, V3(-(Rt * p)));
  ensureEq("linear velocity", v2, V3(Rt * (crossOf(w, p) - v)));
  ensureEq("angular velocity", w2, V3(-(Rt * w)));
  ensureEq("angular acceleration", e2, V3(-(Rt * dw)));
  ensureEq("linear acceleration", a2,
           V3(Rt * (-a + crossOf(dw, p) + R(2) * crossOf(w, v) - crossOf(w, crossOf(w, p)))));
}
CONTRACT(reconstruct, "kine::reconstructStateTrajectory")
{
  // ASSUMES: reconstructStateTrajectory is checked on trajectories of 1 to 4 samples, any first index in 0..2
  long n = pick("n", 1, 4), k0 = pick("k0", 0, 2);
  R dt = pos("dt");
  IndexedVectorArray po;
  std::vector<V3> p, o;
  for(long i = 0; i < n; ++i)
  {
    p.push_back(vec3("p" + std::to_string(i)));
    V3 u = vec3("u"); // rotations about one common axis keep the terms small; derivateRotationFD has its own contract
    R t = pos("t" + std::to_string(i));
    (void)u;
    o.push_back(V3(R(0), R(0), t));
    Vector v(6);
    v << p.back(), o.back();
    po.setValue(v, k0 + i);
  }
  IndexedVectorArray x = kine::reconstructStateTrajectory(po, dt);
  ensure("first index", x.getFirstIndex() == k0);
  ensure("size", long(x.size()) == n);
  std::vector<V3> lv(n, V3(V3::Zero())), av(n, V3(V3::Zero()));
  for(long i = 0; i + 1 < n; ++i)
  {
    lv[i] = (p[i + 1] - p[i]) / dt;
    av[i] = kine::derivateRotationFD(o[i], o[i + 1], dt);
  }
  for(long i = 0; i < n; ++i)
  {
    Vec s = x[k0 + i];
    ensure("state size", s.size() == 18);
    ensureEq("position", V3(s.segment(0, 3)), p[i]);
    ensureEq("orientation", V3(s.segment(3, 3)), o[i]);
    ensureEq("linear velocity", V3(s.segment(6, 3)), lv[i]);
    ensureEq("angular velocity", V3(s.segment(9, 3)), av[i]);
    V3 la = V3::Zero(), aa = V3::Zero();
    if(i + 2 < n)
    {
      la = (lv[i + 1] - lv[i]) / dt;
      aa = (av[i + 1] - av[i]) / dt;
    }
    ensureEq("linear acceleration", V3(s.segment(12, 3)), la);
    ensureEq("angular acceleration", V3(s.segment(15, 3)), aa);
  }
}
