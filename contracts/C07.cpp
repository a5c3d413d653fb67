// C07: conversions between rotation vectors, quaternions, matrices, roll-pitch-yaw, homogeneous matrices
#include "ref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
CONTRACT(exp_matrix, "kine::rotationVectorToRotationMatrix")
{
  V3 v = nonzero3("v", 4);
  M3 m = kine::rotationVectorToRotationMatrix(v);
  ensureEq("Rodrigues formula", m, expM(v));
  ensureRotation("rotation", m);
}
CONTRACT(exp_quaternion, "kine::rotationVectorToQuaternion")
{
  V3 v = nonzero3("v", 4);
  Q4 q = kine::rotationVectorToQuaternion(v);
  ensureEq("half-angle quaternion", v4(q), v4(expQ(v)));
  ensureEq("unit", R(q.squaredNorm()), R(1));
  ensureEq("same rotation as the matrix form", rotOf(q), kine::rotationVectorToRotationMatrix(v));
}
CONTRACT(exp_angleaxis, "kine::rotationVectorToAngleAxis")
{
  V3 v = nonzero3("v", 4);
  AngleAxis a = kine::rotationVectorToAngleAxis(v);
  ensureEq("angle", R(a.angle()), v.norm());
  ensureEq("angle*axis", V3(a.axis() * a.angle()), v);
  ensureEq("unit axis", R(a.axis().squaredNorm()), R(1));
}
CONTRACT(exp_zero, "kine::rotationVectorToRotationMatrix (zero)")
{
  V3 z = V3::Zero();
  ensureEq("matrix", kine::rotationVectorToRotationMatrix(z), I3());
  ensureEq("quaternion", v4(kine::rotationVectorToQuaternion(z)), v4(Q4(R(1), R(0), R(0), R(0))));
  AngleAxis a = kine::rotationVectorToAngleAxis(z);
  ensureEq("angle", R(a.angle()), R(0));
  ensureEq("unit axis", R(a.axis().squaredNorm()), R(1));
  ensureEq("log of identity", kine::rotationMatrixToRotationVector(I3()), z);
  ensureEq("log of the zero quaternion", kine::quaternionToRotationVector(kine::zeroRotationQuaternion()), z);
  ensureEq("zero rotation quaternion", rotOf(kine::zeroRotationQuaternion()), I3());
}
CONTRACT(log_quaternion, "kine::quaternionToRotationVector(Quaternion)")
{
  Q4 q = unitQ("q");
  V3 u(q.x(), q.y(), q.z());
  V3 v = kine::quaternionToRotationVector(q);
  if(u.squaredNorm() > R(0))
  {
    R n = u.norm();
    bool neg = q.w() < R(0);
    R w = neg ? R(-q.w()) : R(q.w());
    V3 ref = u * R(2 * atan2(n, w) / n);
    if(neg) ref = -ref;
    ensureEq("principal logarithm", v, ref);
    ensureLe("angle at most pi", v.squaredNorm(), pi() * pi());
  }
  else
    ensureEq("log of identity", v, V3(V3::Zero()));
  ensureEq("Vector4 form", kine::quaternionToRotationVector(Vector4(v4(q))), v);
}
CONTRACT(log_exp_quaternion, "kine::quaternionToRotationVector, kine::rotationVectorToQuaternion")
{
  Q4 q = unitQ("q");
  V3 v = kine::quaternionToRotationVector(q);
  assumeAngle(v);
  ensureEq("exp(log q) = q", rotOf(kine::rotationVectorToQuaternion(v)), rotOf(q));
  ensureEq("exp(log q) = q (matrix)", kine::rotationVectorToRotationMatrix(v), rotOf(q));
}
CONTRACT(log_matrix, "kine::rotationMatrixToRotationVector")
{
  Q4 q = unitQ("q");
  V3 v = kine::rotationMatrixToRotationVector(rotOf(q));
  ensureLe("angle at most pi", v.squaredNorm(), pi() * pi());
  assumeAngle(v);
  ensureEq("exp(log R) = R", kine::rotationVectorToRotationMatrix(v), rotOf(q));
}
CONTRACT(log_matrix_value, "kine::rotationMatrixToRotationVector")
{
  // same principal logarithm as for quaternions, on the hemisphere w > 0
  Q4 q = unitQ("q");
  V3 u(q.x(), q.y(), q.z());
  assumeLt(R(0), q.w());
  assumeLt(R(1e-20), u.squaredNorm());
  R n = u.norm();
  V3 v = kine::rotationMatrixToRotationVector(rotOf(q));
  ensureEq("direction", crossOf(v, u), V3(V3::Zero()));
  ensureLt("orientation of the axis", R(0), v.dot(u));
  ensureEq("cos of the angle", R(cos(v.norm())), R(1 - 2 * n * n));
}
CONTRACT(matrix_rpy, "kine::rotationMatrixToRollPitchYaw")
{
  Q4 q = unitQ("q");
  M3 m = rotOf(q);
  assumeLt(R(0), m(2, 1) * m(2, 1) + m(2, 2) * m(2, 2));
  V3 a = kine::rotationMatrixToRollPitchYaw(m);
  ensureEq("Rz(yaw) Ry(pitch) Rx(roll) = R", rotZ(a(2)) * rotY(a(1)) * rotX(a(0)), m);
}
CONTRACT(matrix_rpy_range, "kine::rotationMatrixToRollPitchYaw")
{
  Q4 q = unitQ("q");
  M3 m = rotOf(q);
  V3 a = kine::rotationMatrixToRollPitchYaw(m);
  for(int i = 0; i < 3; ++i)
  {
    R b = i == 1 ? R(pi() / 2) : pi();
    ensureLe("upper bound", a(i), b);
    ensureLe("lower bound", -b, a(i));
  }
  Vector3 c;
  ensureEq("two-argument form returns it", kine::rotationMatrixToRollPitchYaw(m, c), a);
  ensureEq("two-argument form stores it", c, a);
}
CONTRACT(rpy_matrix, "kine::rollPitchYawToRotationMatrix, kine::rollPitchYawToQuaternion")
{
  R r = in("r", -3, 3), p = in("p", -3, 3), y = in("y", -3, 3);
  M3 ref = rotZ(y) * rotY(p) * rotX(r);
  ensureEq("matrix", kine::rollPitchYawToRotationMatrix(r, p, y), ref);
  ensureEq("matrix (vector form)", kine::rollPitchYawToRotationMatrix(V3(r, p, y)), ref);
  Q4 q = kine::rollPitchYawToQuaternion(r, p, y);
  ensureEq("quaternion", rotOf(q), ref);
  ensureEq("unit quaternion", R(q.squaredNorm()), R(1));
  ensureEq("quaternion (vector form)", rotOf(kine::rollPitchYawToQuaternion(V3(r, p, y))), ref);
}
CONTRACT(homogeneous, "kine::homogeneousMatrixToVector6, kine::vector6ToHomogeneousMatrix")
{
  Q4 q = unitQ("q");
  V3 t = vec3("t");
  Matrix4 m = Matrix4::Identity();
  m.block(0, 0, 3, 3) = rotOf(q);
  m.block(0, 3, 3, 1) = t;
  Vector6 v = kine::homogeneousMatrixToVector6(m);
  ensureEq("translation first", V3(v.head(3)), t);
  ensureEq("rotation vector last", V3(v.tail(3)), kine::rotationMatrixToRotationVector(rotOf(q)));
  assumeAngle(V3(v.tail(3)));
  ensureEq("inverse", kine::vector6ToHomogeneousMatrix(v), m);
}
CONTRACT(homogeneous_of_vector, "kine::vector6ToHomogeneousMatrix")
{
  V3 t = vec3("t"), w = nonzero3("w");
  Vector6 v;
  v << t, w;
  Matrix4 m = kine::vector6ToHomogeneousMatrix(v);
  ensureEq("rotation", M3(m.block(0, 0, 3, 3)), expM(w));
  ensureEq("translation", V3(m.block(0, 3, 3, 1)), t);
  Vec last(4);
  last << R(0), R(0), R(0), R(1);
  ensureEq("last row", Vec(m.row(3).transpose()), last);
}
CONTRACT(invert_homogeneous, "kine::invertHomoMatrix")
{
  Q4 q = unitQ("q");
  Matrix4 m = Matrix4::Identity();
  m.block(0, 0, 3, 3) = rotOf(q);
  m.block(0, 3, 3, 1) = vec3("t");
  Matrix4 i = kine::invertHomoMatrix(m);
  ensureEq("inverse", i * m, Matrix4(Matrix4::Identity()));
  ensureEq("inverse on the right", m * i, Matrix4(Matrix4::Identity()));
}
CONTRACT(skew, "kine::skewSymmetric, kine::skewSymmetric2")
{
  V3 v = vec3("v"), w = vec3("w");
  ensureEq("skew(v) w = v x w", kine::skewSymmetric(v) * w, crossOf(v, w));
  ensureEq("skew2 = skew^2", kine::skewSymmetric2(v), skewOf(v) * skewOf(v));
  Matrix3 m;
  ensureEq("skew output returned", kine::skewSymmetric(v, m), skewOf(v));
  ensureEq("skew output stored", m, skewOf(v));
  ensureEq("skew2 output returned", kine::skewSymmetric2(v, m), skewOf(v) * skewOf(v));
  ensureEq("skew2 output stored", m, skewOf(v) * skewOf(v));
}
CONTRACT(components, "kine::scalarComponent, kine::vectorComponent")
{
  Q4 q(in("w"), in("x"), in("y"), in("z"));
  ensureEq("scalar", R(kine::scalarComponent(q)), in("w"));
  ensureEq("vector", kine::vectorComponent(q), V3(in("x"), in("y"), in("z")));
}
CONTRACT(two_vectors, "kine::twoVectorsToRotationMatrix")
{
  V3 a = unit3("a"), b = unit3("b");
  machine(a.isUnitary(2.2e-16) && b.isUnitary(2.2e-16));
  R d = a.dot(b);
  M3 m;
  try
  {
    m = kine::twoVectorsToRotationMatrix(a, b);
  }
  catch(std::invalid_argument &)
  {
    ensureLt("only opposite vectors are rejected", d, R(-0.999999));
    return;
  }
  assumeLt(d, R(1 - 1e-15));
  ensureEq("maps the first vector on the second", m * a, b);
  ensureRotation("rotation", m);
  ensureEq("minimal angle: the common normal is fixed", m * crossOf(a, b), crossOf(a, b));
}
CONTRACT(two_equal_vectors, "kine::twoVectorsToRotationMatrix")
{
  V3 a = unit3("a");
  machine(a.isUnitary(2.2e-16));
  ensureEq("identity", kine::twoVectorsToRotationMatrix(a, a), I3());
}
CONTRACT(two_opposite_vectors, "kine::twoVectorsToRotationMatrix")
{
  V3 a = unit3("a");
  machine(a.isUnitary(2.2e-16));
  bool rejected = false;
  try
  {
    kine::twoVectorsToRotationMatrix(a, V3(-a));
  }
  catch(std::invalid_argument &)
  {
    rejected = true;
  }
  ensure("no minimal rotation between opposite vectors", rejected);
}
CONTRACT(is_rotation, "kine::isRotationMatrix")
{
  Q4 q = unitQ("q");
  M3 m = rotOf(q);
  ensure("every rotation is accepted", kine::isRotationMatrix(m, 1e-9));
#ifdef VP_SYMBOLIC
  ensure("every rotation is accepted, default precision", kine::isRotationMatrix(m));
#endif
}
CONTRACT(is_mirror, "kine::isRotationMatrix")
{
  // every rotation is Rz Ry Rz
  M3 m = rotZ(in("a")) * rotY(in("b")) * rotZ(in("c"));
  ensure("the mirror image of a rotation is rejected", !kine::isRotationMatrix(M3(-m), 0.01));
}
CONTRACT(is_not_rotation, "kine::isRotationMatrix")
{
  Q4 q = unitQ("q");
  M3 m = rotOf(q), s = I3();
  R k = in("k", 0.5, 2);
  assumeLt(R(0.01), (k - 1) * (k - 1));
  assumeLt(R(0), k);
  long i = pick("axis", 0, 2);
  s(i, i) = k;
  M3 bad = m * s;
  ensure("a stretched rotation is rejected", !kine::isRotationMatrix(bad, 1e-6));
}
CONTRACT(regulate, "kine::regulateOrientationVector")
{
  V3 v = vec3("v", 8);
  R n2 = v.squaredNorm();
  assumeLt(n2, 16 * pi() * pi());
  V3 w = kine::regulateOrientationVector(v);
  assumeLt(R(1e-6), n2);
  R n = v.norm(), s = w.dot(v) / n; // signed angle about the same axis
  ensureEq("same axis", crossOf(v, w), V3(V3::Zero()));
  if(n2 > R(2.25) * pi() * pi())
    ensureLe("within a half turn", w.squaredNorm(), pi() * pi());
  else
    ensureEq("a moderate rotation vector is kept", w, v);
  ensureEq("same rotation: sine", R(sin(s)), R(sin(n)));
  ensureEq("same rotation: cosine", R(cos(s)), R(cos(n)));
}
