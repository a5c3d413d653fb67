// C10: the orientation object: two interchangeable representations that always denote the same rotation
#include "ref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
using kine::Orientation;
// form: 0 quaternion only, 1 matrix only, 2 both
static Orientation make(long form, const Q4 & q)
{
  if(form == 0) return Orientation(Quaternion(q));
  if(form == 1) return Orientation(Matrix3(rotOf(q)));
  return Orientation(Quaternion(q), Matrix3(rotOf(q)));
}
// every representation the object claims to hold denotes `m`
static void denotes(const std::string & l, Orientation & o, const M3 & m)
{
  ensure(l + ": set", o.isSet());
  if(o.isMatrixSet()) ensureEq(l + ": stored matrix", M3(o.getMatrixRefUnsafe()()), m);
  if(o.isQuaternionSet()) ensureEq(l + ": stored quaternion", rotOf(o.getQuaternionRefUnsafe()()), m);
}
CONTRACT(product, "Orientation::operator*, Orientation(Orientation, Orientation), setToProductNoAlias")
{
  long fa = pick("fa", 0, 2), fb = pick("fb", 0, 2), how = pick("how", 0, 2);
  Q4 a = unitQ("a"), b = unitQ("b");
  Orientation A = make(fa, a), B = make(fb, b), C;
  if(how == 0)
    C = A * B;
  else if(how == 1)
    C = Orientation(A, B);
  else
  {
    C = make(pick("fc", 0, 2), Q4(unitQ("c"))); // whatever it held before
    C.setToProductNoAlias(A, B);
  }
  denotes("product", C, rotOf(a) * rotOf(b));
  denotes("left operand kept", A, rotOf(a));
  denotes("right operand kept", B, rotOf(b));
}
CONTRACT(inverse, "Orientation::inverse")
{
  Q4 a = unitQ("a");
  Orientation A = make(pick("fa", 0, 2), a), I = A.inverse();
  denotes("inverse", I, rotOf(a).transpose());
  denotes("operand kept", A, rotOf(a));
}
CONTRACT(integrate, "Orientation::integrate")
{
  Q4 a = unitQ("a");
  V3 w = nonzero3("w");
  Orientation A = make(pick("fa", 0, 2), a);
  const Orientation & r = A.integrate(w);
  ensure("returns itself", &r == &A);
  denotes("exp(w) R", A, expM(w) * rotOf(a));
}
CONTRACT(differentiate, "Orientation::differentiate")
{
  Q4 a = unitQ("a"), d = unitQ("d");
  long fa = pick("fa", 0, 2), fb = pick("fb", 0, 2);
  Orientation A = make(fa, a), B = make(fb, mulQ(d, a));
  V3 w = A.differentiate(B);
  ensureLe("shortest", R(w.squaredNorm()), R(pi() * pi()));
  assumeAngle(w);
  ensureEq("integrating it leads to the other orientation", expM(w), rotOf(d));
}
CONTRACT(convert, "Orientation::toMatrix3, toQuaternion, toVector4, operator*(Vector3), casts")
{
  Q4 a = unitQ("a");
  V3 v = vec3("v");
  long fa = pick("fa", 0, 2);
  Orientation A = make(fa, a);
  long what = pick("what", 0, 7);
  M3 m = rotOf(a);
  if(what == 0) ensureEq("matrix", A.toMatrix3(), m);
  if(what == 1) ensureEq("quaternion", rotOf(A.toQuaternion()), m);
  if(what == 2)
  {
    Vector4 x = A.toVector4();
    ensureEq("vector of quaternion coefficients (x y z w)", rotOf(Q4(x(3), x(0), x(1), x(2))), m);
  }
  if(what == 3) ensureEq("rotated vector", A * v, m * v);
  if(what == 4)
  {
    const Matrix3 & x = A;
    ensureEq("cast to matrix", x, m);
  }
  if(what == 5)
  {
    const Quaternion & x = A;
    ensureEq("cast to quaternion", rotOf(x), m);
  }
  if(what == 6)
  {
    A.synchronize();
    ensure("both representations", A.isMatrixSet() && A.isQuaternionSet());
  }
  if(what == 7)
  {
    AngleAxis x = A.toAngleAxis();
    V3 w = x.axis() * x.angle();
    denotes("still the same rotation", A, m);
    assumeAngle(w);
    ensureEq("angle and axis", expM(w), m);
    return;
  }
  denotes("still the same rotation", A, m);
}
CONTRACT(rotvec_rpy, "Orientation::toRotationVector, toRollPitchYaw")
{
  Q4 a = unitQ("a");
  M3 m = rotOf(a);
  Orientation A = make(pick("fa", 0, 2), a);
  if(pick("what", 0, 1))
  {
    ensureEq("roll pitch yaw", A.toRollPitchYaw(), kine::rotationMatrixToRollPitchYaw(m));
    denotes("kept", A, m);
    return;
  }
  V3 w = A.toRotationVector();
  denotes("kept", A, m);
  assumeAngle(w);
  ensureEq("rotation vector", expM(w), m);
}
CONTRACT(assign, "Orientation::operator=, fromVector4, setValue, setZeroRotation, reset")
{
  // whatever it held before is forgotten
  Q4 a = unitQ("a"), b = unitQ("b");
  Orientation A = make(pick("fa", 0, 2), a);
  long what = pick("what", 0, 9);
  V3 v = nonzero3("v");
  M3 m = rotOf(b);
  switch(what)
  {
    case 0:
      A = Quaternion(b);
      break;
    case 1:
      A = Matrix3(m);
      break;
    case 2:
      A = Vector3(v);
      m = expM(v);
      break;
    case 3:
      A = kine::rotationVectorToAngleAxis(v);
      m = expM(v);
      break;
    case 4:
      A.fromVector4(Vector4(v4(b)));
      break;
    case 5:
      A.setValue(Quaternion(b), Matrix3(m));
      ensure("both representations", A.isMatrixSet() && A.isQuaternionSet());
      break;
    case 6:
      A.setZeroRotation();
      m = I3();
      break;
    case 7:
      A.setZeroRotation<Quaternion>();
      m = I3();
      break;
    case 8:
      A.setZeroRotation<Matrix3>();
      m = I3();
      break;
    default:
      A.reset();
      ensure("nothing set after reset", !A.isSet() && !A.isMatrixSet() && !A.isQuaternionSet());
      return;
  }
  denotes("assigned value", A, m);
}
CONTRACT(construct, "Orientation constructors")
{
  Q4 b = unitQ("b");
  V3 v = nonzero3("v");
  R r = in("r", -3, 3), p = in("p", -3, 3), y = in("y", -3, 3);
  Orientation none;
  ensure("default: not set", !none.isSet());
  Orientation A(v);
  denotes("rotation vector", A, expM(v));
  Orientation B((Quaternion(b)));
  denotes("quaternion", B, rotOf(b));
  Orientation C((Matrix3(rotOf(b))));
  denotes("matrix", C, rotOf(b));
  Orientation D(kine::rotationVectorToAngleAxis(v));
  denotes("angle axis", D, expM(v));
  Orientation E(r, p, y);
  denotes("roll pitch yaw", E, rotZ(y) * rotY(p) * rotX(r));
  Orientation Z = Orientation::zeroRotation();
  denotes("zero rotation", Z, I3());
  Orientation F(B);
  denotes("copy", F, rotOf(b));
  F = C;
  denotes("copy assignment", F, rotOf(b));
  F = none;
  ensure("assignment of an unset orientation", !F.isSet());
}
CONTRACT(random_rotation, "Orientation::setRandom, randomRotation")
{
  Orientation A;
  A.setRandom();
  ensure("set", A.isSet());
  // a draw that is exactly zero has probability zero
  assumeLt(R(0), R(A.toQuaternion().squaredNorm()));
  ensureEq("unit quaternion", R(A.toQuaternion().squaredNorm()), R(1));
  Orientation B = Orientation::randomRotation();
  assumeLt(R(0), R(B.toQuaternion().squaredNorm()));
  ensureEq("unit quaternion, static", R(B.toQuaternion().squaredNorm()), R(1));
}
CONTRACT(sequences, "Orientation, histories of two operations")
{
  // caches must not go stale: read one representation, modify, read again
  Q4 a = unitQ("a"), b = unitQ("b");
  V3 w = nonzero3("w");
  Orientation A = make(pick("fa", 0, 2), a);
  long rd = pick("read", 0, 2);
  if(rd == 0) A.toMatrix3();
  if(rd == 1) A.toQuaternion();
  if(rd == 2) A.synchronize();
  M3 m = rotOf(a);
  switch(pick("op", 0, 4))
  {
    case 0:
      A.integrate(w);
      m = expM(w) * m;
      break;
    case 1:
      A = Quaternion(b);
      m = rotOf(b);
      break;
    case 2:
      A = Matrix3(rotOf(b));
      m = rotOf(b);
      break;
    case 3:
    {
      Orientation B = make(pick("fb", 0, 2), b);
      Orientation C = A * B;
      A = C;
      m = m * rotOf(b);
      break;
    }
    default:
      A = A.inverse();
      m = M3(m.transpose());
      break;
  }
  denotes("after the history", A, m);
  if(pick("last", 0, 1))
    ensureEq("matrix read last", A.toMatrix3(), m);
  else
    ensureEq("vector rotated last", A * vec3("v"), m * vec3("v"));
}
