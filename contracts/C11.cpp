// C11: composition and inversion of rigid-body kinematics, for every combination of known and unknown quantities
#include "ref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
using kine::Kinematics;
struct K
{
  bool p, o, v, w, a, e;
  V3 pos, vel, om, acc, dom;
  Q4 q;
};
static K fresh(const std::string & n, long flags)
{
  K k;
  k.p = flags & 1;
  k.o = flags & 2;
  k.v = flags & 4;
  k.w = flags & 8;
  k.a = flags & 16;
  k.e = flags & 32;
  k.pos = vec3(n + "p");
  k.vel = vec3(n + "v");
  k.om = vec3(n + "w");
  k.acc = vec3(n + "a");
  k.dom = vec3(n + "e");
  k.q = unitQ(n + "q");
  return k;
}
static Kinematics make(const K & k, bool matrix = false)
{
  Kinematics r;
  if(k.p) r.position = k.pos;
  if(k.o)
  {
    if(matrix)
      r.orientation = Matrix3(rotOf(k.q));
    else
      r.orientation = Quaternion(k.q);
  }
  if(k.v) r.linVel = k.vel;
  if(k.w) r.angVel = k.om;
  if(k.a) r.linAcc = k.acc;
  if(k.e) r.angAcc = k.dom;
  return r;
}
static Kinematics all()
{
  K k = fresh("old", 63);
  return make(k);
}
static void compareProduct(const Kinematics & c, const K & x, const K & y)
{
  bool p = x.p && y.p, v = p && x.v && y.v && x.w, a = v && x.a && y.a && x.e;
  bool o = y.o, w = o && x.w && y.w, e = w && x.e && y.e;
  ensure("position known iff both are", c.position.isSet() == p);
  ensure("orientation known iff both are", c.orientation.isSet() == o);
  ensure("linear velocity known iff its terms are", c.linVel.isSet() == v);
  ensure("angular velocity known iff its terms are", c.angVel.isSet() == w);
  ensure("linear acceleration known iff its terms are", c.linAcc.isSet() == a);
  ensure("angular acceleration known iff its terms are", c.angAcc.isSet() == e);
  M3 R1 = rotOf(x.q), R2 = rotOf(y.q);
  V3 r = R1 * y.pos, rd = R1 * y.vel, rdd = R1 * y.acc;
  if(p && c.position.isSet()) ensureEq("position", c.position(), V3(x.pos + r));
  if(o && c.orientation.isSet()) ensureEq("orientation", c.orientation.toMatrix3(), R1 * R2);
  if(v && c.linVel.isSet()) ensureEq("linear velocity", c.linVel(), V3(x.vel + crossOf(x.om, r) + rd));
  if(w && c.angVel.isSet()) ensureEq("angular velocity", c.angVel(), V3(x.om + R1 * y.om));
  if(a && c.linAcc.isSet())
    ensureEq("linear acceleration", c.linAcc(),
             V3(x.acc + crossOf(x.dom, r) + crossOf(x.om, crossOf(x.om, r)) + R(2) * crossOf(x.om, rd) + rdd));
  if(e && c.angAcc.isSet())
    ensureEq("angular acceleration", c.angAcc(), V3(x.dom + crossOf(x.om, V3(R1 * y.om)) + R1 * y.dom));
}
// every set of known quantities the function accepts
CONTRACT(product, "Kinematics::setToProductNoAlias")
{
  long f1 = pick("f1", 0, 63), f2 = pick("f2", 0, 63);
  if(!(f1 & 2) || !(f2 & 3)) return;
  K x = fresh("x", f1), y = fresh("y", f2);
  Kinematics A = make(x), B = make(y), C = all(); // C held something else before
  C.setToProductNoAlias(A, B);
  compareProduct(C, x, y);
}
CONTRACT(product_operator, "Kinematics::operator*, Kinematics(Kinematics, Kinematics)")
{
  K x = fresh("x", pick("some", 0, 1) ? 63 : 43), y = fresh("y", 63);
  Kinematics A = make(x, pick("m1", 0, 1)), B = make(y, pick("m2", 0, 1));
  if(pick("how", 0, 1))
    compareProduct(A * B, x, y);
  else
    compareProduct(Kinematics(A, B), x, y);
}
CONTRACT(inverse, "Kinematics::getInverse")
{
  long f = pick("f", 0, 63);
  if(!(f & 2)) return;
  K x = fresh("x", f);
  Kinematics A = make(x, pick("m1", 0, 1)), I = A.getInverse();
  bool v = x.p && x.v && x.w, a = v && x.a && x.e, e = x.w && x.e;
  ensure("position known", I.position.isSet() == x.p);
  ensure("orientation known", I.orientation.isSet());
  ensure("linear velocity known iff its terms are", I.linVel.isSet() == v);
  ensure("angular velocity known", I.angVel.isSet() == x.w);
  ensure("linear acceleration known iff its terms are", I.linAcc.isSet() == a);
  ensure("angular acceleration known iff its terms are", I.angAcc.isSet() == e);
  M3 Rt = rotOf(x.q).transpose();
  V3 p = x.pos, w = x.om;
  ensureEq("orientation", I.orientation.toMatrix3(), Rt);
  if(x.p && I.position.isSet()) ensureEq("position", I.position(), V3(-(Rt * p)));
  if(v && I.linVel.isSet()) ensureEq("linear velocity", I.linVel(), V3(Rt * (crossOf(w, p) - x.vel)));
  if(x.w && I.angVel.isSet()) ensureEq("angular velocity", I.angVel(), V3(-(Rt * w)));
  if(a && I.linAcc.isSet())
    ensureEq("linear acceleration", I.linAcc(),
             V3(Rt * (-x.acc + crossOf(x.dom, p) + R(2) * crossOf(w, x.vel) - crossOf(w, crossOf(w, p)))));
  if(e && I.angAcc.isSet()) ensureEq("angular acceleration", I.angAcc(), V3(-(Rt * x.dom)));
}
// the algebraic laws, on the code's own product and inverse
CONTRACT(inverse_law, "Kinematics::getInverse, operator*")
{
  K x = fresh("x", 63);
  Kinematics A = make(x), I = A.getInverse();
  Kinematics C = pick("side", 0, 1) ? A * I : I * A;
  V3 z = V3::Zero();
  ensureEq("identity orientation", C.orientation.toMatrix3(), I3());
  ensureEq("zero position", C.position(), z);
  ensureEq("zero linear velocity", C.linVel(), z);
  ensureEq("zero angular velocity", C.angVel(), z);
  ensureEq("zero linear acceleration", C.linAcc(), z);
  ensureEq("zero angular acceleration", C.angAcc(), z);
}
CONTRACT(associative, "Kinematics::operator*")
{
  Kinematics A = make(fresh("x", 63)), B = make(fresh("y", 63)), C = make(fresh("z", 63));
  Kinematics L = (A * B) * C, M = A * (B * C);
  ensureEq("position", L.position(), M.position());
  ensureEq("linear velocity", L.linVel(), M.linVel());
  ensureEq("angular velocity", L.angVel(), M.angVel());
  ensureEq("angular acceleration", L.angAcc(), M.angAcc());
  ensureEq("linear acceleration", L.linAcc(), M.linAcc());
  ensureEq("orientation", L.orientation.toMatrix3(), M.orientation.toMatrix3());
}
