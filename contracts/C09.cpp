// C09: merging the tilt of one orientation with the heading of another, and extracting angles
#include "ref.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace vp;
using namespace stateObservation;
static V3 horizontal(const std::string & n)
{
  std::vector<R> u = unit({n + "x", n + "y"});
  return V3(u[0], u[1], R(0));
}
CONTRACT(merge_tilt_yaw, "kine::mergeTiltWithYaw")
{
  V3 t = unit3("t"), m = horizontal("m");
  Q4 q = unitQ("q");
  M3 R2 = rotOf(q), r;
  V3 ml = R2.transpose() * m;
  try
  {
    r = kine::mergeTiltWithYaw(t, R2, m);
  }
  catch(std::invalid_argument &)
  {
    ensureLe("refused only when the tilt is along the reference axis", R(crossOf(ml, t).squaredNorm()), R(1e-30));
    return;
  }
  ensureRotation("rotation", r);
  ensureEq("tilt of the first", r.transpose() * ez(), t);
  // the reference direction, carried by the relative rotation, keeps its heading
  V3 d = r * ml;
  ensureEq("heading of the second", R(m.x() * d.y() - m.y() * d.x()), R(0));
  ensureLt("heading of the second: same side", R(0), R(d.dot(m)));
}
CONTRACT(merge_default_axis, "kine::mergeTiltWithYaw (default axis)")
{
  V3 t = unit3("t");
  M3 R2 = rotOf(unitQ("q"));
  M3 a, b;
  try
  {
    b = kine::mergeTiltWithYaw(t, R2, V3(R(1), R(0), R(0)));
  }
  catch(std::invalid_argument &)
  {
    return;
  }
  a = kine::mergeTiltWithYaw(t, R2);
  ensureEq("the x axis", a, b);
}
CONTRACT(merge_rotations, "kine::mergeRoll1Pitch1WithYaw2, kine::mergeRoll1Pitch1WithYaw2AxisAgnostic")
{
  M3 R1 = rotOf(unitQ("p")), R2 = rotOf(unitQ("q"));
  V3 t = R1.transpose() * ez();
  long agn = pick("agnostic", 0, 1);
  M3 a, b;
  try
  {
    a = agn ? kine::mergeTiltWithYawAxisAgnostic(t, R2) : kine::mergeTiltWithYaw(t, R2);
  }
  catch(std::invalid_argument &)
  {
    return;
  }
  b = agn ? kine::mergeRoll1Pitch1WithYaw2AxisAgnostic(R1, R2) : kine::mergeRoll1Pitch1WithYaw2(R1, R2);
  ensureEq("that of the tilt of the first rotation", b, a);
}
CONTRACT(merge_agnostic, "kine::mergeTiltWithYawAxisAgnostic")
{
  // every tilt t and rotation R2: t = R2^T s with s unit
  V3 s = unit3("s");
  M3 R2 = rotOf(unitQ("q"));
  V3 t = R2.transpose() * s;
  assumeLt(R(1e-28), s.x() * s.x() + s.y() * s.y());
  M3 r = kine::mergeTiltWithYawAxisAgnostic(t, R2);
  assumeLt(R(1e-15), s.x() * s.x());
  ensureEq("tilt of the first", r.transpose() * ez(), t);
  ensureRotation("rotation", r);
  // the relative rotation is about a horizontal axis: it has no yaw
  M3 d = r * R2.transpose();
  V3 h(s.y(), -s.x(), R(0));
  ensureEq("the relative rotation keeps the horizontal direction both tilts share", d * h, h);
}
CONTRACT(merge_agnostic_same, "kine::mergeTiltWithYawAxisAgnostic (equal tilts)")
{
  M3 R2 = rotOf(unitQ("q"));
  ensureEq("nothing to change", kine::mergeTiltWithYawAxisAgnostic(V3(R2.transpose() * ez()), R2), R2);
}
CONTRACT(invariant_horizontal, "kine::getInvariantHorizontalVector")
{
  M3 m = mat("m", 3, 3);
  V3 h = kine::getInvariantHorizontalVector(m);
  assumeLt(R(1e-25), m(2, 0) * m(2, 0) + m(2, 1) * m(2, 1));
  ensureEq("horizontal", R(h.z()), R(0));
  ensureEq("horizontal once rotated", R((m * h).z()), R(0));
  ensureLt("not null", R(0), h.squaredNorm());
}
CONTRACT(invariant_orthogonal, "kine::getInvariantOrthogonalVector")
{
  M3 m = rotOf(unitQ("q"));
  V3 s = unit3("s"), t = m.transpose() * s;
  assumeLt(R(1e-25), s.x() * s.x());
  V3 h = kine::getInvariantOrthogonalVector(m, t);
  ensureEq("horizontal", R(h.z()), R(0));
  ensureEq("its local image is orthogonal to the tilt", R((m.transpose() * h).dot(t)), R(0));
  ensureLt("not null", R(0), h.squaredNorm());
}
CONTRACT(pure_yaw, "kine::isPureYaw")
{
  ensure("a rotation about z", kine::isPureYaw(rotZ(in("a", -3, 3))));
  M3 m = mat("m", 3, 3);
  assumeLt(R(1e-20), m(2, 0) * m(2, 0));
  ensure("x tilted", !kine::isPureYaw(m));
}
CONTRACT(pure_yaw_y, "kine::isPureYaw")
{
  M3 m = mat("m", 3, 3);
  assumeLt(R(1e-20), m(2, 1) * m(2, 1));
  ensure("y tilted", !kine::isPureYaw(m));
}
// the angle of a rotation about the axis is recovered, whatever the (non-parallel) reference vector
CONTRACT(angle_axis, "kine::rotationMatrixToAngle")
{
  V3 v = vec3("v");
  R a = in("a", -3, 3);
  long k = pick("axis", 0, 2);
  M3 m = k == 0 ? rotX(a) : k == 1 ? rotY(a) : rotZ(a);
  V3 ax(R(k == 0), R(k == 1), R(k == 2));
  assumeLt(R(0), crossOf(v, ax).squaredNorm());
  R b = kine::rotationMatrixToAngle(m, ax, v);
  ensureEq("cosine", R(cos(b)), R(cos(a)));
  ensureEq("sine", R(sin(b)), R(sin(a)));
  ensureLe("at most pi", b, pi());
  ensureLe("at least -pi", R(-pi()), b);
}
CONTRACT(angle_def, "kine::rotationMatrixToAngle")
{
  // unit axis, v orthogonal to it: direction of the projection of R v
  V3 ax = unit3("n"), v = crossOf(ax, vec3("u"));
  M3 m = rotOf(unitQ("q"));
  V3 r = m * v, p = r - ax * r.dot(ax);
  R c = v.dot(p), s = crossOf(v, p).dot(ax);
  assumeLt(R(0), c * c + s * s);
  R b = kine::rotationMatrixToAngle(m, ax, v);
  ensureEq("angle from v to the projection of R v", R(sin(b) * c - cos(b) * s), R(0));
}
CONTRACT(yaw, "kine::rotationMatrixToYaw")
{
  V3 e = unit3("e");
  R a = in("a", -3, 3);
  M3 tilt = rotOf(unitQ("q"));
  assumeLt(R(0), tilt(0, 0) * tilt(0, 0) + tilt(1, 0) * tilt(1, 0));
  R y0 = kine::rotationMatrixToYaw(tilt);
  ensureEq("heading of the x axis", R(sin(y0) * tilt(0, 0) - cos(y0) * tilt(1, 0)), R(0));
  ensureLt("heading of the x axis: same side", R(0), R(cos(y0) * tilt(0, 0) + sin(y0) * tilt(1, 0)));
  R y = kine::rotationMatrixToYaw(M3(rotZ(a)));
  ensureEq("pure yaw: cosine", R(cos(y)), R(cos(a)));
  ensureEq("pure yaw: sine", R(sin(y)), R(sin(a)));
}
CONTRACT(yaw_vector, "kine::rotationMatrixToYaw(Vector2)")
{
  M3 m = rotOf(unitQ("q"));
  Vector2 v(in("vx"), in("vy"));
  V3 v3(v.x(), v.y(), R(0));
  V3 r = m * v3;
  R c = v3.x() * r.x() + v3.y() * r.y(), s = v3.x() * r.y() - v3.y() * r.x();
  assumeLt(R(0), c * c + s * s);
  R b = kine::rotationMatrixToYaw(m, v);
  ensureEq("heading change of the vector: direction", R(sin(b) * c - cos(b) * s), R(0));
  ensureLt("heading change of the vector: side", R(0), R(cos(b) * c + sin(b) * s));
}
CONTRACT(yaw_agnostic, "kine::rotationMatrixToYawAxisAgnostic")
{
  // R = Rz(a) * (rotation of any angle about a horizontal axis) has axis-agnostic yaw a
  R a = in("a", -3, 3), b = in("b", -3, 3), c = in("c", -3, 3);
  M3 tilt = rotZ(c) * rotX(b) * rotZ(-c);
  M3 m = rotZ(a) * tilt;
  R sb = sin(b);
  assumeLt(R(1e-20), sb * sb);
  assumeLt(R(1e-20), R(sin(c) * sin(c)));
  R y = kine::rotationMatrixToYawAxisAgnostic(m);
  ensureEq("cosine", R(cos(y)), R(cos(a)));
  ensureEq("sine", R(sin(y)), R(sin(a)));
  R y0 = kine::rotationMatrixToYawAxisAgnostic(M3(rotZ(a)));
  ensureEq("pure yaw: cosine", R(cos(y0)), R(cos(a)));
  ensureEq("pure yaw: sine", R(sin(y0)), R(sin(a)));
}
