// C17: LIPM DCM estimators: the model given to the filter, settings, resets, frames and bias limits
// ASSUMES: rotation of the yaw given as a 2x2 rotation; the linear Kalman filter itself is C01, C02 and C04
#include "ref.hpp"
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
typedef Eigen::Matrix<R, 2, 1> V2;
typedef Eigen::Matrix<R, 2, 2> M2;
V2 vec2(const std::string & n)
{
  return V2(in(n + "x"), in(n + "y"));
}
// a rotation of the plane
M2 rot2(const std::string & n)
{
  // the plane rotation that a unit quaternion along z is
  R a = in(n + "a"), b = pos(n + "b"), m = a * a + b * b;
  M2 r;
  r << (b * b - a * a) / m, -2 * a * b / m, 2 * a * b / m, (b * b - a * a) / m;
  return r;
}
struct Settings
{
  R dt, w, drift, dcm, zmp;
};
Settings any()
{
  Settings s;
  s.dt = pos("dt", 0.2, 0.01);
  s.w = pos("w", 4, 1);
  s.drift = in("drift");
  s.dcm = pos("dcm", 2, 0.1);
  s.zmp = in("zmp");
  return s;
}
// changes one of the settings, or none
template<class E>
void change(E & e, Settings & s, long which)
{
  R n = pos("new", 2, 0.1);
  switch(which)
  {
    case 1:
      e.setSamplingTime(n);
      s.dt = n;
      break;
    case 2:
      e.setLipmNaturalFrequency(n);
      s.w = n;
      break;
    case 3:
      e.setBiasDriftPerSecond(n);
      s.drift = n;
      break;
    case 4:
      e.setDcmMeasureErrorStd(n);
      s.dcm = n;
      break;
    case 5:
      e.setZmpMeasureErrorStd(n);
      s.zmp = n;
      break;
  }
}
template<class E>
void model(E & e, const Settings & s, long n)
{
  LinearKalmanFilter & f = e.getFilter();
  Mat i = Mat::Identity(n, n), o = Mat::Zero(n, n), a(2 * n, 2 * n), b(2 * n, n), c(n, 2 * n), q(2 * n, 2 * n);
  a << i * R(1 + s.w * s.dt), o, o, i;
  b << i * R(-s.w * s.dt), o;
  c << i, i;
  q << i * R(s.w * s.dt * s.zmp * s.w * s.dt * s.zmp), o, o, i * R(s.drift * s.dt * s.drift * s.dt);
  ensureEq("the DCM diverges from the ZMP at the natural frequency, the bias is kept", f.getA(), a);
  Vec u = vec("u", n);
  f.pushInput(u);
  ensureEq("the ZMP is the input", f.updateStatePrediction(), a * f.getCurrentEstimatedState() + b * u);
  ensureEq("the measured DCM is biased", f.getC(), c);
  ensureEq("process: ZMP errors, bias drift", f.getProcessCovariance(), q);
  ensureEq("measurement: DCM errors", f.getMeasurementCovariance(), Mat(i * R(s.dcm * s.dcm)));
}
Mat blocks(const Mat & a, const Mat & b, const Mat & c, const Mat & d)
{
  Mat m(a.rows() + c.rows(), a.cols() + b.cols());
  m << a, b, c, d;
  return m;
}
Mat sq(const V2 & v)
{
  Mat m = Mat::Zero(2, 2);
  m(0, 0) = v.x() * v.x();
  m(1, 1) = v.y() * v.y();
  return m;
}
Mat one(const R & v)
{
  return Mat::Constant(1, 1, v);
}
Vec v4(const V2 & a, const V2 & b)
{
  Vec v(4);
  v << a, b;
  return v;
}
// the documented filter at a given state
LinearKalmanFilter reference(const Settings & s, long n, const Vec & x, const Mat & p, long k)
{
  LinearKalmanFilter f(2 * n, n, n);
  Mat i = Mat::Identity(n, n), o = Mat::Zero(n, n);
  f.setA(blocks(i * R(1 + s.w * s.dt), o, o, i));
  Mat b(2 * n, n), c(n, 2 * n);
  b << i * R(-s.w * s.dt), o;
  c << i, i;
  f.setB(b);
  f.setC(c);
  f.setQ(blocks(i * R(s.w * s.dt * s.zmp * s.w * s.dt * s.zmp), o, o, i * R(s.drift * s.dt * s.drift * s.dt)));
  f.setR(i * R(s.dcm * s.dcm));
  f.setStateCovariance(p);
  f.setState(x, k);
  return f;
}
Settings concrete()
{
  Settings s;
  s.dt = R(0.5);
  s.w = R(3);
  s.drift = R(1);
  s.dcm = R(2);
  s.zmp = R(0.5);
  return s;
}
} // namespace
CONTRACT(unidim_settings, "UnidimLipmDcmEstimator: settings")
{
  Settings s = any();
  R d = in("d"), z = in("z"), b = in("b"), ud = in("ud"), ub = in("ub");
  UnidimLipmDcmEstimator e(s.dt, s.w, s.drift, d, z, b, s.dcm, s.zmp, ud, ub);
  long first = pick("first", 0, 5), second = pick("second", 0, 5);
  change(e, s, first);
  change(e, s, second);
  model(e, s, 1);
  ensureEq("initial DCM", e.getUnbiasedDCM(), d);
  ensureEq("initial bias", e.getBias(), b);
  ensureEq("initial covariance", e.getFilter().getStateCovariance(),
           blocks(one(ud * ud), one(R(0)), one(R(0)), one(ub * ub)));
}
CONTRACT(unidim_reset, "UnidimLipmDcmEstimator::resetWithInputs, setBias, setUnbiasedDCM")
{
  Settings s = concrete();
  UnidimLipmDcmEstimator e(s.dt, s.w);
  R d = in("d"), z = in("z"), b = in("b"), u = in("u");
  bool biased = pick("biased", 0, 1), used = pick("used", 0, 1), all = pick("all", 0, 1);
  if(used)
  {
    e.setInputs(in("d0"), in("z0"));
    e.update();
    e.setInputs(in("d1"), in("z1"));
  }
  s.drift = in("drift");
  s.dcm = pos("dcm", 2, 0.1);
  s.zmp = in("zmp");
  if(all)
    e.resetWithInputs(d, z, biased, s.drift, s.dcm, s.zmp, b, u);
  else
  {
    e.resetWithInputs(d, z, biased);
    s.drift = R(0.002);
    s.dcm = R(0.01);
    s.zmp = R(0.005);
    b = R(0);
    u = R(0.01);
  }
  model(e, s, 1);
  ensureEq("DCM", e.getUnbiasedDCM(), biased ? R(d - b) : d);
  ensureEq("bias", e.getBias(), b);
  R v = s.dcm * s.dcm, c = u * u;
  ensureEq("covariance", e.getFilter().getStateCovariance(),
           biased ? blocks(one(v + c), one(-c), one(-c), one(c)) : blocks(one(v), one(R(0)), one(R(0)), one(c)));
  ensure("nothing is pending", e.getFilter().getMeasurementsNumber() == 0);
  Vec x = e.getFilter().getCurrentEstimatedState();
  Mat p = e.getFilter().getStateCovariance();
  R n = in("n"), m = in("m");
  switch(pick("guess", 0, 3))
  {
    case 0:
      e.setBias(n);
      x(1) = n;
      break;
    case 1:
      e.setBias(n, m);
      x(1) = n;
      p = blocks(one(p(0, 0)), one(R(0)), one(R(0)), one(m * m));
      break;
    case 2:
      e.setUnbiasedDCM(n);
      x(0) = n;
      break;
    case 3:
      e.setUnbiasedDCM(n, m);
      x(0) = n;
      p = blocks(one(m * m), one(R(0)), one(R(0)), one(p(1, 1)));
      break;
  }
  ensureEq("guess", e.getFilter().getCurrentEstimatedState(), x);
  ensureEq("uncertainty of the guess", e.getFilter().getStateCovariance(), p);
}
CONTRACT(unidim_step, "UnidimLipmDcmEstimator::setInputs, update")
{
  bool symbolic = pick("symbolic", 0, 1), reset = pick("reset", 0, 1);
  Settings s = symbolic ? any() : concrete();
  R d = in("d"), z = in("z"), b = in("b"), ud = R(3), ub = R(1);
  UnidimLipmDcmEstimator e(s.dt, s.w, s.drift, d, reset ? in("z_before") : z, b, s.dcm, s.zmp, ud, ub);
  if(reset && pick("used", 0, 1))
  {
    e.setInputs(in("y_before"), in("z_used"));
    e.update();
  }
  if(reset) e.resetWithInputs(d + b, z, true, s.drift, s.dcm, s.zmp, b, ub);
  LinearKalmanFilter f =
      reference(s, 1, e.getFilter().getCurrentEstimatedState(), e.getFilter().getStateCovariance(), 0);
  long n = symbolic ? 1 : 3;
  bool late = !symbolic && pick("late", 0, 1);
  for(long i = 1; i <= n; ++i)
  {
    // the motion up to this measurement was driven by the previous ZMP
    R y = in("y" + std::to_string(i)), zi = in("z" + std::to_string(i));
    e.setInputs(y, zi);
    f.setInput(one(z), i - 1);
    f.setMeasurement(one(y), i);
    z = zi;
    if(late && i < n) continue;
    Vec x = f.getEstimatedState(i);
    V2 r = e.update();
    ensureEq("estimate", r, x);
    ensureEq("DCM", e.getUnbiasedDCM(), x(0));
    ensureEq("bias", e.getBias(), x(1));
    ensureEq("covariance", e.getFilter().getStateCovariance(), f.getStateCovariance());
  }
}
CONTRACT(settings, "LipmDcmEstimator: settings")
{
  Settings s = any();
  V2 d = vec2("d"), z = vec2("z"), b = vec2("b"), ud = vec2("ud"), ub = vec2("ub"), l = vec2("l");
  LipmDcmEstimator e(s.dt, s.w, s.drift, s.dcm, s.zmp, l, z, d, b, ud, ub);
  long first = pick("first", 0, 5), second = pick("second", 0, 5);
  change(e, s, first);
  change(e, s, second);
  model(e, s, 2);
  ensureEq("natural frequency", e.getLipmNaturalFrequency(), s.w);
  ensureEq("initial DCM", e.getUnbiasedDCM(), d);
  ensureEq("initial bias", e.getBias(), b);
  ensureEq("initial local bias", e.getLocalBias(), b);
  ensureEq("initial covariance", e.getFilter().getStateCovariance(),
           blocks(sq(ud), Mat::Zero(2, 2), Mat::Zero(2, 2), sq(ub)));
}
CONTRACT(reset, "LipmDcmEstimator::resetWithMeasurements, setBias, setUnbiasedDCM")
{
  Settings s = concrete();
  s.dcm = pos("dcm", 2, 0.1);
  LipmDcmEstimator e(s.dt, s.w, s.drift, s.dcm, s.zmp);
  V2 d = vec2("d"), z = vec2("z"), b = vec2("b"), u = vec2("u");
  bool biased = pick("biased", 0, 1), all = pick("all", 0, 1);
  long used = pick("used", 0, 2);
  M2 r = rot2("r");
  if(used) e.setInputs(vec2("d0"), vec2("z0"), M2(M2::Identity()));
  if(used == 2)
  {
    e.update();
    e.getFilter().reset();
    // the first measurement of a filter that has no state
    e.setInputs(d, z, r);
    biased = true;
    all = false;
  }
  else if(all)
    e.resetWithMeasurements(d, z, r, biased, b, u);
  else
    e.resetWithMeasurements(d, z, r, biased);
  if(!all)
  {
    b = V2::Zero();
    u = V2(R(0.01), R(0.01));
  }
  model(e, s, 2);
  ensureEq("DCM", e.getUnbiasedDCM(), biased ? V2(d - b) : d);
  ensureEq("bias", e.getBias(), b);
  ensureEq("local bias", e.getLocalBias(), V2(r.transpose() * b));
  Mat v = Mat::Identity(2, 2) * R(s.dcm * s.dcm), c = sq(u), o = Mat::Zero(2, 2);
  ensureEq("covariance", e.getFilter().getStateCovariance(),
           biased ? blocks(v + c, -c, -c, c) : blocks(v, o, o, c));
  ensure("nothing is pending", e.getFilter().getMeasurementsNumber() == 0);
  Vec x = e.getFilter().getCurrentEstimatedState();
  Mat p = e.getFilter().getStateCovariance();
  V2 n = vec2("n"), m = vec2("m");
  switch(pick("guess", 0, 3))
  {
    case 0:
      e.setBias(n);
      x.tail(2) = n;
      break;
    case 1:
      e.setBias(n, m);
      x.tail(2) = n;
      p = blocks(p.topLeftCorner(2, 2), o, o, sq(m));
      break;
    case 2:
      e.setUnbiasedDCM(n);
      x.head(2) = n;
      break;
    case 3:
      e.setUnbiasedDCM(n, m);
      x.head(2) = n;
      p = blocks(sq(m), o, o, p.bottomRightCorner(2, 2));
      break;
  }
  ensureEq("guess", e.getFilter().getCurrentEstimatedState(), x);
  ensureEq("uncertainty of the guess", e.getFilter().getStateCovariance(), p);
}
CONTRACT(step, "LipmDcmEstimator::setInputs, update")
{
  bool symbolic = pick("symbolic", 0, 1), reset = pick("reset", 0, 1);
  Settings s = symbolic ? any() : concrete();
  V2 d = vec2("d"), z = vec2("z"), b = vec2("b");
  LipmDcmEstimator e(s.dt, s.w, s.drift, s.dcm, s.zmp, V2(V2::Zero()), reset ? vec2("z_before") : z, d, b,
                     V2(R(3), R(2)), V2(R(1), R(2)));
  M2 r = M2::Identity();
  if(reset && pick("used", 0, 1))
  {
    e.setInputs(vec2("y_before"), vec2("z_used"), M2((M2() << R(0), R(1), R(-1), R(0)).finished()));
    e.update();
  }
  if(reset)
  {
    r << R(0.6), R(-0.8), R(0.8), R(0.6);
    e.resetWithMeasurements(V2(d + b), z, r, true, b, V2(R(1), R(2)));
  }
  LinearKalmanFilter f =
      reference(s, 2, e.getFilter().getCurrentEstimatedState(), e.getFilter().getStateCovariance(), 0);
  const M2 rs[3] = {(M2() << R(0), R(-1), R(1), R(0)).finished(), (M2() << R(0.6), R(0.8), R(-0.8), R(0.6)).finished(),
                    (M2() << R(-0.8), R(-0.6), R(0.6), R(-0.8)).finished()};
  long n = symbolic ? 1 : 3;
  long late = symbolic ? 0 : pick("late", 0, 2);
  for(long i = 1; i <= n; ++i)
  {
    V2 y = vec2("y" + std::to_string(i)), zi = vec2("z" + std::to_string(i));
    e.setInputs(y, zi, rs[i - 1]);
    // the bias turns with the robot
    Mat a = f.getA();
    a.bottomRightCorner(2, 2) = rs[i - 1] * r.transpose();
    f.setA(a);
    r = rs[i - 1];
    f.setInput(z, i - 1);
    f.setMeasurement(y, i);
    z = zi;
    Vec x = f.getEstimatedState(i);
    // measurements that wait are processed with their own orientation
    if(late && i < n && i != late) continue;
    e.update();
    ensureEq("DCM", e.getUnbiasedDCM(), x.head(2));
    ensureEq("bias", e.getBias(), x.tail(2));
    ensureEq("local bias", e.getLocalBias(), V2(r.transpose() * V2(x.tail(2))));
    ensureEq("covariance", e.getFilter().getStateCovariance(), f.getStateCovariance());
    ensure("time", e.getFilter().getCurrentTime() == i);
  }
}
CONTRACT(limits, "LipmDcmEstimator::update, setBiasLimit")
{
  Settings s = concrete();
  V2 d = vec2("d"), b = vec2("b"), z = vec2("z"), y = vec2("y"), l = V2::Zero();
  if(pick("limit_x", 0, 1)) l.x() = pos("lx");
  if(pick("limit_y", 0, 1)) l.y() = pos("ly");
  bool later = pick("later", 0, 1);
  M2 r = rot2("r");
  auto make = [&](const V2 & limit) {
    return LipmDcmEstimator(s.dt, s.w, s.drift, s.dcm, s.zmp, limit, z, d, b, V2(R(3), R(2)), V2(R(1), R(2)));
  };
  LipmDcmEstimator e = make(later ? V2(V2::Zero()) : l), f = make(V2(V2::Zero()));
  if(later) e.setBiasLimit(l);
  for(LipmDcmEstimator * p : {&e, &f}) p->setInputs(y, z, r), p->update();
  V2 fl = f.getLocalBias(), el = fl;
  for(long i = 0; i < 2; ++i)
    if(l(i) > R(0))
    {
      if(fl(i) > l(i))
        el(i) = l(i);
      else if(fl(i) < -l(i))
        el(i) = -l(i);
    }
  ensureEq("local bias within the limits of its axes", e.getLocalBias(), el);
  ensureEq("bias", e.getBias(), V2(r * el));
  ensureEq("the biased DCM is kept", V2(e.getUnbiasedDCM() + e.getBias()), V2(f.getUnbiasedDCM() + f.getBias()));
  ensureEq("covariance", e.getFilter().getStateCovariance(), f.getFilter().getStateCovariance());
}
CONTRACT(orientations, "LipmDcmEstimator::setInputs, resetWithMeasurements (yaw, 3D orientation)")
{
  Settings s = concrete();
  LipmDcmEstimator e(s.dt, s.w, s.drift, s.dcm, s.zmp), f(s.dt, s.w, s.drift, s.dcm, s.zmp);
  V2 d = vec2("d"), z = vec2("z"), b = vec2("b"), u = V2(R(1), R(1));
  R a1 = in("a1"), a2 = in("a2");
  auto plane = [](const R & a) {
    M2 m;
    R c = cos(a), t = sin(a);
    m << c, -t, t, c;
    return m;
  };
  if(pick("3D", 0, 1))
  {
    // the 3D orientation only matters by its yaw
    M3 r1 = M3::Identity(), r2;
    r1.topLeftCorner(2, 2) << R(0.6), R(-0.8), R(0.8), R(0.6);
    r2 << R(0), R(0), R(1), R(1), R(0), R(0), R(0), R(1), R(0);
    e.resetWithMeasurements(d, z, r1, true, b, u);
    f.resetWithMeasurements(d, z, plane(kine::rotationMatrixToYawAxisAgnostic(r1)), true, b, u);
    e.setInputs(V2(d + b), z, r2);
    f.setInputs(V2(d + b), z, plane(kine::rotationMatrixToYawAxisAgnostic(r2)));
  }
  else
  {
    e.resetWithMeasurements(d, z, a1, true, b, u);
    f.resetWithMeasurements(d, z, plane(a1), true, b, u);
    e.setInputs(V2(d + b), z, a2);
    f.setInputs(V2(d + b), z, plane(a2));
  }
  ensureEq("turn of the bias", e.getFilter().getA(), f.getFilter().getA());
  e.update();
  f.update();
  ensureEq("DCM", e.getUnbiasedDCM(), f.getUnbiasedDCM());
  ensureEq("local bias", e.getLocalBias(), f.getLocalBias());
}
