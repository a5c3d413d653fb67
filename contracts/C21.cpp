// C21: the flexibility estimators: settings, guesses, steps of the Kalman filter, outputs
// ASSUMES: the extended Kalman filter has its own contracts (C01, C03, C04), the models theirs (C14, C22), rotation vectors theirs (C07)
#include "models.hpp"
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
#ifndef VP_SYMBOLIC
#  include <limits>
#endif
using namespace vp;
using namespace stateObservation;
using namespace flexibilityEstimation;
typedef kine::indexes<kine::rotationVector> fix;
typedef IMUElasticLocalFrameDynamicalSystem Elastic;
namespace
{
struct Fixed : public FixedContactEKFFlexEstimatorIMU
{
  Fixed(R dt = R(0.005)) : FixedContactEKFFlexEstimatorIMU(dt) {}
  using EKFFlexibilityEstimatorBase::setJacobians;
  using EKFFlexibilityEstimatorBase::useFiniteDifferencesJacobians;
  IMUFixedContactDynamicalSystem & model()
  {
    return functor_;
  }
};
struct ModelBase : public ModelBaseEKFFlexEstimatorIMU
{
  using EKFFlexibilityEstimatorBase::setJacobians;
  Elastic & model()
  {
    return functor_;
  }
};
Vec join(const Vec & a, const Vec & b, R k)
{
  Vec v(a.size() + b.size() + 1);
  v << a, b, k;
  return v;
}
// any system that leaves the state where it is, but for some components it moves arbitrarily, and measures arbitrarily
struct System : public DynamicalSystemFunctorBase
{
  long n, m, p;
  std::vector<long> moves, seen;
  bool nonlinear = false;
  System(long n, long m, long p) : n(n), m(m), p(p) {}
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    Vector y = x;
    if(nonlinear)
    {
      for(long i = 0; i < n; ++i) y(i) = x(i) / 2 + x(i) * x((i + 7) % n) / 8;
      return y;
    }
    Vec w = ufVec("f", moves.size(), join(x, u, R(k)));
    for(size_t i = 0; i < moves.size(); ++i) y(moves[i]) = w(i);
    return y;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    if(nonlinear)
    {
      Vector y(m);
      for(long i = 0; i < m; ++i) y(i) = x(i) + x(6 + i) * x(6 + i) / 4 + u(i);
      return y;
    }
    return ufVec("h", m, join(x, u, R(k)));
  }
  void reset() {}
  Index getStateSize() const
  {
    return n;
  }
  Index getInputSize() const
  {
    return p;
  }
  Index getMeasurementSize() const
  {
    return m;
  }
};
Mat diag(long n, double a, double b)
{
  Mat m = Mat::Zero(n, n);
  for(long i = 0; i < n; ++i) m(i, i) = R(a) + R(b) * R(i);
  return m;
}
Mat blocks(const Mat & a, const Mat & b)
{
  Mat m = Mat::Zero(a.rows() + b.rows(), a.cols() + b.cols());
  m.topLeftCorner(a.rows(), a.cols()) = a;
  m.bottomRightCorner(b.rows(), b.cols()) = b;
  return m;
}
Mat scaled(long n, R s)
{
  Mat m = Mat::Zero(n, n);
  for(long i = 0; i < n; ++i) m(i, i) = s;
  return m;
}
Mat fixedQ()
{
  Mat q = Mat::Zero(18, 18);
  for(long i = 0; i < 18; ++i) q(i, i) = R(1e-8);
  for(long i = 0; i < 3; ++i)
  {
    q(fix::linVel + i, fix::linVel + i) = q(fix::angVel + i, fix::angVel + i) = R(1e-4);
    q(fix::linAcc + i, fix::linAcc + i) = q(fix::angAcc + i, fix::angAcc + i) = R(1e-2);
  }
  return q;
}
} // namespace
CONTRACT(fixed_settings, "FixedContactEKFFlexEstimatorIMU settings, resetCovarianceMatrices, updateCovarianceMatrix_")
{
  Fixed e(pos("dt0"));
  Mat r = scaled(6, R(1e-6)), q = fixedQ(), p = q;
  R c = R(1e-10);
  long n = 0;
  for(long step = 0; step < 3; ++step)
  {
    std::string s = std::to_string(step);
    switch(pick("event" + s, 0, 6))
    {
      case 0:
        n = pick("contacts" + s, 0, 2);
        e.setContactsNumber(unsigned(n));
        break;
      case 1:
        c = pos("c" + s);
        e.setVirtualMeasurementsCovariance(c);
        break;
      case 2:
        r = mat("r" + s, 6, 6);
        e.setMeasurementNoiseCovariance(r);
        break;
      case 3:
        q = Mat::Zero(18, 18);
        for(long i = 0; i < 18; ++i) q(i, 17 - i) = in("q" + s + "_" + std::to_string(i));
        e.setProcessNoiseCovariance(q);
        break;
      case 4:
        p = Mat::Zero(18, 18);
        for(long i = 0; i < 18; ++i) p(i, i) = in("p" + s + "_" + std::to_string(i));
        e.setFlexibilityCovariance(p);
        break;
      case 5: // the default covariances come back, with the contacts and the covariance of their virtual measurements
        e.resetCovarianceMatrices();
        r = scaled(6, R(1e-6));
        q = fixedQ();
        p = scaled(18, R(1e-2));
        break;
      case 6:
        if(pick("guess" + s, 0, 1))
          e.setFlexibilityGuess(vec("x" + s, 18));
        else
          e.setFlexibilityGuess(vec("x" + s, 6));
        break;
    }
  }
  ensure("sizes", e.getStateSize() == 18 && e.getMeasurementSize() == 6 && e.getInputSize() == 15 && e.getEKF().getStateSize() == 18
                      && e.getEKF().getInputSize() == 15);
  ensure("three virtual measurements per contact", e.getEKF().getMeasureSize() == 6 + 3 * n && e.model().getMeasurementSize() == 6 + 3 * n);
  ensureEq("sensor covariance", e.getMeasurementNoiseCovariance(), r);
  ensureEq("virtual covariance", e.getVirtualMeasurementsCovariance(), c);
  ensureEq("measurement covariance in use", e.getEKF().getR(), blocks(r, scaled(3 * n, c)));
  ensureEq("process covariance", e.getProcessNoiseCovariance(), q);
  ensureEq("process covariance in use", e.getEKF().getQ(), q);
  ensureEq("state covariance", e.getFlexibilityCovariance(), p);
  ensureEq("state covariance in use", e.getEKF().getStateCovariance(), p);
  ensure("the model is the one of the filter", e.getEKF().getFunctor() == &e.model());
}
CONTRACT(fixed_guess, "FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess, getFlexibility, setSamplingPeriod, setContactPosition")
{
  R dt = pos("dt", 0.5, 0.01);
  Fixed e(R(0.25));
  e.setSamplingPeriod(dt);
  Vec x = Vec::Zero(18);
  ensureEq("nothing known: no flexibility", e.getFlexibilityVector(), x);
  long how = pick("how", 0, 3);
  V3 p = vec3("p"), o = vec3("o", 1.5);
  assumeLt(o.squaredNorm(), R(9));
  if(how == 0)
  {
    x = vec("x", 18);
    x.segment(fix::pos, 3) = p;
    x.segment(fix::ori, 3) = o;
    e.setFlexibilityGuess(x);
  }
  else
  {
    x.segment(fix::pos, 3) = p;
    Vec g(6);
    if(how == 1)
    {
      x.segment(fix::ori, 3) = o;
      g << p, o;
      e.setFlexibilityGuess(g);
    }
    else
    {
      Mat h = Mat::Identity(4, 4);
      h.block(0, 3, 3, 1) = p;
      if(how == 2)
      {
        R s, cs;
        std::vector<R> u = unit({"c", "s"});
        cs = u[0];
        s = u[1];
        assumeLt(R(1e-3), s);
        h(0, 0) = h(1, 1) = cs;
        h(0, 1) = -s;
        h(1, 0) = s;
      }
      Vec v6 = kine::homogeneousMatrixToVector6(Matrix4(h));
      x.segment(fix::ori, 3) = v6.tail(3);
      e.setFlexibilityGuess(h);
    }
  }
  ensureEq("the guess", e.getFlexibilityVector(), x);
  ensureEq("the guess is the state of the filter", e.getEKF().getCurrentEstimatedState(), x);
  Vector6 v;
  v << x.segment(fix::pos, 3), x.segment(fix::ori, 3);
  ensureEq("its homogeneous matrix", e.getFlexibility(), kine::vector6ToHomogeneousMatrix(v));
  if(how == 0) return;
  // the model has this sampling period and these contacts
  Vec y = Vec::Zero(18);
  y.segment(fix::pos, 3) = p;
  y.segment(fix::linVel, 3) = vec3("v");
  y.segment(fix::linAcc, 3) = vec3("a");
  Vec z = e.model().stateDynamics(y, Vec::Zero(15), 0);
  ensureEq("sampling period of the model", z.segment(fix::pos, 3),
           V3(y.segment(fix::pos, 3) + dt * y.segment(fix::linVel, 3) + dt * dt / 2 * y.segment(fix::linAcc, 3)));
  V3 c0 = vec3("c0"), c1 = vec3("c1");
  e.setContactsNumber(2);
  e.setContactPosition(1, c1);
  e.setContactPosition(0, c0);
  y.segment(fix::ori, 3) = Vec::Zero(3);
  z = e.model().measureDynamics(y, Vec::Zero(15), 0);
  ensureEq("virtual measurement of the first contact", z.segment(6, 3), p);
  y = Vec::Zero(18);
  y.segment(fix::ori, 3) = V3(R(0), R(0), R(0.5));
  Quaternion turn(kine::rotationVectorToAngleAxis(Vector3(R(0), R(0), R(0.5))));
  M3 r = M3(turn.toRotationMatrix());
  z = e.model().measureDynamics(y, Vec::Zero(15), 0);
  ensureEq("contact 0", z.segment(6, 3), V3(r * c0 - c0));
  ensureEq("contact 1", z.segment(9, 3), V3(r * c1 - c1));
}
CONTRACT(fixed_steps, "FixedContactEKFFlexEstimatorIMU::getFlexibilityVector, setMeasurement, inputs, predictions")
{
  long n = pick("contacts", 0, 1), m = 6 + 3 * n;
  System f(18, m, 15);
  f.moves = {0, 1, 2, 9};
  if(pick("turns", 0, 1)) f.moves = {fix::ori, fix::ori + 1, fix::ori + 2};
  Fixed e;
  e.setContactsNumber(unsigned(n));
  e.getEKF().setFunctor(&f);
  Mat q = diag(18, 0.5, 0.25), r = diag(6, 1, 0.125), p = diag(18, 1, 0.5), a = diag(18, 1, 0.0625), c = Mat::Zero(m, 18);
  R cov = R(0.75);
  for(long i = 0; i < m; ++i) c(i, (i + 6) % 18) = R(1 + i);
  a(0, 9) = R(0.5);
  e.setProcessNoiseCovariance(q);
  e.setMeasurementNoiseCovariance(r);
  e.setVirtualMeasurementsCovariance(cov);
  Vec x = vec("x", 18, 1);
  e.setFlexibilityGuess(x);
  e.setFlexibilityCovariance(p);
  e.setJacobians(a, c);
  ExtendedKalmanFilter g(18, m, 15, true, false);
  g.setFunctor(&f);
  g.setQ(q);
  g.setR(blocks(r, scaled(3 * n, cov)));
  g.setStateCovariance(p);
  g.setA(a);
  g.setC(c);
  g.setState(x, 0);
  Vec u0 = vec("u0_", 15);
  if(pick("inputs", 0, 1))
  {
    e.setInput(u0);
    g.setInput(u0, 0);
  }
  for(long k = 0; k < 2; ++k)
  {
    std::string s = std::to_string(k + 1);
    Vec u = vec("u" + s + "_", 15), y = vec("y" + s + "_", 6), yy = Vec::Zero(m);
    bool first = g.getInputsNumber() == 0;
    e.setMeasurementInput(u);
    if(first)
    {
      g.setInput(u, 0); // the only input there is
      u0 = u;
    }
    g.setInput(u, k + 1);
    ensureEq("input of the state", e.getInput(), u0);
    ensureEq("input of the measurement", e.getMeasurementInput(), u);
    u0 = u;
    if(k == 0 && pick("predicts", 0, 1))
    {
      ensureEq("prediction", e.getPrediction(), g.updateStatePrediction());
      ensureEq("predicted measurement", e.getPredictedMeasurement(), g.updateStateAndMeasurementPrediction());
    }
    if(k == 0 && pick("replaced", 0, 1)) e.setMeasurement(vec("z", 6));
    e.setMeasurement(y);
    yy.head(6) = y;
    ensureEq("the contacts do not move", e.getMeasurement(), yy);
    g.setMeasurement(yy, k + 1);
    x = g.getEstimatedState(k + 1);
    assumeLt(x.segment(fix::ori, 3).squaredNorm(), R(36)); // less than a turn
    x.segment(fix::ori, 3) = kine::regulateOrientationVector(Vector3(x.segment(fix::ori, 3)));
    Vec pred = g.getLastPrediction(), sens = g.getLastPredictedMeasurement();
    g.setState(x, k + 1);
    long asked = n == 0 && k == 0 ? pick("asked", 0, 2) : 0;
    Vector6 pose;
    pose << x.segment(fix::pos, 3), x.segment(fix::ori, 3);
    if(asked == 1) ensureEq("simulated measurement, asked first", e.getSimulatedMeasurement(), f.measureDynamics(x, u, k + 1));
    if(asked == 2) ensureEq("flexibility, asked first", e.getFlexibility(), kine::vector6ToHomogeneousMatrix(pose));
    ensureEq("a step of the filter", e.getFlexibilityVector(), x);
    ensureEq("asked again, the same", e.getFlexibilityVector(), x);
    ensureEq("innovation", e.getInnovation(), g.getInnovation());
    ensureEq("covariance", e.getFlexibilityCovariance(), g.getStateCovariance());
    ensureEq("last prediction", e.getLastPrediction(), pred);
    ensureEq("last predicted measurement", e.getLastPredictedMeasurement(), sens);
    ensure("time", e.getEKF().getCurrentTime() == k + 1);
    ensureEq("simulated measurement", e.getSimulatedMeasurement(), f.measureDynamics(x, u, k + 1));
    ensureEq("state of the filter", e.getEKF().getCurrentEstimatedState(), x);
  }
}
CONTRACT(fixed_differences, "EKFFlexibilityEstimatorBase::getFlexibilityVector with Jacobians by finite differences")
{
  // nonlinear dynamics: the Jacobians are those around the current estimation, with the given steps
  long n = 0, m = 6;
  System f(18, m, 15);
  f.nonlinear = true;
  Fixed e;
  e.getEKF().setFunctor(&f);
  Mat q = diag(18, 0.5, 0.25), r = diag(6, 1, 0.125), p = diag(18, 1, 0.5);
  e.setProcessNoiseCovariance(q);
  e.setMeasurementNoiseCovariance(r);
  Vec x(18), dx(18);
  for(long i = 0; i < 18; ++i)
  {
    x(i) = R(i) / 32;
    dx(i) = R(0.125) + R(i) / 64;
  }
  e.setFlexibilityGuess(x);
  e.setFlexibilityCovariance(p);
  if(pick("switched", 0, 1)) e.setJacobians(diag(18, 2, 1), Mat::Zero(m, 18));
  e.useFiniteDifferencesJacobians(dx);
  ExtendedKalmanFilter g(18, m, 15, true, false);
  g.setFunctor(&f);
  g.setQ(q);
  g.setR(blocks(r, scaled(3 * n, R(1))));
  g.setStateCovariance(p);
  g.setState(x, 0);
  // measurements equal to the prediction, but for one: the estimation stays computable
  long which = pick("component", 0, 5);
  R d = in("innovation", -1, 1);
  assumeLe(R(-1), d);
  assumeLe(d, R(1));
  Vec u(15);
  for(long i = 0; i < 15; ++i) u(i) = R(i);
  for(long k = 0; k < 1; ++k)
  {
    if(k == 0)
    {
      e.setInput(u);
      g.setInput(u, 0);
    }
    u(0) = R(k + 5);
    e.setMeasurementInput(u);
    g.setInput(u, k + 1);
    g.setA(g.getAMatrixFD(dx));
    g.setC(g.getCMatrixFD(dx));
    Vec y = g.updateStateAndMeasurementPrediction();
    y(which) += d;
    e.setMeasurement(y);
    g.setMeasurement(y, k + 1);
    x = g.getEstimatedState(k + 1);
    assumeLt(x.segment(fix::ori, 3).squaredNorm(), R(36)); // less than a turn
    x.segment(fix::ori, 3) = kine::regulateOrientationVector(Vector3(x.segment(fix::ori, 3)));
    g.setState(x, k + 1);
    ensureEq("a step of the filter", e.getFlexibilityVector(), x);
    ensureEq("Jacobian of the state dynamics", e.getEKF().getA(), g.getA());
    ensureEq("Jacobian of the measurements", e.getEKF().getC(), g.getC());
    ensureEq("covariance", e.getFlexibilityCovariance(), g.getStateCovariance());
  }
}
namespace
{
Mat elasticQ(bool unmodeled, bool bias, bool absolute)
{
  Mat q = Mat::Zero(35, 35);
  for(long i = 0; i < 12; ++i) q(i, i) = R(1e-8);
  for(long i = 12; i < 24; ++i) q(i, i) = R(1e-4);
  if(unmodeled)
    for(long i = 24; i < 30; ++i) q(i, i) = R(1e-2);
  if(bias) q(30, 30) = q(31, 31) = R(2.5e-10);
  if(absolute) q(32, 32) = q(33, 33) = q(34, 34) = R(1e-8);
  return q;
}
// what each sensor in use is trusted for
struct Trust
{
  Mat imu, force, absolute; // the blocks of the IMU, and of the sensors when they come into use
  std::vector<Mat> contacts;
  bool withAbs = false;
  Mat abs;
  void reset()
  {
    imu = scaled(6, R(1e-6));
    contacts.clear();
    withAbs = false;
  }
  void use(long n, bool forces, bool absPos)
  {
    contacts.resize(forces ? std::min(n, long(contacts.size())) : 0);
    while(forces && long(contacts.size()) < n) contacts.push_back(force);
    if(absPos && !withAbs) abs = absolute;
    withAbs = absPos;
  }
  Mat all() const
  {
    Mat m = imu;
    for(auto & c : contacts) m = blocks(m, c);
    if(withAbs) m = blocks(m, abs);
    return m;
  }
};
} // namespace
CONTRACT(elastic_settings, "ModelBaseEKFFlexEstimatorIMU settings, updateMeasurementCovarianceMatrix_, reset*, get*")
{
  ModelBase e;
  Trust t;
  t.reset();
  t.force = t.absolute = scaled(6, R(1e-4));
  Mat q = elasticQ(false, false, false), p = q;
  long n = 0;
  bool forces = false, absPos = false, unmodeled = false, bias = false;
  ensureEq("default process covariance", ModelBaseEKFFlexEstimatorIMU::getDefaultQ().topLeftCorner(24, 24), q.topLeftCorner(24, 24));
  ensureEq("default IMU covariance", ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU(), t.imu);
  long start = pick("start", 0, 2);
  if(start > 0)
  {
    e.setContactsNumber(unsigned(n = start));
    e.setWithForcesMeasurements(forces = true);
  }
  if(start == 2) e.setWithAbsolutePos(absPos = true);
  t.use(n, forces, absPos);
  for(long step = 0; step < 2; ++step)
  {
    std::string s = std::to_string(step);
    switch(pick("event" + s, 0, 12))
    {
      case 0:
        e.setContactsNumber(unsigned(n = pick("contacts" + s, 0, 2)));
        break;
      case 1:
        e.setWithForcesMeasurements(forces = pick("forces" + s, 0, 1));
        break;
      case 2:
        e.setWithAbsolutePos(absPos = pick("absolute" + s, 0, 1));
        break;
      case 3:
        e.setWithUnmodeledForces(unmodeled = pick("unmodeled" + s, 0, 1));
        break;
      case 4:
        e.setWithComBias(bias = pick("bias" + s, 0, 1));
        break;
      case 5:
        if(pick("isotropic" + s, 0, 1))
        {
          R d = pos("force" + s);
          t.force = scaled(6, d);
          e.setForceVariance(d);
        }
        else
        {
          Mat v = mat("force" + s, 3, 3);
          t.force = blocks(v, v);
          e.setForceVariance(Matrix3(v));
        }
        t.contacts.clear();
        break;
      case 6:
      {
        R d = pos("absolutePos" + s);
        t.absolute = scaled(6, d);
        t.withAbs = false;
        e.setAbsolutePosVariance(d);
        break;
      }
      case 7:
      {
        // of all the sensors, or of the first ones only
        long all = 1 + (forces ? n : 0) + (absPos ? 1 : 0), nb = pick("given" + s, 1, 4);
        if(nb > all) nb = all;
        t.imu = mat("imu" + s, 6, 6);
        Mat r = t.imu;
        t.contacts.clear();
        for(long i = 1; i < nb && i <= (forces ? n : 0); ++i)
        {
          t.contacts.push_back(mat("contact" + s + "_" + std::to_string(i), 6, 6));
          r = blocks(r, t.contacts.back());
        }
        t.withAbs = absPos && nb == all;
        if(t.withAbs)
        {
          t.abs = mat("abs" + s, 6, 6);
          r = blocks(r, t.abs);
        }
        e.setMeasurementNoiseCovariance(r);
        break;
      }
      case 8:
        q = Mat::Zero(35, 35);
        for(long i = 0; i < 35; ++i) q(i, 34 - i) = in("q" + s + "_" + std::to_string(i));
        e.setProcessNoiseCovariance(q);
        break;
      case 9:
        e.resetCovarianceMatrices();
        t.reset();
        p = q = elasticQ(unmodeled, bias, absPos);
        break;
      case 10:
      {
        R d = pick("positive" + s, 0, 1) ? pos("variance" + s) : R(0);
        if(!(d == R(0))) unmodeled = true;
        if(pick("process" + s, 0, 1))
        {
          for(long i = 24; i < 30; ++i) q(i, i) = d;
          e.setUnmodeledForceProcessVariance(d);
        }
        else
        {
          for(long i = 24; i < 30; ++i) p(i, i) = d;
          e.setUnmodeledForceVariance(d);
        }
        break;
      }
      case 11:
        p = q;
        e.resetStateCovarianceMatrix();
        break;
      case 12:
        p = Mat::Zero(35, 35);
        for(long i = 0; i < 35; ++i) p(i, i) = in("p" + s + "_" + std::to_string(i));
        p(0, 1) = p(1, 0) = in("p" + s + "off");
        e.setFlexibilityCovariance(p);
        break;
    }
    t.use(n, forces, absPos);
  }
  long m = 6 + (forces ? 6 * n : 0) + (absPos ? 6 : 0), in = 48 + 12 * n;
  ensure("measurement size", e.getMeasurementSize() == m && e.getEKF().getMeasureSize() == m && e.getFunctor().getMeasurementSize() == m);
  ensure("input size", e.getInputSize() == in && e.getEKF().getInputSize() == in && e.getFunctor().getInputSize() == in);
  ensure("state size", e.getStateSize() == 35 && e.getEKF().getStateSize() == 35);
  ensure("contacts", e.getContactsNumber() == unsigned(n) && e.getFunctor().getContactsNumber() == unsigned(n));
  ensure("what is measured",
         e.getWithForcesMeasurements() == forces && e.getWithAbsolutePos() == absPos && e.getFunctor().getWithForceMeasurements() == forces
             && e.getFunctor().getWithAbsolutePosition() == absPos);
  ensure("what is estimated", e.getWithUnmodeledForces() == unmodeled && e.getWithComBias() == bias && e.getFunctor().getWithComBias() == bias);
  Mat r = t.all();
  ensureEq("measurement covariance: sensor by sensor", e.getMeasurementNoiseCovariance(), r);
  ensureEq("measurement covariance in use", e.getEKF().getR(), r);
  ensureEq("process covariance", e.getProcessNoiseCovariance(), q);
  ensureEq("process covariance in use", e.getEKF().getQ(), q);
  ensureEq("state covariance", e.getFlexibilityCovariance(), p);
  ensureEq("state variances", e.getStateCovariance(), Vec(p.diagonal()));
}
CONTRACT(elastic_guess, "ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess, setComBiasGuess, getFlexibility, getForcesAndMoments")
{
  ModelBase e;
  Vec x = Vec::Zero(35);
  ensureEq("nothing known: no flexibility", e.getFlexibilityVector(), x);
  long how = pick("how", 0, 2), n = pick("contacts", 0, 2);
  e.setContactsNumber(unsigned(n));
  V3 p = vec3("p"), o = vec3("o", 1.5);
  if(how == 0)
  {
    x = vec("x", 35);
    x.segment(Elastic::state::pos, 3) = p;
    x.segment(Elastic::state::ori, 3) = o;
    e.setFlexibilityGuess(x);
  }
  else
  {
    x.segment(0, 3) = p;
    Vec g(6);
    if(how == 1)
    {
      x.segment(3, 3) = o;
      g << p, o;
      e.setFlexibilityGuess(g);
    }
    else
    {
      Mat h = Mat::Identity(4, 4);
      h.block(0, 3, 3, 1) = p;
      std::vector<R> u = unit({"c", "s"});
      assumeLt(R(1e-3), u[1]);
      h(1, 1) = h(2, 2) = u[0];
      h(1, 2) = -u[1];
      h(2, 1) = u[1];
      x.segment(3, 3) = kine::homogeneousMatrixToVector6(Matrix4(h)).tail(3);
      e.setFlexibilityGuess(h);
    }
  }
  if(pick("bias", 0, 1))
  {
    Vec b = vec("b", 2);
    e.setComBiasGuess(b);
    x.segment(30, 2) = b;
  }
  ensureEq("the guess", e.getFlexibilityVector(), x);
  ensureEq("the guess is the state of the filter", e.getEKF().getCurrentEstimatedState(), x);
  Vector6 v;
  v << x.segment(0, 6);
  ensureEq("its homogeneous matrix", e.getFlexibility(), kine::vector6ToHomogeneousMatrix(v));
  ensureEq("contact wrenches", e.getForcesAndMoments(), x.segment(12, 6 * n));
  Mat a = mat("a", 35, 35).topLeftCorner(35, 35), c = Mat::Zero(6, 35);
  for(long i = 0; i < 6; ++i)
  {
    c(i, i) = in("c" + std::to_string(i));
    c(i, 34 - i) = in("d" + std::to_string(i));
  }
  e.setJacobians(a, c);
  Mat O(12, 35);
  O << c, c * a;
  ensureEq("local observation matrix", e.computeLocalObservationMatrix(), O);
  ensureEq("A", e.getAMatrix(), a);
  ensureEq("C", e.getCMatrix(), c);
}
CONTRACT(elastic_model, "ModelBaseEKFFlexEstimatorIMU settings of the model")
{
  ModelBase e;
  Elastic m(0.005);
  e.setContactsNumber(1);
  m.setContactsNumber(1);
  bool before = pick("before", 0, 1);
  if(before)
    for(void (Elastic::*f)(const Matrix3 &) : {&Elastic::setKfe, &Elastic::setKfv}) (m.*f)(Matrix3(mat("old", 3, 3)));
  Mat k[8];
  for(long i = 0; i < 8; ++i) k[i] = mat("k" + std::to_string(i), 3, 3);
  e.setKfe(Matrix3(k[0]));
  e.setKfv(Matrix3(k[1]));
  e.setKte(Matrix3(k[2]));
  e.setKtv(Matrix3(k[3]));
  e.setKfeRopes(Matrix3(k[4]));
  e.setKfvRopes(Matrix3(k[5]));
  e.setKteRopes(Matrix3(k[6]));
  e.setKtvRopes(Matrix3(k[7]));
  m.setKfe(Matrix3(k[0]));
  m.setKfv(Matrix3(k[1]));
  m.setKte(Matrix3(k[2]));
  m.setKtv(Matrix3(k[3]));
  m.setKfeRopes(Matrix3(k[4]));
  m.setKfvRopes(Matrix3(k[5]));
  m.setKteRopes(Matrix3(k[6]));
  m.setKtvRopes(Matrix3(k[7]));
  ensureEq("linear stiffness", e.getKfe(), k[0]);
  ensureEq("linear damping", e.getKfv(), k[1]);
  ensureEq("angular stiffness", e.getKte(), k[2]);
  ensureEq("angular damping", e.getKtv(), k[3]);
  V3 pe = vec3("pe");
  e.setPe(Vector3(pe));
  m.setPe(Vector3(pe));
  R mass = pos("mass", 80, 1);
  e.setRobotMass(mass);
  m.setRobotMass(mass);
  ensureEq("mass", e.getRobotMass(), mass);
  ensureEq("mass of the model", e.getFunctor().getRobotMass(), mass);
  R dt = pos("dt", 0.5, 0.01);
  e.setSamplingPeriod(dt);
  m.setSamplingPeriod(dt);
  V3 p = vec3("p"), v = vec3("v"), cp = vec3("cp");
  assumeLt(R(1e-6), V3(p + cp - pe).squaredNorm());
  Vec x = Vec::Zero(35), u = Vec::Zero(60);
  x.segment(0, 3) = p;
  if(pick("turned", 0, 1)) x.segment(3, 3) << R(0), R(0), R(0.75);
  x.segment(6, 3) = v;
  x.segment(9, 3) = vec3("w");
  u.segment(48, 3) = cp;
  u.segment(54, 6) = vec("cv", 6);
  long kind = pick("contact", 1, 2);
  e.setContactModel(unsigned(kind));
  m.setContactModel(unsigned(kind));
  ensureEq("the contact wrenches of the model of these settings", e.model().getForcesAndMoments(x, u), m.getForcesAndMoments(x, u));
  // free fall: mass and sampling period
  e.setContactModel(1);
  m.setContactModel(1);
  e.setContactsNumber(0);
  m.setContactsNumber(0);
  x = Vec::Zero(35);
  u = Vec::Zero(48);
  x.segment(6, 3) = v;
  u(9) = u(10) = u(11) = R(1);
  u.segment(42, 3) = vec3("f");
  x.segment(24, 3) = vec3("unmodeledForce");
  bool unmodeled = pick("unmodeled", 0, 1);
  e.setWithUnmodeledForces(unmodeled);
  m.setWithUnmodeledForces(unmodeled);
  ensureEq("the dynamics of the model of these settings", e.model().stateDynamics(x, u, 0), m.stateDynamics(x, u, 0));
  // what is estimated besides
  bool bias = pick("bias", 0, 1);
  e.setWithComBias(bias);
  m.setWithComBias(bias);
  x.segment(24, 8) << R(2), R(3), R(-1), R(0.5), R(0.25), R(0.125), R(0.0625), R(0.5);
  ensureEq("the accelerations of the model of these settings", e.model().computeAccelerations(x, u), m.computeAccelerations(x, u));
}
CONTRACT(elastic_steps, "ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector, setMeasurement, limits, inputs, predictions")
{
  long which = pick("moves", 0, 12), how = which == 12 ? pick("sensors", 0, 2) : which % 2, n = how > 0, m = 6 + (how > 0 ? 6 : 0) + (how > 1 ? 6 : 0), in_ = 48 + 12 * n;
  System f(35, m, in_);
  bool limited = pick("limited", 0, 1);
  ModelBase e;
  V3 limF(R(50), R(60), R(70)), limT(R(80), R(90), R(95));
  if(which == 12 || pick("limits", 0, 1))
  {
    // any limits for the component that moves
    if(which < 12 && which % 6 < 3) limF(which % 6) = pos("limit");
    if(which < 12 && which % 6 >= 3) limT(which % 6 - 3) = pos("limit");
    e.setForcesLimit(Vector3(limF));
    e.setTorquesLimit(Vector3(limT));
    ensureEq("force limits", e.getForcesLimit(), limF);
    ensureEq("torque limits", e.getTorquesLimit(), limT);
  }
  else
  {
    limF = V3(e.getForcesLimit());
    limT = V3(e.getTorquesLimit());
    R w = R(cst::gravityConstant * hrp2::m);
    ensureEq("default force limits", limF, V3(V3(R(100), R(100), R(1000)) * w));
    ensureEq("default torque limits", limT, V3(V3(R(10), R(10), R(100)) * w));
  }
  e.setLimitOn(limited);
  ensure("limits on", e.getLimitOn() == limited);
  f.moves = {0, 7, 31, 34};
  if(which < 12)
    f.moves = {12 + which};
  else if(pick("turns", 0, 1))
    f.moves = {3, 4, 5};
  e.setContactsNumber(unsigned(n));
  if(how > 0) e.setWithForcesMeasurements(true);
  if(how > 1) e.setWithAbsolutePos(true);
  e.getEKF().setFunctor(&f);
  Mat q = diag(35, 0.5, 0.25), r = diag(m, 1, 0.125), p = diag(35, 1, 0.5), a = diag(35, 1, 0.0625), c = Mat::Zero(m, 35);
  for(long i = 0; i < m; ++i) c(i, i < 6 ? 6 + i : i < 17 ? 18 + i : 0) = R(1 + i);
  a(0, 9) = R(0.5);
  e.setProcessNoiseCovariance(q);
  e.setMeasurementNoiseCovariance(r);
  Vec x = vec("x", 35, 1);
  for(long i = 12; i < 24; ++i) x(i) = R(i);
  e.setFlexibilityGuess(x);
  e.setFlexibilityCovariance(p);
  e.setJacobians(a, c);
  ExtendedKalmanFilter g(35, m, in_, true, true);
  g.setFunctor(&f);
  g.setQ(q);
  g.setR(r);
  g.setStateCovariance(p);
  g.setA(a);
  g.setC(c);
  g.setState(x, 0);
  Vec u0 = vec("u0_", in_);
  if(which < 12 || pick("inputs", 0, 1))
  {
    e.setInput(u0);
    g.setInput(u0, 0);
  }
  for(long k = 0; k < (which < 12 ? 1 : 2); ++k)
  {
    std::string s = std::to_string(k + 1);
    Vec u = vec("u" + s + "_", in_), y = vec("y" + s + "_", m);
    bool first = g.getInputsNumber() == 0;
    e.setMeasurementInput(u);
    if(first)
    {
      g.setInput(u, 0);
      u0 = u;
    }
    g.setInput(u, k + 1);
    ensureEq("input of the state", e.getInput(), u0);
    ensureEq("input of the measurement", e.getMeasurementInput(), u);
    u0 = u;
    e.setMeasurement(y);
    ensureEq("measurement", e.getMeasurement(), y);
    g.setMeasurement(y, k + 1);
    x = g.getEstimatedState(k + 1);
    assumeLt(x.segment(3, 3).squaredNorm(), R(36)); // less than a turn
    x.segment(3, 3) = kine::regulateOrientationVector(Vector3(x.segment(3, 3)));
    if(limited)
      for(long i = 0; i < 3; ++i)
        for(long j = 12 + i; j < 24; j += 6)
        {
          R lo = -limF(i);
          x(j) = std::max(std::min(x(j), limF(i)), lo);
          lo = -limT(i);
          x(j + 3) = std::max(std::min(x(j + 3), limT(i)), lo);
        }
    Vec pred = g.getLastPrediction(), sens = g.getLastPredictedMeasurement();
    g.setState(x, k + 1);
    long asked = which == 12 && how < 2 && k == 0 ? pick("asked", 0, 3) : 0;
    Vector6 pose;
    pose << x.segment(0, 6);
    if(asked == 1) ensureEq("simulated measurement, asked first", e.getSimulatedMeasurement(), f.measureDynamics(x, u, k + 1));
    if(asked == 2) ensureEq("flexibility, asked first", e.getFlexibility(), kine::vector6ToHomogeneousMatrix(pose));
    if(asked == 3) ensureEq("contact wrenches, asked first", e.getForcesAndMoments(), x.segment(12, 6 * n));
    ensureEq("a step of the filter, within the limits", e.getFlexibilityVector(), x);
    ensureEq("asked again, the same", e.getFlexibilityVector(), x);
    ensureEq("innovation", e.getInnovation(), g.getInnovation());
    ensureEq("covariance", e.getFlexibilityCovariance(), g.getStateCovariance());
    ensureEq("last prediction", e.getLastPrediction(), pred);
    ensureEq("last predicted measurement", e.getLastPredictedMeasurement(), sens);
    ensureEq("simulated measurement", e.getSimulatedMeasurement(), f.measureDynamics(x, u, k + 1));
    ensureEq("state of the filter", e.getEKF().getCurrentEstimatedState(), x);
    ensure("time", e.getEKF().getCurrentTime() == k + 1);
    ensureEq("contact wrenches", e.getForcesAndMoments(), x.segment(12, 6 * n));
  }
}
CONTRACT(elastic_off, "ModelBaseEKFFlexEstimatorIMU::setOn")
{
  ModelBase e;
  long m = 6, in_ = 48;
  System f(35, m, in_);
  f.moves = {0, 7, 31, 34};
  e.getEKF().setFunctor(&f);
  Mat q = diag(35, 0.5, 0.25), r = diag(m, 1, 0.125), p = diag(35, 1, 0.5), a = diag(35, 1, 0.0625), c = Mat::Zero(m, 35);
  for(long i = 0; i < m; ++i) c(i, 6 + i) = R(1 + i);
  e.setProcessNoiseCovariance(q);
  e.setMeasurementNoiseCovariance(r);
  e.setFlexibilityCovariance(p);
  e.setJacobians(a, c);
  Vec x = vec("x", 35, 1);
  for(long i = 3; i < 6; ++i) x(i) = R(0.25);
  for(long i = 12; i < 24; ++i) x(i) = R(i);
  e.setFlexibilityGuess(x);
  long k = 0, done = pick("steps", 0, 1);
  if(done)
  {
    e.setMeasurementInput(vec("u1_", in_));
    e.setMeasurement(vec("y1_", m));
    e.getFlexibilityVector();
    p = e.getFlexibilityCovariance();
    ++k;
  }
  bool pending = pick("pending", 0, 1);
  if(pending)
  {
    e.setMeasurementInput(vec("u2_", in_));
    e.setMeasurement(vec("y2_", m));
  }
  bool b = false;
  e.setOn(b);
  Vec z = Vec::Zero(35), z6 = Vec::Zero(6);
  ensureEq("off: no momentum variation", e.getMomentaDotFromForces(), z6);
  ensureEq("off: no momentum variation", e.getMomentaDotFromKinematics(), z6);
  ensureEq("off: no flexibility", e.getFlexibilityVector(), z);
  ensureEq("off: no flexibility in the filter", e.getEKF().getCurrentEstimatedState(), z);
  ensureEq("off: no flexibility", e.getFlexibility(), Mat(Mat::Identity(4, 4)));
  ensure("off: no measurement is kept", e.getEKF().getMeasurementsNumber() == 0);
  if(pending) // measurements were dropped
  {
    ensureEq("off: the covariance is the initial one", e.getFlexibilityCovariance(), q);
    p = q;
  }
  b = true;
  e.setOn(b);
  ensureEq("on again, without measurements", e.getFlexibilityVector(), z);
  ExtendedKalmanFilter g(35, m, in_, true, true);
  g.setFunctor(&f);
  g.setQ(q);
  g.setR(r);
  g.setStateCovariance(p);
  g.setA(a);
  g.setC(c);
  g.setState(z, k);
  Vec u = vec("u3_", in_), y = vec("y3_", m);
  e.setInput(u);
  e.setMeasurementInput(u);
  e.setMeasurement(y);
  g.setInput(u, k);
  g.setInput(u, k + 1);
  g.setMeasurement(y, k + 1);
  ensureEq("on again: a step from no flexibility", e.getFlexibilityVector(), g.getEstimatedState(k + 1));
}
CONTRACT(elastic_rates, "ModelBaseEKFFlexEstimatorIMU::getMomentaDotFrom*, computeAccelerations")
{
  ModelBase e;
  long n = pick("contacts", 0, 1), m = 6, in_ = 48 + 12 * n;
  e.setContactsNumber(unsigned(n));
  System f(35, m, in_);
  f.moves = {6, 7, 8};
  e.getEKF().setFunctor(&f);
  Mat q = diag(35, 0.5, 0.25), r = diag(m, 1, 0.125), p = diag(35, 1, 0.5), a = diag(35, 1, 0.0625), c = Mat::Zero(m, 35);
  c(0, 0) = R(1);
  e.setProcessNoiseCovariance(q);
  e.setMeasurementNoiseCovariance(r);
  e.setFlexibilityCovariance(p);
  e.setJacobians(a, c);
  Vec x = Vec::Zero(35);
  for(long i = 6; i < 35; ++i) x(i) = R(i) / 4;
  x.segment(30, 5) = Vec::Zero(5);
  e.setFlexibilityGuess(x);
  Vec u[2];
  for(long k = 0; k < 2; ++k)
  {
    u[k] = Vec::Zero(in_);
    for(long i = 0; i < in_; ++i) u[k](i) = R(i + 7 * k) / 16;
    u[k].segment(9, 6) << R(2 + k), R(3), R(4), R(0), R(0), R(0);
    u[k].segment(15, 3) = vec3("h" + std::to_string(k));
    u[k].segment(42, 6) = vec("w" + std::to_string(k), 6);
  }
  e.setInput(u[0]);
  Elastic model = e.getFunctor();
  long k = pick("steps", 0, 1);
  if(k == 1)
  {
    e.setMeasurementInput(u[1]);
    e.setMeasurement(vec("y", m));
    x = e.getFlexibilityVector();
  }
  switch(pick("what", 0, 2))
  {
    case 0:
      ensureEq("momentum variation by the forces", e.getMomentaDotFromForces(), model.getMomentaDotFromForces(x, u[k]));
      break;
    case 1:
      ensureEq("momentum variation by the motion", e.getMomentaDotFromKinematics(), model.getMomentaDotFromKinematics(x, u[k]));
      break;
    case 2:
      ensureEq("accelerations", e.computeAccelerations(), model.computeAccelerations(x, u[k]));
      break;
  }
}
BOUNDED(elastic_run, "ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector with the elastic model and its Jacobians")
{
  ModelBase e;
  long n = pick("contacts", 1, 2);
  e.setContactsNumber(unsigned(n));
  bool forces = pick("forces", 0, 1), absPos = pick("absolute", 0, 1), bias = pick("bias", 0, 1), unmodeled = pick("unmodeled", 0, 1);
  if(forces) e.setWithForcesMeasurements(true);
  if(absPos) e.setWithAbsolutePos(true);
  if(bias) e.setWithComBias(true);
  if(unmodeled) e.setWithUnmodeledForces(true);
  e.resetCovarianceMatrices();
  e.setContactModel(unsigned(pick("model", 1, 2)));
  e.setKfe(Matrix3(I3() * R(40000)));
  e.setKte(Matrix3(I3() * R(400)));
  e.setKfv(Matrix3(I3() * R(600)));
  e.setKtv(Matrix3(I3() * R(10)));
  e.setPe(Vector3(R(0), R(0), R(3)));
  Vec x = vec("x", 35, 0.05);
  e.setFlexibilityGuess(x);
  long m = e.getMeasurementSize(), in_ = e.getInputSize();
  Elastic model = e.getFunctor();
  ExtendedKalmanFilter g(35, m, in_, true, true);
  g.setFunctor(&model);
  g.setQ(e.getProcessNoiseCovariance());
  g.setR(e.getMeasurementNoiseCovariance());
  g.setStateCovariance(e.getFlexibilityCovariance());
  g.setState(x, 0);
  Vec u[3];
  for(long k = 0; k < 3; ++k)
  {
    u[k] = vec("u" + std::to_string(k) + "_", in_, 0.5);
    u[k].segment(9, 6) << pos("ix", 4, 2), pos("iy", 4, 2), pos("iz", 4, 2), R(0.1), R(0.1), R(0.1);
    u[k](2) = R(0.8);
  }
  e.setInput(u[0]);
  g.setInput(u[0], 0);
  for(long k = 0; k < 2; ++k)
  {
    Vec y = vec("y" + std::to_string(k), m, 3);
    e.setMeasurementInput(u[k + 1]);
    g.setInput(u[k + 1], k + 1);
    e.setMeasurement(y);
    g.setMeasurement(y, k + 1);
    g.updateStateAndMeasurementPrediction();
    Mat A = model.stateDynamicsJacobian(), C = model.measureDynamicsJacobian();
    g.setA(A);
    g.setC(C);
    x = g.getEstimatedState(k + 1);
    x.segment(3, 3) = kine::regulateOrientationVector(Vector3(x.segment(3, 3)));
    V3 limF = e.getForcesLimit(), limT = e.getTorquesLimit();
    for(long i = 0; i < 3; ++i)
      for(long j = 12 + i; j < 24; j += 6)
      {
        x(j) = std::max(std::min(x(j), limF(i)), -limF(i));
        x(j + 3) = std::max(std::min(x(j + 3), limT(i)), -limT(i));
      }
    g.setState(x, k + 1);
    ensureEq("a step of the filter with the model", e.getFlexibilityVector(), x, 1e-6);
    ensureEq("Jacobian of the state dynamics", e.getAMatrix(), A, 1e-6);
    ensureEq("Jacobian of the measurements", e.getCMatrix(), C, 1e-6);
  }
}
BOUNDED(not_a_number, "EKFFlexibilityEstimatorBase::getFlexibilityVector given measurements that are not numbers")
{
#ifndef VP_SYMBOLIC
  bool fixed = pick("fixed", 0, 1);
  Fixed f;
  ModelBase b;
  EKFFlexibilityEstimatorBase & e = fixed ? static_cast<EKFFlexibilityEstimatorBase &>(f) : b;
  long in_ = e.getInputSize(), m = e.getMeasurementSize(), n = e.getStateSize(), bad = pick("bad", 1, 4), comp = pick("component", 0, 5);
  Vec last = Vec::Zero(n), u = Vec::Zero(in_);
  if(!fixed) u(9) = u(10) = u(11) = 2;
  if(!fixed) b.setContactModel(1);
  e.setInput(u);
  for(long k = 1; k <= 5; ++k)
  {
    Vec y = vec("y" + std::to_string(k), m, 0.1);
    y(2) += 9.8;
    if(k == bad) y(comp) = std::numeric_limits<double>::quiet_NaN();
    e.setMeasurementInput(u);
    e.setMeasurement(y);
    Vec x = e.getFlexibilityVector();
    if(k == bad) ensureEq("the last estimation remains", x, last, 1e-12);
    ensure("a number", x == x);
    Mat p = e.getFlexibilityCovariance();
    if(k == bad && k > 1) ensure("the covariance is a usable one", p == p);
    if(k != bad) ensure("the measurements after are used", (x - last).norm() > 0);
    last = x;
  }
#endif
}
