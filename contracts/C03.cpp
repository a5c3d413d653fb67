// C03: extended Kalman filter: functor calls, finite-difference Jacobians, freshness of predictions
// ASSUMES: the functor and the state arithmetics are arbitrary (uninterpreted) functions; sizes 1..2
#include "ref.hpp"
#include <state-observation/observer/extended-kalman-filter.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
std::vector<R> args(const Vec & a, const Vec & b)
{
  std::vector<R> v;
  for(long i = 0; i < a.size(); ++i) v.push_back(a(i));
  for(long i = 0; i < b.size(); ++i) v.push_back(b(i));
  return v;
}
Vec fn(const std::string & f, long n, const Vec & a, const Vec & b)
{
  Vec r(n);
  for(long i = 0; i < n; ++i) r(i) = uf(f, i, args(a, b));
  return r;
}
Vec fnk(const std::string & f, long n, const Vec & x, const Vec & u, long k)
{
  std::vector<R> a = args(x, u);
  a.push_back(R(double(k)));
  Vec r(n);
  for(long i = 0; i < n; ++i) r(i) = uf(f, i, a);
  return r;
}
struct Model : public DynamicalSystemFunctorBase
{
  long n, m, p;
  std::string tag;
  int resets = 0;
  Model(long n, long m, long p, std::string t = "") : n(n), m(m), p(p), tag(t) {}
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    return fnk("f" + tag, n, x, u, k);
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    return fnk("h" + tag, m, x, u, k);
  }
  void reset()
  {
    ++resets;
  }
  Index getStateSize() const
  {
    return n;
  }
  Index getInputSize() const
  {
    return p;
  }
  Index getMeasurementSize() const
  {
    return m;
  }
};
// The input each prediction must be given: with p inputs, the state prediction to k + 1 gets u_k when it feeds through and
// the zero input otherwise; the measurement at k gets u_k when that input is known and zero otherwise.
Vec fx(const Model & M, const Vec & x, const Vec & u, long k)
{
  return fnk("f" + M.tag, M.n, x, u, k);
}
Vec hx(const Model & M, const Vec & x, const Vec & u, long k)
{
  return fnk("h" + M.tag, M.m, x, u, k);
}
} // namespace
CONTRACT(prediction, "ExtendedKalmanFilter::prediction_, predictSensor_, simulateSensor_")
{
  long n = pick("n", 1, 2), m = pick("m", 1, 2), p = pick("p", 0, 2);
  bool thru = pick("inputToState", 0, 1), out = pick("inputToOutput", 0, 1), given = pick("inputGiven", 0, 1);
  Model M(n, m, p);
  ExtendedKalmanFilter f(n, m, p, out, thru);
  f.setFunctor(&M);
  ensure("functor", f.getFunctor() == &M && f.functor() == &M);
  long k = pick("k", 0, 1) * 4 - 1;
  Vec x = vec("x", n), u0 = vec("u", p), u1 = vec("v", p), z = Vec::Zero(p);
  f.setState(x, k);
  if(p > 0 && (thru || given)) f.setInput(u0, k);
  bool has1 = p > 0 && (out || given);
  if(has1) f.setInput(u1, k + 1);
  Vec xb = fx(M, x, p > 0 && thru ? u0 : z, k);
  Vec yb = hx(M, xb, has1 ? u1 : z, k + 1);
  ensureEq("state prediction: f(x, u_k, k)", f.updateStatePrediction(), xb);
  ensureEq("measurement prediction: h(xbar, u_k+1, k+1)", f.updateStateAndMeasurementPrediction(), yb);
  ensureEq("last prediction", f.getLastPrediction(), xb);
  ensureEq("last predicted measurement", f.getLastPredictedMeasurement(), yb);
  ensureEq("asked again, the same", f.updateStateAndMeasurementPrediction(), yb);
  if(p > 0 && out && !(thru || given)) return; // the measurement at k needs the input at k
  Vec y = f.getSimulatedMeasurement(k);
  ensureEq("simulated measurement: h(x, u_k, k)", y, hx(M, x, p > 0 && (thru || given) ? u0 : z, k));
  ensureEq("the last prediction is not affected", f.getLastPredictedMeasurement(), yb);
}
CONTRACT(two_argument_constructor, "ExtendedKalmanFilter constructors, setDirectInput*Feedthrough")
{
  long n = pick("n", 1, 2), m = 1;
  Model M(n, m, 1), M0(n, m, 0);
  Vec x = vec("x", n), u0 = vec("u", 1), u1 = vec("v", 1), z = Vec::Zero(1), e(0);
  if(pick("which", 0, 1))
  {
    ExtendedKalmanFilter f(n, m);
    f.setFunctor(&M0);
    f.setState(x, 0);
    f.setDirectInputStateFeedthrough(true); // no effect without inputs
    f.setDirectInputOutputFeedthrough(true);
    ensureEq("no inputs", f.updateStateAndMeasurementPrediction(), hx(M0, fx(M0, x, e, 0), e, 1));
    return;
  }
  ExtendedKalmanFilter f(n, m, 1);
  f.setFunctor(&M);
  f.setState(x, 0);
  f.setInput(u0, 0);
  f.setInput(u1, 1);
  bool before = pick("before", 0, 1);
  if(before)
    ensureEq("both feed through by default", f.updateStateAndMeasurementPrediction(), hx(M, fx(M, x, u0, 0), u1, 1));
  f.setDirectInputStateFeedthrough(false);
  ensureEq("switched off", f.updateStateAndMeasurementPrediction(), hx(M, fx(M, x, z, 0), u1, 1));
  f.setDirectInputOutputFeedthrough(false);
  f.clearInputs();
  ensureEq("no input needed", f.updateStateAndMeasurementPrediction(), hx(M, fx(M, x, z, 0), z, 1));
}
CONTRACT(freshness, "ExtendedKalmanFilter predictions after any change")
{
  // a prediction is that of the current state, inputs and functor, whatever was predicted before
  long n = 1, m = 1, p = 1;
  Model M(n, m, p), N(n, m, p, "2");
  ExtendedKalmanFilter f(n, m, p, true, true);
  f.setFunctor(&M);
  Vec x = vec("x", n), u0 = vec("u", p), u1 = vec("v", p), x2 = vec("X", n), w0 = vec("U", p), w1 = vec("V", p);
  f.setState(x, 2);
  f.setInput(u0, 2);
  f.setInput(u1, 3);
  long pre = pick("pre", 0, 3);
  if(pre == 1) f.updateStatePrediction();
  if(pre == 2) f.updateStateAndMeasurementPrediction();
  if(pre == 3) f.getAMatrixFD(Vec::Constant(1, pos("dx")));
  Model * mod = &M;
  switch(pick("change", 0, 8))
  {
    case 7:
    {
      // an input that was missing at the prediction of the measurement arrives
      ExtendedKalmanFilter g(n, m, p, false, true);
      g.setFunctor(&M);
      g.setState(x, 2);
      g.setInput(u0, 2);
      Vec xb = fx(M, x, u0, 2);
      ensureEq("no input for the measurement", g.updateStateAndMeasurementPrediction(), hx(M, xb, Vec::Zero(p), 3));
      if(pick("pushed", 0, 1)) g.pushInput(u1);
      else
        g.setInput(u1, 3);
      ensureEq("the input has arrived", g.updateStateAndMeasurementPrediction(), hx(M, xb, u1, 3));
      g.clearInputs();
      g.setDirectInputStateFeedthrough(false);
      ensureEq("no input any more", g.updateStateAndMeasurementPrediction(),
               hx(M, fx(M, x, Vec::Zero(p), 2), Vec::Zero(p), 3));
      return;
    }
    case 8:
      if(pick("clear", 0, 1))
      {
        ExtendedKalmanFilter g(n, m, p, false, false);
        g.setFunctor(&M);
        g.setState(x, 2);
        g.setInput(u0, 2);
        g.setInput(u1, 3);
        Vec z = Vec::Zero(p), xb = fx(M, x, z, 2);
        ensureEq("with the input of the measurement", g.updateStateAndMeasurementPrediction(), hx(M, xb, u1, 3));
        g.clearInputs();
        ensureEq("forgotten", g.updateStateAndMeasurementPrediction(), hx(M, xb, z, 3));
        g.clearFunctor();
        ensure("no functor", g.getFunctor() == 0x0);
        refuses("a prediction without functor", [&]() { g.updateStatePrediction(); });
        return;
      }
      f.clearStates();
      refuses("a prediction without state", [&]() { f.updateStatePrediction(); });
      f.setState(x2, 2);
      x = x2;
      break;
    case 0:
      f.setState(x2, 2);
      x = x2;
      break;
    case 1:
      f.setCurrentState(x2);
      x = x2;
      break;
    case 2:
      f.setInput(w0, 2);
      u0 = w0;
      break;
    case 3:
      f.setInput(w1, 3);
      u1 = w1;
      break;
    case 4:
      f.setFunctor(&N);
      mod = &N;
      break;
    case 5:
      f.reset();
      f.setState(x2, 2);
      f.pushInput(w0);
      f.pushInput(w1);
      x = x2;
      u0 = w0;
      u1 = w1;
      ensure("the functor is reset with the filter", M.resets == 1);
      break;
    default:
      f.clearInputsAndMeasurements();
      f.setInput(w0, 2);
      f.setInput(w1, 3);
      u0 = w0;
      u1 = w1;
  }
  Vec xb = fx(*mod, x, u0, 2);
  ensureEq("measurement prediction", f.updateStateAndMeasurementPrediction(), hx(*mod, xb, u1, 3));
  ensureEq("state prediction", f.getLastPrediction(), xb);
}
CONTRACT(jacobian_state, "ExtendedKalmanFilter::getAMatrixFD")
{
  long n = pick("n", 1, 2), p = pick("p", 0, 1), k = pick("k", 0, 1);
  bool thru = pick("inputToState", 0, 1);
  Model M(n, 1, p);
  ExtendedKalmanFilter f(n, 1, p, false, thru);
  f.setFunctor(&M);
  Vec x = vec("x", n), u0 = vec("u", p), z = Vec::Zero(p);
  f.setState(x, k);
  if(p > 0 && (thru || pick("given", 0, 1))) f.setInput(u0, k);
  Vec dx(n);
  for(long i = 0; i < n; ++i) dx(i) = pos("dx" + std::to_string(i));
  Vec u = p > 0 && thru ? u0 : z, xb = fx(M, x, u, k);
  if(pick("predictedBefore", 0, 1))
  {
    // both predictions are there already, the last input used is another one
    if(p > 0)
    {
      if(!f.getInputsNumber()) f.setInput(u0, k);
      f.setInput(vec("w", p), k + 1);
    }
    f.updateStateAndMeasurementPrediction();
  }
  Mat A = f.getAMatrixFD(dx);
  for(long i = 0; i < n; ++i)
  {
    Vec e = x;
    e(i) += dx(i);
    ensureEq("column: forward difference along that component", A.col(i), (fx(M, e, u, k) - xb) / dx(i));
  }
  ensureEq("the prediction is the one at the state", f.getLastPrediction(), xb);
  ensureEq("the state is kept", f.getCurrentEstimatedState(), x);
}
CONTRACT(jacobian_measure, "ExtendedKalmanFilter::getCMatrixFD")
{
  long n = pick("n", 1, 2), m = pick("m", 1, 2), p = pick("p", 0, 1), k = pick("k", 0, 1);
  bool thru = pick("inputToState", 0, 1), out = pick("inputToOutput", 0, 1), pre = pick("predictedBefore", 0, 1);
  Model M(n, m, p);
  ExtendedKalmanFilter f(n, m, p, out, thru);
  f.setFunctor(&M);
  Vec x = vec("x", n), u0 = vec("u", p), u1 = vec("v", p), z = Vec::Zero(p);
  f.setState(x, k);
  bool given = p > 0 && (out || pick("given", 0, 1));
  if(p > 0 && (thru || given)) f.setInput(u0, k);
  if(given) f.setInput(u1, k + 1);
  if(pre) f.updateStateAndMeasurementPrediction();
  Vec dx(n);
  for(long i = 0; i < n; ++i) dx(i) = pos("dx" + std::to_string(i));
  Mat C = f.getCMatrixFD(dx);
  Vec xb = fx(M, x, p > 0 && thru ? u0 : z, k), u = given ? u1 : z, yb = hx(M, xb, u, k + 1);
  for(long i = 0; i < n; ++i)
  {
    Vec e = xb;
    e(i) += dx(i);
    ensureEq("column: forward difference at the prediction", C.col(i), (hx(M, e, u, k + 1) - yb) / dx(i));
  }
  ensureEq("the prediction is kept", f.getLastPredictedMeasurement(), yb);
  ensureEq("the state is kept", f.getCurrentEstimatedState(), x);
}
namespace
{
struct Arith : public StateVectorArithmetics
{
  long n, nt, mt;
  Vec sum(const Vec & a, const Vec & b)
  {
    return fn("sum", n, a, b);
  }
  Vec diff(const Vec & a, const Vec & b)
  {
    return fn("diff", nt, a, b);
  }
  Vec mdiff(const Vec & a, const Vec & b)
  {
    return fn("mdiff", mt, a, b);
  }
  void stateSum(const Vector & a, const Vector & b, Vector & s)
  {
    s = sum(a, b);
  }
  void stateDifference(const Vector & a, const Vector & b, Vector & s)
  {
    s = diff(a, b);
  }
  void measurementDifference(const Vector & a, const Vector & b, Vector & s)
  {
    s = mdiff(a, b);
  }
};
} // namespace
CONTRACT(jacobian_manifold, "ExtendedKalmanFilter::getAMatrixFD, getCMatrixFD (user-defined arithmetics)")
{
  long nt = pick("nt", 1, 2), mt = pick("mt", 1, 2), n = nt + 1, m = mt + 1, p = pick("p", 0, 1);
  bool thru = pick("inputToState", 0, 1), out = pick("inputToOutput", 0, 1);
  Model M(n, m, p);
  Arith ar;
  ar.n = n;
  ar.nt = nt;
  ar.mt = mt;
  ExtendedKalmanFilter f(n, nt, m, mt, p, out, thru);
  f.setFunctor(&M);
  f.setStateArithmetics(&ar);
  Vec x = vec("x", n), u0 = vec("u", p), u1 = vec("v", p);
  f.setState(x, 0);
  if(p)
  {
    f.setInput(u0, 0);
    if(out) f.setInput(u1, 1);
    else
      u1.setZero();
    if(!thru) u0.setZero();
  }
  Vec dx(nt);
  for(long i = 0; i < nt; ++i) dx(i) = pos("dx" + std::to_string(i));
  Mat A = f.getAMatrixFD(dx), C = f.getCMatrixFD(dx);
  Vec xb = fx(M, x, u0, 0), yb = hx(M, xb, u1, 1);
  for(long i = 0; i < nt; ++i)
  {
    Vec d = Vec::Zero(nt);
    d(i) = dx(i);
    ensureEq("A", A.col(i), ar.diff(fx(M, ar.sum(x, d), u0, 0), xb) / dx(i));
    ensureEq("C", C.col(i), ar.mdiff(hx(M, ar.sum(xb, d), u1, 1), yb) / dx(i));
  }
  ensure("sizes fit the filter", f.checkAmatrix(A) && f.checkCmatrix(C));
}
CONTRACT(full_step, "ExtendedKalmanFilter, one step with finite-difference Jacobians")
{
  Model M(1, 1, 1);
  ExtendedKalmanFilter f(1, 1, 1, pick("inputToOutput", 0, 1), true);
  bool out = pick("inputToOutput", 0, 1);
  f.setFunctor(&M);
  auto s = [](const R & v) { return Mat(Mat::Constant(1, 1, v)); };
  auto v1 = [](const R & v) { return Vec(Vec::Constant(1, v)); };
  R x = in("x"), u0 = in("u0"), u1 = in("u1"), y = in("y"), d = pos("d"), q = pos("q"), r = pos("r"), p = pos("p");
  f.setState(v1(x), 0);
  f.setInput(v1(u0), 0);
  f.setInput(v1(u1), 1);
  f.setMeasurement(v1(y), 1);
  f.setQ(s(q));
  f.setR(s(r));
  f.setStateCovariance(s(p));
  f.setA(f.getAMatrixFD(v1(d)));
  f.setC(f.getCMatrixFD(v1(d)));
  R xe = f.getEstimatedState(1)(0);
  (void)out;
  R xb = fx(M, v1(x), v1(u0), 0)(0), yb = hx(M, v1(xb), v1(u1), 1)(0);
  R a = (fx(M, v1(x + d), v1(u0), 0)(0) - xb) / d, c = (hx(M, v1(xb + d), v1(u1), 1)(0) - yb) / d;
  R pb = q + a * a * p, k = pb * c / (r + c * c * pb);
  ensureEq("estimate", xe, R(xb + k * (y - yb)));
  ensureEq("covariance", f.getStateCovariance()(0, 0), R((1 - k * c) * pb));
  f.pushMeasurement(v1(in("y2")));
  f.setInput(v1(in("u2")), 2);
  R x2 = f.getEstimatedState(2)(0);
  R xb2 = fx(M, v1(xe), v1(u1), 1)(0), yb2 = hx(M, v1(xb2), v1(in("u2")), 2)(0);
  ensureEq("second step predicts from the new estimate", f.getLastPrediction()(0), xb2);
  ensureEq("and its measurement", f.getLastPredictedMeasurement()(0), yb2);
  ensureEq("and corrects it", x2, R(xb2 + f.getLastGain()(0, 0) * (in("y2") - yb2)));
}
