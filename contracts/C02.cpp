// C02: linear Kalman filter: predictions with inputs
// ASSUMES: state, measurement and input sizes 1..3
#include "ref.hpp"
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace vp;
using namespace stateObservation;
static const long S[5][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {3, 2, 2}, {2, 3, 1}};
CONTRACT(prediction, "LinearKalmanFilter::prediction_, simulateSensor_")
{
  long s = pick("size", 0, 4), n = S[s][0], m = S[s][1], p = S[s][2];
  LinearKalmanFilter f(n, m, p);
  Mat A = mat("A", n, n), B = mat("B", n, p), C = mat("C", m, n), D = mat("D", m, p);
  long withB = pick("B", 0, 1), withD = pick("D", 0, 2); // D: not given, zero, given
  f.setA(A);
  f.setC(C);
  f.setB(withB ? B : Mat(f.getBmatrixZero()));
  if(withD == 1) f.setD(f.getDmatrixZero());
  if(withD == 2) f.setD(D);
  Vec x = vec("x", n), u0 = vec("u", p), u1 = vec("v", p);
  long k = pick("k", 0, 1) * 5 - 2;
  f.setState(x, k);
  // an input that the model does not use need not be given
  if(withB || withD == 2) f.setInput(u0, k);
  if(withD == 2) f.setInput(u1, k + 1);
  Vec xb = A * x, yb;
  if(withB) xb += B * u0;
  yb = C * xb;
  if(withD == 2) yb += D * u1;
  ensureEq("state prediction: A x + B u", f.updateStatePrediction(), xb);
  ensureEq("measurement prediction: C xbar + D u", f.updateStateAndMeasurementPrediction(), yb);
  ensureEq("last prediction", f.getLastPrediction(), xb);
  ensureEq("last predicted measurement", f.getLastPredictedMeasurement(), yb);
  Vec sim = C * x;
  if(withD == 2) sim += D * u0;
  ensureEq("simulated measurement: C x + D u", f.getSimulatedMeasurement(k), sim);
  ensureEq("the last prediction is not affected", f.getLastPredictedMeasurement(), yb);
  ensureEq("the state is not affected", f.getCurrentEstimatedState(), x);
  ensure("the time is not affected", f.getCurrentTime() == k);
}
CONTRACT(step, "LinearKalmanFilter, one step")
{
  // scalar filter, everything free; two consecutive steps use their own inputs and measurements
  auto s = [](const R & v) { return Mat(Mat::Constant(1, 1, v)); };
  auto v1 = [](const R & v) { return Vec(Vec::Constant(1, v)); };
  LinearKalmanFilter f(1, 1, 1);
  R a = in("a"), b = in("b"), c = in("c"), d = in("d"), q = pos("q"), r = pos("r"), p = pos("p"), x0 = in("x0");
  R u[3] = {in("u0"), in("u1"), in("u2")}, y[3] = {R(0), in("y1"), in("y2")};
  f.setA(s(a));
  f.setB(s(b));
  f.setC(s(c));
  bool wd = pick("D", 0, 1);
  if(wd) f.setD(s(d));
  f.setQ(s(q));
  f.setR(s(r));
  f.setStateCovariance(s(p));
  f.setState(v1(x0), 0);
  bool push = pick("push", 0, 1);
  for(int i = 0; i < 3; ++i)
  {
    if(push)
      f.pushInput(v1(u[i]));
    else
      f.setInput(v1(u[i]), i);
  }
  for(int i = 1; i < 3; ++i)
  {
    if(push)
      f.pushMeasurement(v1(y[i]));
    else
      f.setMeasurement(v1(y[i]), i);
  }
  R x = x0, P = p;
  long steps = pick("steps", 1, 2);
  for(int i = 1; i <= steps; ++i)
  {
    R xb = a * x + b * u[i - 1], pb = q + a * a * P, yb = c * xb + (wd ? R(d * u[i]) : R(0));
    R k = pb * c / (r + c * c * pb);
    x = xb + k * (y[i] - yb);
    P = (1 - k * c) * pb;
  }
  ensureEq("estimate", f.getEstimatedState(steps)(0), x);
  ensureEq("covariance", f.getStateCovariance()(0, 0), P);
  ensure("time", f.getCurrentTime() == steps);
}
CONTRACT(no_input, "LinearKalmanFilter without inputs")
{
  long n = pick("n", 1, 2), m = pick("m", 1, 2);
  LinearKalmanFilter f(n, m);
  Mat A = mat("A", n, n), C = mat("C", m, n);
  f.setA(A);
  f.setC(C);
  if(pick("B", 0, 1)) f.setB(f.getBmatrixZero());
  Vec x = vec("x", n);
  f.setState(x, 0);
  f.setInput(Vec(0), 0); // has no effect
  f.pushInput(Vec(0));
  ensureEq("state prediction: A x", f.updateStatePrediction(), A * x);
  ensureEq("measurement prediction: C A x", f.updateStateAndMeasurementPrediction(), C * (A * x));
}
CONTRACT(sizes, "LinearKalmanFilter::setStateSize, setMeasureSize, setInputSize, check*matrix")
{
  LinearKalmanFilter f(2, 3, 2);
  Mat B = mat("B", 2, 2), D = mat("D", 3, 2);
  ensure("matrices of the right sizes only", f.checkBmatrix(B) && !f.checkBmatrix(D) && f.checkDmatrix(D)
                                                 && !f.checkDmatrix(B) && f.checkBmatrix(f.getBmatrixZero())
                                                 && f.checkDmatrix(f.getDmatrixZero()));
  Mat A = mat("A", 2, 2), C = mat("C", 3, 2);
  f.setA(A);
  f.setB(B);
  f.setC(C);
  f.setD(D);
  Vec x = vec("x", 2), u = vec("u", 2), v = vec("v", 2);
  long op = pick("op", 0, 3);
  if(op == 0)
  {
    f.setStateSize(2);
    f.setMeasureSize(3);
    f.setInputSize(2);
    f.setState(x, 0);
    f.setInput(u, 0);
    f.setInput(v, 1);
    ensureEq("the same sizes change nothing", f.updateStatePrediction(), A * x + B * u);
    ensureEq("the same sizes change nothing", f.updateStateAndMeasurementPrediction(), C * (A * x + B * u) + D * v);
  }
  else if(op == 1)
  {
    // the matrix D is forgotten when the measurement size changes: it is then not required
    f.setMeasureSize(1);
    Mat C1 = mat("c", 1, 2);
    f.setC(C1);
    f.setState(x, 0);
    f.setInput(u, 0);
    ensureEq("measurement prediction without D", f.updateStateAndMeasurementPrediction(), C1 * (A * x + B * u));
  }
  else if(op == 2)
  {
    // inputs are dropped altogether
    f.setInputSize(0);
    f.setB(f.getBmatrixZero());
    f.setState(x, 0);
    ensureEq("no input any more", f.updateStateAndMeasurementPrediction(), C * (A * x));
  }
  else
  {
    f.setD(D);
    f.clearD();
    f.setState(x, 0);
    f.setInput(u, 0);
    ensureEq("a cleared D is not used", f.updateStateAndMeasurementPrediction(), C * (A * x + B * u));
    f.clearB();
    f.setB(mat("b", 2, 2));
    ensureEq("a new B is used", f.updateStatePrediction(), A * x + mat("b", 2, 2) * u);
  }
}
CONTRACT(change_sizes, "LinearKalmanFilter::setStateSize, setMeasureSize, setInputSize")
{
  // one size changes; what depends on it is forgotten and nothing else
  long n = pick("n", 1, 2), m = pick("m", 1, 2), p = pick("p", 1, 2), what = pick("what", 0, 2), to = pick("to", 1, 3);
  LinearKalmanFilter f(n, m, p);
  Mat A = mat("A", n, n), B = mat("B", n, p), C = mat("C", m, n), D = mat("D", m, p);
  f.setA(A);
  f.setB(B);
  f.setC(C);
  f.setD(D);
  bool dn = what == 0 && to != n, dm = what == 1 && to != m, dp = what == 2 && to != p;
  if(what == 0) f.setStateSize(n = to);
  if(what == 1) f.setMeasureSize(m = to);
  if(what == 2) f.setInputSize(p = to);
  if((dn || dm || dp) && pick("back", 0, 1))
  {
    // back to the first size: what was forgotten does not come back
    if(dn) f.setStateSize(n = A.rows());
    if(dm) f.setMeasureSize(m = C.rows());
    if(dp) f.setInputSize(p = B.cols());
  }
  ensure("sizes", f.getStateSize() == n && f.getMeasureSize() == m && f.getInputSize() == p);
  ensure("zero vectors", f.stateVectorZero().size() == n && f.measureVectorZero().size() == m
                             && f.inputVectorZero().size() == p);
  for(long i = 1; i <= 3; ++i)
    for(long j = 1; j <= 3; ++j)
    {
      Mat z = Mat::Zero(i, j);
      ensure("checks", f.checkAmatrix(z) == (i == n && j == n) && f.checkBmatrix(z) == (i == n && j == p)
                           && f.checkCmatrix(z) == (i == m && j == n) && f.checkDmatrix(z) == (i == m && j == p));
    }
  Vec x = vec("x", n), u = vec("u", p), v = vec("v", p);
  f.setState(x, 0);
  f.setInput(u, 0);
  f.setInput(v, 1);
  if(dn) refuses("A is required again", [&] { f.updateStatePrediction(); });
  if(dn) f.setA(A = mat("A'", n, n));
  if(dn || dm) refuses("C is required again", [&] { f.updateStatePrediction(); });
  if(dn || dm) f.setC(C = mat("C'", m, n));
  if(dn || dp) refuses("B is required again", [&] { f.updateStatePrediction(); });
  if(dn || dp) f.setB(B = mat("B'", n, p));
  Vec xb = A * x + B * u, yb = C * xb;
  if(!dm && !dp) yb += D * v;
  ensureEq("measurement prediction", f.updateStateAndMeasurementPrediction(), yb);
  ensureEq("state prediction", f.getLastPrediction(), xb);
}
CONTRACT(helpers, "LinearKalmanFilter::get{B,D}matrix{Constant,Random,Zero}")
{
  LinearKalmanFilter f(2, 3, 1);
  R c = in("c");
  ensureEq("zero B", f.getBmatrixZero(), Mat(Mat::Zero(2, 1)));
  ensureEq("zero D", f.getDmatrixZero(), Mat(Mat::Zero(3, 1)));
  ensureEq("constant B", f.getBmatrixConstant(c), Mat(Mat::Constant(2, 1, c)));
  ensureEq("constant D", f.getDmatrixConstant(c), Mat(Mat::Constant(3, 1, c)));
  ensure("random ones fit", f.checkBmatrix(f.getBmatrixRandom()) && f.checkDmatrix(f.getDmatrixRandom()));
}
