// C01: the Kalman correction
// ASSUMES: the innovation covariance is positive definite; state sizes 1..3, measurement sizes 1..3 (at most 5 together)
#include "ref.hpp"
#include <state-observation/observer/kalman-filter-base.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
// the filter with arbitrary dynamics: the prediction and the predicted measurement are arbitrary vectors
struct Filter : public KalmanFilterBase
{
  Vec xb, yb;
  Filter(long n, long nt, long m, long mt) : KalmanFilterBase(n, nt, m, mt, 0) {}
  Filter(long n, long m) : KalmanFilterBase(n, m) {}
  Filter() {}
  Vector prediction_(TimeIndex k)
  {
    return xbar_.set(xb, k)();
  }
  Vector simulateSensor_(const Vector & x, TimeIndex)
  {
    if(yb.size()) return yb;
    Vec y(m_);
    std::vector<R> a;
    for(long i = 0; i < x.size(); ++i) a.push_back(x(i));
    for(long i = 0; i < m_; ++i) y(i) = uf("h", i, a);
    return y;
  }
};
// every (A, P, Q, C, R) with a positive definite innovation covariance comes from (A, P, C, Pb, S = L L^T) with
// Q = Pb - A P A^T and R = S - C Pb C^T
struct Data
{
  Mat A, P, Q, C, R_, Pb, S;
  Data(long n, long m)
  {
    A = mat("A", n, n);
    P = sym("P", n);
    C = mat("C", m, n);
    S = spd("L", m);
    Pb = sym("B", n);
    Q = Pb - A * P * A.transpose();
    R_ = S - C * Pb * C.transpose();
  }
  void give(Filter & f)
  {
    f.setA(A);
    f.setC(C);
    f.setQ(Q);
    f.setR(R_);
    f.setStateCovariance(P);
  }
};
void sizes(long & n, long & m)
{
  static const long nm[7][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {3, 2}, {1, 3}};
  long k = pick("size", 0, 6);
  n = nm[k][0];
  m = nm[k][1];
}
} // namespace
CONTRACT(correction, "KalmanFilterBase::oneStepEstimation_")
{
  long n, m;
  sizes(n, m);
  Data d(n, m);
  Filter f(n, n, m, m);
  d.give(f);
  f.xb = vec("xb", n);
  f.yb = vec("yb", m);
  Vec x0 = vec("x", n), y = vec("y", m);
  long k = pick("k", 0, 1) * 7 - 3;
  f.setState(x0, k);
  f.setMeasurement(y, k + 1);
  Vec x = f.getEstimatedState(k + 1);
  Mat K = f.getLastGain();
  ensureEq("gain: K S = Pbar C^T", K * d.S, d.Pb * d.C.transpose());
  Vec inno = K * (y - f.yb);
  ensureEq("innovation: K (y - predicted measurement)", f.getInnovation(), inno);
  ensureEq("estimate: prediction + innovation", x, f.xb + inno);
  ensureEq("current estimate", f.getCurrentEstimatedState(), x);
  ensure("time advanced by one", f.getCurrentTime() == k + 1);
  ensureEq("last prediction", f.getLastPrediction(), f.xb);
  ensureEq("last predicted measurement", f.getLastPredictedMeasurement(), f.yb);
  Mat Pn = f.getStateCovariance();
  ensureEq("covariance: (I - K C) Pbar", Pn, d.Pb - K * d.C * d.Pb);
  ensureEq("covariance is symmetric", Pn, Pn.transpose());
  ensureEq("A kept", f.getA(), d.A);
  ensureEq("C kept", f.getC(), d.C);
  ensureEq("Q kept", f.getQ(), d.Q);
  ensureEq("R kept", f.getR(), d.R_);
}
CONTRACT(joseph, "KalmanFilterBase::oneStepEstimation_ (covariance stays positive)")
{
  // (I-KC) Pbar = (I-KC) Pbar (I-KC)^T + K R K^T, which is positive semi-definite when Pbar and R are
  long n, m;
  sizes(n, m);
  Data d(n, m);
  Filter f(n, n, m, m);
  d.give(f);
  f.xb = vec("xb", n);
  f.yb = vec("yb", m);
  f.setState(vec("x", n), 0);
  f.setMeasurement(vec("y", m), 1);
  f.getEstimatedState(1);
  Mat K = f.getLastGain(), J = Mat::Identity(n, n) - K * d.C;
  ensureEq("Joseph form", f.getStateCovariance(), J * d.Pb * J.transpose() + K * d.R_ * K.transpose());
}
CONTRACT(two_steps, "KalmanFilterBase::getEstimatedState (two corrections)")
{
  // the covariance of the first correction is the prior of the second; scalar filter, all matrices free
  R a = in("a"), c = in("c"), q = pos("q"), r = pos("r"), p = pos("p"), x1 = in("x1"), y1 = in("y1"), yb = in("yb");
  Filter f(1, 1, 1, 1);
  auto s = [](const R & v) { return Mat(Mat::Constant(1, 1, v)); };
  f.setA(s(a));
  f.setC(s(c));
  f.setQ(s(q));
  f.setR(s(r));
  f.setStateCovariance(s(p));
  f.xb = Vec::Constant(1, x1);
  f.yb = Vec::Constant(1, yb);
  f.setState(Vec::Constant(1, in("x0")), 0);
  f.setMeasurement(Vec::Constant(1, in("y0")), 1);
  f.setMeasurement(Vec::Constant(1, y1), 2);
  Vec x = f.getEstimatedState(2);
  R pb = q + a * a * p, p1 = pb * r / (r + c * c * pb), pb2 = q + a * a * p1, k2 = pb2 * c / (r + c * c * pb2);
  ensureEq("covariance after two steps", f.getStateCovariance()(0, 0), R(pb2 * r / (r + c * c * pb2)));
  ensureEq("estimate after two steps", x(0), R(x1 + k2 * (y1 - yb)));
}
namespace
{
// arbitrary state space: sums and differences are arbitrary functions
struct Arith : public StateVectorArithmetics
{
  long nt, mt, n;
  static std::vector<R> args(const Vector & a, const Vector & b)
  {
    std::vector<R> v;
    for(long i = 0; i < a.size(); ++i) v.push_back(a(i));
    for(long i = 0; i < b.size(); ++i) v.push_back(b(i));
    return v;
  }
  Vec sum(const Vector & a, const Vector & b)
  {
    Vec r(n);
    for(long i = 0; i < n; ++i) r(i) = uf("sum", i, args(a, b));
    return r;
  }
  Vec mdiff(const Vector & a, const Vector & b)
  {
    Vec r(mt);
    for(long i = 0; i < mt; ++i) r(i) = uf("mdiff", i, args(a, b));
    return r;
  }
  void stateSum(const Vector & a, const Vector & b, Vector & s)
  {
    s = sum(a, b);
  }
  void measurementDifference(const Vector & a, const Vector & b, Vector & s)
  {
    s = mdiff(a, b);
  }
};
} // namespace
CONTRACT(manifold, "KalmanFilterBase::oneStepEstimation_ (user-defined state arithmetics)")
{
  // the state has n components and a tangent space of dimension nt, the measurement m and mt
  long nt = pick("nt", 1, 2), mt = pick("mt", 1, 2), n = nt + 1, m = mt + 1;
  Data d(nt, mt);
  Filter f(n, nt, m, mt);
  Arith ar;
  ar.n = n;
  ar.nt = nt;
  ar.mt = mt;
  f.setStateArithmetics(&ar);
  d.give(f);
  f.xb = vec("xb", n);
  f.yb = vec("yb", m);
  Vec y = vec("y", m);
  f.setState(vec("x", n), 0);
  f.setMeasurement(y, 1);
  Vec x = f.getEstimatedState(1);
  Mat K = f.getLastGain();
  ensureEq("gain", K * d.S, d.Pb * d.C.transpose());
  Vec inno = K * ar.mdiff(y, f.yb);
  ensureEq("innovation: gain times the difference of measurements", f.getInnovation(), inno);
  ensureEq("estimate: sum of the prediction and the innovation", x, ar.sum(f.xb, f.getInnovation()));
  ensureEq("covariance", f.getStateCovariance(), d.Pb - K * d.C * d.Pb);
}
CONTRACT(copies, "KalmanFilterBase copies")
{
  // a copy is an independent filter, whatever happens to the original
  Data d(1, 1);
  Filter * f = new Filter(1, 1, 1, 1);
  d.give(*f);
  f->xb = vec("xb", 1);
  f->yb = vec("yb", 1);
  f->setState(vec("x", 1), 0);
  Filter g(*f), h(1, 1, 1, 1);
  h = *f;
  long which = pick("which", 0, 1);
  f->setStateCovariance(Mat::Constant(1, 1, in("p2")));
  delete f;
  Filter & c = which ? h : g;
  Vec y = vec("y", 1);
  c.setMeasurement(y, 1);
  Vec x = c.getEstimatedState(1);
  Mat K = c.getLastGain();
  ensureEq("gain", K * d.S, d.Pb * d.C.transpose());
  ensureEq("estimate", x, c.xb + K * (y - c.yb));
}
CONTRACT(simulated, "KalmanFilterBase::getSimulatedMeasurement")
{
  Data d(1, 1);
  Filter f(1, 1, 2, 2);
  Vec x = vec("x", 1);
  f.setState(x, 3);
  Vec y = f.getSimulatedMeasurement(3);
  ensure("size", y.size() == 2);
  for(long i = 0; i < 2; ++i) ensureEq("the measurement of the current estimate", y(i), uf("h", i, {x(0)}));
}
static void checkSizes(const std::string & l, const Filter & f, long n, long nt, long m, long mt)
{
  ensure(l + ": state size", f.getStateSize() == n && f.stateVectorZero().size() == n);
  ensure(l + ": measurement size", f.getMeasureSize() == m && f.measureVectorZero().size() == m);
  Mat A = f.getAmatrixIdentity(), C = f.getCmatrixZero(), R1 = f.getRmatrixIdentity(), Q = f.getQmatrixIdentity();
  ensure(l + ": A and Q are in the tangent space", A.rows() == nt && A.cols() == nt && Q.rows() == nt && Q.cols() == nt);
  ensure(l + ": C maps tangent spaces", C.rows() == mt && C.cols() == nt);
  ensure(l + ": R is in the tangent space", R1.rows() == mt && R1.cols() == mt);
  ensure(l + ": tangent vectors", f.stateTangentVectorZero().size() == nt && f.measureTangentVectorZero().size() == mt);
  for(long i = 1; i <= 4; ++i)
  {
    ensure(l + ": tangent checks", f.checkStateTangentVector(Vector(Vector::Zero(i))) == (i == nt)
                                       && f.checkMeasureTangentVector(Vector(Vector::Zero(i))) == (i == mt));
    for(long j = 1; j <= 4; ++j)
    {
      Mat z = Mat::Zero(i, j);
      ensure(l + ": checks of A, Q, P", f.checkAmatrix(z) == (i == nt && j == nt) && f.checkQmatrix(z) == (i == nt && j == nt)
                                            && f.checkPmatrix(z) == (i == nt && j == nt));
      ensure(l + ": check of R", f.checkRmatrix(z) == (i == mt && j == mt));
      ensure(l + ": check of C", f.checkCmatrix(z) == (i == mt && j == nt));
    }
  }
}
static void same(const std::string & l, const Mat & a, const Mat & b, bool kept)
{
  if(kept)
    ensureEq(l + " is kept", a, b);
  else
    ensure(l + " is forgotten", a.size() == 0);
}
CONTRACT(change_sizes, "KalmanFilterBase::setStateSize, setMeasureSize")
{
  long n = pick("n", 1, 3), nt = pick("nt", 1, 2), m = pick("m", 1, 3), mt = pick("mt", 1, 2);
  Filter f(n, nt, m, mt);
  checkSizes("constructed", f, n, nt, m, mt);
  Mat A = mat("A", nt, nt), C = mat("C", mt, nt), Q = mat("Q", nt, nt), R1 = mat("R", mt, mt), P = mat("P", nt, nt);
  f.setA(A);
  f.setC(C);
  f.setQ(Q);
  f.setR(R1);
  f.setStateCovariance(P);
  Vec x = vec("x", n), y = vec("y", m);
  f.setState(x, 0);
  f.setMeasurement(y, 1);
  long what = pick("what", 0, 3), n2 = n, nt2 = nt, m2 = m, mt2 = mt;
  if(what == 0) f.setStateSize(n2 = pick("n2", 1, 3), nt2 = pick("nt2", 1, 3));
  if(what == 1) f.setStateSize(n2 = nt2 = pick("n2", 1, 3));
  if(what == 2) f.setMeasureSize(m2 = pick("m2", 1, 3), mt2 = pick("mt2", 1, 3));
  if(what == 3) f.setMeasureSize(m2 = mt2 = pick("m2", 1, 3));
  checkSizes("resized", f, n2, nt2, m2, mt2);
  bool s = n2 == n && nt2 == nt, q = m2 == m && mt2 == mt;
  same("A", f.getA(), A, s);
  same("Q", f.getQ(), Q, s);
  same("P", f.getStateCovariance(), P, s);
  same("C", f.getC(), C, s && q);
  same("R", f.getR(), R1, q);
  if(n2 != n) ensure("the state is forgotten", !f.stateIsSet());
  if(s) ensureEq("the state is kept", f.getCurrentEstimatedState(), x);
  ensure("measurements", long(f.getMeasurementsNumber()) == (m2 == m ? 1 : 0));
}
CONTRACT(helpers, "KalmanFilterBase constructors, get*matrix{Constant,Random,Zero,Identity}, *Vector{Constant,Random,Zero}")
{
  // the matrices and vectors a filter hands out fit this filter and hold what their name says
  long n = 3, nt = 2, m = 2, mt = 1;
  long how = pick("constructor", 0, 2);
  Filter f3(n, nt, m, mt), f2(nt, mt), f0;
  Filter & f = how == 0 ? f3 : how == 1 ? f2 : f0;
  if(how == 1)
  {
    n = nt;
    m = mt;
  }
  if(how == 2)
  {
    checkSizes("default", f0, 0, 0, 0, 0);
    f0.setStateSize(n, nt);
    f0.setMeasureSize(m, mt);
  }
  checkSizes("constructed", f, n, nt, m, mt);
  R c = in("c");
  auto is = [&](const std::string & l, const Mat & M, long r, long k, int kind)
  {
    ensure(l + ": size", M.rows() == r && M.cols() == k);
    if(kind < 3)
      ensureEq(l, M, Mat(kind == 0 ? Mat(Mat::Zero(r, k)) : kind == 1 ? Mat(Mat::Identity(r, k)) : Mat(Mat::Constant(r, k, c))));
  };
  is("zero A", f.getAmatrixZero(), nt, nt, 0);
  is("zero C", f.getCmatrixZero(), mt, nt, 0);
  is("zero Q", f.getQmatrixZero(), nt, nt, 0);
  is("zero R", f.getRmatrixZero(), mt, mt, 0);
  is("zero P", f.getPmatrixZero(), nt, nt, 0);
  is("identity A", f.getAmatrixIdentity(), nt, nt, 1);
  is("identity Q", f.getQmatrixIdentity(), nt, nt, 1);
  is("identity R", f.getRmatrixIdentity(), mt, mt, 1);
  is("identity P", f.getPmatrixIdentity(), nt, nt, 1);
  is("constant A", f.getAmatrixConstant(c), nt, nt, 2);
  is("constant C", f.getCmatrixConstant(c), mt, nt, 2);
  is("constant Q", f.getQmatrixConstant(c), nt, nt, 2);
  is("constant R", f.getRmatrixConstant(c), mt, mt, 2);
  is("constant P", f.getPmatrixConstant(c), nt, nt, 2);
  is("random A", f.getAmatrixRandom(), nt, nt, 3);
  is("random C", f.getCmatrixRandom(), mt, nt, 3);
  is("random Q", f.getQmatrixRandom(), nt, nt, 3);
  is("random R", f.getRmatrixRandom(), mt, mt, 3);
  is("random P", f.getPmatrixRandom(), nt, nt, 3);
  is("zero tangent state", f.stateTangentVectorZero(), nt, 1, 0);
  is("constant tangent state", f.stateTangentVectorConstant(c), nt, 1, 2);
  is("random tangent state", f.stateTangentVectorRandom(), nt, 1, 3);
  is("zero tangent measurement", f.measureTangentVectorZero(), mt, 1, 0);
  is("constant tangent measurement", f.measureTangentVectorConstant(c), mt, 1, 2);
  is("random tangent measurement", f.measureTangentVectorRandom(), mt, 1, 3);
  is("zero state", f.stateVectorZero(), n, 1, 0);
  is("constant state", f.stateVectorConstant(c), n, 1, 2);
  is("random state", f.stateVectorRandom(), n, 1, 3);
  is("zero measurement", f.measureVectorZero(), m, 1, 0);
  is("constant measurement", f.measureVectorConstant(c), m, 1, 2);
  is("random measurement", f.measureVectorRandom(), m, 1, 3);
  is("constant input", f.inputVectorConstant(c), 0, 1, 2);
  is("random input", f.inputVectorRandom(), 0, 1, 3);
}
CONTRACT(clearing, "KalmanFilterBase clear*, reset")
{
  Filter f(2, 1, 3, 2);
  f.setA(mat("A", 1, 1));
  f.setC(mat("C", 2, 1));
  f.setQ(mat("Q", 1, 1));
  f.setR(mat("R", 2, 2));
  f.setStateCovariance(mat("P", 1, 1));
  f.setState(vec("x", 2), 0);
  switch(pick("op", 0, 1))
  {
    case 0:
      f.reset();
      ensure("reset forgets the state and its covariance", !f.stateIsSet() && f.getStateCovariance().size() == 0);
      ensureEq("reset keeps the model", f.getA(), mat("A", 1, 1));
      ensureEq("reset keeps the noise", f.getQ(), mat("Q", 1, 1));
      break;
    default:
      f.clearA();
      ensure("only A is cleared", f.getA().size() == 0 && f.getC().size() == 2 && f.getQ().size() == 1
                                      && f.getR().size() == 4 && f.getStateCovariance().size() == 1);
      f.clearC();
      f.clearQ();
      ensure("C and Q are cleared", f.getC().size() == 0 && f.getQ().size() == 0 && f.getR().size() == 4);
      f.clearR();
      f.clearStateCovariance();
      ensure("all cleared", f.getR().size() == 0 && f.getStateCovariance().size() == 0);
      ensure("the state is kept", f.stateIsSet());
  }
}
CONTRACT(refusals, "KalmanFilterBase: missing or ill-sized model")
{
  // measurement, A, C, Q, R and P are all required, at their sizes, for a correction
  Data d(1, 1);
  long missing = pick("missing", 0, 6);
  Filter f(1, 1, 1, 1);
  f.xb = vec("xb", 1);
  f.yb = vec("yb", 1);
  if(missing != 1) f.setA(d.A);
  if(missing != 2) f.setC(d.C);
  if(missing != 3) f.setQ(d.Q);
  if(missing != 4) f.setR(d.R_);
  if(missing != 5) f.setStateCovariance(d.P);
  f.setState(vec("x", 1), 0);
  if(missing != 6) f.setMeasurement(vec("y", 1), 1);
  Vec r;
  ensure("estimated exactly when the model is complete",
         refused([&] { r = f.getEstimatedState(1); }) == (missing != 0));
  Mat w = Mat::Zero(2, 1);
  refuses("A of another size", [&] { f.setA(w); });
  refuses("C of another size", [&] { f.setC(w); });
  refuses("Q of another size", [&] { f.setQ(w); });
  refuses("R of another size", [&] { f.setR(w); });
  refuses("P of another size", [&] { f.setStateCovariance(w); });
}
