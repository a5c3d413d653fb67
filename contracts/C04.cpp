// C04: the observer loop: which state, inputs and measurements each step sees, whatever the order they were given in
// ASSUMES: times in a finite set, up to 4 pending measurements and inputs; one-step estimation is an uninterpreted function
#include "ref.hpp"
#include <state-observation/observer/zero-delay-observer.hpp>
using namespace vp;
using namespace stateObservation;
static Vector v1(const R & x)
{
  Vector v(1);
  v << x;
  return v;
}
// a zero-delay observer with an arbitrary one-step estimation: x+ = f(x_k, u_k, u_{k+1} if useNext, y_{k+1})
struct Obs : public ZeroDelayObserver
{
  Obs(long n, long m, long p) : ZeroDelayObserver(n, m, p) {}
  bool useNext = false;
  long steps = 0;
  Vector oneStepEstimation_()
  {
    long k = getCurrentTime();
    std::vector<R> a;
    a.push_back(getCurrentEstimatedState()(0));
    if(p_ > 0) a.push_back(getInput(k)(0));
    if(p_ > 0 && useNext) a.push_back(getInput(k + 1)(0));
    a.push_back(getMeasurement(k + 1)(0));
    Vector x = v1(uf("f", 0, a));
    x_.set(x, k + 1);
    ++steps;
    return x;
  }
};
struct Data
{
  long k0, N, p;
  bool next;
  R x0;
  std::vector<R> y, u; // y[i] at k0+1+i, u[i] at k0+i
  std::vector<R> x;    // the estimates at k0, k0+1, ...
};
static Data data(long nmax)
{
  static const long firsts[3] = {0, -3, 5000000000l};
  Data d;
  d.k0 = firsts[pick("k0", 0, 2)];
  d.N = pick("N", 1, nmax);
  d.p = pick("p", 0, 1);
  d.next = d.p && pick("next", 0, 1);
  d.x0 = in("x0");
  for(long i = 0; i < d.N; ++i) d.y.push_back(in("y" + std::to_string(i + 1)));
  for(long i = 0; i < d.N + (d.next ? 1 : 0); ++i) d.u.push_back(in("u" + std::to_string(i)));
  d.x.push_back(d.x0);
  for(long i = 0; i < d.N; ++i)
  {
    std::vector<R> a{d.x[i]};
    if(d.p) a.push_back(d.u[i]);
    if(d.next) a.push_back(d.u[i + 1]);
    a.push_back(d.y[i]);
    d.x.push_back(uf("f", 0, a));
  }
  return d;
}
static void giveY(Obs & o, const Data & d, long i, bool push)
{
  if(push)
    o.pushMeasurement(v1(d.y[i]));
  else
    o.setMeasurement(v1(d.y[i]), d.k0 + 1 + i);
}
static void giveU(Obs & o, const Data & d, long i, bool push)
{
  if(!d.p) return;
  if(push)
    o.pushInput(v1(d.u[i]));
  else
    o.setInput(v1(d.u[i]), d.k0 + i);
}
// what remains once the estimate has reached k0+i: nothing before it, everything after it
static void remains(const std::string & l, const Obs & o, const Data & d, long i, long ny, long nu)
{
  ensure(l + ": time", o.getCurrentTime() == d.k0 + i);
  for(long j = i + 1; j <= ny; ++j) ensureEq(l + ": measurement kept", o.getMeasurement(d.k0 + j)(0), d.y[j - 1]);
  if(ny > i) ensure(l + ": last measurement time", o.getMeasurementTime() == d.k0 + ny);
  ensure(l + ": number of measurements", long(o.getMeasurementsNumber()) >= ny - i
                                            && long(o.getMeasurementsNumber()) <= ny - i + 1);
  if(d.p)
  {
    for(long j = i; j < nu; ++j) ensureEq(l + ": input kept", o.getInput(d.k0 + j)(0), d.u[j]);
    if(nu > i) ensure(l + ": last input time", o.getInputTime() == d.k0 + nu - 1);
    ensure(l + ": number of inputs", long(o.getInputsNumber()) == std::max(0l, nu - i));
  }
}
CONTRACT(batching, "ZeroDelayObserver::getEstimatedState, estimateState, setMeasurement, setInput, pushMeasurement, pushInput")
{
  // everything first and then one call, or step by step, or in two batches, gives the same estimates
  Data d = data(3);
  Obs o(1, 1, d.p);
  o.useNext = d.next;
  bool push = pick("push", 0, 1);
  ensure("no state yet", !o.stateIsSet());
  o.setState(v1(d.x0), d.k0);
  ensure("state", o.stateIsSet());
  long cut = pick("cut", 0, 3);
  assume(cut <= d.N);
  long extra = d.next ? 1 : 0;
  if(cut)
  {
    for(long i = 0; i < cut; ++i) giveY(o, d, i, push);
    for(long i = 0; i < cut + extra; ++i) giveU(o, d, i, push);
    if(pick("loop", 0, 1))
    {
      ensure("time returned", o.estimateState() == d.k0 + cut);
      ensureEq("estimate", o.getCurrentEstimatedState(), v1(d.x[cut]));
    }
    else
      ensureEq("estimate", o.getEstimatedState(d.k0 + cut), v1(d.x[cut]));
    ensure("as many steps as needed", o.steps == cut);
    remains("first batch", o, d, cut, cut, cut + extra);
  }
  for(long i = cut; i < d.N; ++i) giveY(o, d, i, push);
  for(long i = cut ? cut + extra : 0; i < d.N + extra; ++i) giveU(o, d, i, push);
  remains("before", o, d, cut, d.N, d.N + extra);
  long to = pick("to", 0, 3);
  assume(to >= cut && to <= d.N);
  ensureEq("estimate at the requested time", o.getEstimatedState(d.k0 + to), v1(d.x[to]));
  ensureEq("current estimate", o.getCurrentEstimatedState(), v1(d.x[to]));
  remains("second batch", o, d, to, d.N, d.N + extra);
  ensureEq("the same time again", o.getEstimatedState(d.k0 + to), v1(d.x[to]));
  ensure("as many steps as needed", o.steps == to);
  ensure("until measurements are depleted", o.estimateState() == d.k0 + d.N);
  ensureEq("final estimate", o.getCurrentEstimatedState(), v1(d.x[d.N]));
  remains("at the end", o, d, d.N, d.N, d.N + extra);
  ensure("nothing left to do", o.estimateState() == d.k0 + d.N && o.steps == d.N);
  ensureEq("final estimate again", o.getCurrentEstimatedState(), v1(d.x[d.N]));
  refuses("no estimate of the past", [&] { o.getEstimatedState(d.k0 + d.N - 1); });
}
CONTRACT(set_state, "ZeroDelayObserver::setState")
{
  Data d = data(3);
  Obs o(1, 1, d.p);
  o.useNext = d.next;
  long extra = d.next ? 1 : 0;
  o.setState(v1(d.x0), d.k0);
  for(long i = 0; i < d.N; ++i) giveY(o, d, i, false);
  for(long i = 0; i < d.N + extra; ++i) giveU(o, d, i, false);
  long to = pick("to", 0, 1);
  o.getEstimatedState(d.k0 + to);
  R x = in("x");
  long j = pick("j", -1, 5);
  o.setState(v1(x), d.k0 + j);
  ensureEq("new state", o.getCurrentEstimatedState(), v1(x));
  ensure("new time", o.getCurrentTime() == d.k0 + j);
  if(j < to)
  {
    ensure("going back clears measurements", o.getMeasurementsNumber() == 0);
    ensure("going back clears inputs", o.getInputsNumber() == 0);
    R y = in("y"), u = in("u");
    o.setMeasurement(v1(y), d.k0 + j + 1);
    if(d.p) o.setInput(v1(u), d.k0 + j);
    if(d.next) o.pushInput(v1(u));
    std::vector<R> a{x};
    if(d.p) a.push_back(u);
    if(d.next) a.push_back(u);
    a.push_back(y);
    ensureEq("estimate from the new data", o.getEstimatedState(d.k0 + j + 1)(0), uf("f", 0, a));
  }
  else
  {
    ensure("past measurements are removed", long(o.getMeasurementsNumber()) == std::max(0l, d.N - j));
    if(d.p)
      ensure("past inputs are removed", long(o.getInputsNumber()) == std::max(0l, d.N + extra - j));
    for(long i = j + 1; i <= d.N; ++i)
      ensureEq("later measurements are kept", o.getMeasurement(d.k0 + i)(0), d.y[i - 1]);
    if(d.p)
      for(long i = j; i < d.N + extra; ++i) ensureEq("later inputs are kept", o.getInput(d.k0 + i)(0), d.u[i]);
    if(j < d.N)
    {
      std::vector<R> a{x};
      if(d.p) a.push_back(d.u[j]);
      if(d.next) a.push_back(d.u[j + 1]);
      a.push_back(d.y[j]);
      ensureEq("estimate from the new state", o.getEstimatedState(d.k0 + j + 1)(0), uf("f", 0, a));
    }
  }
}
CONTRACT(replace_state, "ZeroDelayObserver::setCurrentState, clearStates, clearMeasurements, clearInputs")
{
  Data d = data(3);
  Obs o(1, 1, d.p);
  o.useNext = d.next;
  long extra = d.next ? 1 : 0;
  refuses("no current state to replace", [&] { o.setCurrentState(v1(d.x0)); });
  refuses("no estimate without a state", [&] { o.getCurrentEstimatedState(); });
  refuses("no estimate without a state", [&] { o.getEstimatedState(0); });
  refuses("no time without a state", [&] { o.getCurrentTime(); });
  refuses("no measurement time without measurement", [&] { o.getMeasurementTime(); });
  refuses("no input time without input", [&] { o.getInputTime(); });
  o.setState(v1(in("other")), d.k0);
  for(long i = 0; i < d.N; ++i) giveY(o, d, i, i % 2);
  for(long i = 0; i < d.N + extra; ++i) giveU(o, d, i, i % 2);
  long op = pick("op", 0, 5);
  if(op == 0)
  {
    o.setCurrentState(v1(d.x0));
    remains("replaced", o, d, 0, d.N, d.N + extra);
    ensureEq("the new state is used", o.getEstimatedState(d.k0 + d.N), v1(d.x[d.N]));
  }
  else if(op == 1)
  {
    o.clearStates();
    ensure("no state", !o.stateIsSet());
    ensure("measurements are kept", long(o.getMeasurementsNumber()) == d.N);
    ensure("inputs are kept", long(o.getInputsNumber()) == (d.p ? d.N + extra : 0));
    o.setState(v1(d.x0), d.k0);
    ensureEq("the new state is used", o.getEstimatedState(d.k0 + d.N), v1(d.x[d.N]));
  }
  else if(op == 2)
  {
    o.clearMeasurements();
    ensure("no measurement", o.getMeasurementsNumber() == 0);
    ensure("inputs are kept", long(o.getInputsNumber()) == (d.p ? d.N + extra : 0));
    ensure("nothing to do", o.estimateState() == d.k0);
    o.setCurrentState(v1(d.x0));
    for(long i = 0; i < d.N; ++i) giveY(o, d, i, true);
    ensureEq("estimate", o.getEstimatedState(d.k0 + d.N), v1(d.x[d.N]));
  }
  else if(op == 3)
  {
    o.clearInputs();
    ensure("no input", o.getInputsNumber() == 0);
    ensure("measurements are kept", long(o.getMeasurementsNumber()) == d.N);
    o.setCurrentState(v1(d.x0));
    for(long i = 0; i < d.N + extra; ++i) giveU(o, d, i, true);
    ensureEq("estimate", o.getEstimatedState(d.k0 + d.N), v1(d.x[d.N]));
  }
  else if(op == 4)
  {
    o.clearInputsAndMeasurements();
    ensure("no input, no measurement", o.getInputsNumber() == 0 && o.getMeasurementsNumber() == 0);
    ensureEq("the state is kept", o.getCurrentEstimatedState(), v1(in("other")));
    ensure("the time is kept", o.getCurrentTime() == d.k0);
  }
  else
  {
    static_cast<ObserverBase &>(o).reset();
    ensure("all cleared", o.getInputsNumber() == 0 && o.getMeasurementsNumber() == 0 && !o.stateIsSet());
    Data e = d;
    e.k0 = 40;
    o.setState(v1(e.x0), e.k0);
    for(long i = 0; i < e.N; ++i) giveY(o, e, i, false);
    for(long i = 0; i < e.N + extra; ++i) giveU(o, e, i, false);
    ensureEq("estimates anew", o.getEstimatedState(e.k0 + e.N), v1(e.x[e.N]));
  }
}
CONTRACT(chronology, "ZeroDelayObserver::setMeasurement, setInput: order and gaps")
{
  long k0 = pick("k0", 0, 1) * 7 - 3, n = pick("n", 0, 2), t = pick("t", -3, 5);
  Obs o(1, 1, 1);
  o.setState(v1(in("x")), k0);
  R a[3] = {in("a0"), in("a1"), in("a2")}, z = in("z");
  for(long i = 0; i < n; ++i)
  {
    o.setMeasurement(v1(a[i]), k0 + 1 + i);
    o.setInput(v1(a[i]), k0 + i);
  }
  // the next time, or the replacement of a value that is there
  bool okY = n ? t >= 1 && t <= n + 1 : t == 1;
  bool r = refused([&] { o.setMeasurement(v1(z), k0 + t); });
  ensure("a measurement is accepted exactly when it is next or replaces one", r == !okY);
  if(okY)
  {
    for(long i = 0; i < std::max(n, t); ++i)
      ensureEq("measurements", o.getMeasurement(k0 + 1 + i)(0), i == t - 1 ? z : a[i]);
    ensure("last measurement", o.getMeasurementTime() == k0 + std::max(n, t));
  }
  bool okU = n ? t >= 0 && t <= n : t == 0 || t == 1;
  r = refused([&] { o.setInput(v1(z), k0 + t); });
  ensure("an input is accepted exactly when it is next or replaces one", r == !okU);
  if(okU && n)
  {
    for(long i = 0; i < std::max(n, t + 1); ++i) ensureEq("inputs", o.getInput(k0 + i)(0), i == t ? z : a[i]);
    ensure("last input", o.getInputTime() == k0 + std::max(n - 1, t));
  }
  Obs w(2, 1, 1);
  refuses("push needs a time", [&] { w.pushMeasurement(v1(z)); });
  refuses("push needs a time", [&] { w.pushInput(v1(z)); });
  refuses("state of the wrong size", [&] { w.setState(v1(z), 0); });
  refuses("measurement of the wrong size", [&] { w.setMeasurement(Vector(Vector::Zero(2)), 0); });
  refuses("input of the wrong size", [&] { w.setInput(Vector(Vector::Zero(2)), 0); });
}
CONTRACT(resize, "ZeroDelayObserver::setStateSize, setMeasureSize, setInputSize; ObserverBase sizes and checks")
{
  long n = pick("n", 1, 2), m = pick("m", 1, 2), p = pick("p", 1, 2);
  long n0 = pick("n0", 1, 2), m0 = pick("m0", 1, 2), p0 = pick("p0", 1, 2);
  Obs o(n0, m0, p0);
  Vec x = vec("x", n0), y = vec("y", m0), u = vec("u", p0);
  o.setState(x, 4);
  o.setMeasurement(y, 5);
  o.setInput(u, 4);
  o.setStateSize(n);
  o.setMeasureSize(m);
  o.setInputSize(p);
  ensure("sizes", o.getStateSize() == n && o.getMeasureSize() == m && o.getInputSize() == p);
  ensure("the state is forgotten exactly when its size changes", o.stateIsSet() == (n == n0));
  ensure("measurements are forgotten exactly when their size changes", o.getMeasurementsNumber() == (m == m0 ? 1u : 0u));
  ensure("inputs are forgotten exactly when their size changes", o.getInputsNumber() == (p == p0 ? 1u : 0u));
  if(n == n0) ensureEq("state", o.getCurrentEstimatedState(), x);
  if(m == m0) ensureEq("measurement", o.getMeasurement(5), y);
  if(p == p0) ensureEq("input", o.getInput(4), u);
  for(long i = 1; i <= 3; ++i)
  {
    Vector v = Vector::Zero(i);
    ensure("checks", o.checkStateVector(v) == (i == n) && o.checkMeasureVector(v) == (i == m)
                         && o.checkInputVector(v) == (i == p));
  }
  Vector one = Vector::Ones(2), zero = Vector::Zero(2);
  ensureEq("zero", o.stateVectorZero(), zero.head(n));
  ensureEq("zero", o.measureVectorZero(), zero.head(m));
  ensureEq("zero", o.inputVectorZero(), zero.head(p));
  ensureEq("constant", o.stateVectorConstant(3), Vector(one.head(n) * 3));
  ensureEq("constant", o.measureVectorConstant(3), Vector(one.head(m) * 3));
  ensureEq("constant", o.inputVectorConstant(3), Vector(one.head(p) * 3));
}
