// C23: the simulator of dynamical systems: trajectories, held inputs, requests in any order
// ASSUMES: the dynamics and measurement functions are uninterpreted; at most 4 requests, within 3 steps of the start
#include "ref.hpp"
#include <map>
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
Vector v1(const R & x)
{
  Vector v(1);
  v << x;
  return v;
}
R f(const R & x, const R & u, long k)
{
  return uf("f", 0, {x, u, R(k)});
}
R h(const R & x, const R & u, long k)
{
  return uf("h", 0, {x, u, R(k)});
}
struct System : public DynamicalSystemFunctorBase
{
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    return v1(f(x(0), u(0), k));
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    return v1(h(x(0), u(0), k));
  }
  Index getStateSize() const
  {
    return 1;
  }
  Index getInputSize() const
  {
    return 1;
  }
  Index getMeasurementSize() const
  {
    return 1;
  }
};
// what the simulator promises: states from k0 on, the measurement of every state that was left
struct Trajectory
{
  long k0;
  std::vector<R> x, y;
  std::map<long, R> u;
  R held(long k) const
  {
    std::map<long, R>::const_iterator i = u.upper_bound(k);
    return (--i)->second;
  }
  long now() const
  {
    return k0 + long(x.size()) - 1;
  }
  void step()
  {
    long k = now();
    y.push_back(h(x.back(), held(k), k));
    x.push_back(f(x.back(), held(k), k));
  }
  void to(long k)
  {
    while(now() < k) step();
  }
};
void same(DynamicalSystemSimulator & s, const Trajectory & t, const std::string & l)
{
  ensure(l + ": time", s.getCurrentTime() == t.now());
  if(s.getCurrentTime() != t.now()) return;
  ensureEq(l + ": state", s.getCurrentState(), v1(t.x.back()));
  for(size_t i = 0; i < t.x.size(); ++i) ensureEq(l + ": past states", s.getState(t.k0 + i), v1(t.x[i]));
  for(size_t i = 0; i < t.y.size(); ++i) ensureEq(l + ": past measurements", s.getMeasurement(t.k0 + i), v1(t.y[i]));
  ensure(l + ": nothing more is simulated", s.getCurrentTime() == t.now());
}
const long starts[3] = {0, -2, 7};
void start(DynamicalSystemSimulator & s, System & d, Trajectory & t, long k0)
{
  t.k0 = k0;
  s.setDynamicsFunctor(&d);
  R x = in("x0"), u = in("u0");
  s.setState(v1(x), k0);
  s.setInput(v1(u), k0);
  t.x.assign(1, x);
  t.y.clear();
  t.u.clear();
  t.u[k0] = u;
}
} // namespace
CONTRACT(requests, "DynamicalSystemSimulator: set*, get*, simulateDynamics*")
{
  System d;
  DynamicalSystemSimulator s;
  Trajectory t;
  start(s, d, t, starts[pick("k0", 0, 2)]);
  for(long n = 0; n < 3; ++n)
  {
    std::string m = std::to_string(n);
    long op = pick("op" + m, 0, 5), k = op == 4 ? 0 : t.k0 + pick("at" + m, 0, 2);
    switch(op)
    {
      case 0: {
        R u = in("u" + m);
        s.setInput(v1(u), k);
        t.u.erase(k);
        t.u.insert({k, u});
        break;
      }
      case 1: {
        if(k > t.now() + 1) return;
        R x = in("x" + m);
        s.setState(v1(x), k);
        t.x.resize(k - t.k0);
        t.x.push_back(x);
        if(long(t.y.size()) > k - t.k0) t.y.resize(k - t.k0);
        // measurements are those of the simulated instants
        if(long(t.y.size()) < k - t.k0) return;
        break;
      }
      case 2:
        t.to(k);
        ensureEq("requested state", s.getState(k), v1(t.x[k - t.k0]));
        break;
      case 3:
        t.to(k + 1);
        ensureEq("requested measurement", s.getMeasurement(k), v1(t.y[k - t.k0]));
        break;
      case 4:
        t.step();
        s.simulateDynamics();
        break;
      case 5:
        t.to(k);
        s.simulateDynamicsTo(k);
        break;
    }
    same(s, t, "after each request");
  }
}
CONTRACT(arrays, "DynamicalSystemSimulator::getStateArray, getMeasurementArray")
{
  System d;
  DynamicalSystemSimulator s;
  Trajectory t;
  start(s, d, t, starts[pick("k0", 0, 2)]);
  s.setInput(v1(in("u1")), t.k0 + 2);
  t.u[t.k0 + 2] = in("u1");
  long first = t.k0 + pick("first", 0, 2), n = pick("n", 0, 3);
  bool before = pick("before", 0, 1), measurements = pick("measurements", 0, 1);
  if(before) s.simulateDynamicsTo(t.k0 + 1);
  t.to(t.k0 + 9);
  IndexedVectorArray a = measurements ? s.getMeasurementArray(first, n) : s.getStateArray(first, n);
  ensure("duration", long(a.size()) == n);
  if(long(a.size()) != n || n == 0) return;
  ensure("starting time", a.getFirstIndex() == first);
  if(a.getFirstIndex() != first) return;
  for(long i = 0; i < n; ++i)
    ensureEq("values", a[first + i], v1(measurements ? t.y[first - t.k0 + i] : t.x[first - t.k0 + i]));
}
CONTRACT(inputs, "DynamicalSystemSimulator::getInput")
{
  System d;
  DynamicalSystemSimulator s;
  long k0 = starts[pick("k0", 0, 2)], a = pick("a", 0, 3), b = pick("b", 0, 3), k = pick("k", -1, 4);
  R ua = in("ua"), ub = in("ub");
  s.setInput(v1(ua), k0 + a);
  s.setInput(v1(ub), k0 + b);
  if(k < a && k < b)
  {
    refuses("no input yet at that time", [&]() { s.getInput(k0 + k); });
    return;
  }
  bool second = k >= b && (b >= a || k < a);
  ensureEq("the last input at or before that time", s.getInput(k0 + k), v1(second ? ub : ua));
}
CONTRACT(resets, "DynamicalSystemSimulator::resetDynamics, resetSimulator")
{
  System d;
  DynamicalSystemSimulator s;
  Trajectory t;
  start(s, d, t, 3);
  s.setInput(v1(in("u1")), 1);
  s.simulateDynamicsTo(5);
  bool all = pick("all", 0, 1);
  if(all)
    s.resetSimulator();
  else
    s.resetDynamics();
  refuses("no input any more", [&]() { s.getInput(4); });
  long k0 = pick("k0", 0, 1) ? 2 : -1;
  R x = in("x1"), u = in("u2");
  s.setState(v1(x), k0);
  s.setInput(v1(u), k0);
  if(all)
  {
    refuses("no dynamics any more", [&]() { s.simulateDynamics(); });
    s.setDynamicsFunctor(&d);
  }
  t.k0 = k0;
  t.x.assign(1, x);
  t.y.clear();
  t.u.clear();
  t.u[k0] = u;
  t.to(k0 + 2);
  s.simulateDynamicsTo(k0 + 2);
  same(s, t, "new trajectory");
}
CONTRACT(gaps, "DynamicalSystemSimulator::setState (refused)")
{
  System d;
  DynamicalSystemSimulator s;
  Trajectory t;
  start(s, d, t, 0);
  s.simulateDynamicsTo(1);
  t.to(1);
  long k = pick("k", 0, 1) ? 3 : -1;
  refuses("a state that does not follow the trajectory", [&]() { s.setState(v1(R(1)), k); });
  same(s, t, "unchanged");
}
