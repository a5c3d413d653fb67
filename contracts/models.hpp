// Arbitrary noises and the reference IMU model, shared by the contracts on sensors and dynamical systems.
#pragma once
#include "ref.hpp"
#include <state-observation/noise/noise-base.hpp>
namespace vp
{
inline Vec ufVec(const std::string & f, long n, const Vec & x)
{
  std::vector<R> a;
  for(long i = 0; i < x.size(); ++i) a.push_back(x(i));
  Vec y(n);
  for(long i = 0; i < n; ++i) y(i) = uf(f, i, a);
  return y;
}
// any noise: an arbitrary function of the value and of the number of the draw
struct Noise : public stateObservation::NoiseBase
{
  long draws = 0;
  std::string name;
  Noise(const std::string & n = "noise") : name(n) {}
  Vec of(const Vec & x, long draw) const
  {
    Vec a(x.size() + 1);
    a << R(draw), x;
    return ufVec(name, x.size(), a);
  }
  Vec last(const Vec & x) const
  {
    return of(x, draws);
  }
  stateObservation::Vector getNoisy(const stateObservation::Vector & x)
  {
    return of(x, ++draws);
  }
};
inline V3 gravityVec()
{
  return V3(R(0), R(0), R(9.8));
}
inline V3 magneticField()
{
  return V3(R(0), R(28), R(-33.7));
}
// accelerometer and gyrometer
inline Vec imuMeasure(const M3 & r, const V3 & a, const V3 & w)
{
  Vec y(6);
  y << r.transpose() * (a + gravityVec()), r.transpose() * w;
  return y;
}
inline Vec imuSensorState(const Q4 & q, const V3 & a, const V3 & w, bool matrix)
{
  if(!matrix)
  {
    Vec v(10);
    v << q.x(), q.y(), q.z(), q.w(), a, w;
    return v;
  }
  Vec v(15);
  M3 r = rotOf(q);
  v << r.col(0), r.col(1), r.col(2), a, w;
  return v;
}
} // namespace vp
