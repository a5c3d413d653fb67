// C13: simulated sensors and noises
#include "models.hpp"
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
using namespace vp;
using namespace stateObservation;
namespace
{
// any sensor: the measurement is an arbitrary function of the state
struct Sensor : public AlgebraicSensor
{
  long n, m, computed = 0;
  Sensor(long n, long m) : n(n), m(m) {}
  Vec h(const Vec & x)
  {
    return ufVec("h", m, x);
  }
  Vector computeNoiselessMeasurement_()
  {
    ++computed;
    return h(state_);
  }
  Index getStateSize_() const
  {
    return n;
  }
  Index getMeasurementSize_() const
  {
    return m;
  }
};
Vec cat(const Vec & a, const Vec & b)
{
  Vec r(a.size() + b.size());
  r << a, b;
  return r;
}
} // namespace
CONTRACT(algebraic, "AlgebraicSensor::setState, getMeasurements, concatenateWithInput")
{
  long n = pick("n", 1, 2), m = pick("m", 1, 2), c = pick("concatenated", 0, 2), k = pick("k", -1, 1);
  Sensor s(n, m);
  Noise e;
  if(c || pick("explicit", 0, 1)) ensure("returned size", s.concatenateWithInput(c) == m + c);
  ensure("state size", s.getStateSize() == n + c);
  ensure("measurement size", s.getMeasurementSize() == m + c);
  ensureEq("zero state", s.stateVectorZero(), Vec::Zero(n + c));
  ensure("no noise at first", s.getNoise() == nullptr);
  if(pick("before", 0, 1))
  {
    s.setState(vec("before", n + c), pick("sameTime", 0, 1) ? k : 5);
    s.getMeasurements(false);
    s.setNoise(&e);
    s.getMeasurements(true);
    s.resetNoise();
  }
  Vec x = vec("x", n + c), y = cat(s.h(x.head(n)), x.tail(c));
  s.setState(x, k);
  ensure("time", s.getTime() == k);
  long mode = pick("noise", 0, 3);
  if(mode >= 1) s.setNoise(&e);
  if(mode == 1) s.resetNoise();
  ensure("noise given", s.getNoise() == (mode >= 2 ? &e : nullptr));
  long first = pick("first", 0, 2); // what is asked for first
  for(int i = 0; i < 3; ++i)
  {
    bool noisy = (first >> i) & 1;
    long d = e.draws;
    Vec r = s.getMeasurements(noisy);
    if(noisy && mode >= 2)
    {
      ensure("the noise is drawn at most once per state", e.draws <= (i == 0 || first != 3 ? d + 1 : d));
      ensureEq("noise applied to the measurement", r, e.last(y));
      long d1 = e.draws;
      ensureEq("the same noisy measurement until the next state", s.getMeasurements(true), r);
      ensure("and no other draw", e.draws == d1);
    }
    else
    {
      ensureEq("noise-free measurement, then the input passed through", r, y);
      ensure("no draw", e.draws == d);
    }
  }
  ensureEq("the noise-free measurement is not affected", s.getMeasurements(false), y);
  Vec x2 = vec("X", n + c), y2 = cat(s.h(x2.head(n)), x2.tail(c));
  s.setState(x2, k + pick("later", 0, 1)); // another state for the same time, or the next
  ensureEq("next state, noise-free", s.getMeasurements(false), y2);
  long d = e.draws;
  Vec r2 = s.getMeasurements();
  if(mode >= 2)
  {
    ensure("a new draw for a new state", e.draws == d + 1);
    ensureEq("next state, noisy", r2, e.last(y2));
    s.resetNoise();
    ensureEq("noise removed", s.getMeasurements(), y2);
  }
  else
    ensureEq("next state, noise-free by default without a noise", r2, y2);
  ensure("state vector size check", s.checkStateVector(x) && !s.checkStateVector(vec("l", n + c + 1)));
}
CONTRACT(accelerometer_gyrometer, "AccelerometerGyrometer::computeNoiselessMeasurement_, setMatrixMode")
{
  AccelerometerGyrometer s;
  long matrix = pick("matrix", 0, 2); // 2: there and back
  if(pick("usedBefore", 0, 1))
  {
    s.setState(cat(v4(unitQ("q0")), vec("o", 6)), 0);
    s.getMeasurements();
  }
  if(matrix) s.setMatrixMode(true);
  if(matrix == 2) s.setMatrixMode(false);
  matrix &= 1;
  Q4 q = unitQ("q");
  V3 a = vec3("a"), w = vec3("w");
  ensure("state size", s.getStateSize() == (matrix ? 15 : 10));
  ensure("measurement size", s.getMeasurementSize() == 6);
  s.setState(imuSensorState(q, a, w, matrix), 3);
  ensureEq("specific force and angular velocity in the sensor frame", s.getMeasurements(), imuMeasure(rotOf(q), a, w));
}
CONTRACT(with_magnetometer, "AccelerometerGyrometerMagnetometer::computeNoiselessMeasurement_, setMatrixMode")
{
  AccelerometerGyrometerMagnetometer s;
  long matrix = pick("matrix", 0, 2);
  if(pick("usedBefore", 0, 1))
  {
    s.setState(cat(v4(unitQ("q0")), vec("o", 6)), 0);
    s.getMeasurements();
  }
  if(matrix) s.setMatrixMode(true);
  if(matrix == 2) s.setMatrixMode(false);
  matrix &= 1;
  Q4 q = unitQ("q");
  V3 a = vec3("a"), w = vec3("w");
  ensure("state size", s.getStateSize() == (matrix ? 15 : 10));
  ensure("measurement size", s.getMeasurementSize() == 9);
  s.setState(imuSensorState(q, a, w, matrix), 3);
  M3 r = rotOf(q);
  ensureEq("specific force, angular velocity and magnetic field in the sensor frame", s.getMeasurements(),
           cat(imuMeasure(r, a, w), V3(r.transpose() * magneticField())));
}
CONTRACT(imu_with_noise, "AccelerometerGyrometer with a noise and pass-through")
{
  AccelerometerGyrometer s;
  Noise e;
  long c = pick("concatenated", 0, 2);
  s.concatenateWithInput(c);
  s.setNoise(&e);
  Q4 q = unitQ("q");
  V3 a = vec3("a"), w = vec3("w");
  Vec u = vec("u", c), y = cat(imuMeasure(rotOf(q), a, w), u);
  s.setState(cat(imuSensorState(q, a, w, false), u), 3);
  bool noisyFirst = pick("noisyFirst", 0, 1);
  if(!noisyFirst) ensureEq("noise-free", s.getMeasurements(false), y);
  Vec r = s.getMeasurements(true);
  ensureEq("noisy", r, e.last(y));
  if(noisyFirst) ensureEq("noise-free", s.getMeasurements(false), y);
}
// --- white noise
namespace
{
Vec gotState, gotTangent;
void capture(const Vector & s, const Vector & t, Vector & r)
{
  gotState = s;
  gotTangent = t;
  r = ufVec("add", s.size(), cat(s, t));
}
Mat square(const std::string & n, long k)
{
  return mat(n, k, k);
}
} // namespace
#ifdef VP_SYMBOLIC
CONTRACT(white_noise, "GaussianWhiteNoise::getNoisy, setStandardDeviation, setCovarianceMatrix, setBias")
{
  long n = pick("n", 1, 3), how = pick("std", 0, 2);
  GaussianWhiteNoise g(n);
  if(pick("resized", 0, 1))
  {
    GaussianWhiteNoise h(n + 1);
    h.setStandardDeviation(square("o", n + 1));
    h.setBias(vec("ob", n + 1));
    h.setDimension(n);
    g = h;
  }
  ensure("dimension", g.getDimension() == n);
  Mat s = Mat::Identity(n, n);
  if(how == 1) g.setStandardDeviation(s = square("s", n));
  if(how == 2) g.setCovarianceMatrix(spd("c", n));
  Vec b = Vec::Zero(n), x = vec("x", n);
  if(pick("biased", 0, 1)) g.setBias(b = vec("b", n));
  bool user = pick("userSum", 0, 1);
  if(user) g.setSumFunction(capture);
  for(int step = 0; step < 2; ++step)
  {
    draws().clear();
    Vec r = g.getNoisy(x), d(n);
    ensure("one normal draw per component", (long)draws().size() == n);
    for(long i = 0; i < n; ++i) d(i) = draws()[i];
    if(user)
    {
      ensureEq("added through the given sum", r, ufVec("add", n, cat(gotState, gotTangent)));
      ensureEq("to the value", gotState, x);
      r = gotTangent + x;
    }
    if(how < 2)
      ensureEq("value + deviation * normal draw + bias", r, x + s * d + b);
    else
    {
      // the factor L with L L^T = covariance, read off column by column from the coefficients of the draws
      Mat c = spd("c", n);
      Vec e = r - x - b; // = L d for some L with L L^T = c : |L^-1 e|^2 = |d|^2, i.e. e^T adj(c) e = det(c) d^T d
      Mat adj(n, n);
      for(long i = 0; i < n; ++i)
        for(long j = 0; j < n; ++j)
        {
          Mat mn(n - 1, n - 1);
          for(long a = 0; a < n; ++a)
            for(long q = 0; q < n; ++q)
              if(a != i && q != j) mn(a - (a > i), q - (q > j)) = c(a, q);
          R det = n == 1 ? R(1) : n == 2 ? R(mn(0, 0)) : R(mn(0, 0) * mn(1, 1) - mn(0, 1) * mn(1, 0));
          adj(j, i) = (i + j) % 2 ? R(-det) : det;
        }
      R det = (c.row(0) * adj.col(0))(0, 0);
      ensureEq("deviation is a square root of the covariance", (e.transpose() * adj * e)(0, 0), R(det * d.squaredNorm()));
    }
  }
}
#endif
CONTRACT(noise_range, "GaussianWhiteNoise::getNoisy (degenerate deviations, no draw needed to decide)")
{
  long n = 2;
  GaussianWhiteNoise g(n);
  Vec x = vec("x", n), b = vec("b", n), c = vec("c", n), d = vec("d", n);
  g.setBias(b);
  Mat s = Mat::Zero(n, n);
  g.setStandardDeviation(s);
  ensureEq("no deviation: the bias alone", g.getNoisy(x), x + b);
  s = c * d.transpose(); // rank one
  g.setStandardDeviation(s);
  Vec r = g.getNoisy(x) - x - b;
  ensureEq("the noise lies along the column space of the deviation", R(r(0) * c(1) - r(1) * c(0)), R(0));
  g.setDimension(1);
  ensure("dimension", g.getDimension() == 1);
  g.setStandardDeviation(Mat::Zero(1, 1));
  ensureEq("the bias is forgotten with the dimension", g.getNoisy(Vec(x.head(1))), Vec(x.head(1)));
  refuses("a value of another size", [&] { g.getNoisy(x); });
  refuses("a bias of another size", [&] { g.setBias(b); });
  refuses("a deviation of another size", [&] { g.setStandardDeviation(s); });
  refuses("a covariance of another size", [&] { g.setCovarianceMatrix(s); });
}
