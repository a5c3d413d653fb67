// Access to the kinetics observer and reference layout of its state, shared by C18..C20
#pragma once
#include "models.hpp"
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
namespace vp
{
using namespace stateObservation;
using kine::Kinematics;
using kine::Orientation;
struct KO : public KineticsObserver
{
  KO(unsigned contacts, unsigned imus) : KineticsObserver(contacts, imus) {}
  using KineticsObserver::measureDynamics;
  using KineticsObserver::getInputSize;
  using KineticsObserver::getMeasurementNoise;
  using KineticsObserver::getProcessNoise;
  using KineticsObserver::resetMeasurementNoise;
  using KineticsObserver::resetProcessNoise;
  using KineticsObserver::setMeasurementNoise;
  using KineticsObserver::setProcessNoise;
  using KineticsObserver::stateDynamics;
  // the next iteration, without running the filter
  void next()
  {
    k_est_ = k_data_;
  }
  Kinematics imuKinematics(long i) const
  {
    return imuSensors_[i].kinematics;
  }
  Kinematics contactKinematics(long i) const
  {
    return contacts_[i].localKine;
  }
  // Jacobians given to the filter when the finite differences are off
  Mat a, c;
  std::function<void()> during;
  stateObservation::Matrix computeAMatrix_()
  {
    return a.size() ? stateObservation::Matrix(a) : KineticsObserver::computeAMatrix_();
  }
  stateObservation::Matrix computeCMatrix_()
  {
    if(during) during();
    return c.size() ? stateObservation::Matrix(c) : KineticsObserver::computeCMatrix_();
  }
  // without covariance the filter refuses to correct: update() stops once the filter has its Jacobians
  void forgetCovariance()
  {
    ekf_.clearStateCovariance();
  }
  // the size update() gives to the difference of measurements
  void tangentMeasurementSize(long n)
  {
    measurementTangentSize_ = n;
  }
  void measurementSizes(long n, long t)
  {
    measurementSize_ = n;
    measurementTangentSize_ = t;
  }
};
// layout: kinematics, a bias per IMU, external wrench, a pose and a wrench per contact
struct Layout
{
  long imus, contacts;
  long bias(long i) const
  {
    return 13 + 3 * i;
  }
  long wrench() const
  {
    return bias(imus);
  }
  long contact(long i) const
  {
    return wrench() + 6 + 13 * i;
  }
  long size() const
  {
    return contact(contacts);
  }
  long tbias(long i) const
  {
    return 12 + 3 * i;
  }
  long twrench() const
  {
    return tbias(imus);
  }
  long tcontact(long i) const
  {
    return twrench() + 6 + 12 * i;
  }
  long tsize() const
  {
    return tcontact(contacts);
  }
};
inline void putQ(Vec & x, long i, const Q4 & q)
{
  x.segment(i, 4) = v4(q);
}
// any state with unit quaternions
inline Vec anyState(const Layout & l, const std::string & n)
{
  Vec x = vec(n, l.size());
  putQ(x, 3, unitQ(n + "q"));
  for(long i = 0; i < l.contacts; ++i) putQ(x, l.contact(i) + 3, unitQ(n + "q" + std::to_string(i)));
  return x;
}
inline Q4 quatAt(const Vec & x, long i)
{
  return Q4(x(i + 3), x(i), x(i + 1), x(i + 2));
}
inline Kinematics pose(const V3 & p, const Q4 & q)
{
  Kinematics k;
  k.position = p;
  k.orientation = Quaternion(q);
  return k;
}
inline Kinematics still()
{
  return pose(V3::Zero(), Q4(R(1), R(0), R(0), R(0)));
}
inline Kinematics anyPose(const std::string & n)
{
  return pose(vec3(n + "p"), unitQ(n + "q"));
}
} // namespace vp
