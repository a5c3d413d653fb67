// One fixed concrete interpretation of every uninterpreted function, shared by the symbolic evaluation and the replay.
#pragma once
#include <cmath>
#include <string>
#include <vector>
namespace vp
{
inline double ufNumeric(const std::string & name, const std::vector<double> & a)
{
  if(name == "huge.0" || name == "huge") return a[0] * 1.7e308;
  if(name == "pow.0") return std::pow(a[0], a[1]);
  unsigned long h = 1469598103934665603ul;
  for(char c : name) h = (h ^ (unsigned char)c) * 1099511628211ul;
  auto u = [&h]() {
    h = h * 6364136223846793005ul + 1442695040888963407ul;
    return ((h >> 33) % 2000) / 1000.0 - 1.0;
  };
  double r = 0.3 * u();
  for(double x : a)
  {
    double k1 = u(), k2 = 1 + u(), k3 = u();
    r += 0.5 * k1 * x + 0.4 * std::sin(k2 * x + k3);
  }
  return r;
}
} // namespace vp
