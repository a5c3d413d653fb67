// The verifier's symbolic real: a drop-in scalar for Eigen and for the re-typed /repo sources.
// A Real is a mathematical real (no rounding, no NaN, no infinity); see DESIGN.md, "Assumptions".
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>

namespace vp
{
struct Real
{
  int32_t id; // >=0: node of the term graph, -1: the constant c, -2: uninitialised (an arbitrary value)
  double c;
  constexpr Real() : id(-2), c(0) {}
  template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
  constexpr Real(T v) : id(-1), c(static_cast<double>(v))
  {
  }
  // conversions out of the reals: only constants have one value; anything else ends the path as "undecided"
  template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
  explicit operator T() const
  {
    return conv<T>(std::integral_constant<bool, std::is_same<T, bool>::value>(),
                   std::integral_constant<bool, std::is_integral<T>::value>());
  }
  Real & operator+=(const Real & o);
  Real & operator-=(const Real & o);
  Real & operator*=(const Real & o);
  Real & operator/=(const Real & o);
  constexpr Real operator-() const
  {
    return __builtin_is_constant_evaluated() ? Real(-c) : negated();
  }
  Real negated() const;
  Real operator+() const
  {
    return *this;
  }
  Real & operator++()
  {
    return *this += Real(1);
  }
  Real & operator--()
  {
    return *this -= Real(1);
  }
  Real operator++(int)
  {
    Real t(*this);
    *this += Real(1);
    return t;
  }
  bool operator!() const;

private:
  bool nonzero() const;
  long toLong() const; // truncation; forks over the possible values
  double toDouble() const;
  template<class T>
  T conv(std::true_type, std::true_type) const
  {
    return nonzero();
  }
  template<class T>
  T conv(std::false_type, std::true_type) const
  {
    return static_cast<T>(toLong());
  }
  template<class T>
  T conv(std::false_type, std::false_type) const
  {
    return static_cast<T>(toDouble());
  }
};

Real add(const Real & a, const Real & b);
Real sub(const Real & a, const Real & b);
Real mul(const Real & a, const Real & b);
Real div(const Real & a, const Real & b);
bool lt(const Real & a, const Real & b); // decides or forks
bool eq(const Real & a, const Real & b);

// constant expressions of the source (constexpr members) are folded by the compiler; everything else builds terms
#define VP_BIN(op, f)                                                                          \
  constexpr Real operator op(const Real & a, const Real & b)                                   \
  {                                                                                            \
    return __builtin_is_constant_evaluated() ? Real(a.c op b.c) : f(a, b);                     \
  }
VP_BIN(+, add)
VP_BIN(-, sub)
VP_BIN(*, mul)
VP_BIN(/, div)
#undef VP_BIN
#define VP_CMP(op, f)                                                       \
  constexpr bool operator op(const Real & a, const Real & b)                \
  {                                                                         \
    return __builtin_is_constant_evaluated() ? (a.c op b.c) : (f);          \
  }
VP_CMP(<, lt(a, b))
VP_CMP(>, lt(b, a))
VP_CMP(<=, !lt(b, a))
VP_CMP(>=, !lt(a, b))
VP_CMP(==, eq(a, b))
VP_CMP(!=, !eq(a, b))
#undef VP_CMP
inline Real & Real::operator+=(const Real & o)
{
  return *this = add(*this, o);
}
inline Real & Real::operator-=(const Real & o)
{
  return *this = sub(*this, o);
}
inline Real & Real::operator*=(const Real & o)
{
  return *this = mul(*this, o);
}
inline Real & Real::operator/=(const Real & o)
{
  return *this = div(*this, o);
}
inline Real Real::negated() const
{
  return mul(Real(-1), *this);
}
inline bool Real::operator!() const
{
  return !nonzero();
}

Real sqrt(const Real &);
Real sin(const Real &);
Real cos(const Real &);
Real tan(const Real &);
Real asin(const Real &);
Real acos(const Real &);
Real atan(const Real &);
Real atan2(const Real &, const Real &);
Real exp(const Real &);
Real log(const Real &);
Real sinh(const Real &);
Real cosh(const Real &);
Real tanh(const Real &);
Real pow(const Real &, const Real &);
Real abs(const Real &);
Real floor(const Real &);
Real ceil(const Real &);
Real round(const Real &);
Real fmod(const Real &, const Real &);
inline Real fabs(const Real & x)
{
  return abs(x);
}
inline Real trunc(const Real & x)
{
  return x < Real(0) ? ceil(x) : floor(x);
}
inline Real abs2(const Real & x)
{
  return x * x;
}
inline bool isnan(const Real &)
{
  return false;
}
inline bool isinf(const Real &)
{
  return false;
}
inline bool isfinite(const Real &)
{
  return true;
}
inline bool signbit(const Real & x)
{
  return x < Real(0);
}
inline Real hypot(const Real & x, const Real & y)
{
  return sqrt(x * x + y * y);
}
inline Real copysign(const Real & x, const Real & y)
{
  return signbit(y) ? -abs(x) : abs(x);
}
inline Real fmax(const Real & x, const Real & y)
{
  return x < y ? y : x;
}
inline Real fmin(const Real & x, const Real & y)
{
  return y < x ? y : x;
}
std::ostream & operator<<(std::ostream &, const Real &);
std::istream & operator>>(std::istream &, Real &);
} // namespace vp

namespace std
{
using vp::abs;
using vp::acos;
using vp::asin;
using vp::atan;
using vp::atan2;
using vp::ceil;
using vp::copysign;
using vp::cos;
using vp::cosh;
using vp::exp;
using vp::fabs;
using vp::floor;
using vp::fmax;
using vp::fmin;
using vp::fmod;
using vp::hypot;
using vp::isfinite;
using vp::isinf;
using vp::isnan;
using vp::log;
using vp::pow;
using vp::round;
using vp::signbit;
using vp::sin;
using vp::sinh;
using vp::sqrt;
using vp::tan;
using vp::tanh;
using vp::trunc;
#define VP_MM(f, cmp)                                                                                       \
  template<class T>                                                                                         \
  typename enable_if<is_arithmetic<T>::value, vp::Real>::type f(const vp::Real & a, const T & b)             \
  {                                                                                                         \
    return f<vp::Real>(a, vp::Real(b));                                                                     \
  }                                                                                                         \
  template<class T>                                                                                         \
  typename enable_if<is_arithmetic<T>::value, vp::Real>::type f(const T & a, const vp::Real & b)             \
  {                                                                                                         \
    return f<vp::Real>(vp::Real(a), b);                                                                     \
  }
VP_MM(max, <)
VP_MM(min, >)
#undef VP_MM
template<>
class numeric_limits<vp::Real>
{
public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = true,
                        has_infinity = false, has_quiet_NaN = false, has_signaling_NaN = false, is_iec559 = false,
                        is_bounded = true, is_modulo = false, traps = false, tinyness_before = false,
                        has_denorm_loss = false;
  static constexpr float_denorm_style has_denorm = denorm_absent;
  static constexpr float_round_style round_style = round_to_nearest;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021,
                       min_exponent10 = -307, max_exponent = 1024, max_exponent10 = 308;
  static constexpr vp::Real(min)()
  {
    return (numeric_limits<double>::min)();
  }
  static constexpr vp::Real(max)()
  {
    return (numeric_limits<double>::max)();
  }
  static constexpr vp::Real lowest()
  {
    return numeric_limits<double>::lowest();
  }
  static constexpr vp::Real epsilon()
  {
    return numeric_limits<double>::epsilon();
  }
  static constexpr vp::Real round_error()
  {
    return 0.5;
  }
  static constexpr vp::Real infinity()
  {
    return (numeric_limits<double>::max)();
  }
  static constexpr vp::Real quiet_NaN()
  {
    return vp::Real();
  }
  static constexpr vp::Real denorm_min()
  {
    return numeric_limits<double>::denorm_min();
  }
};
} // namespace std

#include <random>
namespace vp
{
Real gaussianDraw(); // a fresh arbitrary real per draw
Real uniformDraw(); // a fresh arbitrary real of [0,1)
}
namespace std
{
template<>
class normal_distribution<vp::Real>
{
  vp::Real m_, s_;

public:
  typedef vp::Real result_type;
  normal_distribution(vp::Real m = 0, vp::Real s = 1) : m_(m), s_(s) {}
  template<class G>
  vp::Real operator()(G &)
  {
    return m_ + s_ * vp::gaussianDraw();
  }
  void reset() {}
};
template<>
class uniform_real_distribution<vp::Real>
{
  vp::Real a_, b_;

public:
  typedef vp::Real result_type;
  uniform_real_distribution(vp::Real a = 0, vp::Real b = 1) : a_(a), b_(b) {}
  template<class G>
  vp::Real operator()(G &)
  {
    return a_ + (b_ - a_) * vp::uniformDraw();
  }
};
} // namespace std

#ifndef BOOST_ENABLE_ASSERT_HANDLER
#  error "compile with -DBOOST_ENABLE_ASSERT_HANDLER"
#endif
namespace vp
{
[[noreturn]] void assertionFailed(const char * expr, const char * function, const char * file, long line);
}
#define eigen_assert(x)                                                          \
  do                                                                             \
  {                                                                              \
    if(!(x)) ::vp::assertionFailed(#x, __PRETTY_FUNCTION__, __FILE__, __LINE__); \
  } while(false)
namespace boost
{
inline void assertion_failed(char const * expr, char const * function, char const * file, long line)
{
  ::vp::assertionFailed(expr, function, file, line);
}
inline void assertion_failed_msg(char const * expr, char const *, char const * function, char const * file, long line)
{
  ::vp::assertionFailed(expr, function, file, line);
}
} // namespace boost
#define EIGEN_DONT_VECTORIZE
#include <Eigen/Core>
namespace Eigen
{
template<>
struct NumTraits<vp::Real> : GenericNumTraits<vp::Real>
{
  typedef vp::Real Real;
  typedef vp::Real NonInteger;
  typedef vp::Real Nested;
  typedef vp::Real Literal;
  enum
  {
    IsComplex = 0,
    IsInteger = 0,
    IsSigned = 1,
    RequireInitialization = 1,
    ReadCost = 1,
    AddCost = 3,
    MulCost = 3
  };
  static inline Real epsilon() // Eigen's guards against rounding are off: the arithmetic is exact
  {
    return 0;
  }
  static inline Real dummy_precision()
  {
    return 1e-12;
  }
  static inline int digits10()
  {
    return 15;
  }
};
} // namespace Eigen
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/SVD>
#include <Eigen/StdVector>
namespace Eigen
{
#define VP_T(S, N)                                        \
  typedef Matrix<::vp::Real, N, 1> Vector##S##R;          \
  typedef Matrix<::vp::Real, 1, N> RowVector##S##R;       \
  typedef Matrix<::vp::Real, N, N> Matrix##S##R;          \
  typedef Array<::vp::Real, N, 1> Array##S##R;
VP_T(2, 2)
VP_T(3, 3)
VP_T(4, 4)
VP_T(X, Dynamic)
#undef VP_T
typedef Matrix<::vp::Real, 2, Dynamic> Matrix2XR;
typedef Matrix<::vp::Real, 3, Dynamic> Matrix3XR;
typedef Matrix<::vp::Real, 4, Dynamic> Matrix4XR;
typedef Matrix<::vp::Real, Dynamic, 3> MatrixX3R;
typedef Array<::vp::Real, Dynamic, Dynamic> ArrayXXR;
typedef Quaternion<::vp::Real> QuaternionR;
typedef AngleAxis<::vp::Real> AngleAxisR;
typedef Rotation2D<::vp::Real> Rotation2DR;
typedef Transform<::vp::Real, 3, Affine> Affine3R;
typedef Transform<::vp::Real, 3, Isometry> Isometry3R;
typedef Translation<::vp::Real, 3> Translation3R;
} // namespace Eigen
