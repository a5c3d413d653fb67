// The contract language.  One text, two readings:
//   VP_SYMBOLIC  the functions run on symbolic reals; `assume` is a precondition, `ensure` an obligation for every input;
//   otherwise    the functions of the real library run on doubles: replay of a counterexample, and sampling.
#pragma once
#ifdef VP_SYMBOLIC
#  include "real.hpp"
#  include "engine.hpp"
#else
#  include <Eigen/Dense>
#  include <Eigen/Geometry>
#endif
#include <functional>
#include <string>
#include <vector>

namespace vp
{
#ifdef VP_SYMBOLIC
typedef Real R;
#else
typedef double R;
#endif
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> Vec;
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> Mat;
typedef Eigen::Matrix<R, 3, 1> V3;
typedef Eigen::Matrix<R, 3, 3> M3;
typedef Eigen::Quaternion<R> Q4;

struct Contract
{
  std::string name, function, property;
  void (*fn)();
};
struct Options
{
  long maxPaths = 60000, maxDecisions = 3000, samples = 400;
  unsigned feasMs = 400, obligMs = 8000;
  double seconds = 300;
  long seed = 1;
};
Options & options();
std::vector<Contract> & registry();
struct Reg
{
  Reg(const char * name, const char * function, void (*fn)())
  {
    registry().push_back({name, function, "", fn});
  }
};
#define CONTRACT(id, function)                          \
  static void id();                                     \
  static ::vp::Reg vp_reg_##id(#id, function, id);      \
  static void id()

// a contract beyond the reach of the symbolic reading: only sampled on the real code (bounded, never counted as proved)
#ifdef VP_SYMBOLIC
#  define BOUNDED(id, function) [[maybe_unused]] static void id()
#else
#  define BOUNDED(id, function) CONTRACT(id, function)
#endif

// --- inputs
R in(const std::string & name, double lo = -2, double hi = 2);
R pos(const std::string & name, double hi = 2, double lo = 0.05);
std::vector<R> unit(const std::vector<std::string> & names);
long pick(const std::string & name, long lo, long hi); // every integer of [lo, hi]
R uf(const std::string & f, int component, const std::vector<R> & args);
#ifdef VP_SYMBOLIC
inline R in(const std::string & name, double lo, double hi)
{
  return var(name, lo, hi);
}
inline R pos(const std::string & name, double hi, double lo)
{
  return posVar(name, lo, hi);
}
inline std::vector<R> unit(const std::vector<std::string> & names)
{
  return unitVars(names);
}
inline long pick(const std::string & name, long lo, long hi)
{
  return choice(name, lo, hi);
}
inline R uf(const std::string & f, int component, const std::vector<R> & args)
{
  return uninterpreted(f, component, args);
}
// assumptions / obligations on the sign of a real
inline void assumeS(const R & x, int mask)
{
  assumeSign(x, mask);
}
inline void ensureS(const std::string & label, const R & a, const R & b, int mask, double)
{
  obligSign(label, a - b, mask);
}
inline void ensure(const std::string & label, bool b)
{
  obligTrue(label, b);
}
#else
void assumeS(const R & x, int mask);
void ensureS(const std::string & label, const R & a, const R & b, int mask, double tol);
void ensure(const std::string & label, bool b);
#endif
inline void assume(bool b)
{
  if(!b) assumeS(R(1), 2);
}
// symbolic reading: time given to the solver to rule a branch out (an unknown branch is explored)
inline void pruning(unsigned ms)
{
#ifdef VP_SYMBOLIC
  options().feasMs = ms;
#else
  (void)ms;
#endif
}
// the concrete reading only: leave out inputs where rounding, which the symbolic reading does not have, takes the
// function to the other side of a discontinuity or of an exact assertion
inline void machine(bool b)
{
#ifndef VP_SYMBOLIC
  assume(b);
#else
  (void)b;
#endif
}
// the call is refused: it ends with a failed assertion (or an exception), not with an answer
struct Refused
{
};
extern int expectRefusal;
bool isTooBig(const std::exception & e); // a limit of the verifier, not an answer of the code
inline bool refused(const std::function<void()> & f)
{
  struct Scope
  {
    Scope()
    {
      ++expectRefusal;
    }
    ~Scope()
    {
      --expectRefusal;
    }
  } scope;
  bool r = false;
  try
  {
    f();
  }
  catch(Refused &)
  {
    r = true;
  }
  catch(std::exception & e)
  {
    if(isTooBig(e)) throw;
    r = true;
  }
  return r;
}
inline void refuses(const std::string & l, const std::function<void()> & f)
{
  ensure(l, refused(f));
}
inline void assumeLt(const R & a, const R & b)
{
  assumeS(a - b, 1);
}
inline void assumeLe(const R & a, const R & b)
{
  assumeS(a - b, 3);
}
inline void assumeNe(const R & a, const R & b)
{
  assumeS(a - b, 5);
}
inline void ensureEq(const std::string & l, const R & a, const R & b, double tol = 1e-6)
{
  ensureS(l, a, b, 2, tol);
}
inline void ensureLe(const std::string & l, const R & a, const R & b, double tol = 1e-9)
{
  ensureS(l, a, b, 3, tol);
}
inline void ensureLt(const std::string & l, const R & a, const R & b, double tol = 0)
{
  ensureS(l, a, b, 1, tol);
}
template<class A, class B>
void ensureEq(const std::string & l, const Eigen::MatrixBase<A> & a, const Eigen::MatrixBase<B> & b, double tol = 1e-6)
{
  Mat x(a), y(b);
  if(x.rows() != y.rows() || x.cols() != y.cols())
  {
    ensure(l + " (dimensions)", false);
    return;
  }
  for(long j = 0; j < x.cols(); ++j)
    for(long i = 0; i < x.rows(); ++i) ensureEq(l, R(x(i, j)), R(y(i, j)), tol);
}
// --- structured inputs
inline V3 vec3(const std::string & n, double a = 2)
{
  return V3(in(n + "x", -a, a), in(n + "y", -a, a), in(n + "z", -a, a));
}
inline Vec vec(const std::string & n, long k, double a = 2)
{
  Vec v(k);
  for(long i = 0; i < k; ++i) v(i) = in(n + std::to_string(i), -a, a);
  return v;
}
inline Mat mat(const std::string & n, long r, long c, double a = 2)
{
  Mat m(r, c);
  for(long i = 0; i < r; ++i)
    for(long j = 0; j < c; ++j) m(i, j) = in(n + std::to_string(i) + "_" + std::to_string(j), -a, a);
  return m;
}
inline Mat sym(const std::string & n, long k, double a = 2)
{
  Mat m(k, k);
  for(long i = 0; i < k; ++i)
    for(long j = i; j < k; ++j) m(i, j) = m(j, i) = in(n + std::to_string(i) + "_" + std::to_string(j), -a, a);
  return m;
}
// every symmetric positive definite matrix is L L^T with L lower triangular with positive diagonal
inline Mat spd(const std::string & n, long k, double a = 1)
{
  Mat m = Mat::Zero(k, k);
  for(long i = 0; i < k; ++i)
    for(long j = 0; j <= i; ++j)
    {
      std::string s = n + std::to_string(i) + "_" + std::to_string(j);
      m(i, j) = i == j ? pos(s, 1.5, 0.3) : in(s, -a, a);
    }
  return m * m.transpose();
}
inline V3 unit3(const std::string & n)
{
  std::vector<R> u = unit({n + "z", n + "x", n + "y"});
  return V3(u[1], u[2], u[0]);
}
inline Q4 unitQ(const std::string & n)
{
  std::vector<R> u = unit({n + "w", n + "x", n + "y", n + "z"});
  return Q4(u[0], u[1], u[2], u[3]);
}
// every rotation matrix comes from a unit quaternion
inline M3 rotOf(const Q4 & q)
{
  M3 m;
  R w = q.w(), x = q.x(), y = q.y(), z = q.z();
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
      2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
inline M3 skewOf(const V3 & v)
{
  M3 m;
  m << R(0), -v.z(), v.y(), v.z(), R(0), -v.x(), -v.y(), v.x(), R(0);
  return m;
}
int runContract(const Contract & c, const std::string & out); // symbolic only
} // namespace vp
