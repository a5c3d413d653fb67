// C24: the logger: what is recorded, when, for which variable, and what is saved
// ASSUMES: the text of a number denotes that number (6 digits); the file system stores what is written
#include "ref.hpp"
#include <cstdio>
#include <fstream>
#include <state-observation/tools/logger.hpp>
#include <unistd.h>
using namespace vp;
using namespace stateObservation;
namespace
{
const double tol = 2e-5;
struct TempDir
{
  char name[40] = "/tmp/vp-C24-XXXXXX";
  TempDir()
  {
    if(!mkdtemp(name)) name[0] = 0;
  }
  ~TempDir()
  {
    if(!name[0]) return;
    for(const char * f : {"/a", "/b", "/c"}) std::remove((std::string(name) + f).c_str());
    rmdir(name);
  }
  std::string operator/(const std::string & f) const
  {
    return std::string(name) + "/" + f;
  }
};
bool exists(const std::string & f)
{
  return std::ifstream(f.c_str()).is_open();
}
typedef std::vector<Mat> Values;
void same(const IndexedMatrixArray & a, const Values & v, long first, const std::string & l, double tolerance = 0)
{
  ensure(l + ": number of values", a.size() == TimeSize(v.size()));
  if(a.size() != TimeSize(v.size()) || v.empty()) return;
  ensure(l + ": times", a.getFirstIndex() == first);
  if(a.getFirstIndex() != first) return;
  for(size_t i = 0; i < v.size(); ++i)
    if(tolerance > 0)
      ensureEq(l, a[first + i], v[i], tolerance);
    else
      ensureEq(l, a[first + i], v[i]);
}
Mat scalar(const R & x)
{
  return Mat::Constant(1, 1, x);
}
// the ways to name a variable
template<class T>
void track(tools::Logger & l, T & x, const std::string & file, long how)
{
  if(how == 0)
    l.record(&x, file);
  else if(how == 1)
    l.record(x, file);
  else
    l.record(static_cast<const T *>(&x), file);
}
template<class T>
void one(tools::Logger & l, T & x, long how)
{
  if(how == 0)
    l.push(&x);
  else if(how == 1)
    l.push(x);
  else
    l.push(static_cast<const T *>(&x));
}
template<class T, class F, class G>
void history(T & x, F next, G value)
{
  long how = pick("how", 0, 2);
  tools::Logger l;
  R other = in("other");
  l.record(other);
  track(l, x, "", how);
  Values v;
  long others = 0;
  for(long i = 0; i < 3; ++i)
  {
    next(x, i);
    switch(pick("event" + std::to_string(i), 0, 2))
    {
      case 0:
        l.push();
        v.push_back(value(x));
        ++others;
        break;
      case 1:
        one(l, x, how);
        v.push_back(value(x));
        break;
      case 2:
        break;
    }
    same(l.getRecord(&x), v, 0, "values at the time they are pushed");
    same(const_cast<const tools::Logger &>(l).getRecord(&x), v, 0, "the same through a constant logger");
  }
  ensure("the other variable is pushed with all only", long(l.getRecord(&other).size()) == others);
}
} // namespace
CONTRACT(scalars, "Logger::record, push, getRecord (scalars)")
{
  switch(pick("type", 0, 4))
  {
    case 0: {
      R x = R(0);
      history(x, [](R & y, long i) { y = in("x" + std::to_string(i)); }, [](const R & y) { return scalar(y); });
      break;
    }
    case 1: {
      int x = 0;
      history(x, [](int & y, long i) { y = int(3 * i - 4); }, [](int y) { return scalar(R(y)); });
      break;
    }
    case 2: {
      unsigned x = 0;
      history(x, [](unsigned & y, long i) { y = 4000000000u + unsigned(i); }, [](unsigned y) { return scalar(R(long(y))); });
      break;
    }
    case 3: {
      long x = 0;
      history(x, [](long & y, long i) { y = i - 5000000000l; }, [](long y) { return scalar(R(y)); });
      break;
    }
    case 4: {
      float x = 0;
      history(x, [](float & y, long i) { y = float(i) * 0.5f - 1; }, [](float y) { return scalar(R(double(y))); });
      break;
    }
  }
}
CONTRACT(matrices, "Logger::record, push, getRecord (vectors and matrices)")
{
  switch(pick("type", 0, 3))
  {
    case 0: {
      Vector3 x = V3::Zero();
      history(x, [](Vector3 & y, long i) { y = vec3("x" + std::to_string(i)); }, [](const Vector3 & y) { return Mat(y); });
      break;
    }
    case 1: {
      Matrix3 x = M3::Zero();
      history(x, [](Matrix3 & y, long i) { y = mat("x" + std::to_string(i), 3, 3); },
              [](const Matrix3 & y) { return Mat(y); });
      break;
    }
    case 2: {
      Vector x(0);
      history(x, [](Vector & y, long i) { y = vec("x" + std::to_string(i), 1 + i); }, [](const Vector & y) { return Mat(y); });
      break;
    }
    case 3: {
      Matrix x(0, 0);
      history(x, [](Matrix & y, long i) { y = mat("x" + std::to_string(i), 1 + i, 2); },
              [](const Matrix & y) { return Mat(y); });
      break;
    }
  }
}
CONTRACT(unknown, "Logger: unknown variables and types are refused")
{
  tools::Logger l;
  R x = in("x"), y = in("y");
  std::string s("text");
  char c = 'c';
  l.record(x, "a");
  refuses("record of a variable never recorded", [&]() { l.getRecord(&y); });
  refuses("push of a variable never recorded", [&]() { l.push(&y); });
  refuses("push of its reference", [&]() { l.push(y); });
  refuses("address never recorded", [&]() { l.updateAddress(&y, &x); });
  refuses("a text", [&]() { l.record(s); });
  refuses("a character", [&]() { l.record(&c); });
  l.push();
  ensure("the known variable is not affected", l.getRecord(&x).size() == 1);
  l.clearTracking();
  refuses("forgotten variable", [&]() { l.getRecord(&x); });
}
CONTRACT(clears, "Logger::clearLogs, updateAddress")
{
  tools::Logger l;
  R x = in("x"), y = in("y");
  Vector3 w = vec3("w");
  l.record(x, "a");
  l.record(w);
  long n = pick("n", 0, 2);
  for(long i = 0; i < n; ++i) l.push();
  Values v(n, scalar(x)), vw(n, Mat(w));
  bool clear = pick("clear", 0, 1), move = pick("move", 0, 1), back = pick("back", 0, 1);
  long first = 0;
  if(clear)
  {
    l.clearLogs();
    v.clear();
    vw.clear();
    first = n;
    same(l.getRecord(&x), v, first, "cleared");
  }
  if(move)
  {
    // the variable lives elsewhere from now on
    l.updateAddress(&x, &y);
    same(l.getRecord(&y), v, first, "moved");
    refuses("the old address", [&]() { l.getRecord(&x); });
  }
  R other = in("other");
  if(move && back) l.updateAddress(&y, &x);
  l.push();
  bool there = move && !back;
  v.push_back(scalar(there ? y : x));
  vw.push_back(Mat(w));
  same(l.getRecord(there ? &y : &x), v, first, "continued, the times going on");
  same(l.getRecord(&w), vw, first, "the other variable");
}
CONTRACT(saves, "Logger::setPath, save")
{
  TempDir d;
  machine(d.name[0] != 0);
  tools::Logger l;
  R x = in("x"), z = in("z");
  Vector3 w = vec3("w");
  l.setPath(d.name);
  l.record(x, "a");
  l.record(w, "b");
  l.record(z);
  long n = pick("n", 1, 2);
  for(long i = 0; i < n; ++i)
  {
    l.push();
    x = x + 1;
  }
  bool clear = pick("clear", 0, 1), append = pick("append", 0, 1);
  l.save(clear, false);
  l.push();
  x = x + 1;
  l.save(false, append);
  // what the files hold
  Values va, vb;
  R y = in("x");
  for(long i = 0; i <= n; ++i) va.push_back(scalar(R(y + i))), vb.push_back(Mat(w));
  IndexedMatrixArray a, b;
  if(append && !clear)
  {
    // everything twice: the lines of both files
    std::ifstream f((d / "a").c_str());
    long lines = 0;
    std::string s;
    while(std::getline(f, s)) ++lines;
    ensure("appended lines", lines == 2 * n + 1);
    return;
  }
  long first = clear && !append ? n : 0;
  va.erase(va.begin(), va.begin() + first);
  vb.erase(vb.begin(), vb.begin() + first);
  a.readFromFile(d / "a", 1, 1);
  b.readFromFile(d / "b", 3, 1);
  same(a, va, first, "file of the scalar", tol);
  same(b, vb, first, "file of the vector", tol);
  ensure("a variable without a file name is not saved", l.getRecord(&z).size() == n + 1);
}
