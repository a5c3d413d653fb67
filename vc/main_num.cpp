// Concrete reading of the contracts: the real library, doubles.
#include "contract.hpp"
#include "ufnum.hpp"
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
namespace vp
{
int expectRefusal = 0;
bool isTooBig(const std::exception &)
{
  return false;
}
std::vector<Contract> & registry()
{
  static std::vector<Contract> r;
  return r;
}
Options & options()
{
  static Options o;
  return o;
}
namespace
{
struct Skip
{
};
std::map<std::string, double> given;
bool replay = false;
std::map<std::string, double> used;
std::vector<std::string> failures;
std::mt19937_64 rng(1);
int round_ = 0;
double uni(double a, double b)
{
  return a + (b - a) * std::generate_canonical<double, 53>(rng);
}
} // namespace
R in(const std::string & n, double lo, double hi)
{
  auto u = used.find(n);
  if(u != used.end()) return u->second;
  double v;
  auto g = given.find(n);
  if(g != given.end())
    v = g->second;
  else
  {
    v = uni(lo, hi) * (round_ % 4 == 1 ? 0.3 : round_ % 4 == 3 ? 0.02 : 1);
    if(v < lo || v > hi) v = uni(lo, hi);
    if(round_ % 5 == 4 && lo <= 0 && hi >= 0 && uni(0, 1) < 0.3) v = 0;
  }
  return used[n] = v;
}
R pos(const std::string & n, double hi, double lo)
{
  return in(n, lo, hi);
}
std::vector<R> unit(const std::vector<std::string> & names)
{
  std::vector<R> r;
  bool have = true;
  for(auto & n : names)
    if(!given.count(n) && !used.count(n)) have = false;
  if(!have)
  {
    double s = 0;
    do
    {
      s = 0;
      for(auto & n : names)
      {
        given[n] = uni(-1, 1);
        if(round_ % 5 == 4 && uni(0, 1) < 0.3) given[n] = 0;
        s += given[n] * given[n];
      }
    } while(s < 1e-4);
    for(auto & n : names) given[n] /= std::sqrt(s);
  }
  for(auto & n : names) r.push_back(in(n, -1, 1));
  return r;
}
long pick(const std::string & n, long lo, long hi)
{
  auto u = used.find(n);
  if(u != used.end()) return std::lround(u->second);
  auto g = given.find(n);
  long v = g != given.end() ? std::lround(g->second) : lo + long(rng() % (unsigned long)(hi - lo + 1));
  if(v < lo) v = lo;
  if(v > hi) v = hi;
  used[n] = v;
  return v;
}
R uf(const std::string & f, int component, const std::vector<R> & args)
{
  return ufNumeric(f + "." + std::to_string(component), args);
}
void assumeS(const R & x, int mask)
{
  int s = x > 0 ? 4 : x < 0 ? 1 : 2;
  if(std::fabs(x) < 1e-12 && (mask & 2)) return;
  if(!(s & mask)) throw Skip();
}
void ensureS(const std::string & label, const R & a, const R & b, int mask, double tol)
{
  double d = a - b, scale = 1 + std::max(std::fabs(a), std::fabs(b));
  bool ok = !(d != d);
  if(ok)
  {
    int s = d > 0 ? 4 : d < 0 ? 1 : 2;
    if(!(s & mask)) ok = (mask & 2) ? std::fabs(d) <= tol * scale : (mask == 5 ? false : std::fabs(d) <= tol * scale);
  }
  if(!ok)
  {
    std::ostringstream o;
    o.precision(12);
    o << label << ": " << a << " vs " << b;
    failures.push_back(o.str());
  }
}
void ensure(const std::string & label, bool b)
{
  if(!b) failures.push_back(label);
}
} // namespace vp
#include <boost/assert.hpp>
struct AssertFail
{
  std::string what;
};
namespace boost
{
void assertion_failed(char const * expr, char const *, char const * file, long line)
{
  if(vp::expectRefusal) throw vp::Refused();
  throw AssertFail{std::string("assertion `") + expr + "` in " + file + ":" + std::to_string(line)};
}
void assertion_failed_msg(char const * expr, char const *, char const *, char const * file, long line)
{
  if(vp::expectRefusal) throw vp::Refused();
  throw AssertFail{std::string("assertion `") + expr + "` in " + file + ":" + std::to_string(line)};
}
} // namespace boost
namespace vp
{
void eigenAssertFailed(const char * expr, const char * file, long line)
{
  if(vp::expectRefusal) throw vp::Refused();
  throw AssertFail{std::string("assertion `") + expr + "` in " + file + ":" + std::to_string(line)};
}
} // namespace vp
// exit 0: held (or precondition not met: 3); 1: a postcondition failed
static int once(const vp::Contract & c)
{
  vp::used.clear();
  vp::failures.clear();
  try
  {
    c.fn();
  }
  catch(vp::Skip &)
  {
    if(vp::failures.empty()) return 3;
  }
  catch(AssertFail & a)
  {
    vp::failures.push_back(a.what);
  }
  catch(std::exception & e)
  {
    vp::failures.push_back(std::string("uncaught exception: ") + e.what());
  }
  return vp::failures.empty() ? 0 : 1;
}
int main(int argc, char ** argv)
{
  std::string run, file;
  long samples = 0, seed = 1;
  for(int i = 1; i < argc; ++i)
  {
    if(!strcmp(argv[i], "--list"))
    {
      for(auto & c : vp::registry()) std::cout << c.name << "\t" << c.function << "\n";
      return 0;
    }
    if(i + 1 < argc)
    {
      if(!strcmp(argv[i], "--run")) run = argv[++i];
      else if(!strcmp(argv[i], "--replay")) file = argv[++i];
      else if(!strcmp(argv[i], "--sample")) samples = atol(argv[++i]);
      else if(!strcmp(argv[i], "--seed")) seed = atol(argv[++i]);
    }
  }
  for(auto & c : vp::registry())
    if(c.name == run)
    {
      if(!file.empty())
      {
        std::ifstream f(file);
        std::string n;
        double v;
        while(f >> n >> v) vp::given[n] = v;
        int r = once(c);
        for(auto & x : vp::failures) std::cout << "FAILED " << x << "\n";
        return r;
      }
      long held = 0, skipped = 0;
      vp::rng.seed(seed);
      for(long k = 0; k < samples; ++k)
      {
        vp::given.clear();
        vp::round_ = k;
        int r = once(c);
        if(r == 1)
        {
          std::cout.precision(17);
          for(auto & x : vp::failures) std::cout << "FAILED " << x << "\n";
          for(auto & x : vp::used) std::cout << "INPUT " << x.first << " " << x.second << "\n";
          return 1;
        }
        (r == 3 ? skipped : held)++;
      }
      std::cout << "held " << held << " skipped " << skipped << "\n";
      return 0;
    }
  std::cerr << "no contract " << run << "\n";
  return 2;
}
