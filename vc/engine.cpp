#include "engine.hpp"
#include "contract.hpp"
#include "poly.hpp"
#include "ufnum.hpp"
#include <z3++.h>
#define VP_EARLY __attribute__((init_priority(200)))
#include <charconv>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>

namespace vp
{
namespace
{
double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------------------------------------ term graph
enum Op
{
  VAR,
  CST,
  PI,
  ADD,
  MUL,
  DIV,
  SQRT,
  SIN,
  COS,
  ATAN2,
  ASIN,
  ACOS,
  EXP,
  LOG,
  FLOOR,
  UF
};
struct Node
{
  Op op;
  int a = -1, b = -1;
  mpq_class q;
  std::string name;
  std::vector<int> args;
  std::shared_ptr<Frac> nf;
  int atom = -1;
};
std::deque<Node> nodes VP_EARLY;
std::unordered_map<std::string, int> nodeTab VP_EARLY;

int mk(Op op, int a, int b)
{
  std::string key = std::to_string(op) + ":" + std::to_string(a) + ":" + std::to_string(b);
  auto it = nodeTab.find(key);
  if(it != nodeTab.end()) return it->second;
  Node n;
  n.op = op;
  n.a = a;
  n.b = b;
  nodes.push_back(n);
  return nodeTab[key] = nodes.size() - 1;
}
int mkCst(const mpq_class & q)
{
  std::string key = "c" + q.get_str();
  auto it = nodeTab.find(key);
  if(it != nodeTab.end()) return it->second;
  Node n;
  n.op = CST;
  n.q = q;
  nodes.push_back(n);
  return nodeTab[key] = nodes.size() - 1;
}
int mkNamed(Op op, const std::string & name, const std::vector<int> & args)
{
  std::string key = (op == VAR ? "v" : "f") + name;
  for(int a : args) key += "," + std::to_string(a);
  auto it = nodeTab.find(key);
  if(it != nodeTab.end()) return it->second;
  Node n;
  n.op = op;
  n.name = name;
  n.args = args;
  nodes.push_back(n);
  return nodeTab[key] = nodes.size() - 1;
}

// -------------------------------------------------------------------------------------------------- atoms
struct AtomInfo
{
  std::string name;
  int node = -1; // the VAR/UF node, or the node the atom abbreviates
  bool isVar = false;
  bool nonneg = false, positive = false;
  bool hasSq = false; // atom^2 == sq
  Frac sq;
  bool isAngle = false; // inverse trigonometric value
  Frac sinF, cosF;
  bool hasBounds = false;
  double lo = 0, hi = 0;
  bool bPi = false; // bounds are in units of pi
  bool isAtan2 = false; // of yF, xF
  Frac yF, xF;
};
std::deque<AtomInfo> atoms VP_EARLY;
std::map<std::string, Atom> atomTab VP_EARLY;
std::string aname(Atom a)
{
  return atoms[a].name;
}
Atom newAtom(const std::string & key)
{
  auto it = atomTab.find(key);
  if(it != atomTab.end()) return it->second;
  AtomInfo i;
  i.name = key;
  atoms.push_back(i);
  return atomTab[key] = atoms.size() - 1;
}

// ------------------------------------------------------------------------------------------- fractions
Frac reduceF(const Frac & f);
Frac fcst(const mpq_class & q)
{
  Frac f;
  f.n = Poly::cst(q);
  return f;
}
Frac fpoly(const Poly & p)
{
  Frac f;
  f.n = p;
  return f;
}
Frac fatom(Atom a)
{
  return fpoly(Poly::atom(a));
}
void cancel(Frac & f)
{
  if(f.n.zero())
  {
    f.d.clear();
    return;
  }
  for(auto it = f.d.begin(); it != f.d.end();)
  {
    Poly q;
    while(it->second > 0 && pdiv(f.n, polyOf(it->first), q))
    {
      f.n = q;
      --it->second;
    }
    if(it->second == 0)
      it = f.d.erase(it);
    else
      ++it;
  }
}
Poly denPoly(const std::map<PolyId, int> & d)
{
  Poly r = Poly::cst(1);
  for(auto & x : d) r = pmul(r, ppow(polyOf(x.first), x.second));
  return r;
}
Frac fadd(const Frac & a, const Frac & b, const mpq_class & kb = 1)
{
  if(a.d == b.d)
  {
    Frac r;
    r.n = padd(a.n, b.n, kb);
    r.d = a.d;
    if(!r.d.empty()) cancel(r);
    return r;
  }
  Frac r;
  r.d = a.d;
  for(auto & x : b.d)
  {
    int & e = r.d[x.first];
    e = std::max(e, x.second);
  }
  Poly ma = Poly::cst(1), mb = Poly::cst(1);
  for(auto & x : r.d)
  {
    auto ia = a.d.find(x.first), ib = b.d.find(x.first);
    int ea = ia == a.d.end() ? 0 : ia->second, eb = ib == b.d.end() ? 0 : ib->second;
    if(x.second > ea) ma = pmul(ma, ppow(polyOf(x.first), x.second - ea));
    if(x.second > eb) mb = pmul(mb, ppow(polyOf(x.first), x.second - eb));
  }
  r.n = padd(pmul(a.n, ma), pmul(b.n, mb), kb);
  return reduceF(r);
}
Frac fmul(const Frac & a, const Frac & b)
{
  Frac r;
  r.n = pmul(a.n, b.n);
  r.d = a.d;
  for(auto & x : b.d) r.d[x.first] += x.second;
  return reduceF(r);
}
Frac finv(const Frac & a)
{
  // 1/(n/d) = d/n, with n split into its monomial content and the rest
  if(a.n.zero()) throw TooBig("division by an expression that is identically zero");
  Frac r;
  r.n = denPoly(a.d);
  Poly n = a.n;
  mpq_class lc = leadCoef(n);
  n = pscale(n, 1 / lc);
  r.n = pscale(r.n, 1 / lc);
  // monomial content
  MonoVec content = monoVec(n.t[0].first);
  for(auto & t : n.t)
  {
    MonoVec c2;
    const MonoVec & v = monoVec(t.first);
    for(auto & x : content)
      for(auto & y : v)
        if(x.first == y.first) c2.push_back({x.first, std::min(x.second, y.second)});
    content = c2;
  }
  if(!content.empty())
  {
    Poly q;
    if(!pdiv(n, Poly::mono(internMono(content), 1), q)) throw TooBig("internal: content");
    n = q;
  }
  for(auto & x : content)
  {
    if(atoms[x.first].hasSq)
    {
      // 1/s = s/s^2
      for(int k = 0; k < x.second; ++k)
      {
        r.n = pmul(r.n, Poly::atom(x.first));
        Frac i = finv(atoms[x.first].sq);
        r.n = pmul(r.n, i.n);
        for(auto & y : i.d) r.d[y.first] += y.second;
      }
    }
    else
      r.d[internPoly(Poly::atom(x.first))] += x.second;
  }
  if(!n.isConst())
  {
    // rationalise a denominator u + v*s whose s has a square: (u - v*s)/(u^2 - v^2 s^2)
    // only when u and v are monomials or constants (keeps the sizes small)
    r.d[internPoly(n)] += 1;
  }
  return reduceF(r);
}
// replace the squares of algebraic atoms
Frac reduceF(const Frac & f0)
{
  Frac f = f0;
  for(;;)
  {
    // the youngest algebraic atom with exponent >= 2
    int best = -1;
    for(auto & t : f.n.t)
      for(auto & x : monoVec(t.first))
        if(x.second >= 2 && atoms[x.first].hasSq && int(x.first) > best) best = x.first;
    if(best < 0) break;
    const Frac & sq = atoms[best].sq;
    // group by power of the square
    std::map<int, std::vector<std::pair<MonoId, mpq_class>>> g;
    int maxk = 0;
    for(auto & t : f.n.t)
    {
      MonoVec v = monoVec(t.first);
      int k = 0;
      for(size_t i = 0; i < v.size(); ++i)
        if(int(v[i].first) == best)
        {
          k = v[i].second / 2;
          v[i].second %= 2;
          if(v[i].second == 0) v.erase(v.begin() + i);
          break;
        }
      g[k].push_back({internMono(v), t.second});
      maxk = std::max(maxk, k);
    }
    Poly sqd = denPoly(sq.d), acc;
    for(int k = 0; k <= maxk; ++k)
    {
      auto it = g.find(k);
      if(it == g.end()) continue;
      Poly p;
      p.t = it->second;
      std::sort(p.t.begin(), p.t.end(), [](const auto & a, const auto & b) { return a.first < b.first; });
      // no duplicates: distinct monomials with the same k differ elsewhere or in parity
      if(k) p = pmul(p, ppow(sq.n, k));
      if(maxk - k > 0 && !sq.d.empty()) p = pmul(p, ppow(sqd, maxk - k));
      acc = padd(acc, p);
    }
    f.n = acc;
    for(auto & x : sq.d) f.d[x.first] += x.second * maxk;
  }
  if(!f.d.empty()) cancel(f);
  return f;
}
std::string fkey(const Frac & f)
{
  std::string k = std::to_string(internPoly(f.n));
  for(auto & x : f.d) k += "/" + std::to_string(x.first) + "^" + std::to_string(x.second);
  return k;
}

Frac nf(int id);

bool sqrtRat(const mpq_class & q, mpq_class & r)
{
  if(q < 0) return false;
  mpz_class a = sqrt(q.get_num()), b = sqrt(q.get_den());
  if(a * a == q.get_num() && b * b == q.get_den())
  {
    r = mpq_class(a, b);
    r.canonicalize();
    return true;
  }
  return false;
}
std::string fstr(const Frac & f);
// p = (linear form or a short polynomial)^2 ?  Simple square-root extraction by leading terms.
bool polySqrt(const Poly & p, Poly & r)
{
  if(p.zero() || p.t.size() > 200) return false;
  Poly rem = p;
  Poly s;
  // leading term
  MonoId lm = leadMono(p);
  MonoVec v = monoVec(lm);
  for(auto & x : v)
  {
    if(x.second % 2) return false;
    x.second /= 2;
  }
  mpq_class c;
  if(!sqrtRat(leadCoef(p), c)) return false;
  MonoId hm = internMono(v);
  s = Poly::mono(hm, c);
  rem = padd(rem, pmul(s, s), -1);
  int guard = 0;
  while(!rem.zero())
  {
    if(++guard > 60) return false;
    MonoId m = leadMono(rem), q;
    if(!monoDiv(m, hm, q)) return false;
    if(!monoLess(q, hm)) return false;
    Poly t = Poly::mono(q, leadCoef(rem) / (2 * c));
    // rem -= 2 s t + t^2
    rem = padd(rem, pmul(s, t), -2);
    rem = padd(rem, pmul(t, t), -1);
    s = padd(s, t);
  }
  r = s;
  return true;
}

Frac sqrtNF(const Frac & a)
{
  if(a.zero()) return a;
  // sqrt(n/d): make the denominator a square by multiplying with the odd factors, whose sign is unknown: only the
  // even part leaves the root (as |.|, so only when known nonnegative)
  mpq_class lc = leadCoef(a.n), rc;
  Frac out = fcst(1);
  Frac in = a;
  mpq_class alc = lc < 0 ? mpq_class(-lc) : lc;
  in.n = pscale(a.n, 1 / alc);
  if(!sqrtRat(alc, rc))
  {
    if(a.isConst())
      rc = 1, in = a;
    else
    {
      // sqrt of a rational: num*den under the root, den outside
      Frac k = sqrtNF(fcst(alc));
      out = k;
      rc = 1;
    }
  }
  out = fmul(out, fcst(rc));
  if(in.isConst() && in.n.constVal() == 1) return out;
  // nonnegative atoms with even exponents in the monomial content
  MonoVec content = monoVec(in.n.t[0].first);
  for(auto & t : in.n.t)
  {
    MonoVec c2;
    for(auto & x : content)
      for(auto & y : monoVec(t.first))
        if(x.first == y.first) c2.push_back({x.first, std::min(x.second, y.second)});
    content = c2;
  }
  for(auto & x : content)
    if(x.second >= 2 && atoms[x.first].nonneg)
    {
      int h = x.second / 2;
      Poly q, m = Poly::mono(internMono({{x.first, 2 * h}}), 1);
      if(pdiv(in.n, m, q))
      {
        in.n = q;
        out = fmul(out, fpoly(Poly::mono(internMono({{x.first, h}}), 1)));
      }
    }
  // even powers of nonnegative denominators
  for(auto it = in.d.begin(); it != in.d.end();)
  {
    const Poly & p = polyOf(it->first);
    bool nn = true, strict = false;
    for(auto & t : p.t)
    {
      if(t.second < 0) nn = false;
      for(auto & x : monoVec(t.first))
        if(x.second % 2 && !atoms[x.first].nonneg) nn = false;
    }
    (void)strict;
    if(nn && it->second >= 2)
    {
      int h = it->second / 2;
      Frac den;
      den.n = Poly::cst(1);
      den.d[it->first] = h;
      out = fmul(out, den);
      it->second -= 2 * h;
    }
    if(nn && it->second == 1)
    {
      // sqrt(n/p) = sqrt(n p)/p
      Frac den;
      den.n = Poly::cst(1);
      den.d[it->first] = 1;
      out = fmul(out, den);
      in.n = pmul(in.n, p);
      it->second = 0;
    }
    if(it->second == 0)
      it = in.d.erase(it);
    else
      ++it;
  }
  in = reduceF(in);
  if(in.isConst())
  {
    mpq_class r;
    if(sqrtRat(in.n.constVal(), r)) return fmul(out, fcst(r));
  }
  Poly root;
  if(in.d.empty() && polySqrt(in.n, root))
  {
    // |root|: only when its sign is syntactically known
    bool nn = true, np = true;
    for(auto & t : root.t)
    {
      bool mnn = true;
      for(auto & x : monoVec(t.first))
        if(x.second % 2 && !atoms[x.first].nonneg) mnn = false;
      if(!mnn) nn = np = false;
      if(t.second < 0)
        nn = false;
      else
        np = false;
    }
    if(nn) return fmul(out, fpoly(root));
    if(np) return fmul(out, fpoly(pscale(root, -1)));
  }
  Atom at = newAtom("sqrt[" + fkey(in) + "]");
  if(!atoms[at].hasSq)
  {
    atoms[at].hasSq = true;
    atoms[at].sq = in;
    atoms[at].nonneg = true;
    atoms[at].name = "sqrt(" + fstr(in) + ")";
  }
  return fmul(out, fatom(at));
}

// sin/cos of n * base, given sin/cos of base
void multipleAngle(const Frac & s, const Frac & c, int n, Frac & sn, Frac & cn)
{
  bool neg = n < 0;
  if(neg) n = -n;
  sn = fcst(0);
  cn = fcst(1);
  for(int i = 0; i < n; ++i)
  {
    Frac s2 = fadd(fmul(sn, c), fmul(cn, s));
    Frac c2 = fadd(fmul(cn, c), fmul(sn, s), -1);
    sn = s2;
    cn = c2;
  }
  if(neg) sn = fmul(sn, fcst(-1));
}
void trigAtoms(const std::string & key, const std::string & pretty, Frac & s, Frac & c)
{
  Atom as = newAtom("sin[" + key + "]"), ac = newAtom("cos[" + key + "]");
  if(!atoms[ac].hasSq)
  {
    atoms[as].name = "sin(" + pretty + ")";
    atoms[ac].name = "cos(" + pretty + ")";
    atoms[as].hasBounds = atoms[ac].hasBounds = true;
    atoms[as].lo = atoms[ac].lo = -1;
    atoms[as].hi = atoms[ac].hi = 1;
    atoms[ac].hasSq = true;
    atoms[ac].sq = fadd(fcst(1), fmul(fatom(as), fatom(as)), -1);
  }
  s = fatom(as);
  c = fatom(ac);
}
Atom piAtom()
{
  Atom a = newAtom("pi");
  atoms[a].hasBounds = true;
  atoms[a].lo = 3.141592653;
  atoms[a].hi = 3.141592654;
  atoms[a].positive = atoms[a].nonneg = true;
  return a;
}
// base: key of a unit-coefficient angle; coefficient k: angle = k*base, granularity 1/2
void trigScaled(const std::string & key, const std::string & pretty, mpq_class k, Frac & s, Frac & c)
{
  mpq_class n = k * 2;
  Frac bs, bc;
  if(n.get_den() == 1 && abs(n) <= 8)
  {
    trigAtoms("1/2*" + key, "(" + pretty + ")/2", bs, bc);
    multipleAngle(bs, bc, n.get_num().get_si(), s, c);
  }
  else
  {
    mpq_class ak = k < 0 ? mpq_class(-k) : k;
    trigAtoms(ak.get_str() + "*" + key, ak.get_str() + "*" + pretty, bs, bc);
    s = k < 0 ? fmul(bs, fcst(-1)) : bs;
    c = bc;
  }
}
void trigNF(const Frac & arg, Frac & s, Frac & c)
{
  s = fcst(0);
  c = fcst(1);
  if(arg.zero()) return;
  auto compose = [&](const Frac & s1, const Frac & c1) {
    Frac s2 = fadd(fmul(s, c1), fmul(c, s1)), c2 = fadd(fmul(c, c1), fmul(s, s1), -1);
    s = s2;
    c = c2;
  };
  if(arg.d.empty() && arg.n.t.size() <= 6)
  {
    for(auto & t : arg.n.t)
    {
      Frac s1, c1;
      const MonoVec v = monoVec(t.first);
      if(v.size() == 1 && v[0].second == 1 && v[0].first == piAtom())
      {
        mpq_class n = t.second * 2;
        if(n.get_den() == 1)
        {
          long k = mpz_class(n.get_num() % 4).get_si();
          k = (k + 4) % 4;
          static const int S[4] = {0, 1, 0, -1}, C[4] = {1, 0, -1, 0};
          compose(fcst(S[k]), fcst(C[k]));
          continue;
        }
      }
      if(v.size() == 1 && v[0].second == 1 && atoms[v[0].first].isAngle)
      {
        AtomInfo & ai = atoms[v[0].first];
        mpq_class k = t.second, k2 = k * 2;
        if(k.get_den() == 1 && abs(k) <= 8)
        {
          multipleAngle(ai.sinF, ai.cosF, k.get_num().get_si(), s1, c1);
          compose(s1, c1);
          continue;
        }
        if(k2.get_den() == 1 && abs(k2) <= 8)
        {
          // the angle is in [-pi,pi]: cos(a/2) = sqrt((1+cos a)/2) >= 0, sin(a/2) = sin a/(2 cos(a/2))
          Frac ch = sqrtNF(fmul(fadd(fcst(1), ai.cosF), fcst(mpq_class(1, 2))));
          Frac sh = fmul(fmul(ai.sinF, fcst(mpq_class(1, 2))), finv(ch));
          multipleAngle(sh, ch, k2.get_num().get_si(), s1, c1);
          compose(s1, c1);
          continue;
        }
      }
      Frac unit = fpoly(Poly::mono(t.first, 1));
      trigScaled(fkey(unit), t.first == 0 ? std::string("1") : fstr(unit), t.second, s1, c1);
      compose(s1, c1);
    }
    return;
  }
  Frac u = arg;
  mpq_class lc = leadCoef(u.n);
  u.n = pscale(u.n, 1 / lc);
  trigScaled(fkey(u), fstr(u), lc, s, c);
}
std::string fstr(const Frac & f)
{
  std::string s = pstr(f.n, aname, 4);
  if(!f.d.empty())
  {
    s = "(" + s + ")/(";
    bool first = true;
    for(auto & x : f.d)
    {
      if(!first) s += "*";
      first = false;
      s += "(" + pstr(polyOf(x.first), aname, 4) + ")";
      if(x.second > 1) s += "^" + std::to_string(x.second);
    }
    s += ")";
  }
  if(s.size() > 160) s = s.substr(0, 150) + "...#" + fkey(f);
  return s;
}
Frac angleNF(const std::string & key, const std::string & pretty, const Frac & s, const Frac & c, double lo, double hi)
{
  Atom a = newAtom(key);
  if(!atoms[a].isAngle)
  {
    atoms[a].isAngle = true;
    atoms[a].name = pretty;
    atoms[a].sinF = s;
    atoms[a].cosF = c;
    atoms[a].hasBounds = true;
    atoms[a].bPi = true;
    atoms[a].lo = lo;
    atoms[a].hi = hi;
    if(lo >= 0) atoms[a].nonneg = true;
  }
  return fatom(a);
}
bool syntSign(const Poly & p, int & mask, bool usePath = true); // below

Frac nfCompute(int id)
{
  Node & n = nodes[id];
  switch(n.op)
  {
    case CST:
      return fcst(n.q);
    case PI:
      return fatom(piAtom());
    case VAR:
      return fatom(n.atom);
    case ADD:
    {
      Frac a = nf(n.a);
      return fadd(a, nf(n.b));
    }
    case MUL:
    {
      Frac a = nf(n.a);
      return fmul(a, nf(n.b));
    }
    case DIV:
    {
      Frac a = nf(n.a);
      if(a.zero()) return a;
      return fmul(a, finv(nf(n.b)));
    }
    case SQRT:
      return sqrtNF(nf(n.a));
    case SIN:
    {
      Frac s, c;
      trigNF(nf(n.a), s, c);
      return s;
    }
    case COS:
    {
      Frac s, c;
      trigNF(nf(n.a), s, c);
      return c;
    }
    case ATAN2:
    {
      Frac y = nf(n.a), x = nf(n.b);
      int mx;
      if(y.zero() && x.isConst())
        return x.n.constVal() >= 0 ? fcst(0) : fatom(piAtom());
      if(y.zero() && x.poly() && syntSign(x.n, mx, false) && (mx & 1) == 0) return fcst(0);
      Frac r = sqrtNF(fadd(fmul(x, x), fmul(y, y)));
      Frac ir = finv(r);
      double lo = -1, hi = 1;
      if(y.poly() && syntSign(y.n, mx, false) && (mx & 1) == 0) lo = 0;
      if(x.poly() && syntSign(x.n, mx, false) && (mx & 1) == 0)
      {
        lo = std::max(lo, -0.5);
        hi = 0.5;
      }
      Frac at = angleNF("atan2[" + fkey(y) + "," + fkey(x) + "]", "atan2(" + fstr(y) + "," + fstr(x) + ")", fmul(y, ir),
                        fmul(x, ir), lo, hi);
      AtomInfo & ai = atoms[newAtom("atan2[" + fkey(y) + "," + fkey(x) + "]")];
      ai.isAtan2 = true;
      ai.yF = y;
      ai.xF = x;
      return at;
    }
    case ASIN:
    {
      Frac s = nf(n.a);
      if(s.zero()) return s;
      Frac c = sqrtNF(fadd(fcst(1), fmul(s, s), -1));
      return angleNF("asin[" + fkey(s) + "]", "asin(" + fstr(s) + ")", s, c, -0.5, 0.5);
    }
    case ACOS:
    {
      Frac c = nf(n.a);
      if(c.isConst() && c.n.constVal() == 1) return fcst(0);
      if(c.isConst() && c.n.constVal() == -1) return fatom(piAtom());
      Frac s = sqrtNF(fadd(fcst(1), fmul(c, c), -1));
      return angleNF("acos[" + fkey(c) + "]", "acos(" + fstr(c) + ")", s, c, 0, 1);
    }
    case EXP:
    {
      Frac a = nf(n.a);
      if(a.zero()) return fcst(1);
      Frac r = fcst(1);
      auto one = [&](const Frac & unit, mpq_class k) {
        bool neg = k < 0;
        if(neg) k = -k;
        int e = 1;
        mpq_class base = k;
        if(k.get_den() == 1 && k <= 8)
        {
          e = k.get_num().get_si();
          base = 1;
        }
        Atom at = newAtom("exp[" + base.get_str() + "*" + fkey(unit) + "]");
        atoms[at].positive = atoms[at].nonneg = true;
        atoms[at].name = "exp(" + base.get_str() + "*" + fstr(unit) + ")";
        Frac f = fpoly(Poly::mono(internMono({{at, e}}), 1));
        r = fmul(r, neg ? finv(f) : f);
      };
      if(a.d.empty() && a.n.t.size() <= 6)
        for(auto & t : a.n.t) one(fpoly(Poly::mono(t.first, 1)), t.second);
      else
      {
        Frac u = a;
        mpq_class lc = leadCoef(u.n);
        u.n = pscale(u.n, 1 / lc);
        one(u, lc);
      }
      return r;
    }
    case LOG:
    {
      Frac a = nf(n.a);
      if(a.isConst() && a.n.constVal() == 1) return fcst(0);
      return fatom(newAtom("log[" + fkey(a) + "]"));
    }
    case FLOOR:
    {
      Frac a = nf(n.a);
      if(a.isConst())
      {
        mpz_class r;
        mpq_class v = a.n.constVal();
        mpz_fdiv_q(r.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
        return fcst(mpq_class(r));
      }
      return fatom(newAtom("floor[" + fkey(a) + "]"));
    }
    case UF:
    {
      std::string key = "uf:" + n.name + "(";
      for(int x : n.args) key += fkey(nf(x)) + ",";
      Atom at = newAtom(key + ")");
      atoms[at].node = id;
      return fatom(at);
    }
  }
  throw TooBig("internal: op");
}
Frac nf(int id)
{
  if(nodes[id].nf) return *nodes[id].nf;
  // iterative over deep ADD/MUL chains is not needed: chains here are short
  Frac f = nfCompute(id);
  nodes[id].nf = std::make_shared<Frac>(f);
  return f;
}

// ------------------------------------------------------------------------------------------- path state
struct PathEnd
{
};
struct Infeasible
{
};
struct Decision
{
  long choice;
  std::vector<long> todo; // alternatives still to explore
};
struct Constraint
{
  int node; // numeric view: sign(node) in mask
  int mask;
  PolyId p;
  int pmask; // algebraic view: sign(p) in pmask
};
struct State
{
  std::vector<Decision> dec;
  size_t pos = 0;
  size_t freshFrom = 0; // obligations met before this many decisions were already checked
  std::vector<Constraint> path;
  std::map<PolyId, int> facts;
  std::set<PolyId> dens;
  std::map<std::string, int> counters;
  std::vector<std::string> varOrder;
};
State S VP_EARLY;

struct VarInfo
{
  int node;
  double lo, hi;
  bool positive;
  int unitGroup = -1, unitIndex = 0;
};
std::map<std::string, VarInfo> vars VP_EARLY;
std::vector<std::vector<std::string>> unitGroups VP_EARLY;

struct Oblig
{
  std::string label, backend, detail;
  int status; // 0 discharged, 1 failed with a candidate input, 2 undecided, 3 failed, solver model only
  std::map<std::string, double> cex;
};
struct Result
{
  long paths = 0, complete = 0, infeasible = 0;
  std::map<std::string, std::map<std::string, long>> discharged; // label -> backend -> count
  std::vector<Oblig> bad;
  std::vector<std::string> notes;
  double z3s = 0, nfs = 0;
  long z3q = 0;
  bool capped = false;
};
Result R_ VP_EARLY;
Options opt VP_EARLY;

int knownMask(PolyId p);
bool monoNonneg(MonoId m, bool & strict, bool usePath)
{
  strict = true;
  for(auto & x : monoVec(m))
  {
    AtomInfo & a = atoms[x.first];
    int mask = 7;
    if(usePath)
    {
      auto it = S.facts.find(internPoly(Poly::atom(x.first)));
      if(it != S.facts.end()) mask = it->second;
    }
    bool pos = a.positive || mask == 4, nn = pos || a.nonneg || (mask & 1) == 0;
    bool nz = pos || (mask & 2) == 0;
    if(!nz && usePath && a.hasSq && !a.sq.n.zero() && !a.isVar)
    {
      // the square root of something known to be nonzero
      if((knownMask(internPoly(pscale(a.sq.n, 1 / leadCoef(a.sq.n)))) & 2) == 0) nz = true;
    }
    if(x.second % 2 && !nn) return false;
    if(!nz) strict = false;
  }
  return true;
}
// sign from the shape: all terms of one sign
bool syntSign(const Poly & p, int & mask, bool usePath)
{
  if(p.zero())
  {
    mask = 2;
    return true;
  }
  bool allp = true, alln = true, someStrict = false;
  for(auto & t : p.t)
  {
    bool st;
    if(!monoNonneg(t.first, st, usePath)) return false;
    if(t.second > 0)
      alln = false;
    else
      allp = false;
    if(st) someStrict = true;
  }
  if(allp)
  {
    mask = someStrict ? 4 : 6;
    return true;
  }
  if(alln)
  {
    mask = someStrict ? 1 : 3;
    return true;
  }
  return false;
}
int flip(int m)
{
  return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
}
// sign(f) in mask  ->  sign(P) in result mask, P interned monic
PolyId signPoly(const Frac & f, int & mask)
{
  Poly p = f.n;
  for(auto & x : f.d)
  {
    S.dens.insert(x.first);
    if(x.second % 2)
    {
      int m;
      if(syntSign(polyOf(x.first), m) && ((m & 1) == 0 || (m & 4) == 0))
      {
        if((m & 1)) mask = flip(mask);
        continue;
      }
      auto it = S.facts.find(x.first);
      if(it != S.facts.end() && ((it->second & 1) == 0 || (it->second & 4) == 0))
      {
        if(it->second & 1) mask = flip(mask);
        continue;
      }
      Frac g = fmul(fpoly(p), fpoly(polyOf(x.first)));
      p = g.n; // reduction of squares may bring denominators back: rare, they are squares' own denominators
      for(auto & y : g.d) S.dens.insert(y.first);
    }
  }
  if(p.zero()) return internPoly(p);
  mpq_class lc = leadCoef(p);
  if(lc < 0) mask = flip(mask);
  return internPoly(pscale(p, 1 / lc));
}
int knownMask(PolyId p)
{
  int m = 7, k;
  const Poly & P = polyOf(p);
  if(P.isConst())
  {
    mpq_class c = P.constVal();
    return c > 0 ? 4 : c < 0 ? 1 : 2;
  }
  if(syntSign(P, k)) m &= k;
  auto it = S.facts.find(p);
  if(it != S.facts.end()) m &= it->second;
  if(m != 1 && m != 2 && m != 4)
    for(auto & f : S.facts)
    {
      // P = F + c
      const Poly & F = polyOf(f.first);
      if(f.first == p || F.t.size() + 1 < P.t.size() || P.t.size() + 1 < F.t.size()) continue;
      Poly d = padd(P, F, -1);
      if(d.zero() || !d.isConst()) continue;
      if(d.constVal() > 0 && (f.second & 1) == 0) m &= 4;
      if(d.constVal() < 0 && (f.second & 4) == 0) m &= 1;
    }
  return m;
}

// --------------------------------------------------------------------------------------------- z3 back end
struct Z3
{
  z3::context c;
  std::map<Atom, z3::expr> e;
  z3::expr num(const mpq_class & q)
  {
    return c.real_val(q.get_str().c_str());
  }
  z3::expr at(Atom a)
  {
    auto it = e.find(a);
    if(it != e.end()) return it->second;
    z3::expr x = c.real_const(("a" + std::to_string(a)).c_str());
    e.emplace(a, x);
    return x;
  }
  z3::expr poly(const Poly & p)
  {
    z3::expr_vector s(c);
    if(p.zero()) return c.real_val(0);
    for(auto & t : p.t)
    {
      z3::expr_vector f(c);
      if(t.second != 1 || t.first == 0) f.push_back(num(t.second));
      for(auto & x : monoVec(t.first))
        for(int k = 0; k < x.second; ++k) f.push_back(at(x.first));
      z3::expr m = f[0];
      for(unsigned i = 1; i < f.size(); ++i) m = m * f[i];
      s.push_back(m);
    }
    return s.size() == 1 ? s[0] : z3::sum(s);
  }
  z3::expr sign(const z3::expr & x, int mask)
  {
    z3::expr z = c.real_val(0);
    switch(mask)
    {
      case 1:
        return x < z;
      case 2:
        return x == z;
      case 3:
        return x <= z;
      case 4:
        return x > z;
      case 5:
        return x != z;
      case 6:
        return x >= z;
      case 7:
        return c.bool_val(true);
    }
    return c.bool_val(false);
  }
};
Z3 * Z = nullptr;
void atomsOf(const Poly & p, std::set<Atom> & out)
{
  for(auto & t : p.t)
    for(auto & x : monoVec(t.first))
      if(out.insert(x.first).second)
      {
        AtomInfo & a = atoms[x.first];
        if(a.hasSq)
        {
          atomsOf(a.sq.n, out);
          for(auto & d : a.sq.d) atomsOf(polyOf(d.first), out);
        }
        if(a.isAtan2)
          for(const Frac * f : {&a.yF, &a.xF})
          {
            atomsOf(f->n, out);
            for(auto & d : f->d) atomsOf(polyOf(d.first), out);
          }
      }
}
// is path /\ sign(p) in mask satisfiable?  1 sat (model into *m), 0 unsat, -1 unknown
int z3query(PolyId p, int mask, unsigned ms, std::map<std::string, double> * m, bool full = false)
{
  double t0 = now();
  R_.z3q++;
  int res = -1;
  try
  {
    if(!Z) Z = new Z3();
    std::set<Atom> as;
    if(polyOf(p).t.size() > 4000) return -1;
    atomsOf(polyOf(p), as);
    z3::solver s = z3::tactic(Z->c, "qfnra-nlsat").mk_solver();
    z3::params ps(Z->c);
    ps.set("timeout", ms);
    s.set(ps);
    z3::expr_vector cs(Z->c);
    cs.push_back(Z->sign(Z->poly(polyOf(p)), mask));
    {
      // for pruning: only the constraints connected to the query through shared atoms
      std::vector<bool> used(S.path.size(), false);
      bool grow = true;
      size_t total = polyOf(p).t.size();
      while(grow)
      {
        grow = false;
        for(size_t i = 0; i < S.path.size(); ++i)
          if(!used[i])
          {
            std::set<Atom> x;
            atomsOf(polyOf(S.path[i].p), x);
            bool touch = false;
            for(Atom a : x)
              if(as.count(a)) touch = true;
            if(full || touch || x.empty())
            {
              used[i] = true;
              grow = true;
              total += polyOf(S.path[i].p).t.size();
              for(Atom a : x) as.insert(a);
              cs.push_back(Z->sign(Z->poly(polyOf(S.path[i].p)), S.path[i].pmask));
            }
          }
      }
      if(total > 6000)
      {
        R_.z3s += now() - t0;
        return -1;
      }
      for(PolyId d : S.dens)
      {
        std::set<Atom> x;
        atomsOf(polyOf(d), x);
        bool sub = true;
        for(Atom a : x)
          if(!as.count(a)) sub = false;
        if(sub) cs.push_back(Z->poly(polyOf(d)) != Z->c.real_val(0));
      }
    }
    for(Atom a : std::set<Atom>(as))
      if(atoms[a].bPi) as.insert(piAtom());
    for(Atom a : as)
    {
      AtomInfo & i = atoms[a];
      z3::expr x = Z->at(a);
      if(i.positive)
        cs.push_back(x > 0);
      else if(i.nonneg)
        cs.push_back(x >= 0);
      if(i.hasSq)
      {
        cs.push_back(x * x * Z->poly(denPoly(i.sq.d)) == Z->poly(i.sq.n));
        if(!i.sq.d.empty()) cs.push_back(Z->poly(denPoly(i.sq.d)) != Z->c.real_val(0));
      }
      if(i.hasBounds)
      {
        z3::expr unit = i.bPi ? Z->at(piAtom()) : Z->c.real_val(1);
        auto rv = [&](double d) {
          char buf[64];
          snprintf(buf, sizeof buf, "%.10f", d);
          return Z->c.real_val(buf);
        };
        cs.push_back(x >= rv(i.lo) * unit);
        cs.push_back(x <= rv(i.hi) * unit);
        if(i.isAtan2)
        {
          auto sg = [&](const Frac & f) { return Z->poly(f.n) * Z->poly(denPoly(f.d)); };
          z3::expr sy = sg(i.yF), sx = sg(i.xF), h = unit / 2;
          cs.push_back(sy < 0 || x >= 0);
          cs.push_back(sy > 0 || x <= 0 || (sy == 0 && sx <= 0));
          cs.push_back(sy <= 0 || x > 0);
          cs.push_back(sy >= 0 || x < 0);
          cs.push_back(sx < 0 || (x <= h && x >= -h));
          cs.push_back(sx <= 0 || (x < h && x > -h));
          cs.push_back(sx > 0 || x >= h || x <= -h || (sx == 0 && sy == 0));
        }
      }
    }
    for(unsigned i = 0; i < cs.size(); ++i) s.add(cs[i]);
    z3::check_result r = s.check();
    res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
    if(r == z3::sat && m)
    {
      z3::model mod = s.get_model();
      for(auto & v : vars)
      {
        Atom a = nodes[v.second.node].atom;
        if(!as.count(a)) continue;
        z3::expr val = mod.eval(Z->at(a), true);
        double d = 0;
        try
        {
          std::string str = val.is_algebraic() ? val.get_decimal_string(17) : val.get_decimal_string(17);
          d = std::stod(str);
        }
        catch(...)
        {
        }
        (*m)[v.first] = d;
      }
    }
  }
  catch(z3::exception & ex)
  {
    res = -1;
  }
  catch(TooBig &)
  {
    res = -1;
  }
  R_.z3s += now() - t0;
  return res;
}

// ---------------------------------------------------------------------------------------- numeric evaluation
typedef long double LD;
struct Eval
{
  std::map<std::string, double> in;
  std::unordered_map<int, LD> memo;
  LD operator()(int id)
  {
    auto it = memo.find(id);
    if(it != memo.end()) return it->second;
    Node & n = nodes[id];
    LD r = 0;
    switch(n.op)
    {
      case VAR:
      {
        auto f = in.find(n.name);
        r = f == in.end() ? 0 : f->second;
        break;
      }
      case CST:
        r = n.q.get_d();
        break;
      case PI:
        r = 3.14159265358979323846L;
        break;
      case ADD:
        r = (*this)(n.a) + (*this)(n.b);
        break;
      case MUL:
        r = (*this)(n.a) * (*this)(n.b);
        break;
      case DIV:
        r = (*this)(n.a) / (*this)(n.b);
        break;
      case SQRT:
        r = sqrtl(std::max((LD)0, (*this)(n.a)));
        break;
      case SIN:
        r = sinl((*this)(n.a));
        break;
      case COS:
        r = cosl((*this)(n.a));
        break;
      case ATAN2:
        r = atan2l((*this)(n.a), (*this)(n.b));
        break;
      case ASIN:
        r = asinl((*this)(n.a));
        break;
      case ACOS:
        r = acosl((*this)(n.a));
        break;
      case EXP:
        r = expl((*this)(n.a));
        break;
      case LOG:
        r = logl((*this)(n.a));
        break;
      case FLOOR:
        r = floorl((*this)(n.a));
        break;
      case UF:
      {
        std::vector<double> a;
        for(int x : n.args) a.push_back((double)(*this)(x));
        r = ufNumeric(n.name, a);
        break;
      }
    }
    return memo[id] = r;
  }
};
VP_EARLY std::mt19937_64 rng(12345);
double uni(double a, double b)
{
  return a + (b - a) * std::generate_canonical<double, 53>(rng);
}
std::map<std::string, double> randomInput(int k)
{
  std::map<std::string, double> in;
  double scale = k % 4 == 0 ? 1.0 : k % 4 == 1 ? 0.3 : k % 4 == 2 ? 1.0 : 0.05;
  for(auto & v : vars)
  {
    const VarInfo & i = v.second;
    double lo = i.lo, hi = i.hi, x;
    if(i.positive)
      x = lo + (hi - lo) * std::generate_canonical<double, 53>(rng);
    else
    {
      double mid = (lo + hi) / 2;
      if(lo <= 0 && hi >= 0) mid = 0;
      x = mid + (uni(lo, hi) - mid) * scale;
    }
    if(!i.positive && k % 5 == 4 && lo <= 0 && hi >= 0 && uni(0, 1) < 0.3) x = 0;
    in[v.first] = x;
  }
  for(auto & g : unitGroups)
  {
    double s = 0;
    do
    {
      s = 0;
      for(auto & n : g)
      {
        in[n] = uni(-1, 1);
        if(k % 5 == 4 && uni(0, 1) < 0.3) in[n] = 0;
        s += in[n] * in[n];
      }
    } while(s < 1e-4);
    for(auto & n : g) in[n] /= std::sqrt(s);
  }
  return in;
}
void fixUnits(std::map<std::string, double> & in)
{
  for(auto & g : unitGroups)
  {
    double s = 0;
    for(auto & n : g) s += in[n] * in[n];
    if(s < 1e-12)
    {
      in[g[0]] = 1;
      s += 1;
    }
    for(auto & n : g) in[n] /= std::sqrt(s);
  }
}
bool pathHolds(Eval & ev)
{
  for(auto & c : S.path)
  {
    LD v = ev(c.node);
    if(!(v == v)) return false;
    LD tol = 1e-13L;
    int s = v > 0 ? 4 : v < 0 ? 1 : 2;
    if(fabsl(v) < tol && (c.mask & 2)) continue;
    if(!(s & c.mask)) return false;
  }
  return true;
}
// numeric search for an input on this path with sign(node) outside mask. returns 1 found, 0 none violates, -1 path not hit
int falsify(int node, int mask, int tries, std::map<std::string, double> & out, const std::map<std::string, double> * seed,
            long & hits)
{
  hits = 0;
  for(int k = 0; k < tries; ++k)
  {
    Eval ev;
    if(seed && k == 0)
    {
      ev.in = randomInput(0);
      for(auto & x : *seed) ev.in[x.first] = x.second;
      fixUnits(ev.in);
    }
    else if(seed && k < 30)
    {
      ev.in = randomInput(k);
      for(auto & x : *seed)
        if(uni(0, 1) < 0.7) ev.in[x.first] = x.second;
      fixUnits(ev.in);
    }
    else
      ev.in = randomInput(k);
    if(!pathHolds(ev)) continue;
    ++hits;
    if(node < 0)
    {
      out = ev.in;
      return 1;
    }
    LD v = ev(node);
    if(!(v == v)) continue;
    // magnitude to compare with: the two operands of a difference
    LD scale = 1;
    if(nodes[node].op == ADD) scale = 1 + fabsl(ev(nodes[node].a));
    int s = fabsl(v) < 1e-9L * scale ? 2 : v > 0 ? 4 : 1;
    if(fabsl(v) < 1e-9L * scale) continue; // too small to tell
    if(!(s & mask))
    {
      out = ev.in;
      return 1;
    }
  }
  return hits ? 0 : -1;
}

// ------------------------------------------------------------------------------------------- substitution by path facts
// use the equalities on the path: an atom that occurs linearly (constant coefficient) is eliminated
Poly substEq(Poly p)
{
  for(int round = 0; round < 20; ++round)
  {
    bool changed = false;
    for(auto & f : S.facts)
      if(f.second == 2)
      {
        Poly e = polyOf(f.first);
        // apply: find a linear atom
        Atom pick = 0;
        mpq_class coef;
        bool found = false;
        for(auto & t : e.t)
        {
          const MonoVec & v = monoVec(t.first);
          if(v.size() == 1 && v[0].second == 1)
          {
            bool elsewhere = false;
            for(auto & t2 : e.t)
              if(&t2 != &t)
                for(auto & x : monoVec(t2.first))
                  if(x.first == v[0].first) elsewhere = true;
            if(elsewhere) continue;
            if(!found || v[0].first > pick)
            {
              pick = v[0].first;
              coef = t.second;
              found = true;
            }
          }
        }
        if(!found)
        {
          // e.g. x*y = 0 or a polynomial multiple: try exact division
          Poly q;
          if(pdiv(p, e, q)) return Poly();
          continue;
        }
        bool occurs = false;
        for(auto & t : p.t)
          for(auto & x : monoVec(t.first))
            if(x.first == pick) occurs = true;
        if(!occurs) continue;
        Poly rhs = pscale(padd(e, pscale(Poly::atom(pick), coef), -1), -1 / coef); // pick = rhs
        Poly acc;
        for(auto & t : p.t)
        {
          MonoVec v = monoVec(t.first);
          int k = 0;
          for(size_t i = 0; i < v.size(); ++i)
            if(v[i].first == pick)
            {
              k = v[i].second;
              v.erase(v.begin() + i);
              break;
            }
          Poly m = Poly::mono(internMono(v), t.second);
          acc = padd(acc, pmul(m, ppow(rhs, k)));
        }
        Frac r = reduceF(fpoly(acc));
        p = r.n;
        changed = true;
        if(p.zero()) return p;
      }
    if(!changed) break;
  }
  return p;
}

int freshVar(const std::string & base)
{
  int k = S.counters[base]++;
  return var(base + "#" + std::to_string(k), -1, 1).id;
}
int nodeOf(const Real & r)
{
  if(r.id >= 0) return r.id;
  if(r.id == -2) return freshVar("uninitialised");
  if(r.c == 0) return mkCst(0);
  // multiples of pi that the compiler folded
  for(int d = 1; d <= 12; ++d)
  {
    double k = std::round(r.c / M_PI * d);
    if(k != 0 && std::fabs(k) <= 64 && k * M_PI / d == r.c)
    {
      mpq_class q((long)k, d);
      q.canonicalize();
      int pi = mk(PI, -1, -1);
      return q == 1 ? pi : mk(MUL, mkCst(q), pi);
    }
  }
  if(std::fabs(r.c) > 1e300) return mkNamed(UF, "huge", {mkCst(r.c > 0 ? 1 : -1)});
  // the decimal value of the literal
  char buf[64];
  auto e = std::to_chars(buf, buf + 64, r.c, std::chars_format::scientific);
  *e.ptr = 0;
  std::string s(buf);
  size_t ep = s.find('e');
  std::string man = s.substr(0, ep);
  int ex = atoi(s.c_str() + ep + 1);
  size_t dot = man.find('.');
  if(dot != std::string::npos)
  {
    ex -= man.size() - dot - 1;
    man.erase(dot, 1);
  }
  mpz_class m(man), p10;
  mpz_ui_pow_ui(p10.get_mpz_t(), 10, std::abs(ex));
  mpq_class q = ex >= 0 ? mpq_class(m * p10) : mpq_class(m, p10);
  q.canonicalize();
  return mkCst(q);
}
Real mkReal(int id)
{
  Real r;
  r.id = id;
  return r;
}
bool isC(int id, long v)
{
  return nodes[id].op == CST && nodes[id].q == v;
}
long takeDecision(const std::vector<long> & options)
{
  // options: feasible values in the order to explore
  if(S.pos < S.dec.size()) return S.dec[S.pos++].choice;
  if((long)S.dec.size() >= opt.maxDecisions) throw TooBig("too many decisions on one path");
  Decision d;
  d.choice = options[0];
  d.todo.assign(options.begin() + 1, options.end());
  S.dec.push_back(d);
  S.pos++;
  return d.choice;
}
void addConstraint(int node, int mask, PolyId p, int pmask)
{
  S.path.push_back({node, mask, p, pmask});
  int m = knownMask(p) & pmask;
  S.facts[p] = m;
}
// decide whether sign(node) is in mask
bool decide(int node, int mask)
{
  Frac f = nf(node);
  int pm = mask;
  PolyId p = signPoly(f, pm);
  int known = knownMask(p);
  if(known != 7 && known != 0)
  {
    if((known & pm) == 0) return false;
    if((known & ~pm) == 0) return true;
  }
  if(polyOf(p).t.size() < 3000)
  {
    Poly sp = substEq(polyOf(p));
    if(sp.isConst())
    {
      mpq_class c = sp.constVal();
      int s = c > 0 ? 4 : c < 0 ? 1 : 2;
      return (s & pm) != 0;
    }
  }
  bool t;
  if(S.pos < S.dec.size())
    t = takeDecision({}) != 0;
  else
  {
    int ft = z3query(p, known & pm, opt.feasMs, nullptr);
    int ff = z3query(p, known & ~pm & 7, opt.feasMs, nullptr);
    std::vector<long> o;
    if(ft != 0) o.push_back(1);
    if(ff != 0) o.push_back(0);
    if(o.empty()) throw Infeasible();
    if(getenv("VP_TRACE")) fprintf(stderr, "decide %d%d mask %d size %zu: %s\n", ft, ff, pm, polyOf(p).t.size(), pstr(polyOf(p), aname, 5).substr(0, 300).c_str());
    t = takeDecision(o) != 0;
  }
  addConstraint(node, t ? mask : (~mask & 7), p, t ? pm : (~pm & 7));
  return t;
}
void recordOk(const std::string & label, const char * backend)
{
  R_.discharged[label][backend]++;
}
} // namespace

// ---------------------------------------------------------------------------------------------------- API
Real var(const std::string & name, double lo, double hi)
{
  int n = mkNamed(VAR, name, {});
  if(nodes[n].atom < 0)
  {
    Atom a = newAtom("$" + name);
    nodes[n].atom = a;
    atoms[a].isVar = true;
    atoms[a].node = n;
    atoms[a].name = name;
    vars[name] = {n, lo, hi, false};
  }
  return mkReal(n);
}
Real posVar(const std::string & name, double lo, double hi)
{
  Real r = var(name, lo, hi);
  atoms[nodes[r.id].atom].positive = atoms[nodes[r.id].atom].nonneg = true;
  vars[name].positive = true;
  return r;
}
std::vector<Real> unitVars(const std::vector<std::string> & names)
{
  std::vector<Real> r(names.size());
  Frac sum = fcst(1);
  for(size_t i = 1; i < names.size(); ++i)
  {
    r[i] = var(names[i], -1, 1);
    sum = fadd(sum, fmul(nf(r[i].id), nf(r[i].id)), -1);
  }
  bool isNew = !vars.count(names[0]);
  r[0] = var(names[0], -1, 1);
  if(isNew)
  {
    Atom a = nodes[r[0].id].atom;
    atoms[a].hasSq = true;
    atoms[a].sq = sum;
    unitGroups.push_back(names);
  }
  return r;
}
Real uninterpreted(const std::string & fname, int component, const std::vector<Real> & args)
{
  std::vector<int> a;
  for(auto & x : args) a.push_back(nodeOf(x));
  return mkReal(mkNamed(UF, fname + "." + std::to_string(component), a));
}
std::vector<Real> & draws()
{
  static std::vector<Real> d;
  return d;
}
Real gaussianDraw()
{
  Real r = mkReal(freshVar("gauss"));
  draws().push_back(r);
  return r;
}
Real uniformDraw()
{
  return mkReal(freshVar("uniform"));
}
long choice(const std::string & name, long lo, long hi)
{
  std::vector<long> o;
  for(long i = lo; i <= hi; ++i) o.push_back(i);
  long v = takeDecision(o);
  Real r = var(name, lo, hi);
  Real d = sub(r, Real(v));
  int m = 2;
  PolyId p = signPoly(nf(nodeOf(d)), m);
  addConstraint(nodeOf(d), 2, p, m);
  return v;
}
void assumeSign(const Real & x, int mask)
{
  int node = nodeOf(x);
  Frac f = nf(node);
  int pm = mask;
  PolyId p = signPoly(f, pm);
  int known = knownMask(p);
  if((known & pm) == 0) throw Infeasible();
  if((known & ~pm) == 0) return;
  if(!S.path.empty() && S.pos >= S.dec.size() && z3query(p, pm & known, opt.feasMs, nullptr) == 0) throw Infeasible();
  addConstraint(node, mask, p, pm);
}
bool peekSign(const Real & x, int mask)
{
  Frac f = nf(nodeOf(x));
  int pm = mask;
  PolyId p = signPoly(f, pm);
  int known = knownMask(p);
  return (known & ~pm) == 0;
}
void obligSign(const std::string & label, const Real & x, int mask)
{
  int node = nodeOf(x);
  if(S.pos < S.freshFrom) return; // already checked on the path this one shares its prefix with
  Oblig o;
  o.label = label;
  o.status = 2;
  double t0 = now();
  try
  {
    Frac f = nf(node);
    R_.nfs += now() - t0;
    int pm = mask;
    PolyId p = signPoly(f, pm);
    int known = knownMask(p);
    if((known & ~pm) == 0)
    {
      recordOk(label, polyOf(p).zero() ? "normal-form" : "sign");
      return;
    }
    Poly sp = substEq(polyOf(p));
    if(sp.zero() && (pm & 2))
    {
      recordOk(label, "normal-form+path-equalities");
      return;
    }
    std::map<std::string, double> seed;
    long hits = 0;
    int fz = falsify(node, mask, opt.samples, o.cex, nullptr, hits);
    if(fz == 1)
    {
      o.status = 1;
      o.backend = "normal-form+evaluation";
      o.detail = "residual " + pstr(sp, aname, 8);
      R_.bad.push_back(o);
      return;
    }
    PolyId spid = p;
    int q = z3query(spid, ~pm & 7, opt.obligMs, &seed, true);
    if(q == 0)
    {
      recordOk(label, "z3");
      return;
    }
    if(q == 1)
    {
      fz = falsify(node, mask, 400, o.cex, &seed, hits);
      if(fz == 1)
      {
        o.status = 1;
        o.backend = "z3 model";
      }
      else
      {
        o.status = 3;
        o.backend = "z3 model";
        o.cex = seed;
      }
      o.detail = "residual " + pstr(sp, aname, 8);
      R_.bad.push_back(o);
      return;
    }
    o.detail = std::string("solver gave no answer; residual ") + pstr(sp, aname, 8) + "; " + std::to_string(hits)
               + " sampled inputs on this path satisfy it";
  }
  catch(TooBig & e)
  {
    o.detail = e.what();
    std::map<std::string, double> cex;
    long hits = 0;
    if(falsify(node, mask, opt.samples, cex, nullptr, hits) == 1)
    {
      o.status = 1;
      o.cex = cex;
      o.backend = "evaluation";
    }
  }
  R_.bad.push_back(o);
}
void obligTrue(const std::string & label, bool holds)
{
  if(S.pos < S.freshFrom) return;
  if(holds)
  {
    recordOk(label, "path");
    return;
  }
  // the path must be infeasible
  Oblig o;
  o.label = label;
  o.status = 2;
  long hits = 0;
  if(falsify(-1, 0, opt.samples, o.cex, nullptr, hits) == 1)
  {
    o.status = 1;
    o.backend = "evaluation";
    R_.bad.push_back(o);
    return;
  }
  // all constraints together
  bool unsat = false, sat = true;
  std::map<std::string, double> seed;
  if(S.path.empty())
    o.status = 1;
  else
  {
    for(size_t i = S.path.size(); i-- > 0;)
    {
      std::map<std::string, double> m;
      int q = z3query(S.path[i].p, S.path[i].pmask, opt.obligMs, &m, true);
      if(q == 0)
      {
        unsat = true;
        break;
      }
      if(q < 0) sat = false;
      for(auto & x : m) seed.insert(x);
    }
    if(unsat)
    {
      recordOk(label, "z3");
      return;
    }
    if(falsify(-1, 0, 400, o.cex, &seed, hits) == 1)
      o.status = 1;
    else if(sat)
    {
      o.status = 3;
      o.cex = seed;
    }
    o.backend = "z3 model";
  }
  R_.bad.push_back(o);
}
void assertionFailed(const char * expr, const char * function, const char * file, long line)
{
  if(expectRefusal) throw Refused();
  std::string f(file);
  size_t i = f.rfind('/');
  obligTrue("assertion `" + std::string(expr).substr(0, 120) + "` in " + f.substr(i == std::string::npos ? 0 : i + 1)
                + ":" + std::to_string(line),
            false);
  (void)function;
  throw PathEnd();
}

// --- Real operations
Real add(const Real & x, const Real & y)
{
  int a = nodeOf(x), b = nodeOf(y);
  if(nodes[a].op == CST && nodes[b].op == CST) return mkReal(mkCst(nodes[a].q + nodes[b].q));
  if(isC(a, 0)) return mkReal(b);
  if(isC(b, 0)) return mkReal(a);
  return mkReal(mk(ADD, a, b));
}
Real mul(const Real & x, const Real & y)
{
  int a = nodeOf(x), b = nodeOf(y);
  if(nodes[a].op == CST && nodes[b].op == CST) return mkReal(mkCst(nodes[a].q * nodes[b].q));
  if(isC(a, 0) || isC(b, 0)) return mkReal(mkCst(0));
  if(isC(a, 1)) return mkReal(b);
  if(isC(b, 1)) return mkReal(a);
  return mkReal(mk(MUL, a, b));
}
Real sub(const Real & x, const Real & y)
{
  int a = nodeOf(x), b = nodeOf(y);
  if(a == b) return mkReal(mkCst(0));
  return add(mkReal(a), mul(Real(-1), mkReal(b)));
}
Real div(const Real & x, const Real & y)
{
  int a = nodeOf(x), b = nodeOf(y);
  if(isC(b, 1)) return mkReal(a);
  if(nodes[b].op == CST)
  {
    if(nodes[b].q == 0)
    {
      obligTrue("division by zero", false);
      throw PathEnd();
    }
    return mul(mkReal(mkCst(1 / nodes[b].q)), mkReal(a));
  }
  return mkReal(mk(DIV, a, b));
}
bool lt(const Real & a, const Real & b)
{
  Real d = sub(a, b);
  return decide(nodeOf(d), 1);
}
bool eq(const Real & a, const Real & b)
{
  Real d = sub(a, b);
  return decide(nodeOf(d), 2);
}
bool Real::nonzero() const
{
  return !eq(*this, Real(0));
}
double Real::toDouble() const
{
  Frac f = nf(nodeOf(*this));
  if(f.isConst()) return f.n.constVal().get_d();
  throw TooBig("a symbolic real is converted to a machine number");
}
long Real::toLong() const
{
  Frac f = nf(nodeOf(*this));
  if(f.isConst())
  {
    mpq_class v = f.n.constVal();
    mpz_class r;
    mpz_tdiv_q(r.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
    return r.get_si();
  }
  if(lt(Real(-1), *this) && lt(*this, Real(1))) return 0;
  bool neg = lt(*this, Real(0));
  for(long k = 1; k < 8; ++k)
    if(neg ? lt(Real(-k - 1), *this) : lt(*this, Real(k + 1))) return neg ? -k : k;
  throw TooBig("a symbolic real is converted to a machine number");
}
#define VP_UN(fn, op)                        \
  Real fn(const Real & x)                    \
  {                                          \
    return mkReal(mk(op, nodeOf(x), -1));    \
  }
VP_UN(asin, ASIN)
VP_UN(acos, ACOS)
VP_UN(log, LOG)
#undef VP_UN
Real exp(const Real & x)
{
  int a = nodeOf(x);
  if(isC(a, 0)) return Real(1);
  return mkReal(mk(EXP, a, -1));
}
Real sqrt(const Real & x)
{
  int a = nodeOf(x);
  if(nodes[a].op == CST)
  {
    mpq_class r;
    if(nodes[a].q >= 0 && sqrtRat(nodes[a].q, r)) return mkReal(mkCst(r));
    if(nodes[a].q < 0)
    {
      obligTrue("square root of a negative number", false);
      throw PathEnd();
    }
  }
  return mkReal(mk(SQRT, a, -1));
}
Real sin(const Real & x)
{
  int a = nodeOf(x);
  if(isC(a, 0)) return Real(0);
  return mkReal(mk(SIN, a, -1));
}
Real cos(const Real & x)
{
  int a = nodeOf(x);
  if(isC(a, 0)) return Real(1);
  return mkReal(mk(COS, a, -1));
}
Real tan(const Real & x)
{
  return sin(x) / cos(x);
}
Real atan2(const Real & y, const Real & x)
{
  return mkReal(mk(ATAN2, nodeOf(y), nodeOf(x)));
}
Real atan(const Real & x)
{
  return atan2(x, Real(1));
}
Real cosh(const Real & x)
{
  return (exp(x) + exp(-x)) / 2;
}
Real sinh(const Real & x)
{
  return (exp(x) - exp(-x)) / 2;
}
Real tanh(const Real & x)
{
  return sinh(x) / cosh(x);
}
Real abs(const Real & x)
{
  return x < Real(0) ? -x : x;
}
Real floor(const Real & x)
{
  Frac f = nf(nodeOf(x));
  if(f.isConst()) return mkReal(mk(FLOOR, nodeOf(x), -1));
  bool neg = lt(x, Real(0));
  for(long k = 1; k < 8; ++k)
    if(neg ? !lt(x, Real(-k)) : lt(x, Real(k))) return Real(neg ? -k : k - 1);
  throw TooBig("floor of a symbolic real (beyond 8)");
}
Real ceil(const Real & x)
{
  return -floor(-x);
}
Real round(const Real & x)
{
  return x < Real(0) ? -floor(-x + Real(0.5)) : floor(x + Real(0.5));
}
Real fmod(const Real & x, const Real & y)
{
  Real q = x / y;
  return x - y * (q < Real(0) ? ceil(q) : floor(q));
}
Real pow(const Real & x, const Real & y)
{
  int b = nodeOf(y);
  if(nodes[b].op == CST)
  {
    mpq_class q = nodes[b].q;
    if(q.get_den() == 1 && abs(q) <= 16)
    {
      long n = q.get_num().get_si();
      Real r(1);
      for(long i = 0; i < std::labs(n); ++i) r = r * x;
      return n < 0 ? Real(1) / r : r;
    }
    if(q == mpq_class(1, 2)) return sqrt(x);
    if(q == mpq_class(-1, 2)) return Real(1) / sqrt(x);
  }
  return uninterpreted("pow", 0, {x, y});
}
std::ostream & operator<<(std::ostream & o, const Real & r)
{
  if(r.id == -1) return o << r.c;
  if(r.id == -2) return o << "<uninitialised>";
  Frac f = nf(r.id);
  if(f.isConst()) return o << f.n.constVal().get_d();
  return o << "{" << r.id << "}"; // a token that operator>> reads back as the same value
}
std::istream & operator>>(std::istream & i, Real & r)
{
  i >> std::ws;
  if(i.peek() == '{')
  {
    i.get();
    int id;
    if(i >> id && i.get() == '}')
      r = mkReal(id);
    else
      i.setstate(std::ios::failbit);
    return i;
  }
  double d;
  if(i >> d) r = Real(d);
  return i;
}

// --------------------------------------------------------------------------------------------------- driver
static std::string js(const std::string & s)
{
  std::string o = "\"";
  for(char c : s)
  {
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}
int expectRefusal = 0;
bool isTooBig(const std::exception & e)
{
  return dynamic_cast<const TooBig *>(&e) != nullptr;
}
int runContract(const Contract & c, const std::string & out)
{
  double t0 = now();
  bool done = false;
  rng.seed(opt.seed * 7919 + 17);
  std::map<std::string, int> badSeen;
  while(!done)
  {
    S.pos = 0;
    S.path.clear();
    S.facts.clear();
    S.dens.clear();
    S.counters.clear();
    R_.paths++;
    try
    {
      c.fn();
      R_.complete++;
    }
    catch(PathEnd &)
    {
    }
    catch(Infeasible &)
    {
      R_.infeasible++;
    }
    catch(TooBig & e)
    {
      R_.notes.push_back(std::string("path not decided: ") + e.what());
      R_.capped = true;
    }
    catch(std::exception & e)
    {
      obligTrue(std::string("uncaught exception: ") + e.what(), false);
    }
    // next path
    done = true;
    while(!S.dec.empty())
    {
      if(S.dec.back().todo.empty())
        S.dec.pop_back();
      else
      {
        S.dec.back().choice = S.dec.back().todo.front();
        S.dec.back().todo.erase(S.dec.back().todo.begin());
        S.freshFrom = S.dec.size();
        done = false;
        break;
      }
    }
    if(R_.paths >= opt.maxPaths && !done)
    {
      R_.capped = true;
      R_.notes.push_back("path cap reached");
      break;
    }
    if(now() - t0 > opt.seconds && !done)
    {
      R_.capped = true;
      R_.notes.push_back("time cap reached");
      break;
    }
    if(R_.bad.size() > 60)
    {
      R_.notes.push_back("stopped after 60 undischarged obligations");
      break;
    }
  }
  std::ofstream o(out);
  o << "{\"contract\":" << js(c.name) << ",\"function\":" << js(c.function) << ",\"paths\":" << R_.paths
    << ",\"complete\":" << R_.complete << ",\"infeasible\":" << R_.infeasible << ",\"capped\":"
    << (R_.capped ? "true" : "false") << ",\"wall\":" << now() - t0 << ",\"z3_s\":" << R_.z3s << ",\"z3_queries\":" << R_.z3q
    << ",\"nodes\":" << nodes.size() << ",\"discharged\":{";
  bool f1 = true;
  for(auto & l : R_.discharged)
  {
    o << (f1 ? "" : ",") << js(l.first) << ":{";
    f1 = false;
    bool f2 = true;
    for(auto & b : l.second)
    {
      o << (f2 ? "" : ",") << js(b.first) << ":" << b.second;
      f2 = false;
    }
    o << "}";
  }
  o << "},\"bad\":[";
  f1 = true;
  for(auto & b : R_.bad)
  {
    o << (f1 ? "" : ",") << "{\"label\":" << js(b.label) << ",\"status\":" << b.status << ",\"backend\":" << js(b.backend)
      << ",\"detail\":" << js(b.detail) << ",\"cex\":{";
    f1 = false;
    bool f2 = true;
    o.precision(17);
    for(auto & x : b.cex)
    {
      o << (f2 ? "" : ",") << js(x.first) << ":" << x.second;
      f2 = false;
    }
    o << "}}";
  }
  o << "],\"notes\":[";
  f1 = true;
  std::set<std::string> seen;
  for(auto & n : R_.notes)
    if(seen.insert(n).second)
    {
      o << (f1 ? "" : ",") << js(n);
      f1 = false;
    }
  o << "]}\n";
  return 0;
}
Options & options()
{
  return opt;
}
} // namespace vp
