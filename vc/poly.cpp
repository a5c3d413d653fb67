#include "poly.hpp"
#include <algorithm>
#include <deque>
#include <sstream>

namespace vp
{
namespace
{
struct MVHash
{
  size_t operator()(const MonoVec & v) const
  {
    size_t h = 1469598103934665603ull;
    for(auto & p : v)
    {
      h = (h ^ p.first) * 1099511628211ull;
      h = (h ^ (size_t)p.second) * 1099511628211ull;
    }
    return h;
  }
};
std::deque<MonoVec> & monos()
{
  static std::deque<MonoVec> m(1);
  return m;
}
std::unordered_map<MonoVec, MonoId, MVHash> & monoTab()
{
  static std::unordered_map<MonoVec, MonoId, MVHash> t{{MonoVec(), 0}};
  return t;
}
std::unordered_map<uint64_t, MonoId> mulMemo __attribute__((init_priority(150)));
const size_t MAXTERMS = 400000;
} // namespace

const MonoVec & monoVec(MonoId m)
{
  return monos()[m];
}
MonoId internMono(const MonoVec & v)
{
  auto & t = monoTab();
  auto it = t.find(v);
  if(it != t.end()) return it->second;
  MonoId id = monos().size();
  monos().push_back(v);
  t[v] = id;
  return id;
}
MonoId monoMul(MonoId a, MonoId b)
{
  if(a == 0) return b;
  if(b == 0) return a;
  if(a > b) std::swap(a, b);
  uint64_t key = (uint64_t(a) << 32) | b;
  auto it = mulMemo.find(key);
  if(it != mulMemo.end()) return it->second;
  MonoVec r;
  {
    const MonoVec &x = monoVec(a), &y = monoVec(b);
    size_t i = 0, j = 0;
    while(i < x.size() || j < y.size())
    {
      if(j == y.size() || (i < x.size() && x[i].first < y[j].first))
        r.push_back(x[i++]);
      else if(i == x.size() || y[j].first < x[i].first)
        r.push_back(y[j++]);
      else
      {
        r.push_back({x[i].first, x[i].second + y[j].second});
        ++i;
        ++j;
      }
    }
  }
  MonoId id = internMono(r);
  mulMemo[key] = id;
  return id;
}
bool monoDiv(MonoId a, MonoId b, MonoId & q)
{
  if(b == 0)
  {
    q = a;
    return true;
  }
  MonoVec r;
  {
    const MonoVec &x = monoVec(a), &y = monoVec(b);
    size_t i = 0;
    for(auto & p : y)
    {
      while(i < x.size() && x[i].first < p.first) r.push_back(x[i++]);
      if(i == x.size() || x[i].first != p.first || x[i].second < p.second) return false;
      if(x[i].second > p.second) r.push_back({p.first, x[i].second - p.second});
      ++i;
    }
    while(i < x.size()) r.push_back(x[i++]);
  }
  q = internMono(r);
  return true;
}
bool monoLess(MonoId a, MonoId b)
{
  if(a == b) return false;
  const MonoVec &x = monoVec(a), &y = monoVec(b);
  int dx = 0, dy = 0;
  for(auto & p : x) dx += p.second;
  for(auto & p : y) dy += p.second;
  if(dx != dy) return dx < dy;
  size_t i = 0;
  while(i < x.size() && i < y.size())
  {
    if(x[i].first != y[i].first) return x[i].first > y[i].first; // the smaller atom index is the greater variable
    if(x[i].second != y[i].second) return x[i].second < y[i].second;
    ++i;
  }
  return x.size() < y.size();
}

Poly Poly::cst(const mpq_class & q)
{
  Poly p;
  if(q != 0) p.t.push_back({0, q});
  return p;
}
Poly Poly::mono(MonoId m, const mpq_class & c)
{
  Poly p;
  if(c != 0) p.t.push_back({m, c});
  return p;
}
Poly Poly::atom(Atom a)
{
  return mono(internMono({{a, 1}}), 1);
}
size_t Poly::hash() const
{
  size_t h = 7;
  for(auto & x : t)
  {
    h = h * 1000003u ^ x.first;
    h = h * 1000003u ^ mpz_fdiv_ui(x.second.get_num_mpz_t(), 4294967291u);
    h = h * 1000003u ^ mpz_fdiv_ui(x.second.get_den_mpz_t(), 4294967291u);
  }
  return h;
}
Poly padd(const Poly & a, const Poly & b, const mpq_class & kb)
{
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while(i < a.t.size() || j < b.t.size())
  {
    if(j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
      r.t.push_back(a.t[i++]);
    else if(i == a.t.size() || b.t[j].first < a.t[i].first)
    {
      r.t.push_back({b.t[j].first, b.t[j].second * kb});
      ++j;
    }
    else
    {
      mpq_class c = a.t[i].second + b.t[j].second * kb;
      if(c != 0) r.t.push_back({a.t[i].first, c});
      ++i;
      ++j;
    }
  }
  return r;
}
Poly pscale(const Poly & a, const mpq_class & k)
{
  if(k == 0) return Poly();
  if(k == 1) return a;
  Poly r(a);
  for(auto & x : r.t) x.second *= k;
  return r;
}
Poly pmul(const Poly & a, const Poly & b)
{
  if(a.zero() || b.zero()) return Poly();
  if(a.isConst()) return pscale(b, a.constVal());
  if(b.isConst()) return pscale(a, b.constVal());
  if(a.t.size() * b.t.size() > 60000000u) throw TooBig("polynomial product too large");
  std::unordered_map<MonoId, mpq_class> m;
  m.reserve(a.t.size() + b.t.size());
  mpq_class c;
  for(auto & x : a.t)
    for(auto & y : b.t)
    {
      c = x.second * y.second;
      m[monoMul(x.first, y.first)] += c;
      if(m.size() > MAXTERMS) throw TooBig("polynomial too large");
    }
  Poly r;
  r.t.reserve(m.size());
  for(auto & x : m)
    if(x.second != 0) r.t.push_back({x.first, x.second});
  std::sort(r.t.begin(), r.t.end(), [](const auto & p, const auto & q) { return p.first < q.first; });
  return r;
}
Poly ppow(const Poly & a, int n)
{
  Poly r = Poly::cst(1);
  while(n-- > 0) r = pmul(r, a);
  return r;
}
MonoId leadMono(const Poly & p)
{
  MonoId m = p.t[0].first;
  for(auto & x : p.t)
    if(monoLess(m, x.first)) m = x.first;
  return m;
}
mpq_class leadCoef(const Poly & p)
{
  MonoId m = leadMono(p);
  for(auto & x : p.t)
    if(x.first == m) return x.second;
  return 0;
}
bool pdiv(const Poly & a, const Poly & b, Poly & q)
{
  if(b.zero()) return false;
  if(a.zero())
  {
    q = Poly();
    return true;
  }
  if(b.isConst())
  {
    q = pscale(a, 1 / b.constVal());
    return true;
  }
  if(b.t.size() == 1)
  {
    Poly r;
    for(auto & x : a.t)
    {
      MonoId m;
      if(!monoDiv(x.first, b.t[0].first, m)) return false;
      r.t.push_back({m, x.second / b.t[0].second});
    }
    std::sort(r.t.begin(), r.t.end(), [](const auto & p, const auto & q2) { return p.first < q2.first; });
    q = r;
    return true;
  }
  if(a.t.size() > 20000) return false; // only a simplification: giving up is sound
  MonoId lb = leadMono(b);
  mpq_class cb = leadCoef(b);
  auto cmp = [](MonoId x, MonoId y) { return monoLess(y, x); };
  std::map<MonoId, mpq_class, decltype(cmp)> rem(cmp);
  for(auto & x : a.t) rem[x.first] = x.second;
  Poly r;
  size_t steps = 0;
  while(!rem.empty())
  {
    auto it = rem.begin();
    MonoId m;
    if(!monoDiv(it->first, lb, m)) return false;
    if(++steps > 5000) return false;
    mpq_class c = it->second / cb;
    r.t.push_back({m, c});
    for(auto & y : b.t)
    {
      MonoId k = monoMul(m, y.first);
      auto f = rem.find(k);
      if(f == rem.end())
        rem[k] = -c * y.second;
      else
      {
        f->second -= c * y.second;
        if(f->second == 0) rem.erase(f);
      }
    }
  }
  std::sort(r.t.begin(), r.t.end(), [](const auto & p, const auto & q2) { return p.first < q2.first; });
  q = r;
  return true;
}
std::string pstr(const Poly & p, std::function<std::string(Atom)> name, size_t maxTerms)
{
  if(p.zero()) return "0";
  std::ostringstream o;
  size_t k = 0;
  for(auto & x : p.t)
  {
    if(k) o << " + ";
    if(++k > maxTerms)
    {
      o << "... (" << p.t.size() << " terms)";
      break;
    }
    o << x.second.get_str();
    for(auto & y : monoVec(x.first))
    {
      o << "*" << name(y.first);
      if(y.second > 1) o << "^" << y.second;
    }
  }
  return o.str();
}
namespace
{
std::deque<Poly> polys __attribute__((init_priority(150)));
std::unordered_multimap<size_t, PolyId> polyTab __attribute__((init_priority(150)));
} // namespace
PolyId internPoly(const Poly & p)
{
  size_t h = p.hash();
  auto r = polyTab.equal_range(h);
  for(auto it = r.first; it != r.second; ++it)
    if(polys[it->second] == p) return it->second;
  PolyId id = polys.size();
  polys.push_back(p);
  polyTab.insert({h, id});
  return id;
}
const Poly & polyOf(PolyId i)
{
  return polys[i];
}
} // namespace vp
