// Polynomials and fractions over interned atoms: the verifier's equational back end ("normal form").
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace vp
{
typedef uint32_t Atom;
typedef uint32_t MonoId;
typedef std::vector<std::pair<Atom, int>> MonoVec; // sorted by atom, exponents > 0

struct TooBig : std::runtime_error
{
  TooBig(const char * w) : std::runtime_error(w) {}
};

const MonoVec & monoVec(MonoId m);
MonoId internMono(const MonoVec & v);
MonoId monoMul(MonoId a, MonoId b);
bool monoDiv(MonoId a, MonoId b, MonoId & q); // a/b when b | a
bool monoLess(MonoId a, MonoId b); // graded lex, an admissible order

struct Poly
{
  std::vector<std::pair<MonoId, mpq_class>> t; // sorted by mono id, non-zero coefficients
  bool zero() const
  {
    return t.empty();
  }
  bool isConst() const
  {
    return t.empty() || (t.size() == 1 && t[0].first == 0);
  }
  mpq_class constVal() const
  {
    return t.empty() ? mpq_class(0) : t[0].second;
  }
  bool operator==(const Poly & o) const
  {
    return t == o.t;
  }
  static Poly cst(const mpq_class & q);
  static Poly atom(Atom a);
  static Poly mono(MonoId m, const mpq_class & c);
  size_t hash() const;
};
Poly padd(const Poly & a, const Poly & b, const mpq_class & kb = 1);
Poly pmul(const Poly & a, const Poly & b);
Poly pscale(const Poly & a, const mpq_class & k);
Poly ppow(const Poly & a, int n);
bool pdiv(const Poly & a, const Poly & b, Poly & q); // exact division
mpq_class leadCoef(const Poly & p); // coefficient of the greatest monomial
MonoId leadMono(const Poly & p);
std::string pstr(const Poly & p, std::function<std::string(Atom)> name, size_t maxTerms = 12);

typedef uint32_t PolyId; // interned, monic w.r.t. leadMono
PolyId internPoly(const Poly & p);
const Poly & polyOf(PolyId);

struct Frac
{
  Poly n;
  std::map<PolyId, int> d; // denominator: product of interned factors
  bool zero() const
  {
    return n.zero();
  }
  bool poly() const
  {
    return d.empty();
  }
  bool isConst() const
  {
    return d.empty() && n.isConst();
  }
};
} // namespace vp
