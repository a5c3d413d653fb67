// The VC generator: runs the re-typed code on symbolic reals, explores every branch, and discharges the obligations.
#pragma once
#include "real.hpp"
#include <string>
#include <vector>

namespace vp
{
// --- inputs -------------------------------------------------------------------------------------------------
Real var(const std::string & name, double lo, double hi); // an arbitrary real; [lo,hi] only guides the search for inputs
Real posVar(const std::string & name, double lo, double hi); // an arbitrary positive real
std::vector<Real> unitVars(const std::vector<std::string> & names); // components of an arbitrary unit vector
Real uninterpreted(const std::string & fname, int component, const std::vector<Real> & args);
long choice(const std::string & name, long lo, long hi); // every integer of [lo,hi], one path each
std::vector<Real> & draws(); // the gaussian draws made so far; the contract clears it
// --- assumptions (preconditions) and obligations -------------------------------------------------------------
void assumeSign(const Real & x, int mask); // sign(x) in mask: 1 negative, 2 zero, 4 positive
void obligSign(const std::string & label, const Real & x, int mask);
void obligTrue(const std::string & label, bool holds);
bool peekSign(const Real & x, int mask); // true when entailed now, without forking
} // namespace vp
