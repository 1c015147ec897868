// Multivariate rational functions with rational coefficients: the numeric part
// of the abstract value domain.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <stdexcept>
#include <functional>

struct Undecided : std::runtime_error { using std::runtime_error::runtime_error; };

using Q = mpq_class;

// ---- variables -----------------------------------------------------------
struct RF;
struct VarInfo {
  std::string name;
  bool isInt = false;
  const RF* sqrtOf = nullptr;   // s with s*s == *sqrtOf
  bool nonneg = false;          // known >= 0 by construction (sqrt, udiv)
};
extern std::vector<VarInfo> vars;

// ---- monomials / polynomials --------------------------------------------
using Mono = std::vector<uint32_t>;   // (var<<8 | exp), ascending var
inline uint32_t mvar(uint32_t e) { return e >> 8; }
inline uint32_t mexp(uint32_t e) { return e & 255; }
int monoCmp(const Mono& a, const Mono& b);  // lex, >0 if a greater
Mono monoMul(const Mono& a, const Mono& b);
bool monoDiv(const Mono& a, const Mono& b, Mono& r); // a / b

struct Term { Mono m; Q c; };
struct Poly {
  std::vector<Term> t;       // descending
  size_t hash = 0;
  uint32_t id = 0;
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.empty()); }
  Q constVal() const { return t.empty() ? Q(0) : t[0].c; }
  Q constTerm() const { return (!t.empty() && t.back().m.empty()) ? t.back().c : Q(0); }
};
using P = const Poly*;
P internPoly(std::vector<Term>&& sortedTerms);
P polyConst(const Q& c);
P polyVar(uint32_t v);
P polyAdd(P a, P b);
P polySub(P a, P b);
P polyMul(P a, P b);
P polyScale(P a, const Q& c);
bool polyDivExact(P a, P b, P& q);
void polyDivRem(P a, P b, P& q, P& r);
bool polySqrt(P a, P& r);                 // perfect square with positive leading coeff
P polyDiff(P a, uint32_t v);
std::string polyStr(P a);
bool polyIsInt(P a);

// ---- rational functions --------------------------------------------------
struct RF {
  P num;
  std::vector<std::pair<P,int>> den;      // normalised factors, exponent > 0
  size_t hash = 0;
  uint32_t id = 0;
  bool isConst() const { return den.empty() && num->isConst(); }
};
using R = const RF*;
R rfMake(P num, std::vector<std::pair<P,int>> den);
R rfConst(const Q& c);
R rfVar(uint32_t v);
R rfAdd(R a, R b);
R rfSub(R a, R b);
R rfMul(R a, R b);
R rfNeg(R a);
R rfInv(R a);
R rfDiff(R a, uint32_t v);
R rfSubst(R a, uint32_t v, R val);
P rfSignPoly(R a);           // polynomial with the sign of a (denominator nonzero)
P rfDenPoly(R a);
std::string rfStr(R a);
bool rfApproxZero(R diff, R a, R b, double tol);
uint32_t newVar(const std::string& name, bool isInt);
uint32_t sqrtVar(R a);       // variable s = sqrt(a)
