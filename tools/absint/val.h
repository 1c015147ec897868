// Abstract values: constants, pointers, rational functions over symbols and
// gated values (decision diagrams over threshold atoms on polynomials).
#pragma once
#include "rf.h"
#include <cstring>
#include <cmath>

enum class K : uint8_t { Undef, Int, Fp, Ptr, Sym, Dec, Agg, Top };
struct DecNode; struct AggNode;
// long double kept as raw bytes: a union member of type long double would let the
// compiler copy the union through the x87 stack and lose the other members
struct LD {
  uint64_t w[2];
  operator long double() const { long double x; memcpy(&x, w, sizeof x); return x; }
  LD& operator=(long double x) { w[0] = w[1] = 0; memcpy(w, &x, 10); return *this; }
};
struct Val {
  K k = K::Undef;
  uint8_t bits = 0;          // integer width / fp width (32,64,80)
  uint32_t loc = 0;          // provenance: id of the /repo source location that produced it
  union { struct { uint64_t i, um; }; LD d; struct { uint32_t obj; int64_t off; } p; R rf; const DecNode* dec; const AggNode* agg; };
  Val() { d.w[0] = d.w[1] = 0; }
};
inline bool operator==(const Val& a, const Val& b) {
  if (a.k != b.k) return false;
  switch (a.k) {
    case K::Undef: case K::Top: return true;
    case K::Int: return a.i == b.i && a.um == b.um;
    case K::Fp: return (long double)a.d == (long double)b.d || ((long double)a.d != (long double)a.d && (long double)b.d != (long double)b.d);
    case K::Ptr: return a.p.obj == b.p.obj && a.p.off == b.p.off;
    case K::Sym: return a.rf == b.rf;
    case K::Dec: return a.dec == b.dec;
    case K::Agg: return a.agg == b.agg;
  }
  return false;
}
inline uint64_t maskBits(uint64_t v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
inline int64_t sextBits(uint64_t v, unsigned b) { if (b >= 64) return (int64_t)v; uint64_t m = 1ull << (b - 1); v = maskBits(v, b); return (int64_t)((v ^ m) - m); }
inline Val vInt(uint64_t v, unsigned bits) { Val r; r.k = K::Int; r.bits = bits; r.i = maskBits(v, bits); return r; }
// integer with undefined (padding) bits
inline Val vIntU(uint64_t v, uint64_t um, unsigned bits) { if (maskBits(um, bits) == maskBits(~0ull, bits)) return Val(); Val r = vInt(v, bits); r.um = maskBits(um, bits); r.i &= ~r.um; return r; }
inline Val vFp(long double d, unsigned bits = 64) { Val r; r.k = K::Fp; r.bits = bits; r.d = bits == 32 ? (long double)(float)d : bits == 64 ? (long double)(double)d : d; return r; }
inline Val vPtr(uint32_t o, int64_t off) { Val r; r.k = K::Ptr; r.bits = 64; r.p.obj = o; r.p.off = off; return r; }
inline Val vTop() { Val r; r.k = K::Top; return r; }
inline Val vBool(bool b) { return vInt(b, 1); }
extern bool exactFp;                       // carry inexact constants as rationals instead of rounding
Val vSym(R r, bool isInt, unsigned bits);   // folds constants

// threshold atoms: (t <  b) or (t <= b), t a primitive polynomial without constant term
struct Atom { P t; Q b; bool le; uint32_t id; };
using A = const Atom*;
int atomCmp(A a, A b);
struct DecNode { A a; Val hi, lo; size_t hash; uint32_t id; uint32_t size; };
struct AggNode { std::vector<Val> v; size_t hash; };
Val vDec(A a, const Val& hi, const Val& lo);
Val vAgg(std::vector<Val>&& v);
size_t valHash(const Val& v);

Val ite(const Val& c, const Val& a, const Val& b);
Val bAnd(const Val& a, const Val& b);
Val bOr(const Val& a, const Val& b);
Val bNot(const Val& a);
template <class F> Val apply1(const Val& a, F f);
template <class F> Val apply2(const Val& a, const Val& b, F f);

// comparison of a rational function with zero
enum class Rel { LT, LE, EQ, NE, GE, GT };
Val relZero(R r, Rel rel);
bool isTrue(const Val& v); bool isFalse(const Val& v);
// is there a theory-consistent path of boolean c to leaf 'true'? (interval theory)
bool feasible(const Val& c);
// as feasible, and describe the path
bool findPath(const Val& c, std::string& desc);
Val simplifyUnder(const Val& v, const Val& pc);
R toRF(const Val& v);        // numeric leaf -> RF (ints signed)
std::string valStr(const Val& v, int depth = 3);
std::string atomStr(A a);
// bounds of polynomial p under conjunctive literals of pc (pc must be a cube for best results)
struct Bound { bool loInf = true, hiInf = true; Q lo, hi; bool loStrict = false, hiStrict = false; };

namespace detail {
struct PairKey { Val a, b; };
struct PairHash { size_t operator()(const PairKey& k) const { return valHash(k.a) * 1000003u ^ valHash(k.b); } };
struct PairEq { bool operator()(const PairKey& x, const PairKey& y) const { return x.a == y.a && x.b == y.b && x.a.bits == y.a.bits && x.b.bits == y.b.bits; } };
struct VH { size_t operator()(const Val& v) const { return valHash(v); } };
// cofactor of v by literal (a = val)
Val cof(const Val& v, A a, bool val);
A topAtom(const Val& a, const Val& b);
}
template <class F> Val apply1rec(const Val& a, F& f, std::unordered_map<const DecNode*, Val>& memo) {
  if (a.k != K::Dec) return f(a);
  auto it = memo.find(a.dec); if (it != memo.end()) return it->second;
  Val h = apply1rec(a.dec->hi, f, memo), l = apply1rec(a.dec->lo, f, memo);
  // results may themselves be decisions: rebuild through ite on the atom
  Val c = vDec(a.dec->a, vBool(true), vBool(false));
  Val r = ite(c, h, l); memo[a.dec] = r; return r;
}
template <class F> Val apply1(const Val& a, F f) {
  if (a.k != K::Dec) return f(a);
  std::unordered_map<const DecNode*, Val> memo;
  return apply1rec(a, f, memo);
}
template <class F> Val apply2rec(const Val& a, const Val& b, F& f, std::unordered_map<detail::PairKey, Val, detail::PairHash, detail::PairEq>& memo) {
  if (a.k != K::Dec && b.k != K::Dec) return f(a, b);
  detail::PairKey k{a, b};
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  A t = detail::topAtom(a, b);
  Val h = apply2rec(detail::cof(a, t, true), detail::cof(b, t, true), f, memo);
  Val l = apply2rec(detail::cof(a, t, false), detail::cof(b, t, false), f, memo);
  Val c = vDec(t, vBool(true), vBool(false));
  Val r = ite(c, h, l); memo[k] = r;
  if (memo.size() > 200000) throw Undecided("gated value too large");
  return r;
}
template <class F> Val apply2(const Val& a, const Val& b, F f) {
  if (a.k != K::Dec && b.k != K::Dec) return f(a, b);
  std::unordered_map<detail::PairKey, Val, detail::PairHash, detail::PairEq> memo;
  return apply2rec(a, b, f, memo);
}
