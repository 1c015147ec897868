#include "val.h"
#include <algorithm>
#include <sstream>
#include <optional>
#include <map>
#include <set>

static inline void hmix(size_t& h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); }
size_t valHash(const Val& v) {
  size_t h = (size_t)v.k * 7919;
  switch (v.k) {
    case K::Int: hmix(h, v.i); hmix(h, v.um); break;
    case K::Fp: { double d = (double)v.d; if (d == 0) d = 0; uint64_t b; memcpy(&b, &d, 8); hmix(h, b); break; }
    case K::Ptr: hmix(h, v.p.obj); hmix(h, v.p.off); break;
    case K::Sym: hmix(h, (size_t)v.rf); break;
    case K::Dec: hmix(h, (size_t)v.dec); break;
    case K::Agg: hmix(h, (size_t)v.agg); break;
    default: break;
  }
  return h;
}
bool exactFp = false;
Val vSym(R r, bool isInt, unsigned bits) {
  if (r->isConst()) {
    Q c = r->num->constVal();
    if (isInt) {
      if (c.get_den() != 1) throw Undecided("non-integral integer value");
      mpz_class z = c.get_num(); mpz_class m; mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), 64);
      return vInt(mpz_get_ui(m.get_mpz_t()), bits);
    }
    // nearest long double: via double plus remainder
    double hi = c.get_d(); long double d = hi;
    if (exactFp && c != Q(hi)) { Val v; v.k = K::Sym; v.bits = bits; v.rf = r; return v; }
    if (bits > 64) { Q rem = c - Q(hi); d += (long double)rem.get_d(); }
    else { // correct the truncation of get_d to nearest
      Q rem = c - Q(hi); double up = std::nextafter(hi, rem > 0 ? INFINITY : -INFINITY);
      if (rem != 0 && std::isfinite(up)) { Q r2 = Q(up) - c; if (abs(r2) < abs(rem)) d = up; }
    }
    return vFp(d, bits ? bits : 64);
  }
  Val v; v.k = K::Sym; v.bits = bits; v.rf = r; return v;
}
R toRF(const Val& v) {
  switch (v.k) {
    case K::Int: { mpz_class z = (long)sextBits(v.i, v.bits ? v.bits : 64); if (v.bits == 1) z = (long)v.i; return rfConst(Q(z)); }
    case K::Fp: {
      if (!std::isfinite((double)v.d)) throw Undecided("non-finite constant in symbolic arithmetic");
      double hi = (double)v.d; long double rest = v.d - hi;
      Q q(hi); if (rest != 0) q += Q((double)rest);
      return rfConst(q); }
    case K::Sym: return v.rf;
    default: throw Undecided("non-numeric value in arithmetic");
  }
}

// ---- atoms -----------------------------------------------------------------
namespace {
struct AtomHash { size_t operator()(const Atom* a) const { size_t h = (size_t)a->t; hmix(h, mpz_fdiv_ui(a->b.get_num_mpz_t(), 4294967291ul)); hmix(h, mpz_fdiv_ui(a->b.get_den_mpz_t(), 4294967291ul)); hmix(h, a->le); return h; } };
struct AtomEq { bool operator()(const Atom* x, const Atom* y) const { return x->t == y->t && x->b == y->b && x->le == y->le; } };
std::unordered_set<const Atom*, AtomHash, AtomEq> atomTab;
uint32_t nextAtom = 0, nextDec = 0;
struct DecHash { size_t operator()(const DecNode* d) const { return d->hash; } };
struct DecEq { bool operator()(const DecNode* x, const DecNode* y) const { return x->a == y->a && x->hi == y->hi && x->lo == y->lo && x->hi.bits == y->hi.bits && x->lo.bits == y->lo.bits; } };
std::unordered_set<const DecNode*, DecHash, DecEq> decTab;
struct AggHash { size_t operator()(const AggNode* d) const { return d->hash; } };
struct AggEq { bool operator()(const AggNode* x, const AggNode* y) const { return x->v == y->v; } };
std::unordered_set<const AggNode*, AggHash, AggEq> aggTab;
}
static A internAtom(P t, const Q& b, bool le) {
  Atom tmp{t, b, le, 0};
  auto it = atomTab.find(&tmp); if (it != atomTab.end()) return *it;
  Atom* a = new Atom(tmp); a->id = nextAtom++; atomTab.insert(a); return a;
}
int atomCmp(A a, A b) {
  if (a == b) return 0;
  if (a->t != b->t) return a->t->id < b->t->id ? -1 : 1;
  if (a->b != b->b) return a->b < b->b ? -1 : 1;
  return a->le < b->le ? -1 : 1;
}
Val vDec(A a, const Val& hi, const Val& lo) {
  if (hi == lo) return hi;
  DecNode tmp; tmp.a = a; tmp.hi = hi; tmp.lo = lo;
  size_t h = a->id; hmix(h, valHash(hi)); hmix(h, valHash(lo)); tmp.hash = h;
  auto it = decTab.find(&tmp);
  const DecNode* n;
  if (it != decTab.end()) n = *it;
  else { DecNode* d = new DecNode(tmp); d->id = nextDec++; d->size = 1 + (hi.k == K::Dec ? hi.dec->size : 0) + (lo.k == K::Dec ? lo.dec->size : 0); decTab.insert(d); n = d; }
  Val v; v.k = K::Dec; v.dec = n; v.bits = hi.bits ? hi.bits : lo.bits; v.loc = hi.loc ? hi.loc : lo.loc; return v;
}
Val vAgg(std::vector<Val>&& x) {
  AggNode tmp; tmp.v = std::move(x); size_t h = tmp.v.size(); for (auto& y : tmp.v) hmix(h, valHash(y)); tmp.hash = h;
  auto it = aggTab.find(&tmp); const AggNode* n;
  if (it != aggTab.end()) n = *it; else { n = new AggNode(std::move(tmp)); aggTab.insert(n); }
  Val v; v.k = K::Agg; v.agg = n; return v;
}
namespace detail {
Val cof(const Val& v, A a, bool val) {
  if (v.k != K::Dec) return v;
  A n = v.dec->a;
  if (n == a) return val ? v.dec->hi : v.dec->lo;
  if (n->t == a->t) {
    int c = atomCmp(n, a);
    if (val && c > 0) return cof(v.dec->hi, a, val);   // t<b implies t<b' for b'>b
    if (!val && c < 0) return cof(v.dec->lo, a, val);
  }
  return v;
}
A topAtom(const Val& a, const Val& b) {
  if (a.k != K::Dec) return b.dec->a;
  if (b.k != K::Dec) return a.dec->a;
  return atomCmp(a.dec->a, b.dec->a) <= 0 ? a.dec->a : b.dec->a;
}
}
namespace {
struct TriKey { Val a, b, c; };
struct TriHash { size_t operator()(const TriKey& k) const { return (valHash(k.a) * 1000003u ^ valHash(k.b)) * 1000003u ^ valHash(k.c); } };
struct TriEq { bool operator()(const TriKey& x, const TriKey& y) const { return x.a == y.a && x.b == y.b && x.c == y.c && x.b.bits == y.b.bits && x.c.bits == y.c.bits; } };
using IteMemo = std::unordered_map<TriKey, Val, TriHash, TriEq>;
}
static Val iteRec(const Val& c, const Val& a, const Val& b, IteMemo& memo) {
  if (c.k == K::Int) return c.i ? a : b;
  if (c.k == K::Undef || c.k == K::Top) { if (a == b) return a; return c; }
  if (a == b) return a;
  if (c.k != K::Dec) throw Undecided("non-boolean condition");
  TriKey k{c, a, b}; auto it = memo.find(k); if (it != memo.end()) return it->second;
  A t = c.dec->a;
  if (a.k == K::Dec && atomCmp(a.dec->a, t) < 0) t = a.dec->a;
  if (b.k == K::Dec && atomCmp(b.dec->a, t) < 0) t = b.dec->a;
  using detail::cof;
  Val r = vDec(t, iteRec(cof(c, t, true), cof(a, t, true), cof(b, t, true), memo),
                  iteRec(cof(c, t, false), cof(a, t, false), cof(b, t, false), memo));
  memo[k] = r;
  if (memo.size() > 300000) throw Undecided("gated value too large");
  return r;
}
Val ite(const Val& c, const Val& a, const Val& b) {
  if (c.k == K::Int) return c.i ? a : b;
  if (a == b) return a;
  IteMemo m; return iteRec(c, a, b, m);
}
Val bAnd(const Val& a, const Val& b) { if (a.k == K::Int) return a.i ? b : a; if (b.k == K::Int) return b.i ? a : b; return ite(a, b, vBool(false)); }
Val bOr(const Val& a, const Val& b) { if (a.k == K::Int) return a.i ? a : b; if (b.k == K::Int) return b.i ? b : a; return ite(a, vBool(true), b); }
Val bNot(const Val& a) { return ite(a, vBool(false), vBool(true)); }
bool isTrue(const Val& v) { return v.k == K::Int && v.i; }
bool isFalse(const Val& v) { return v.k == K::Int && !v.i; }

static Val relPoly(P p, Rel rel);
Val relZero(R r, Rel rel) {
  // the sign of a quotient is the product of the signs of numerator and odd denominator factors
  Val res = relPoly(r->num, rel), neg; bool haveNeg = false; Val flip = vBool(false);
  for (auto& d : r->den) if (d.second & 1) flip = ite(relPoly(d.first, Rel::GT), flip, bNot(flip));
  if (isFalse(flip)) return res;
  switch (rel) { case Rel::LT: neg = relPoly(r->num, Rel::GT); break; case Rel::LE: neg = relPoly(r->num, Rel::GE); break; case Rel::GE: neg = relPoly(r->num, Rel::LE); break; case Rel::GT: neg = relPoly(r->num, Rel::LT); break; default: return res; }
  (void)haveNeg; return ite(flip, neg, res);
}
static Val relPoly(P p, Rel rel) {
  if (p->isConst()) {
    int s = sgn(p->constVal());
    switch (rel) { case Rel::LT: return vBool(s < 0); case Rel::LE: return vBool(s <= 0); case Rel::EQ: return vBool(s == 0);
      case Rel::NE: return vBool(s != 0); case Rel::GE: return vBool(s >= 0); case Rel::GT: return vBool(s > 0); }
  }
  // remove even powers? not needed.  p = g*(t - b), g>0 after sign handling, t primitive
  mpz_class den = 1, num = 0; bool isInt = true;
  Q c0 = p->constTerm();
  for (auto& x : p->t) if (!x.m.empty()) {
    den = lcm(den, mpz_class(x.c.get_den()));
    for (auto e : x.m) if (!vars[mvar(e)].isInt) isInt = false;
  }
  for (auto& x : p->t) if (!x.m.empty()) { Q y = x.c * Q(den); num = gcd(num, mpz_class(y.get_num())); }
  Q g = Q(num) / Q(den); g = abs(g);
  if (p->t[0].c < 0) g = -g;
  std::vector<Term> tt; for (auto& x : p->t) if (!x.m.empty()) tt.push_back({x.m, x.c / g});
  P t = internPoly(std::move(tt)); Q b = -c0 / g;
  if (g < 0) { switch (rel) { case Rel::LT: rel = Rel::GT; break; case Rel::LE: rel = Rel::GE; break; case Rel::GE: rel = Rel::LE; break; case Rel::GT: rel = Rel::LT; break; default: break; } }
  // now: t rel b.  single even power monomials: x^2 >= 0 handled by the interval theory
  auto mk = [&](bool le) -> Val {
    Q bb = b; bool l = le;
    if (isInt) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), b.get_num_mpz_t(), b.get_den_mpz_t());
      if (le) bb = f; else { bb = (b.get_den() == 1) ? Q(f - 1) : Q(f); } l = true; }
    return vDec(internAtom(t, bb, l), vBool(true), vBool(false)); };
  switch (rel) {
    case Rel::LT: return mk(false);
    case Rel::LE: return mk(true);
    case Rel::GE: return bNot(mk(false));
    case Rel::GT: return bNot(mk(true));
    case Rel::EQ: if (isInt && b.get_den() != 1) return vBool(false); return bAnd(mk(true), bNot(mk(false)));
    case Rel::NE: if (isInt && b.get_den() != 1) return vBool(true); return bNot(bAnd(mk(true), bNot(mk(false))));
  }
  return vTop();
}

// ---- interval theory ---------------------------------------------------------
namespace {
struct Theory {
  std::map<P, Bound> known;
  static bool hasVar(P t, uint32_t v) { return t->t.size() == 1 && t->t[0].m.size() == 1 && t->t[0].m[0] == ((v << 8) | 1u); }
  Bound varBound(uint32_t v) const {
    Bound b; P p = polyVar(v);
    auto it = known.find(p); if (it != known.end()) b = it->second;
    if (vars[v].nonneg && (b.loInf || b.lo < 0)) { b.loInf = false; b.lo = 0; b.loStrict = false; }
    return b;
  }
  static Bound mulB(const Bound& a, const Bound& b) {
    // products of interval end points with infinities
    struct E { int inf; Q v; };
    auto ends = [](const Bound& x) { return std::pair<E,E>{{x.loInf ? -1 : 0, x.lo}, {x.hiInf ? 1 : 0, x.hi}}; };
    auto [al, ah] = ends(a); auto [bl, bh] = ends(b);
    auto mul = [](const E& x, const E& y) -> E {
      auto s = [](const E& e) { return e.inf ? e.inf : sgn(e.v); };
      if (x.inf || y.inf) { int sg = s(x) * s(y); if (sg == 0) return {0, Q(0)}; return {sg, Q(0)}; }
      return {0, x.v * y.v}; };
    auto lt = [](const E& x, const E& y) { if (x.inf != y.inf) return x.inf < y.inf; if (x.inf) return false; return x.v < y.v; };
    E c[4] = {mul(al, bl), mul(al, bh), mul(ah, bl), mul(ah, bh)};
    E lo = c[0], hi = c[0]; for (int i = 1; i < 4; ++i) { if (lt(c[i], lo)) lo = c[i]; if (lt(hi, c[i])) hi = c[i]; }
    Bound r; r.loInf = lo.inf != 0; r.lo = lo.v; r.hiInf = hi.inf != 0; r.hi = hi.v;
    // strictness: product of two strictly positive factors is strictly positive
    if (!r.loInf && r.lo == 0 && !a.loInf && !b.loInf && a.lo >= 0 && b.lo >= 0 && (a.lo > 0 || a.loStrict) && (b.lo > 0 || b.loStrict)) r.loStrict = true;
    return r;
  }
  Bound monoBound(const Mono& m) const {
    Bound r; r.loInf = r.hiInf = false; r.lo = r.hi = 1;
    // a known bound for the whole monomial
    for (auto e : m) {
      Bound v = varBound(mvar(e)), w; w.loInf = w.hiInf = false; w.lo = w.hi = 1;
      for (uint32_t k = 0; k < mexp(e); ++k) w = mulB(w, v);
      if (mexp(e) % 2 == 0 && (w.loInf || w.lo < 0)) { w.loInf = false; w.lo = 0; w.loStrict = false; }
      r = mulB(r, w);
    }
    P p = internPoly({{m, Q(1)}});
    auto it = known.find(p); if (it != known.end()) meet(r, it->second);
    return r;
  }
  static void meet(Bound& a, const Bound& b) {
    if (!b.loInf && (a.loInf || b.lo > a.lo || (b.lo == a.lo && b.loStrict))) { a.loInf = false; a.lo = b.lo; a.loStrict = b.loStrict; }
    if (!b.hiInf && (a.hiInf || b.hi < a.hi || (b.hi == a.hi && b.hiStrict))) { a.hiInf = false; a.hi = b.hi; a.hiStrict = b.hiStrict; }
  }
  static void addScaled(Bound& r, const Bound& b, const Q& c) {
    bool neg = c < 0;
    bool blInf = neg ? b.hiInf : b.loInf, bhInf = neg ? b.loInf : b.hiInf;
    if (blInf) r.loInf = true; else if (!r.loInf) { r.lo += c * (neg ? b.hi : b.lo); r.loStrict |= neg ? b.hiStrict : b.loStrict; }
    if (bhInf) r.hiInf = true; else if (!r.hiInf) { r.hi += c * (neg ? b.lo : b.hi); r.hiStrict |= neg ? b.loStrict : b.hiStrict; }
  }
  Bound eval(P t) const {
    Bound r; r.loInf = r.hiInf = false; r.lo = r.hi = 0;
    for (auto& x : t->t) { if (x.m.empty()) { r.lo += x.c; r.hi += x.c; } else addScaled(r, monoBound(x.m), x.c); }
    auto it = known.find(t); if (it != known.end()) meet(r, it->second);
    // a multi-affine polynomial on a box attains its extremes at the box corners
    if (t->t.size() > 1) {
      std::vector<uint32_t> vs; bool ok = true;
      for (auto& x : t->t) for (auto e : x.m) { if (mexp(e) != 1) ok = false; if (std::find(vs.begin(), vs.end(), mvar(e)) == vs.end()) vs.push_back(mvar(e)); }
      if (ok && vs.size() <= 8) {
        std::vector<Bound> bs; for (auto v : vs) { bs.push_back(varBound(v)); if (bs.back().loInf || bs.back().hiInf) ok = false; }
        if (ok) {
          Bound q; bool first = true;
          for (unsigned m = 0; m < (1u << vs.size()); ++m) {
            Q val = 0; for (auto& x : t->t) { Q y = x.c; for (auto e : x.m) { size_t k = std::find(vs.begin(), vs.end(), mvar(e)) - vs.begin(); y *= (m >> k & 1) ? bs[k].hi : bs[k].lo; } val += y; }
            if (first || val < q.lo) q.lo = val; if (first || val > q.hi) q.hi = val; first = false;
          }
          q.loInf = q.hiInf = false; meet(r, q);
        }
      }
    }
    // one step of linear combination with known relations: t = k + (t-k), t = -k + (t+k)
    if (r.loInf || r.hiInf || true) for (auto& kb : known) {
      if (kb.first == t || kb.first->t.size() < 2 || kb.first->t.size() > 12 || t->t.size() > 40) continue;
      for (int s : {1, -1}) {
        P d = s > 0 ? polySub(t, kb.first) : polyAdd(t, kb.first);
        if (d->t.size() >= t->t.size() + kb.first->t.size()) continue;
        Bound q; q.loInf = q.hiInf = false; q.lo = q.hi = 0;
        addScaled(q, kb.second, Q(s));
        for (auto& x : d->t) { if (x.m.empty()) { q.lo += x.c; q.hi += x.c; } else addScaled(q, monoBound(x.m), x.c); }
        meet(r, q);
      }
    }
    return r;
  }
  // 1 implied true, 0 implied false, -1 unknown
  int implied(A a) const {
    Bound b = eval(a->t);
    bool isInt = polyIsInt(a->t);
    if (!b.hiInf && (b.hi < a->b || (b.hi == a->b && (a->le || b.hiStrict)))) return 1;
    if (!b.loInf && (b.lo > a->b || (b.lo == a->b && (!a->le || b.loStrict)))) return 0;
    if (isInt && !b.loInf && a->le && b.loStrict && b.lo == a->b) return 0;
    return -1;
  }
  void assume(A a, bool v) {
    Bound b;
    if (v) { b.hiInf = false; b.hi = a->b; b.hiStrict = !a->le; }
    else { b.loInf = false; b.lo = a->b; b.loStrict = a->le; if (a->le && polyIsInt(a->t)) { b.lo += 1; b.loStrict = false; } }
    Bound& k = known[a->t];
    meet(k, b);
  }
  // refutation by eliminating the monomials, taken as independent unknowns, one by one
  struct Row { std::map<Mono,Q> a; Q b; bool strict; };   // sum a*m <= b (or <)
  bool refuted() const {
    std::vector<Row> rows; std::set<Mono> ms;
    for (auto& kb : known) {
      if (kb.first->t.size() > 6) continue;
      Row r; Q c = 0; for (auto& x : kb.first->t) { if (x.m.empty()) c += x.c; else { r.a[x.m] = x.c; ms.insert(x.m); } }
      if (!kb.second.hiInf) { r.b = kb.second.hi - c; r.strict = kb.second.hiStrict; rows.push_back(r); }
      if (!kb.second.loInf) { Row n; for (auto& x : r.a) n.a[x.first] = -x.second; n.b = c - kb.second.lo; n.strict = kb.second.loStrict; rows.push_back(n); }
    }
    // independent groups of unknowns are refuted separately
    while (!rows.empty()) {
      std::vector<Row> part{rows.back()}; rows.pop_back(); std::set<Mono> pm; for (auto& x : part[0].a) pm.insert(x.first);
      for (bool more = true; more;) { more = false; for (size_t i = 0; i < rows.size();) { bool hit = false; for (auto& x : rows[i].a) hit |= pm.count(x.first) > 0; if (!hit) { ++i; continue; } for (auto& x : rows[i].a) pm.insert(x.first); part.push_back(rows[i]); rows[i] = rows.back(); rows.pop_back(); more = true; } }
      if (eliminate(std::move(part), std::move(pm))) return true;
    }
    return false;
  }
  bool eliminate(std::vector<Row> rows, std::set<Mono> ms) const {
    if (rows.size() < 2 || rows.size() > 60) return false;
    for (auto& m : ms) { Bound b = monoBound(m); auto add = [&](Q k, Q v, bool st) { Row r; r.a[m] = k; r.b = v; r.strict = st; rows.push_back(r); };
      if (!b.loInf) add(-1, -b.lo, b.loStrict); if (!b.hiInf) add(1, b.hi, b.hiStrict); }
    while (!ms.empty()) {
      Mono pick; size_t best = ~size_t(0);
      for (auto& m : ms) { size_t p = 0, n = 0; for (auto& r : rows) { auto it = r.a.find(m); if (it != r.a.end()) ++(it->second > 0 ? p : n); } if (p * n < best) { best = p * n; pick = m; } }
      if (best > 300) return false;
      std::vector<Row> up, down, rest;
      for (auto& r : rows) { auto it = r.a.find(pick); (it == r.a.end() ? rest : it->second > 0 ? up : down).push_back(r); }
      for (auto& u : up) for (auto& d : down) {
        Q s = u.a[pick], t = -d.a[pick]; Row n; n.b = u.b * t + d.b * s; n.strict = u.strict || d.strict;
        for (auto& x : u.a) n.a[x.first] += x.second * t; for (auto& x : d.a) n.a[x.first] += x.second * s;
        for (auto it = n.a.begin(); it != n.a.end();) it = it->second == 0 ? n.a.erase(it) : std::next(it);
        if (n.a.empty()) { if (n.b < 0 || (n.b == 0 && n.strict)) return true; continue; }
        Q k = abs(n.a.begin()->second); for (auto& x : n.a) x.second /= k; n.b /= k;
        bool dup = false; for (auto& r : rest) if (r.a == n.a) { dup = true; if (n.b < r.b || (n.b == r.b && n.strict)) { r.b = n.b; r.strict = n.strict; } break; }
        if (!dup) rest.push_back(n);
      }
      rows.swap(rest); ms.erase(pick);
    }
    return false;
  }
  bool contradictory() const {
    for (auto& kb : known) {
      Bound b = eval(kb.first);
      if (!b.loInf && !b.hiInf && (b.lo > b.hi || (b.lo == b.hi && (b.loStrict || b.hiStrict)))) return true;
    }
    return false;
  }
};
long budget;
bool dfs(const Val& c, Theory& th, std::vector<std::pair<A,bool>>* path) {
  if (c.k == K::Int) return c.i && !th.contradictory() && !th.refuted();
  if (c.k != K::Dec) return true;  // undef/top: possible
  if (--budget < 0) return true;
  int im = th.implied(c.dec->a);
  for (int v : {1, 0}) {
    if (im >= 0 && im != v) continue;
    const Val& n = v ? c.dec->hi : c.dec->lo;
    if (isFalse(n)) continue;
    Theory t2 = th; t2.assume(c.dec->a, v);
    if (path) path->push_back({c.dec->a, (bool)v});
    if (dfs(n, t2, path)) return true;
    if (path) path->pop_back();
  }
  return false;
}
}
static std::unordered_map<const DecNode*, bool> feasMemo;
bool feasible(const Val& c) {
  if (c.k == K::Int) return c.i;
  if (c.k == K::Dec) { auto it = feasMemo.find(c.dec); if (it != feasMemo.end()) return it->second; }
  Theory th; budget = 20000; bool r = dfs(c, th, nullptr);
  if (c.k == K::Dec) feasMemo[c.dec] = r;
  return r;
}
bool findPath(const Val& c, std::string& desc) {
  if (c.k == K::Int) { desc = ""; return c.i; }
  Theory th; budget = 200000; std::vector<std::pair<A,bool>> path;
  if (!dfs(c, th, &path)) return false;
  std::ostringstream s; int n = 0;
  // the latest conditions say most about the violation
  size_t from = path.size() > 14 ? path.size() - 14 : 0; if (from) s << "..., ";
  for (size_t k = from; k < path.size(); ++k) { if (n++) s << ", "; s << (path[k].second ? "" : "not ") << atomStr(path[k].first); }
  desc = s.str(); return true;
}
std::string atomStr(A a) {
  char buf[40]; std::string b; if (mpz_sizeinbase(a->b.get_den_mpz_t(), 10) > 6) { snprintf(buf, 40, "%.17g", a->b.get_d()); b = buf; } else b = a->b.get_str();
  return "(" + polyStr(a->t) + (a->le ? " <= " : " < ") + b + ")";
}
static Val simp(const Val& v, Theory& th) {
  if (v.k != K::Dec) return v;
  if (--budget < 0) return v;
  int im = th.implied(v.dec->a);
  if (im == 1) return simp(v.dec->hi, th);
  if (im == 0) return simp(v.dec->lo, th);
  Theory a = th, b = th; a.assume(v.dec->a, true); b.assume(v.dec->a, false);
  if (a.contradictory()) return simp(v.dec->lo, b);
  if (b.contradictory()) return simp(v.dec->hi, a);
  return vDec(v.dec->a, simp(v.dec->hi, a), simp(v.dec->lo, b));
}
Val simplifyUnder(const Val& v, const Val& pc) {
  if (v.k != K::Dec) return v;
  Theory th; Val c = pc; // collect the conjunctive prefix of pc
  while (c.k == K::Dec) {
    if (isFalse(c.dec->lo)) { th.assume(c.dec->a, true); c = c.dec->hi; }
    else if (isFalse(c.dec->hi)) { th.assume(c.dec->a, false); c = c.dec->lo; }
    else break;
  }
  budget = 20000;
  return simp(v, th);
}
std::string valStr(const Val& v, int depth) {
  std::ostringstream s;
  switch (v.k) {
    case K::Undef: return "uninitialised";
    case K::Top: return "unknown";
    case K::Int: if (v.bits == 1) return v.i ? "true" : "false"; s << sextBits(v.i, v.bits ? v.bits : 64); return s.str();
    case K::Fp: { char b[64]; snprintf(b, 64, "%.17Lg", (long double)v.d); return b; }
    case K::Ptr: s << "&obj" << v.p.obj << "+" << v.p.off; return s.str();
    case K::Sym: return rfStr(v.rf);
    case K::Agg: return "{aggregate}";
    case K::Dec: if (depth == 0) return "[...]"; return "[" + atomStr(v.dec->a) + " ? " + valStr(v.dec->hi, depth - 1) + " : " + valStr(v.dec->lo, depth - 1) + "]";
  }
  return "?";
}
