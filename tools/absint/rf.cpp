#include "rf.h"
#include <algorithm>
#include <sstream>

std::vector<VarInfo> vars;

static inline void hmix(size_t& h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); }
static size_t qhash(const Q& q) {
  size_t h = mpz_fdiv_ui(q.get_num_mpz_t(), 4294967291ul);
  hmix(h, mpz_fdiv_ui(q.get_den_mpz_t(), 4294967279ul));
  return h;
}

uint32_t newVar(const std::string& name, bool isInt) {
  VarInfo v; v.name = name; v.isInt = isInt; vars.push_back(v); return vars.size() - 1;
}

int monoCmp(const Mono& a, const Mono& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) {
    uint32_t va = mvar(a[i]), vb = mvar(b[i]);
    if (va != vb) return va < vb ? 1 : -1;
    return mexp(a[i]) > mexp(b[i]) ? 1 : -1;
  }
  return a.size() > b.size() ? 1 : a.size() < b.size() ? -1 : 0;
}
Mono monoMul(const Mono& a, const Mono& b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && mvar(a[i]) < mvar(b[j]))) r.push_back(a[i++]);
    else if (i == a.size() || mvar(b[j]) < mvar(a[i])) r.push_back(b[j++]);
    else {
      if (mexp(a[i]) + mexp(b[j]) > 255) throw Undecided("polynomial degree overflow");
      r.push_back(a[i] + mexp(b[j])); ++i; ++j;
    }
  }
  return r;
}
bool monoDiv(const Mono& a, const Mono& b, Mono& r) {
  r.clear(); size_t i = 0;
  for (size_t j = 0; j < b.size(); ++j) {
    while (i < a.size() && mvar(a[i]) < mvar(b[j])) r.push_back(a[i++]);
    if (i == a.size() || mvar(a[i]) != mvar(b[j]) || mexp(a[i]) < mexp(b[j])) return false;
    uint32_t e = mexp(a[i]) - mexp(b[j]);
    if (e) r.push_back((mvar(a[i]) << 8) | e);
    ++i;
  }
  while (i < a.size()) r.push_back(a[i++]);
  return true;
}

namespace {
struct PHash { size_t operator()(const Poly* p) const { return p->hash; } };
struct PEq { bool operator()(const Poly* a, const Poly* b) const {
  if (a->hash != b->hash || a->t.size() != b->t.size()) return false;
  for (size_t i = 0; i < a->t.size(); ++i) if (a->t[i].m != b->t[i].m || a->t[i].c != b->t[i].c) return false;
  return true; } };
std::unordered_set<const Poly*, PHash, PEq> polyTab;
struct RHash { size_t operator()(const RF* p) const { return p->hash; } };
struct REq { bool operator()(const RF* a, const RF* b) const { return a->num == b->num && a->den == b->den; } };
std::unordered_set<const RF*, RHash, REq> rfTab;
uint32_t nextPoly = 0, nextRF = 0;
constexpr size_t MAXTERMS = 400000;
}

P internPoly(std::vector<Term>&& t) {
  if (t.size() > MAXTERMS) throw Undecided("polynomial too large");
  Poly tmp; tmp.t = std::move(t);
  size_t h = tmp.t.size();
  for (auto& x : tmp.t) { for (auto e : x.m) hmix(h, e); hmix(h, qhash(x.c)); }
  tmp.hash = h;
  auto it = polyTab.find(&tmp);
  if (it != polyTab.end()) return *it;
  Poly* p = new Poly(std::move(tmp)); p->id = nextPoly++;
  polyTab.insert(p);
  return p;
}
P polyConst(const Q& c) { std::vector<Term> t; if (c != 0) t.push_back({{}, c}); return internPoly(std::move(t)); }
P polyVar(uint32_t v) { std::vector<Term> t; t.push_back({{(v << 8) | 1u}, Q(1)}); return internPoly(std::move(t)); }
static P addScaled(P a, P b, const Q& s) {
  std::vector<Term> r; r.reserve(a->t.size() + b->t.size());
  size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    int c = i == a->t.size() ? -1 : j == b->t.size() ? 1 : monoCmp(a->t[i].m, b->t[j].m);
    if (c > 0) r.push_back(a->t[i++]);
    else if (c < 0) { r.push_back({b->t[j].m, b->t[j].c * s}); ++j; }
    else { Q q = a->t[i].c + b->t[j].c * s; if (q != 0) r.push_back({a->t[i].m, q}); ++i; ++j; }
  }
  return internPoly(std::move(r));
}
P polyAdd(P a, P b) { return addScaled(a, b, Q(1)); }
P polySub(P a, P b) { return addScaled(a, b, Q(-1)); }
P polyScale(P a, const Q& c) {
  if (c == 0) return polyConst(0);
  if (c == 1) return a;
  std::vector<Term> r = a->t; for (auto& x : r) x.c *= c; return internPoly(std::move(r));
}
static P fromUnsorted(std::vector<Term>& v) {
  std::sort(v.begin(), v.end(), [](const Term& a, const Term& b) { return monoCmp(a.m, b.m) > 0; });
  std::vector<Term> r;
  for (auto& x : v) {
    if (!r.empty() && r.back().m == x.m) r.back().c += x.c;
    else { if (!r.empty() && r.back().c == 0) r.pop_back(); r.push_back(std::move(x)); }
  }
  if (!r.empty() && r.back().c == 0) r.pop_back();
  return internPoly(std::move(r));
}
P polyMul(P a, P b) {
  if (a->t.empty() || b->t.empty()) return polyConst(0);
  if (a->isConst()) return polyScale(b, a->constVal());
  if (b->isConst()) return polyScale(a, b->constVal());
  if (a->t.size() * b->t.size() > 8 * MAXTERMS) throw Undecided("polynomial product too large");
  std::vector<Term> v; v.reserve(a->t.size() * b->t.size());
  for (auto& x : a->t) for (auto& y : b->t) v.push_back({monoMul(x.m, y.m), x.c * y.c});
  return fromUnsorted(v);
}
bool polyDivExact(P a, P b, P& q) {
  if (b->t.empty()) return false;
  if (b->isConst()) { q = polyScale(a, Q(1) / b->constVal()); return true; }
  Mono m;
  // quick reject on trailing terms
  if (!a->t.empty() && (!monoDiv(a->t.back().m, b->t.back().m, m) || !monoDiv(a->t[0].m, b->t[0].m, m))) return false;
  std::map<Mono, Q, bool(*)(const Mono&, const Mono&)> r([](const Mono& x, const Mono& y) { return monoCmp(x, y) > 0; });
  for (auto& x : a->t) r.emplace_hint(r.end(), x.m, x.c);
  std::vector<Term> qt;
  while (!r.empty()) {
    auto it = r.begin();
    if (!monoDiv(it->first, b->t[0].m, m)) return false;
    Q c = it->second / b->t[0].c;
    qt.push_back({m, c});
    if (qt.size() > 20000) return false;
    for (auto& y : b->t) {
      Mono k = monoMul(m, y.m);
      auto f = r.find(k);
      if (f == r.end()) r.emplace(k, -c * y.c);
      else { f->second -= c * y.c; if (f->second == 0) r.erase(f); }
    }
  }
  q = fromUnsorted(qt);
  return true;
}
void polyDivRem(P a, P b, P& q, P& rem) {
  std::map<Mono, Q, bool(*)(const Mono&, const Mono&)> r([](const Mono& x, const Mono& y) { return monoCmp(x, y) > 0; });
  for (auto& x : a->t) r.emplace_hint(r.end(), x.m, x.c);
  std::vector<Term> qt, rt; Mono m;
  while (!r.empty()) {
    auto it = r.begin();
    if (!b->t.empty() && monoDiv(it->first, b->t[0].m, m)) {
      Q c = it->second / b->t[0].c;
      qt.push_back({m, c});
      for (auto& y : b->t) {
        Mono k = monoMul(m, y.m);
        auto f = r.find(k);
        if (f == r.end()) r.emplace(k, -c * y.c);
        else { f->second -= c * y.c; if (f->second == 0) r.erase(f); }
      }
    } else { rt.push_back({it->first, it->second}); r.erase(it); }
  }
  q = fromUnsorted(qt); rem = fromUnsorted(rt);
}
bool polySqrt(P a, P& out) {
  if (a->t.empty()) { out = a; return true; }
  auto halve = [](const Mono& m, Mono& r) { r.clear(); for (auto e : m) { if (mexp(e) & 1) return false; r.push_back((mvar(e) << 8) | (mexp(e) / 2)); } return true; };
  auto qs = [](const Q& c, Q& r) { if (c < 0 || !mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
    mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); r = Q(n, d); r.canonicalize(); return true; };
  Mono m; Q c;
  if (!halve(a->t[0].m, m) || !qs(a->t[0].c, c)) return false;
  Mono m2; if (!halve(a->t.back().m, m2)) return false;
  std::vector<Term> rt{{m, c}}; P r = internPoly(std::vector<Term>(rt));
  for (int it = 0; it < 400; ++it) {
    P d = polySub(a, polyMul(r, r));
    if (d->t.empty()) { out = r; return true; }
    Mono k; if (!monoDiv(d->t[0].m, m, k)) return false;
    if (monoCmp(k, r->t.back().m) >= 0) return false;
    std::vector<Term> add{{k, d->t[0].c / (2 * c)}};
    r = polyAdd(r, internPoly(std::move(add)));
  }
  return false;
}
P polyDiff(P a, uint32_t v) {
  std::vector<Term> r;
  for (auto& x : a->t) for (size_t i = 0; i < x.m.size(); ++i) if (mvar(x.m[i]) == v) {
    Term t = x; uint32_t e = mexp(x.m[i]); t.c *= e;
    if (e > 1) t.m[i]--; else t.m.erase(t.m.begin() + i);
    r.push_back(std::move(t));
  }
  return fromUnsorted(r);
}
bool polyIsInt(P a) { for (auto& x : a->t) { if (x.c.get_den() != 1) return false; for (auto e : x.m) if (!vars[mvar(e)].isInt) return false; } return true; }
std::string polyStr(P a) {
  if (a->t.empty()) return "0";
  std::ostringstream s; int n = 0;
  for (auto& x : a->t) {
    if (++n > 12) { s << " + ...(" << a->t.size() << " terms)"; break; }
    if (n > 1) s << " + ";
    bool frac = mpz_sizeinbase(x.c.get_den_mpz_t(), 10) > 6 || mpz_sizeinbase(x.c.get_num_mpz_t(), 10) > 9;
    std::string c; if (frac) { char buf[40]; snprintf(buf, 40, "%.15g", x.c.get_d()); c = buf; } else c = x.c.get_str();
    if (x.m.empty()) s << c; else if (x.c != 1) s << c << "*";
    bool f = true;
    for (auto e : x.m) { if (!f) s << "*"; f = false; s << vars[mvar(e)].name; if (mexp(e) > 1) s << "^" << mexp(e); }
  }
  return s.str();
}

// ---- rational functions ----------------------------------------------------
static R internRF(P num, std::vector<std::pair<P,int>>&& den) {
  RF tmp; tmp.num = num; tmp.den = std::move(den);
  if (num->t.empty()) tmp.den.clear();
  std::sort(tmp.den.begin(), tmp.den.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
  size_t h = num->hash; for (auto& d : tmp.den) { hmix(h, d.first->hash); hmix(h, d.second); }
  tmp.hash = h;
  auto it = rfTab.find(&tmp);
  if (it != rfTab.end()) return *it;
  RF* r = new RF(std::move(tmp)); r->id = nextRF++; rfTab.insert(r); return r;
}
// Cancel common factors and reduce squares of sqrt variables.
static R reduceSqrt(P num, const std::vector<std::pair<P,int>>& den);
R rfMake(P num, std::vector<std::pair<P,int>> den) {
  for (auto& d : den) {
    P q;
    while (d.second > 0 && !num->t.empty() && polyDivExact(num, d.first, q)) { num = q; --d.second; }
  }
  den.erase(std::remove_if(den.begin(), den.end(), [](auto& d) { return d.second == 0; }), den.end());
  return reduceSqrt(num, den);
}
static R reduceSqrt(P num, const std::vector<std::pair<P,int>>& den) {
  int sv = -1;
  for (auto& x : num->t) for (auto e : x.m) if (mexp(e) >= 2 && vars[mvar(e)].sqrtOf && (int)mvar(e) > sv) sv = mvar(e);
  if (sv < 0) { auto d = den; return internRF(num, std::move(d)); }
  std::map<uint32_t, std::vector<Term>> by; // s^(2k) * (s^0|s^1) * rest
  for (auto& x : num->t) {
    Term t{{}, x.c}; uint32_t k = 0;
    for (auto e : x.m) if ((int)mvar(e) == sv) { k = mexp(e) / 2; if (mexp(e) & 1) t.m.push_back((sv << 8) | 1u); } else t.m.push_back(e);
    by[k].push_back(std::move(t));
  }
  R s2 = vars[sv].sqrtOf, acc = rfConst(0), pw = rfConst(1); uint32_t k = 0;
  for (auto& b : by) {
    while (k < b.first) { pw = rfMul(pw, s2); ++k; }
    acc = rfAdd(acc, rfMul(internRF(fromUnsorted(b.second), {}), pw));
  }
  auto d = den;
  return rfMul(acc, internRF(polyConst(1), std::move(d)));
}
R rfConst(const Q& c) { return internRF(polyConst(c), {}); }
R rfVar(uint32_t v) { return internRF(polyVar(v), {}); }

static std::unordered_map<uint64_t, R> addMemo, mulMemo;
static uint64_t key(R a, R b) { return a->id < b->id ? (uint64_t)a->id << 32 | b->id : (uint64_t)b->id << 32 | a->id; }
static P powp(P p, int e) { P r = polyConst(1); while (e-- > 0) r = polyMul(r, p); return r; }
R rfAdd(R a, R b) {
  if (a->num->t.empty()) return b;
  if (b->num->t.empty()) return a;
  uint64_t k = key(a, b); auto it = addMemo.find(k); if (it != addMemo.end()) return it->second;
  R r;
  if (a->den.empty() && b->den.empty()) r = internRF(polyAdd(a->num, b->num), {});
  else if (a->den == b->den) r = rfMake(polyAdd(a->num, b->num), a->den);
  else {
    std::vector<std::pair<P,int>> d; P ma = polyConst(1), mb = polyConst(1);
    size_t i = 0, j = 0;
    while (i < a->den.size() || j < b->den.size()) {
      if (j == b->den.size() || (i < a->den.size() && a->den[i].first->id < b->den[j].first->id)) { d.push_back(a->den[i]); mb = polyMul(mb, powp(a->den[i].first, a->den[i].second)); ++i; }
      else if (i == a->den.size() || b->den[j].first->id < a->den[i].first->id) { d.push_back(b->den[j]); ma = polyMul(ma, powp(b->den[j].first, b->den[j].second)); ++j; }
      else {
        int e = std::max(a->den[i].second, b->den[j].second);
        d.push_back({a->den[i].first, e});
        ma = polyMul(ma, powp(a->den[i].first, e - a->den[i].second));
        mb = polyMul(mb, powp(b->den[j].first, e - b->den[j].second));
        ++i; ++j;
      }
    }
    r = rfMake(polyAdd(polyMul(a->num, ma), polyMul(b->num, mb)), d);
  }
  addMemo[k] = r; return r;
}
R rfNeg(R a) { auto d = a->den; return internRF(polyScale(a->num, Q(-1)), std::move(d)); }
R rfSub(R a, R b) { if (a == b) return rfConst(0); return rfAdd(a, rfNeg(b)); }
R rfMul(R a, R b) {
  if (a->num->t.empty()) return a;
  if (b->num->t.empty()) return b;
  uint64_t k = key(a, b); auto it = mulMemo.find(k); if (it != mulMemo.end()) return it->second;
  P na = a->num, nb = b->num; auto da = a->den, db = b->den;
  for (auto& d : db) { P q; while (d.second > 0 && polyDivExact(na, d.first, q)) { na = q; --d.second; } }
  for (auto& d : da) { P q; while (d.second > 0 && polyDivExact(nb, d.first, q)) { nb = q; --d.second; } }
  std::map<uint32_t, std::pair<P,int>> m;
  for (auto* v : {&da, &db}) for (auto& d : *v) if (d.second) { auto& e = m[d.first->id]; e.first = d.first; e.second += d.second; }
  std::vector<std::pair<P,int>> d; for (auto& e : m) d.push_back(e.second);
  R r = reduceSqrt(polyMul(na, nb), d);
  mulMemo[k] = r; return r;
}
static std::vector<P> factorPool;
static std::unordered_set<P> factorSet;
static void addFactor(std::vector<std::pair<P,int>>& d, P f, int e) {
  for (auto& x : d) if (x.first == f) { x.second += e; return; }
  d.push_back({f, e});
}
R rfInv(R a) {
  if (a->num->t.empty()) throw Undecided("division by zero value");
  P n = a->num;
  // rationalise sqrt variables (linear after reduction)
  int sv = -1;
  for (auto& x : n->t) for (auto e : x.m) if (vars[mvar(e)].sqrtOf && (int)mvar(e) > sv) sv = mvar(e);
  P denp = polyConst(1); for (auto& d : a->den) denp = polyMul(denp, powp(d.first, d.second));
  if (sv >= 0) {
    std::vector<Term> A, B;
    for (auto& x : n->t) { Term t{{}, x.c}; bool has = false; for (auto e : x.m) if ((int)mvar(e) == sv) has = true; else t.m.push_back(e); (has ? B : A).push_back(t); }
    R ra = internRF(fromUnsorted(A), {}), rb = internRF(fromUnsorted(B), {}), s = rfVar(sv);
    R conj = rfSub(ra, rfMul(rb, s));
    R nd = rfSub(rfMul(ra, ra), rfMul(rfMul(rb, rb), vars[sv].sqrtOf));
    if (nd->num->t.empty()) throw Undecided("singular sqrt denominator");
    return rfMul(rfMul(internRF(denp, {}), conj), rfInv(nd));
  }
  std::vector<std::pair<P,int>> d; Q c = 1;
  // split monomial content
  if (!n->isConst()) {
    Mono g = n->t[0].m;
    for (auto& x : n->t) { Mono h; for (auto e : g) for (auto f : x.m) if (mvar(e) == mvar(f)) h.push_back((mvar(e) << 8) | std::min(mexp(e), mexp(f))); g = h; if (g.empty()) break; }
    for (auto e : g) { addFactor(d, polyVar(mvar(e)), mexp(e)); P q; polyDivExact(n, internPoly({{Mono{e}, Q(1)}}), q); n = q; }
  }
  if (!n->isConst()) for (P f : factorPool) { P q; while (!n->isConst() && polyDivExact(n, f, q)) { n = q; addFactor(d, f, 1); } if (n->isConst()) break; }
  if (n->isConst()) c = n->constVal();
  else {
    c = n->t[0].c; P f = polyScale(n, Q(1) / c); P r; int e = 1;
    if (polySqrt(f, r)) { f = r; e = 2; if (f->t[0].c != 1) { Q lc = f->t[0].c; f = polyScale(f, Q(1)/lc); c *= lc*lc; } }
    addFactor(d, f, e);
    if (factorSet.insert(f).second && factorPool.size() < 400) factorPool.push_back(f);
  }
  return rfMake(polyScale(denp, Q(1) / c), d);
}
R rfDiff(R a, uint32_t v) {
  // d(n/D) = n'/D - n/D * sum e_i f_i'/f_i ; sqrt variables via chain rule
  std::function<R(P)> dp = [&](P p) -> R {
    R r = internRF(polyDiff(p, v), {});
    std::unordered_set<uint32_t> sv;
    for (auto& x : p->t) for (auto e : x.m) if (vars[mvar(e)].sqrtOf) sv.insert(mvar(e));
    for (auto s : sv) {
      R ds = rfMul(rfDiff(vars[s].sqrtOf, v), rfInv(rfMul(rfConst(2), rfVar(s))));
      r = rfAdd(r, rfMul(internRF(polyDiff(p, s), {}), ds));
    }
    return r;
  };
  auto dd = a->den;
  R r = rfMul(dp(a->num), internRF(polyConst(1), std::move(dd)));
  for (auto& f : a->den) r = rfSub(r, rfMul(rfMul(a, rfConst(f.second)), rfMul(dp(f.first), internRF(polyConst(1), {{f.first, 1}}))));
  return r;
}
R rfSubst(R a, uint32_t v, R val) {
  auto sp = [&](P p) -> R {
    std::map<uint32_t, std::vector<Term>> by;
    for (auto& x : p->t) { Term t{{}, x.c}; uint32_t k = 0; for (auto e : x.m) if (mvar(e) == v) k = mexp(e); else t.m.push_back(e); by[k].push_back(t); }
    R acc = rfConst(0), pw = rfConst(1); uint32_t k = 0;
    for (auto& b : by) { while (k < b.first) { pw = rfMul(pw, val); ++k; } acc = rfAdd(acc, rfMul(internRF(fromUnsorted(b.second), {}), pw)); }
    return acc;
  };
  R r = sp(a->num);
  for (auto& f : a->den) { R i = rfInv(sp(f.first)); for (int k = 0; k < f.second; ++k) r = rfMul(r, i); }
  return r;
}
P rfSignPoly(R a) { P p = a->num; for (auto& d : a->den) if (d.second & 1) p = polyMul(p, d.first); return p; }
P rfDenPoly(R a) { P p = polyConst(1); for (auto& d : a->den) p = polyMul(p, powp(d.first, d.second)); return p; }
std::string rfStr(R a) {
  std::string s = polyStr(a->num);
  if (a->den.empty()) return s;
  s = "(" + s + ")/(";
  bool f = true; for (auto& d : a->den) { if (!f) s += "*"; f = false; s += "(" + polyStr(d.first) + ")"; if (d.second > 1) s += "^" + std::to_string(d.second); }
  return s + ")";
}
bool rfApproxZero(R diff, R a, R b, double tol) {
  if (diff->num->t.empty()) return true;
  double m = 0, sc = 0;
  for (auto& x : diff->num->t) m = std::max(m, std::abs(x.c.get_d()));
  for (R z : {a, b}) for (auto& x : z->num->t) sc = std::max(sc, std::abs(x.c.get_d()));
  return m <= tol * std::max(1.0, sc);
}
static std::unordered_map<R, uint32_t> sqrtTab;
uint32_t sqrtVar(R a) {
  auto it = sqrtTab.find(a); if (it != sqrtTab.end()) return it->second;
  uint32_t v = newVar("sqrt(" + rfStr(a).substr(0, 60) + ")", false);
  vars[v].sqrtOf = a; vars[v].nonneg = true; sqrtTab[a] = v; return v;
}
