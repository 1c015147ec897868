// Iterative inverse maps return only converged results or report failure.
#include <v.hh>
#include <models.hh>
#include <limits>
#include <dune/geometry/utility/algorithms.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
using namespace Dune;
using Code = Impl::GaussNewtonErrorCode;
static const char* fn[] = {"f0", "f1", "f2"};
static const char* dn[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8"};
template<int n> double call(const char* name, const FieldVector<double,n>& x)
{
  if constexpr (n == 1) return v_opaque(name, x[0]);
  if constexpr (n == 2) return v_opaque(name, x[0], x[1]);
  if constexpr (n == 3) return v_opaque(name, x[0], x[1], x[2]);
}
// a function about which nothing is known, with a derivative about which nothing is known
template<int n, int m> struct AnyMap
{
  using Domain = FieldVector<double,n>; using Range = FieldVector<double,m>;
  Range operator()(const Domain& x) const { Range y; for (int i = 0; i < m; ++i) y[i] = call<n>(fn[i], x); return y; }
  FieldMatrix<double,n,m> transposed(const Domain& x) const { FieldMatrix<double,n,m> d; for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) d[j][i] = call<n>(dn[3*j+i], x); return d; }
  friend auto derivative(const AnyMap& f) { return [f](const Domain& x) { FieldMatrix<double,m,n> d; const auto t = f.transposed(x); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) d[i][j] = t[j][i]; return d; }; }
};
template<int n, int m> double residual(const AnyMap<n,m>& f, const FieldVector<double,n>& x, const FieldVector<double,m>& y) { return (f(x) - y).two_norm(); }

template<int n, int m> void newton(int maxIt, int maxInner)
{
  v_label("dim", n); v_label("cdim", m); v_label("steps", maxIt); v_label("line search steps", maxInner);
  AnyMap<n,m> f;
  auto df = [&](const FieldVector<double,n>& x) { return f.transposed(x); };
  FieldVector<double,m> y; for (int i = 0; i < m; ++i) y[i] = v_real("y", i);
  FieldVector<double,n> x0, x; for (int j = 0; j < n; ++j) x[j] = x0[j] = v_real("x", j);
  Impl::GaussNewtonOptions<double> opts; opts.maxIt = maxIt; opts.maxInnerIt = maxInner;
  opts.absTol = v_real("tol"); v_assume(opts.absTol > 0);
  const Code code = Impl::gaussNewton(f, df, y, x, opts);
  const double r = residual(f, x, y), r0 = residual(f, x0, y);
  v_true(code != Code::OK || r < opts.absTol, "success is reported only for a residual below the tolerance");
  v_true(maxIt > 0 || code != Code::OK || r0 < opts.absTol, "no step, no success unless the guess is a solution");
  v_true(!v_feasible(code != Code::OK && code != Code::JACOBIAN_NOT_INVERTIBLE && code != Code::STAGNATION && code != Code::TOLERANCE_NOT_REACHED), "the outcome is one of the documented codes");
  if (maxIt > 0 && maxInner > 0) v_true(v_feasible(code == Code::OK), "success is possible");
}
CHK(newton0) { newton<1,1>(0, 1); newton<1,1>(-1, 1); newton<1,1>(0, 0); newton<2,2>(0, 2); newton<1,2>(0, 1); }
CHK(newton1) { newton<1,1>(1, 0); newton<1,1>(1, 1); newton<1,1>(1, 2); newton<1,1>(1, 3); }
CHK(newton2) { newton<1,1>(2, 0); newton<1,1>(2, 1); newton<1,1>(2, 2); }
CHK(newton3) { newton<1,1>(3, 1); }
CHK(newton12) { newton<1,2>(1, 1); newton<1,2>(1, 2); newton<1,2>(2, 1); newton<1,2>(2, 2); }
CHK(newton22) { newton<2,2>(1, 1); newton<2,2>(1, 2); newton<2,2>(2, 1); }
#ifdef VERIF_THOROUGH
CHK(newton222) { newton<2,2>(2, 2); }
CHK(newton13) { newton<1,2>(3, 1); newton<1,1>(4, 1); }
#endif
CHK(newton23) { newton<2,3>(1, 1); }

// a guess that solves the problem is accepted
template<int n, int m> void exact()
{
  v_label("dim", n); v_label("cdim", m);
  AnyMap<n,m> f;
  auto df = [&](const FieldVector<double,n>& x) { FieldMatrix<double,n,m> d(0); for (int j = 0; j < n; ++j) d[j][j] = 1; return d; };
  FieldVector<double,n> x0, x; for (int j = 0; j < n; ++j) x[j] = x0[j] = v_real("x", j);
  const auto y = f(x0);
  const Code code = Impl::gaussNewton(f, df, y, x);
  v_true(code == Code::OK, "a guess that solves the problem is accepted");
  for (int j = 0; j < n; ++j) v_eq(x[j], x0[j], "a guess that solves the problem is the result");
}
CHK(exact) { exact<1,1>(); exact<2,2>(); exact<1,2>(); exact<3,3>(); exact<2,3>(); }

// geometries: return a converged point or throw
template<int n> struct Reference
{
  // base geometry of a mapped geometry: the reference element itself
  using G = AffineGeometry<double,n,n>;
  static G make(GeometryType gt) { FieldMatrix<double,n,n> b(0); for (int i = 0; i < n; ++i) b[i][i] = 1; return G(gt, FieldVector<double,n>(0.0), b); }
};
template<class Geo, class F, int n, int m> void inverse(const Geo& g, const F& f, const FieldVector<double,m>& y, Impl::GaussNewtonOptions<double> opts)
{
  opts.absTol = v_real("tol"); v_assume(opts.absTol > 0);
  FieldVector<double,n> x(0.0);
  const int st = v_try([&]{ x = g.local(y, opts); }, "Dune::");
  v_true(st == 0 || st == 1, "failure is reported as the library's exception");
  if (st == 0) v_true((f(x) - y).two_norm() < opts.absTol, "a returned point has a residual below the tolerance");
  v_true(opts.maxIt <= 0 || v_feasible(st == 0), "success is possible");
  v_true(v_feasible(st == 1), "failure is possible");
}
template<int n, int m> void mapped(unsigned id, int maxIt, int maxInner)
{
  v_label("dim", n); v_label("cdim", m); v_label("shape", id); v_label("steps", maxIt); v_label("line search steps", maxInner);
  AnyMap<n,m> f;
  MappedGeometry<AnyMap<n,m>, typename Reference<n>::G> g(f, Reference<n>::make(GeometryType(id, n)), false);
  FieldVector<double,m> y; for (int i = 0; i < m; ++i) y[i] = v_real("y", i);
  Impl::GaussNewtonOptions<double> opts; opts.maxIt = maxIt; opts.maxInnerIt = maxInner;
  inverse<decltype(g), AnyMap<n,m>, n, m>(g, f, y, opts);
}
CHK(mapped11) { for (int k = 0; k <= 2; ++k) mapped<1,1>(0, k, 1); mapped<1,1>(1, 1, 2); }
CHK(mapped22) { mapped<2,2>(0, 1, 1); mapped<2,2>(3, 0, 1); }
CHK(mapped12) { mapped<1,2>(1, 1, 1); }

// finite element with unknown basis functions
template<int n> struct AnyBasis
{
  struct Traits { using DomainFieldType = double; static const int dimDomain = n; using DomainType = FieldVector<double,n>; using RangeFieldType = double; static const int dimRange = 1; using RangeType = FieldVector<double,1>; using JacobianType = FieldMatrix<double,1,n>; };
  std::size_t size() const { return 2; }
  int order() const { return 2; }
  void evaluateFunction(const FieldVector<double,n>& x, std::vector<FieldVector<double,1>>& out) const { out.resize(2); for (int k = 0; k < 2; ++k) out[k] = call<n>(fn[k], x); }
  void evaluateJacobian(const FieldVector<double,n>& x, std::vector<FieldMatrix<double,1,n>>& out) const { out.resize(2); for (int k = 0; k < 2; ++k) for (int j = 0; j < n; ++j) out[k][0][j] = call<n>(dn[3*k+j], x); }
};
template<int n> struct AnyFE
{
  struct Traits { using LocalBasisType = AnyBasis<n>; };
  AnyBasis<n> basis;
  const auto& localBasis() const { return basis; }
  std::size_t size() const { return 2; }
  GeometryType type() const { return GeometryTypes::simplex(n); }
};
template<int n, int m> void lfe(int maxIt, int maxInner)
{
  v_label("dim", n); v_label("cdim", m); v_label("steps", maxIt); v_label("line search steps", maxInner);
  AnyFE<n> fe;
  std::vector<FieldVector<double,m>> c(2); for (int k = 0; k < 2; ++k) for (int i = 0; i < m; ++i) c[k][i] = v_real("c", 10*k+i);
  LocalFiniteElementGeometry<AnyFE<n>,m> g(ReferenceElements<double,n>::simplex(), fe, c);
  auto f = [&](const FieldVector<double,n>& x) { FieldVector<double,m> y(0.0); std::vector<FieldVector<double,1>> phi; fe.basis.evaluateFunction(x, phi); for (int k = 0; k < 2; ++k) for (int i = 0; i < m; ++i) y[i] += phi[k][0]*c[k][i]; return y; };
  FieldVector<double,m> y; for (int i = 0; i < m; ++i) y[i] = v_real("y", i);
  Impl::GaussNewtonOptions<double> opts; opts.maxIt = maxIt; opts.maxInnerIt = maxInner;
  inverse<decltype(g), decltype(f), n, m>(g, f, y, opts);
}
CHK(lfe11) { for (int k = 0; k <= 1; ++k) lfe<1,1>(k, 1); lfe<1,1>(1, 2); }
CHK(lfe12) { lfe<1,2>(1, 1); }

struct M { using Domain = FieldVector<double,2>; AnyMap<2,2> f; FieldVector<double,2> operator()(const Domain& x) const { return f(x); } friend auto derivative(const M&) { return [](const Domain&) { FieldMatrix<double,2,2> d(0); d[0][0] = d[1][1] = 1; return d; }; } };
// default options: the tolerance is the square root of the machine precision, and the image of the centre is inverted
CHK(defaults) {
  Impl::GaussNewtonOptions<double> o;
  v_eq(o.absTol*o.absTol, std::numeric_limits<double>::epsilon(), "default tolerance");
  v_true(o.maxIt > 0 && o.maxInnerIt > 0 && o.theta > 0 && o.theta < 1, "default budget");
  MappedGeometry<M, Reference<2>::G> g(M{}, Reference<2>::make(GeometryTypes::quadrilateral), false);
  const auto x = g.local(g.center());
  v_eq(x[0], 0.5, "the image of the centre is inverted"); v_eq(x[1], 0.5, "the image of the centre is inverted");
}

// multilinear geometries: the linear solver is replaced by one that returns an unknown correction and may refuse
static int solves; static double lastStep, tol, step[3][3], okay[3]; static bool lastOk;
static void unknowns() { solves = 0; tol = v_real("tol"); v_assume(tol > 0); v_assume(tol < 0.01); for (int k = 0; k < 3; ++k) { okay[k] = v_real("ok", k); for (int j = 0; j < 3; ++j) step[k][j] = v_real("dx", 10*k+j); } }
template<int steps> struct AnySolver : Impl::FieldMatrixHelper<double>
{
  template<int m, int n> static bool xTRightInvA(const FieldMatrix<double,m,n>&, const FieldVector<double,n>&, FieldVector<double,m>& y)
  {
    const int k = solves++;
    lastStep = 0;
    for (int j = 0; j < m; ++j) { y[j] = k < steps ? step[k][j] : 0.0; lastStep += y[j]*y[j]; }
    lastOk = k < steps ? okay[k] > 0 : true;
    return lastOk;
  }
};
template<int steps> struct AnyTraits : MultiLinearGeometryTraits<double>
{
  typedef AnySolver<steps> MatrixHelper;
  static double tolerance() { return tol; }
};
template<int dim, int cdim, int steps> void multilinear(unsigned id, bool bent)
{
  v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id); v_label("steps", steps); v_label("bent", bent);
  unknowns();
  std::vector<FieldVector<double,cdim>> c;
  for (int k = 0; k < spec::count(id, dim, dim); ++k) { FieldVector<double,cdim> x(0.0); for (int j = 0; j < dim; ++j) x[j] = spec::coord(id, dim, k, j); if (bent && k == 3) x[0] += 0.5; c.push_back(x); }
  const MultiLinearGeometry<double,dim,cdim,AnyTraits<steps>> g(GeometryType(id, dim), c);
  FieldVector<double,cdim> y; for (int i = 0; i < cdim; ++i) y[i] = v_real("y", i);
  const auto x = g.local(y);
  const double big = std::numeric_limits<double>::max();
  bool refused = true; for (int j = 0; j < dim; ++j) refused = refused && x[j] == big;
  v_true(lastOk || refused, "a refused linear solve gives the documented value");
  if (bent) v_true(!lastOk || lastStep <= tol, "a point is returned only after a correction below the tolerance");
  // the returned point is the centre minus all corrections
  if (steps == 1 && !bent) for (int j = 0; j < dim; ++j) if (lastOk) v_eq(x[j], referenceElement<double,dim>(GeometryType(id, dim)).position(0,0)[j] - step[0][j], "the corrections are subtracted");
}

CHK(mline) { multilinear<1,1,1>(0, false); multilinear<1,2,1>(1, false); }
CHK(mquad) { multilinear<2,2,1>(3, false); multilinear<2,2,1>(3, true); multilinear<2,2,2>(3, true); multilinear<2,3,1>(2, true); multilinear<2,2,1>(0, false); }
CHK(mhex) { multilinear<3,3,1>(7, true); multilinear<3,3,1>(0, false); multilinear<3,3,1>(3, true); multilinear<3,3,1>(5, true); }

// concrete geometries with the library's solver: a point comes back with a small residual, a collapsed geometry is refused
template<class Geo, int dim, int cdim> void bent(unsigned id)
{
  v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  std::vector<FieldVector<double,cdim>> c, z;
  const int corners = spec::count(id, dim, dim);
  for (int k = 0; k < corners; ++k) {
    FieldVector<double,cdim> x(0.0);
    for (int j = 0; j < dim; ++j) x[j] = spec::coord(id, dim, k, j) + 0.0625*((k*7 + j*3) % 4);
    for (int i = dim; i < cdim; ++i) x[i] = 0.125*k;
    c.push_back(x); x = 0.0; for (int i = 0; i < cdim; ++i) x[i] = 0.25*(i+1)*k*(k-1); z.push_back(x);
  }
  const Geo g(GeometryType(id, dim), c);
  for (int k = 0; k < corners; ++k) {
    v_label("corner", k);
    FieldVector<double,dim> x = referenceElement<double,dim>(GeometryType(id, dim)).position(0,0);
    for (int j = 0; j < dim; ++j) x[j] = 0.5*(x[j] + spec::coord(id, dim, k, j));
    const auto y = g.global(x);
    const auto r = g.global(g.local(y)) - y;
    v_true(r.two_norm2() < 1e-12, "the residual of the returned point is small");
  }
  for (auto& x : c) x = 0.0;
  const Geo flat(GeometryType(id, dim), c);
  const auto l = flat.local(c[0]);
  for (int j = 0; j < dim; ++j) v_true(l[j] == std::numeric_limits<double>::max(), "a collapsed geometry gives the documented value");
}
CHK(bent2) { bent<MultiLinearGeometry<double,2,2>,2,2>(3); bent<MultiLinearGeometry<double,2,3>,2,3>(3); bent<CachedMultiLinearGeometry<double,2,2>,2,2>(2); bent<MultiLinearGeometry<double,1,1>,1,1>(0); bent<CachedMultiLinearGeometry<double,1,2>,1,2>(1); bent<MultiLinearGeometry<double,2,2>,2,2>(1); }
CHK(bent3) { for (unsigned id : {0u, 3u, 5u, 7u}) { bent<MultiLinearGeometry<double,3,3>,3,3>(id); bent<CachedMultiLinearGeometry<double,3,3>,3,3>(id); } }

// a map whose Jacobian is singular everywhere is never inverted
template<int n, int m> void singular(int rank)
{
  v_label("dim", n); v_label("cdim", m); v_label("rank", rank);
  AnyMap<n,m> f;
  auto df = [&](const FieldVector<double,n>& x) { FieldMatrix<double,n,m> d(0); for (int j = 0; j < rank; ++j) d[j][j] = 1; return d; };
  FieldVector<double,m> y; for (int i = 0; i < m; ++i) y[i] = v_real("y", i);
  FieldVector<double,n> x; for (int j = 0; j < n; ++j) x[j] = v_real("x", j);
  Impl::GaussNewtonOptions<double> opts; opts.absTol = v_real("tol"); v_assume(opts.absTol > 0); opts.maxIt = 2;
  v_true(Impl::gaussNewton(f, df, y, x, opts) != Code::OK, "a singular Jacobian is not reported as success");
}
CHK(singular) { singular<1,1>(0); singular<2,2>(1); singular<2,2>(0); singular<3,3>(2); singular<1,2>(0); singular<2,3>(1); }

// the options of the caller are used: f(x) = 2x or a curved map from the centre, unreachable within the budget or far from the tolerance
struct Curve
{
  using Domain = FieldVector<double,1>; double q;
  FieldVector<double,1> operator()(const Domain& x) const { return {2*x[0] + q*x[0]*x[0]}; }
  friend auto derivative(const Curve& f) { return [f](const Domain& x) { return FieldMatrix<double,1,1>(2 + 2*f.q*x[0]); }; }
};
template<class Geo> void options(const Geo& g, double q)
{
  v_label("curved", q != 0);
  Impl::GaussNewtonOptions<double> none, rough, fine;
  none.maxIt = 0; rough.absTol = 0.5; fine.absTol = 1e-12;
  const FieldVector<double,1> y{2.5 + q*1.5625};   // image of 1.25
  FieldVector<double,1> x;
  v_true(v_try([&]{ x = g.local(y, none); }, "Dune::") == 1, "the iteration budget of the caller is used");
  none.maxIt = 1;
  v_true(v_try([&]{ x = g.local(y, none); }, "Dune::") == (q != 0), "the iteration budget of the caller is used");
  x = g.local(y);
  v_true((g.global(x) - y).two_norm() < 1e-7, "default tolerance");
  x = g.local(y, fine);
  v_true((g.global(x) - y).two_norm() < 1e-12, "a smaller tolerance of the caller is used");
  none.absTol = 0.5;
  v_true(v_try([&]{ x = g.local(y, none); }, "Dune::") == 0 && (g.global(x) - y).two_norm() < 0.5, "a larger tolerance of the caller is used");
}
CHK(options) {
  for (double q : {0.0, 0.5}) {
    v_label("curve", q != 0);
    options(MappedGeometry<Curve, Reference<1>::G>(Curve{q}, Reference<1>::make(GeometryTypes::line), false), q);
    options(LocalFiniteElementGeometry<NodalFE<double,1,false,2>,1>(ReferenceElements<double,1>::simplex(), NodalFE<double,1,false,2>{}, std::vector<FieldVector<double,1>>{{0.0}, {2.0}, {q}}), q);
  }
}
