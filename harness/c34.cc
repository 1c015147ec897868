// Volumes of geometries with curved maps: integral of the integration element to the requested tolerance.
#include <v.hh>
#include <models.hh>
#include <cmath>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

// first component a x^j + b x^k + s x, the others unchanged
template<class ct, int dim> struct PowerMap
{
  using X = FieldVector<ct,dim>;
  ct s, a, b; int j, k;
  static ct power(ct x, int n) { ct r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
  X operator()(const X& x) const { X y = x; y[0] = s*x[0] + a*power(x[0], j) + b*power(x[0], k); return y; }
  ct slope(const X& x) const { return s + a*ct(j)*power(x[0], j-1) + b*ct(k)*power(x[0], k-1); }
  friend auto derivative(const PowerMap& f) { return [f](const X& x) { FieldMatrix<ct,dim,dim> d(0); for (int i = 0; i < dim; ++i) d[i][i] = 1; d[0][0] = f.slope(x); return d; }; }
};
// the same map spanned by a finite element basis: coordinates and powers of the first one
template<class ct, int dim> struct PowerBasis
{
  struct Traits {
    using DomainFieldType = ct; static const int dimDomain = dim; using DomainType = FieldVector<ct,dim>;
    using RangeFieldType = ct; static const int dimRange = 1; using RangeType = FieldVector<ct,1>; using JacobianType = FieldMatrix<ct,1,dim>;
  };
  int j = 2, k = 3;
  std::size_t size() const { return dim+2; }
  int order() const { return j > k ? j : k; }
  void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const
  { out.resize(dim+2); for (int i = 0; i < dim; ++i) out[i] = x[i]; out[dim] = PowerMap<ct,dim>::power(x[0], j); out[dim+1] = PowerMap<ct,dim>::power(x[0], k); }
  void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const
  { out.resize(dim+2); for (int i = 0; i < dim; ++i) { out[i][0] = 0; out[i][0][i] = 1; } for (int l = 0; l < 2; ++l) { const int n = l ? k : j; out[dim+l][0] = 0; out[dim+l][0][0] = ct(n)*PowerMap<ct,dim>::power(x[0], n-1); } }
};
template<class ct, int dim> struct PowerFE
{
  struct Traits { using LocalBasisType = PowerBasis<ct,dim>; };
  GeometryType gt; PowerBasis<ct,dim> basis;
  const auto& localBasis() const { return basis; }
  std::size_t size() const { return basis.size(); }
  GeometryType type() const { return gt; }
};
// integral of n x^(n-1) over the shape
template<int dim> double powerVolume(unsigned id, int n)
{
  // a conical step above m dimensions (counting powers) shrinks the integral by (1-t)^m
  double v = 1; int m = n;
  for (int d = 2; d <= dim; ++d) { if (!spec::prism(id, d)) v /= m + 1; m += 1; }
  return v;
}
template<class ct, int dim, class G> void claim(const G& g, double exact, double tol, int limit, const char* what)
{
  v_labels("class", what);
  Impl::ConvergenceOptions<ct> opts; opts.absTol = tol; opts.maxIt = limit;
  const double v = g.volume(opts), e = v - exact;
  v_true(e < 10*tol, "reported volume is within the tolerance of the integral"); v_true(-e < 10*tol, "reported volume is within the tolerance of the integral");
}
template<int dim> std::vector<FieldVector<double,dim>> referenceCorners(unsigned id)
{
  std::vector<FieldVector<double,dim>> c(spec::count(id, dim, dim));
  for (std::size_t l = 0; l < c.size(); ++l) for (int i = 0; i < dim; ++i) c[l][i] = spec::coord(id, dim, l, i);
  return c;
}
// amplitudes a, b in (0,1] and tolerance unknown
template<int dim> void power(unsigned id, int j, int k)
{
  v_label("dim", dim); v_label("shape", id); v_label("exponent", j); v_label("second exponent", k);
  const GeometryType gt(id, dim);
  const double a = v_real("a"), b = j == k ? 0. : v_real("b"), s = v_real("s"), tol = v_real("tol");
  v_assume(a > 0); v_assume(a <= 1); if (j != k) { v_assume(b > 0); v_assume(b <= 1); } v_assume(s > 0); v_assume(s <= 1); v_assume(tol > 1e-9); v_assume(tol < 1e-2);
  const int limit = (j > k ? j : k) + 6;
  for (int p = 0; p <= limit; ++p) QuadratureRules<double,dim>::rule(gt, p);   // tables exist before the unknowns come into play
  const PowerMap<double,dim> f{s, a, b, j, k};
  const double exact = s*powerVolume<dim>(id, 1) + a*powerVolume<dim>(id, j) + b*powerVolume<dim>(id, k);
  using M = MultiLinearGeometry<double,dim,dim>;
  claim<double,dim>(MappedGeometry<PowerMap<double,dim>,M>(f, M(gt, referenceCorners<dim>(id))), exact, tol, limit, "mapped geometry");
  PowerFE<double,dim> fe{gt, {j, k}};
  std::vector<FieldVector<double,dim>> c(dim+2, FieldVector<double,dim>(0)); for (int i = 0; i < dim; ++i) c[i][i] = i ? 1. : s; c[dim][0] = a; c[dim+1][0] = b;
  claim<double,dim>(LocalFiniteElementGeometry<PowerFE<double,dim>,dim>(gt, fe, c), exact, tol, limit, "finite element geometry");
}
CHK(line) { for (int j = 2; j <= 12; ++j) power<1>(0, j, j); }
CHK(lines) { for (int j = 2; j <= 7; ++j) for (int k = j+1; k <= 9; ++k) power<1>(0, j, k); }
CHK(triangle) { for (int j = 2; j <= 10; ++j) power<2>(0, j, j); power<2>(0, 3, 7); power<2>(0, 4, 8); }
CHK(quadrilateral) { for (int j = 2; j <= 10; ++j) power<2>(2, j, j); power<2>(2, 3, 7); power<2>(2, 5, 6); }
CHK(tetrahedron) { for (int j = 2; j <= 7; ++j) power<3>(0, j, j); }
CHK(pyramid) { for (int j = 2; j <= 6; ++j) power<3>(2, j, j); }
CHK(prism) { for (int j = 2; j <= 6; ++j) power<3>(4, j, j); }
CHK(hexahedron) { for (int j = 2; j <= 7; ++j) power<3>(6, j, j); }

// default options, also in single precision
template<class ct, int dim> void defaults(unsigned id, int j, double eps)
{
  v_label("dim", dim); v_label("shape", id); v_label("exponent", j); v_label("bytes", sizeof(ct));
  const GeometryType gt(id, dim); const PowerMap<ct,dim> f{ct(0.5), ct(1), ct(0), j, j};
  std::vector<FieldVector<ct,dim>> c; for (const auto& x : referenceCorners<dim>(id)) { c.emplace_back(); for (int i = 0; i < dim; ++i) c.back()[i] = x[i]; }
  using M = MultiLinearGeometry<ct,dim,dim>;
  const double exact = 0.5*powerVolume<dim>(id, 1) + powerVolume<dim>(id, j);
  v_true(std::abs((double)MappedGeometry<PowerMap<ct,dim>,M>(f, M(gt, c)).volume() - exact) < eps, "volume with default options");
  c.assign(dim+2, FieldVector<ct,dim>(0)); for (int i = 0; i < dim; ++i) c[i][i] = i ? 1. : 0.5; c[dim][0] = 1;
  v_true(std::abs((double)LocalFiniteElementGeometry<PowerFE<ct,dim>,dim>(gt, PowerFE<ct,dim>{gt, {j, j}}, c).volume() - exact) < eps, "volume with default options");
}
CHK(defaults) { for (int j = 2; j <= 15; ++j) { defaults<double,1>(0, j, 1e-7); defaults<float,1>(0, j, 2e-3); defaults<double,2>(2, j, 1e-7); defaults<double,2>(0, j, 1e-7); } defaults<float,2>(0, 6, 2e-3); defaults<float,3>(6, 5, 2e-3); }

// a map that no rule integrates exactly: the iteration ends with the best available value
template<int dim> struct KinkMap
{
  using X = FieldVector<double,dim>;
  X operator()(const X& x) const { X y = x; if (x[0] > 0.3) y[0] = x[0] + 2*(x[0] - 0.3); return y; }
  friend auto derivative(const KinkMap&) { return [](const X& x) { FieldMatrix<double,dim,dim> d(0); for (int i = 0; i < dim; ++i) d[i][i] = 1; if (x[0] > 0.3) d[0][0] = 3; return d; }; }
};
template<int dim> struct KinkBasis
{
  using Traits = typename PowerBasis<double,dim>::Traits;
  std::size_t size() const { return dim+1; }
  int order() const { return 2; }
  void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const { out.resize(dim+1); for (int i = 0; i < dim; ++i) out[i] = x[i]; out[dim] = x[0] > 0.3 ? x[0] - 0.3 : 0.; }
  void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const { out.resize(dim+1); for (int i = 0; i <= dim; ++i) { out[i][0] = 0; if (i < dim) out[i][0][i] = 1; } out[dim][0][0] = x[0] > 0.3 ? 1. : 0.; }
};
template<int dim> struct KinkFE
{
  struct Traits { using LocalBasisType = KinkBasis<dim>; };
  GeometryType gt; KinkBasis<dim> basis;
  const auto& localBasis() const { return basis; }
  std::size_t size() const { return basis.size(); }
  GeometryType type() const { return gt; }
};
template<int dim> void kink(unsigned id, double exact)
{
  v_label("dim", dim); v_label("shape", id);
  using M = MultiLinearGeometry<double,dim,dim>; const GeometryType gt(id, dim);
  const MappedGeometry<KinkMap<dim>,M> g(KinkMap<dim>(), M(gt, referenceCorners<dim>(id)));
  std::vector<FieldVector<double,dim>> c(dim+1, FieldVector<double,dim>(0)); for (int i = 0; i < dim; ++i) c[i][i] = 1; c[dim][0] = 2;
  const LocalFiniteElementGeometry<KinkFE<dim>,dim> h(gt, KinkFE<dim>{gt, {}}, c);
  for (int n : {0, 1, 2, 3, 20, 60, 100, 1000}) {
    Impl::ConvergenceOptions<double> opts; opts.absTol = 1e-14; opts.maxIt = n; v_label("limit", n);
    double v = 0, w = 0;
    v_labels("class", "mapped geometry"); v_true(v_try([&] { v = g.volume(opts); }, "") == 0, "a volume is reported although no rule is exact");
    v_true(std::abs(v - exact) < (n > 50 ? 0.05 : 2.), "the value reported at the iteration limit");
    v_labels("class", "finite element geometry"); v_true(v_try([&] { w = h.volume(opts); }, "") == 0, "a volume is reported although no rule is exact");
    v_true(std::abs(w - exact) < (n > 50 ? 0.05 : 2.), "the value reported at the iteration limit");
  }
}
CHK(kinkLine) { kink<1>(0, 2.4); }
CHK(kinkTriangle) { kink<2>(0, 0.5 + 0.7*0.7); }

// explicit rule
CHK(given) {
  const double a = v_real("a"), s = v_real("s"); v_assume(a > 0); v_assume(s > 0);
  using M = MultiLinearGeometry<double,2,2>; const PowerMap<double,2> f{s, a, 0., 3, 3};
  for (unsigned id : {0u, 2u}) for (int p = 2; p <= 6; ++p) {
    v_label("shape", id); v_label("order", p);
    const GeometryType gt(id, 2); const auto& rule = QuadratureRules<double,2>::rule(gt, p);
    const double m = MappedGeometry<PowerMap<double,2>,M>(f, M(gt, referenceCorners<2>(id))).volume(rule), exact = s*powerVolume<2>(id, 1) + a*powerVolume<2>(id, 3);
    v_true(m - exact < 1e-12*(a + s), "volume by a given rule"); v_true(exact - m < 1e-12*(a + s), "volume by a given rule");
    PowerFE<double,2> fe{gt, {3, 4}}; std::vector<FieldVector<double,2>> c(4, FieldVector<double,2>(0)); c[0][0] = s; c[1][1] = 1; c[2][0] = a;
    const double l = LocalFiniteElementGeometry<PowerFE<double,2>,2>(gt, fe, c).volume(rule);
    v_true(l - exact < 1e-12*(a + s), "volume by a given rule"); v_true(exact - l < 1e-12*(a + s), "volume by a given rule");
  }
}
