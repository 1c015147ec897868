// Element maps and local finite elements with unknown coefficients, for the
// geometries that are parametrised by user code.
#ifndef VERIF_MODELS_HH
#define VERIF_MODELS_HH
#include <geo.hh>
#include <dune/geometry/type.hh>

// quadratic map R^n -> R^m with unknown coefficients (quadratic part optional)
template<class ct, int n, int m> struct QuadraticMap
{
  using Domain = Dune::FieldVector<ct,n>; using Range = Dune::FieldVector<ct,m>;
  ct a[m], l[m][n], q[m][n][n]; bool quad;
  explicit QuadraticMap(bool quad = true) : quad(quad)
  {
    for (int i = 0; i < m; ++i) {
      a[i] = v_real("m0", i);
      for (int j = 0; j < n; ++j) {
        l[i][j] = v_real("m1", i*10+j);
        for (int k = 0; k <= j; ++k) q[i][j][k] = quad ? v_real("m2", i*100+j*10+k) : 0.0;
      }
    }
  }
  Range operator()(const Domain& x) const
  {
    Range y;
    for (int i = 0; i < m; ++i) {
      ct s = a[i];
      for (int j = 0; j < n; ++j) { s += l[i][j]*x[j]; for (int k = 0; k <= j; ++k) s += q[i][j][k]*x[j]*x[k]; }
      y[i] = s;
    }
    return y;
  }
  friend auto derivative(const QuadraticMap& f)
  {
    return [f](const Domain& x) {
      Dune::FieldMatrix<ct,m,n> d(0);
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        d[i][j] += f.l[i][j];
        for (int k = 0; k <= j; ++k) { d[i][j] += f.q[i][j][k]*x[k]; d[i][k] += f.q[i][j][k]*x[j]; }
      }
      return d;
    };
  }
};

// nodal basis of order one on simplices and cubes; order two on simplices (monomials)
template<class ct, int dim, bool cube, int ord = 1> struct NodalBasis
{
  struct Traits {
    using DomainFieldType = ct; static const int dimDomain = dim; using DomainType = Dune::FieldVector<ct,dim>;
    using RangeFieldType = ct; static const int dimRange = 1; using RangeType = Dune::FieldVector<ct,1>;
    using JacobianType = Dune::FieldMatrix<ct,1,dim>;
  };
  static constexpr int n1 = cube ? (1 << dim) : dim+1;
  static constexpr int n = ord == 1 ? n1 : n1 + dim*(dim+1)/2;
  std::size_t size() const { return n; }
  int order() const { return ord; }
  void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const
  {
    out.resize(n);
    if (cube) for (int k = 0; k < n1; ++k) { ct v = 1; for (int j = 0; j < dim; ++j) v *= (k >> j & 1) ? x[j] : 1-x[j]; out[k] = v; }
    else { ct v = 1; for (int j = 0; j < dim; ++j) { out[j+1] = x[j]; v -= x[j]; } out[0] = v; }
    if (ord == 2) { int i = n1; for (int j = 0; j < dim; ++j) for (int k = 0; k <= j; ++k) out[i++] = x[j]*x[k]; }
  }
  void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const
  {
    out.resize(n);
    if (cube) for (int k = 0; k < n1; ++k) for (int l = 0; l < dim; ++l) {
      ct v = 1; for (int j = 0; j < dim; ++j) v *= j == l ? ((k >> j & 1) ? 1 : -1) : ((k >> j & 1) ? x[j] : 1-x[j]); out[k][0][l] = v; }
    else { out[0][0] = -1; for (int j = 0; j < dim; ++j) { out[j+1][0] = 0; out[j+1][0][j] = 1; } }
    if (ord == 2) { int i = n1; for (int j = 0; j < dim; ++j) for (int k = 0; k <= j; ++k) { out[i][0] = 0; out[i][0][j] += x[k]; out[i][0][k] += x[j]; ++i; } }
  }
};
template<class ct, int dim, bool cube, int ord = 1> struct NodalFE
{
  struct Traits { using LocalBasisType = NodalBasis<ct,dim,cube,ord>; };
  typename Traits::LocalBasisType basis;
  const auto& localBasis() const { return basis; }
  std::size_t size() const { return basis.size(); }
  Dune::GeometryType type() const { return cube ? Dune::GeometryTypes::cube(dim) : Dune::GeometryTypes::simplex(dim); }
  // order one: coefficients are the values at the corners
  struct Interpolation {
    template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const
    {
      const unsigned id = cube ? (1u << dim) - 1 : 0; const int n = spec::count(id, dim, dim);
      out.resize(n);
      for (int k = 0; k < n; ++k) { Dune::FieldVector<ct,dim> x; for (int j = 0; j < dim; ++j) x[j] = spec::coord(id, dim, k, j); out[k] = f(x); }
    }
  };
  Interpolation localInterpolation() const { return {}; }
};
#endif
