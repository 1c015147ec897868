// Corner symbols, parametrised local points and small matrix helpers.
#ifndef VERIF_GEO_HH
#define VERIF_GEO_HH
#include <v.hh>
#include <spec.hh>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>

// arbitrary corner coordinates
template<class ct, int dim, int cdim> std::vector<Dune::FieldVector<ct,cdim>> symbolicCorners(unsigned id)
{
  const int n = spec::count(id, dim, dim);
  std::vector<Dune::FieldVector<ct,cdim>> c(n);
  for (int k = 0; k < n; ++k) for (int j = 0; j < cdim; ++j) c[k][j] = v_real("c", k*10+j);
  return c;
}
// corners of an arbitrary affine image: origin o, columns b_i
template<class ct, int dim, int cdim> std::vector<Dune::FieldVector<ct,cdim>>
affineCorners(unsigned id, const Dune::FieldVector<ct,cdim>& o, const Dune::FieldMatrix<ct,dim,cdim>& b)
{
  const int n = spec::count(id, dim, dim);
  std::vector<Dune::FieldVector<ct,cdim>> c(n);
  for (int k = 0; k < n; ++k) {
    c[k] = o;
    for (int i = 0; i < dim; ++i) if (spec::coord(id, dim, k, i)) c[k] += b[i];
  }
  return c;
}
template<class ct, int dim, int cdim> Dune::FieldMatrix<ct,dim,cdim> symbolicMatrix(const char* name = "b")
{
  Dune::FieldMatrix<ct,dim,cdim> b;
  for (int i = 0; i < dim; ++i) for (int j = 0; j < cdim; ++j) b[i][j] = v_real(name, i*10+j);
  return b;
}
template<class ct, int n> Dune::FieldVector<ct,n> symbolicVector(const char* name)
{
  Dune::FieldVector<ct,n> x; for (int j = 0; j < n; ++j) x[j] = v_real(name, j); return x;
}
// every local point below the apex: x_j = t_j * prod over later pyramid steps (1-t_k)
template<class ct, int dim> struct Point { ct t[dim+1]; Dune::FieldVector<ct,dim> x; };
template<class ct, int dim> Point<ct,dim> parametrisedPoint(unsigned id, unsigned beyond = 0)
{
  // bit j of beyond: the point lies beyond the apex of step j+1 instead of below it
  static const char* names[] = {"t", "t1_", "t2_", "t3_", "t4_", "t5_", "t6_", "t7_", "t8_", "t9_", "ta_", "tb_", "tc_", "td_", "te_", "tf_"};
  Point<ct,dim> p;
  for (int j = 0; j < dim; ++j) {
    p.t[j] = v_real(names[beyond & 15], j);
    if (!spec::prism(id, j+1)) { if (beyond & (1u << j)) v_assume(p.t[j] > 1.001); else v_assume(p.t[j] < 0.999); for (int k = 0; k < j; ++k) p.x[k] *= 1 - p.t[j]; }
    p.x[j] = p.t[j];
  }
  return p;
}
// documented recursive blend of the corners at the point with parameters t
template<class ct, int dim, int cdim> Dune::FieldVector<ct,cdim>
blend(unsigned id, int d, const std::vector<Dune::FieldVector<ct,cdim>>& c, int first, const Point<ct,dim>& p)
{
  if (d == 0) return c[first];
  const unsigned b = spec::base(id, d); const int n = spec::count(b, d-1, d-1);
  Dune::FieldVector<ct,cdim> bot = blend<ct,dim,cdim>(b, d-1, c, first, p), top;
  if (spec::prism(id, d)) top = blend<ct,dim,cdim>(b, d-1, c, first+n, p); else top = c[first+n];
  Dune::FieldVector<ct,cdim> y;
  for (int j = 0; j < cdim; ++j) y[j] = (1 - p.t[d-1])*bot[j] + p.t[d-1]*top[j];
  return y;
}
template<class M> double det(const M& a, int n)
{
  double d[16] = {}; d[0] = 1;
  for (int m = 1; m < (1 << n); ++m) {
    int row = __builtin_popcount(m) - 1; double s = 0; int sign = 1;
    for (int j = n-1; j >= 0; --j) if (m >> j & 1) { s += sign * a[row][j] * d[m & ~(1 << j)]; sign = -sign; }
    d[m] = s;
  }
  return d[(1 << n) - 1];
}
// Gram matrix of the rows
template<class M> struct Gram { double g[4][4]; };
template<int dim, int cdim, class M> Gram<M> gram(const M& a)
{
  Gram<M> r; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { double s = 0; for (int k = 0; k < cdim; ++k) s += a[i][k]*a[j][k]; r.g[i][j] = s; } return r;
}
// assume that the rows of b are linearly independent (all leading Gram minors positive)
template<int dim, int cdim, class M> void assumeFullRank(const M& b)
{
  const auto g = gram<dim,cdim>(b);
  for (int k = 1; k <= dim; ++k) v_assume(det(g.g, k) > 0);
}
#endif
