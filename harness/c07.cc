// Integration outer normals.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

inline double det(double (&a)[6][6], int n)
{
  // division-free Laplace expansion on bitmask columns
  double d[64] = {}; d[0] = 1;
  for (int m = 1; m < (1 << n); ++m) {
    int row = __builtin_popcount(m) - 1; double s = 0; int sign = 1;
    for (int j = n-1; j >= 0; --j) if (m >> j & 1) { s += sign * a[row][j] * d[m & ~(1 << j)]; sign = -sign; }
    d[m] = s;
  }
  return d[(1 << n) - 1];
}
template<int dim, class ct = double> void one(unsigned id)
{
  v_label("dim", dim); v_label("shape", id);
  const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
  double sum[dim] = {};
  const int nv = spec::count(id, dim, dim);
  for (int f = 0; f < spec::count(id, dim, 1); ++f) {
    v_label("facet", f);
    const auto n = r.integrationOuterNormal(f);
    int fv[64]; const int nf = spec::corners(id, dim, 1, f, fv);
    const unsigned s = spec::shape(id, dim, 1, f);
    double tangent[6][6] = {}; double len = 0;
    for (int j = 0; j < dim; ++j) len += n[j]*n[j];
    for (int k = 1; k < nf; ++k) {
      double dot = 0;
      for (int j = 0; j < dim; ++j) dot += n[j]*(spec::coord(id, dim, fv[k], j) - spec::coord(id, dim, fv[0], j));
      v_eq(dot, 0, "normal is orthogonal to the facet");
      int nz = 0, l = -1; for (int j = 0; j < dim-1; ++j) if (spec::coord(s, dim-1, k, j)) { ++nz; l = j; }
      if (nz == 1) for (int j = 0; j < dim; ++j) tangent[l][j] = spec::coord(id, dim, fv[k], j) - spec::coord(id, dim, fv[0], j);
    }
    for (int k = 0; k < nv; ++k) {
      bool on = false; for (int m = 0; m < nf; ++m) on |= fv[m] == k;
      if (on) continue;
      double dot = 0; for (int j = 0; j < dim; ++j) dot += n[j]*(spec::coord(id, dim, fv[0], j) - spec::coord(id, dim, k, j));
      v_true(dot > 0.1, "normal points away from every other corner");
    }
    double gram[6][6] = {};
    for (int a = 0; a < dim-1; ++a) for (int b = 0; b < dim-1; ++b) for (int j = 0; j < dim; ++j) gram[a][b] += tangent[a][j]*tangent[b][j];
    v_eq(len, dim > 1 ? det(gram, dim-1) : 1.0, "length is the facet's integration element");
    for (int j = 0; j < dim; ++j) sum[j] += n[j]/spec::volinv(s, dim-1);
  }
  for (int j = 0; j < dim; ++j) v_eq(sum[j], 0, "weighted normals add up to zero");
}
template<int dim, class ct = double> void all() { for (unsigned id = 0; id < spec::ntopo(dim); ++id) one<dim,ct>(id); }
CHK(d1) { all<1>(); }
CHK(d2) { all<2>(); }
CHK(d3) { all<3>(); }
CHK(d3f) { v_tol(1e-5); all<3,float>(); }
CHK(d4) { all<4>(); }
CHK(d5) { all<5>(); }
#ifdef VERIF_THOROUGH
CHK(deep6) { all<6>(); }
#endif
