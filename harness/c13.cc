// Caching and plain multilinear geometries, any order of queries.
#include <models.hh>
#include <dune/geometry/multilineargeometry.hh>
using namespace Dune;

enum Query { Global, Local, IntegrationElement, Volume, JT, JIT, J, JI, Center, Corner, Affine, nQueries };
static const char* const queryName[] = {"global", "local", "integrationElement", "volume", "jacobianTransposed", "jacobianInverseTransposed", "jacobian", "jacobianInverse", "center", "corner", "affine"};

struct Answer { int n = 0; double v[16]; void add(double x) { v[n++] = x; } };
template<class M> void addMatrix(Answer& a, const M& m, int r, int c) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) a.add(m[i][j]); }

template<int dim, int cdim, class Geo> Answer ask(const Geo& g, int q, const FieldVector<double,dim>& x, const FieldVector<double,cdim>& y)
{
  Answer a;
  switch (q) {
    case Global: { auto r = g.global(x); for (int j = 0; j < cdim; ++j) a.add(r[j]); break; }
    case Local: { auto r = g.local(y); for (int j = 0; j < dim; ++j) a.add(r[j]); break; }
    case IntegrationElement: a.add(g.integrationElement(x)); break;
    case Volume: a.add(g.volume()); break;
    case JT: addMatrix(a, g.jacobianTransposed(x), dim, cdim); break;
    case JIT: { const auto m = g.jacobianInverseTransposed(x); addMatrix(a, m, cdim, dim); a.add(m.detInv()); break; }
    case J: addMatrix(a, g.jacobian(x), cdim, dim); break;
    case JI: addMatrix(a, g.jacobianInverse(x), dim, cdim); break;
    case Center: { auto r = g.center(); for (int j = 0; j < cdim; ++j) a.add(r[j]); break; }
    case Corner: { for (int k = 0; k < g.corners(); ++k) { auto c = g.corner(k); if (a.n + cdim <= 16) for (int j = 0; j < cdim; ++j) a.add(c[j]); } break; }
    case Affine: a.add(g.affine()); break;
  }
  return a;
}
void same(const Answer& a, const Answer& b, const char* rule)
{
  v_eqi(a.n, b.n, rule);
  for (int i = 0; i < a.n; ++i) v_eq(a.v[i], b.v[i], rule);
}

// p: queries of the history; corners c; skipLocal: the inverse would iterate
template<int dim, int cdim, int depth> void histories(unsigned id, const std::vector<FieldVector<double,cdim>>& c, const std::vector<FieldVector<double,cdim>>& other,
  const FieldVector<double,dim>& x, const FieldVector<double,dim>& x2, const FieldVector<double,cdim>& y, bool skipLocal)
{
  using Plain = MultiLinearGeometry<double,dim,cdim>; using Cached = CachedMultiLinearGeometry<double,dim,cdim>;
  const GeometryType gt(id, dim);
  const Plain plain(gt, c);
  Answer want[nQueries]; for (int q = 0; q < nQueries; ++q) if (!(skipLocal && q == Local)) want[q] = ask(plain, q, x, y);
  int n = 1; for (int k = 0; k < depth; ++k) n *= nQueries;
  for (int h = 0; h < n; ++h) {
    bool skip = false; for (int k = 0, r = h; k < depth; ++k, r /= nQueries) skip |= skipLocal && r % nQueries == Local;
    if (skip) continue;
    for (int q = 0; q < nQueries; ++q) {
      if (skipLocal && q == Local) continue;
      v_labels("query", queryName[q]); v_labels("after", queryName[h % nQueries]); v_label("history", h);
      const Cached g(gt, c);
      for (int k = 0, r = h; k < depth; ++k, r /= nQueries) ask(g, r % nQueries, k ? x : x2, y);
      same(ask(g, q, x, y), want[q], "query of the caching geometry after other queries");
      const Cached copy(g);
      same(ask(copy, q, x, y), want[q], "query of a copy");
      if (depth == 1) {
        Cached assigned(gt, other); if (h != Local) ask(assigned, h, x2, y);
        assigned = g;
        same(ask(assigned, q, x, y), want[q], "query of an assigned geometry");
        const Cached fresh(referenceElement<double,dim>(gt), c);
        ask(fresh, h % nQueries, x2, y);
        same(ask(fresh, q, x, y), want[q], "query of a geometry built from a reference element");
      }
    }
  }
}
template<int dim, int cdim> std::vector<FieldVector<double,cdim>> concrete(unsigned id, double bend)
{
  FieldVector<double,cdim> o(0.25); FieldMatrix<double,dim,cdim> b(0);
  for (int i = 0; i < dim; ++i) for (int j = 0; j < cdim; ++j) b[i][j] = i == j ? 2 + i : (j == i+1 ? 0.5 : 0.25);
  auto c = affineCorners<double,dim,cdim>(id, o, b);
  if (bend != 0) for (int j = 0; j < cdim; ++j) c[c.size()-2][j] += bend;
  return c;
}
template<int dim, int cdim, int depth> void exact(unsigned id)
{
  v_exact(1);
  v_labels("map", "affine"); v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b);
  const auto c = affineCorners<double,dim,cdim>(id, o, b);
  const auto p = parametrisedPoint<double,dim>(id);
  histories<dim,cdim,depth>(id, c, concrete<dim,cdim>(id, 0.5), p.x, FieldVector<double,dim>(0.25), symbolicVector<double,cdim>("y"), false);
}
template<int dim, int cdim, int depth> void bent(unsigned id)
{
  v_exact(1);
  v_labels("map", "bent"); v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  const auto o = symbolicVector<double,cdim>("o"); auto b = concrete<dim,cdim>(id, 0.5);
  for (auto& c : b) c += o;
  histories<dim,cdim,depth>(id, b, concrete<dim,cdim>(id, 0), FieldVector<double,dim>(0.25), FieldVector<double,dim>(0.125), o, true);
}
template<int dim, int cdim> void iterated(unsigned id)
{
  v_labels("map", "bent, constant"); v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  const auto b = concrete<dim,cdim>(id, 0.5);
  FieldVector<double,cdim> y(0.75);
  histories<dim,cdim,1>(id, b, concrete<dim,cdim>(id, 0), FieldVector<double,dim>(0.25), FieldVector<double,dim>(0.125), y, false);
}
CHK(affine1) { exact<1,1,1>(0); exact<1,2,1>(0); exact<1,3,1>(0); }
CHK(affine22) { for (unsigned id = 0; id < 4; ++id) exact<2,2,1>(id); }
CHK(affine23a) { exact<2,3,1>(0); }
CHK(affine23b) { exact<2,3,1>(3); }
CHK(triples) { exact<2,2,2>(0); }
CHK(affine33s) { exact<3,3,1>(0); }
CHK(affine33c) { exact<3,3,1>(7); }
CHK(affine33p) { exact<3,3,1>(3); }
CHK(affine33t) { exact<3,3,1>(5); }
CHK(bent22) { bent<2,2,2>(3); }
CHK(bent23) { bent<2,3,1>(3); }
CHK(bent33) { bent<3,3,1>(7); bent<3,3,1>(3); bent<3,3,1>(5); }
CHK(iterated) { iterated<2,2>(3); iterated<2,3>(3); iterated<3,3>(7); iterated<3,3>(3); iterated<3,3>(5); }
// collapsed geometries: both report the documented value for "not invertible"
template<int dim, int cdim> void collapsed(unsigned id)
{
  v_labels("map", "collapsed"); v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  const auto y = symbolicVector<double,cdim>("y"); const double s = v_real("s");
  FieldVector<double,cdim> o = symbolicVector<double,cdim>("o"); FieldMatrix<double,dim,cdim> b = symbolicMatrix<double,dim,cdim>();
  double l = 0; for (int j = 0; j < cdim; ++j) l += b[0][j]*b[0][j]; v_assume(l > 0);
  if (dim == 1) b[0] = 0; else for (int j = 0; j < cdim; ++j) b[dim-1][j] = s*b[0][j];
  const auto c = affineCorners<double,dim,cdim>(id, o, b);
  const auto p = MultiLinearGeometry<double,dim,cdim>(GeometryType(id, dim), c).local(y);
  const auto q = CachedMultiLinearGeometry<double,dim,cdim>(GeometryType(id, dim), c).local(y);
  for (int i = 0; i < dim; ++i) v_eq(q[i], p[i], "local coordinate of a collapsed geometry");
}
CHK(collapsed) { v_exact(1); collapsed<1,1>(0); collapsed<1,2>(0); collapsed<2,2>(0); collapsed<2,2>(3); collapsed<2,3>(0); collapsed<2,3>(3); }
