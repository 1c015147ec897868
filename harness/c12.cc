// Affine maps: local and global coordinates, affine flag, volume.
#include <models.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

// any point in space that projects to x: image of x plus a vector orthogonal to the rows of b
template<int dim, int cdim> FieldVector<double,cdim> target(const FieldVector<double,cdim>& o, const FieldMatrix<double,dim,cdim>& b, const FieldVector<double,dim>& x)
{
  auto y = o; for (int i = 0; i < dim; ++i) y.axpy(x[i], b[i]);
  const double s = v_real("s");
  if (dim == 1 && cdim == 2) { y[0] -= s*b[0][1]; y[1] += s*b[0][0]; }
  if constexpr (cdim == 3 && dim < 3) {
    const auto n = dim == 2 ? b[dim-1] : symbolicVector<double,3>("n");
    for (int j = 0; j < 3; ++j) y[j] += s*(b[0][(j+1)%3]*n[(j+2)%3] - b[0][(j+2)%3]*n[(j+1)%3]);
  }
  return y;
}
template<int dim, int cdim, class Geo> void inverse(const Geo& g, const FieldVector<double,dim>& x, const FieldMatrix<double,dim,cdim>& b, const FieldVector<double,cdim>* o = nullptr)
{
  const auto z = g.local(g.global(x));
  for (int i = 0; i < dim; ++i) v_eq(z[i], x[i], "local(global(x)) is x");
  auto y = symbolicVector<double,cdim>("y");
  if (o) y = target<dim,cdim>(*o, b, x);
  const auto r = g.global(g.local(y));
  if constexpr (dim == cdim)
    for (int j = 0; j < cdim; ++j) v_eq(r[j], y[j], "global(local(y)) is y");
  else
    for (int i = 0; i < dim; ++i) { double s = 0; for (int j = 0; j < cdim; ++j) s += b[i][j]*(r[j] - y[j]); v_eq(s, 0, "local(y) is the orthogonal projection"); }
}
template<int dim, int cdim> void affine()
{
  v_labels("class", "AffineGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b); const auto x = symbolicVector<double,dim>("t");
  using G = AffineGeometry<double,dim,cdim>;
  const auto gt = GeometryTypes::simplex(dim);
  std::vector<FieldVector<double,cdim>> c; c.push_back(o); for (int i = 0; i < dim; ++i) c.push_back(o + b[i]);
  const G g[] = { G(gt, o, b), G(gt, c), G(referenceElement<double,dim>(gt), o, b), G(referenceElement<double,dim>(gt), c) };
  for (int k = 0; k < 4; ++k) {
    v_label("constructor", k);
    inverse<dim,cdim>(g[k], x, b);
    v_true(g[k].affine(), "affine flag");
    v_eq(g[k].volume()*spec::volinv(0, dim), g[k].integrationElement(x), "volume is integration element times reference volume");
  }
}
CHK(affine1) { affine<1,1>(); affine<1,2>(); affine<1,3>(); }
CHK(affine2) { affine<2,2>(); affine<2,3>(); }
CHK(affine3) { affine<3,3>(); }

template<class Geo, int dim, int cdim> void mlg(const char* name, unsigned lo, unsigned hi)
{
  v_labels("class", name); v_label("dim", dim); v_label("cdim", cdim);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b);
  for (unsigned id = lo; id < hi; ++id) {
    v_label("shape", id);
    const Geo g(GeometryType(id, dim), affineCorners<double,dim,cdim>(id, o, b));
    const auto p = parametrisedPoint<double,dim>(id);
    v_true(g.affine(), "exactly affine corners are reported affine");
    inverse<dim,cdim>(g, p.x, b, &o);
    v_eq(g.volume()*spec::volinv(id, dim), g.integrationElement(p.x), "volume is integration element times reference volume");
  }
}
template<int dim, int cdim> void mlgs() { v_exact(1); mlg<MultiLinearGeometry<double,dim,cdim>,dim,cdim>("MultiLinearGeometry", 0, spec::ntopo(dim)); mlg<CachedMultiLinearGeometry<double,dim,cdim>,dim,cdim>("CachedMultiLinearGeometry", 0, spec::ntopo(dim)); }
CHK(mlg1) { mlgs<1,1>(); mlgs<1,2>(); mlgs<1,3>(); }
CHK(mlg2) { mlgs<2,2>(); }
CHK(mlg23) { mlgs<2,3>(); }
CHK(mlg3) { mlgs<3,3>(); }

// cached geometry once the inverse Jacobian has been asked for
template<int dim, int cdim> void warm()
{
  v_labels("class", "CachedMultiLinearGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b);
  const CachedMultiLinearGeometry<double,dim,cdim> g(GeometryTypes::simplex(dim), affineCorners<double,dim,cdim>(0, o, b));
  (void)g.jacobianInverseTransposed(FieldVector<double,dim>(0.25));
  inverse<dim,cdim>(g, symbolicVector<double,dim>("t"), b);
}
CHK(warm) { warm<1,1>(); warm<1,3>(); warm<2,2>(); warm<2,3>(); warm<3,3>(); }

// moving one corner by e keeps the map affine only if the corner is an apex or e vanishes
template<int dim, class F> bool affinelyIndependent(unsigned id, int k, F&&)
{
  const int n = spec::count(id, dim, dim); int m = 1; for (int i = 0; i < dim; ++i) m *= 3;
  for (int a = 1; a < m; ++a) for (int off = -dim; off <= dim; ++off) {
    bool ok = true;
    for (int l = 0; l < n && ok; ++l) {
      int s = off, q = a; for (int i = 0; i < dim; ++i, q /= 3) s += (q % 3 - 1) * (int)spec::coord(id, dim, l, i);
      ok = l == k ? s != 0 : s == 0;
    }
    if (ok) return true;
  }
  return false;
}
template<class Geo, int dim, int cdim> void bent(const char* name)
{
  v_labels("class", name); v_label("dim", dim); v_label("cdim", cdim);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>(); const double e = v_real("e");
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("shape", id);
    for (int k = 0; k < spec::count(id, dim, dim); ++k) {
      const bool indep = affinelyIndependent<dim>(id, k, 0);
      for (int j = 0; j < cdim; ++j) {
        v_label("corner", k); v_label("direction", j);
        auto c = affineCorners<double,dim,cdim>(id, o, b); c[k][j] += e;
        const bool a = Geo(GeometryType(id, dim), c).affine();
        if (indep) v_true(a, "a moved corner outside the plane of the others keeps the map affine");
        else { v_true(!a | (e*e < 1e-10), "a moved corner makes the map non-affine"); v_true(a | (e*e > 1e-30), "an unmoved corner keeps the map affine"); }
      }
    }
  }
}
CHK(bent2) { bent<MultiLinearGeometry<double,2,2>,2,2>("MultiLinearGeometry"); bent<MultiLinearGeometry<double,2,3>,2,3>("MultiLinearGeometry"); }
CHK(bent3) { bent<MultiLinearGeometry<double,3,3>,3,3>("MultiLinearGeometry"); }
CHK(bent2c) { bent<CachedMultiLinearGeometry<double,2,2>,2,2>("CachedMultiLinearGeometry"); bent<CachedMultiLinearGeometry<double,1,2>,1,2>("CachedMultiLinearGeometry"); }
CHK(bent3c) { bent<CachedMultiLinearGeometry<double,3,3>,3,3>("CachedMultiLinearGeometry"); }

template<int dim, int cdim> void box()
{
  v_labels("class", "AxisAlignedCubeGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto lo = symbolicVector<double,cdim>("lo"); const auto h = symbolicVector<double,cdim>("h"); FieldVector<double,cdim> up;
  for (int j = 0; j < cdim; ++j) { v_assume(h[j] > 0); up[j] = lo[j] + h[j]; }
  for (unsigned m = 0; m < (1u << cdim); ++m) {
    if (__builtin_popcount(m) != dim) continue;
    v_label("axes", m);
    FieldMatrix<double,dim,cdim> b(0); for (int j = 0, i = 0; j < cdim; ++j) if (m >> j & 1) b[i++][j] = h[j];
    const AxisAlignedCubeGeometry<double,dim,cdim> g(lo, up, std::bitset<cdim>(m));
    inverse<dim,cdim>(g, symbolicVector<double,dim>("t"), b);
    v_true(g.affine(), "affine flag");
    v_eq(g.volume(), g.integrationElement(symbolicVector<double,dim>("t")), "volume is integration element times reference volume");
  }
  if constexpr (dim == cdim) { FieldMatrix<double,dim,cdim> b(0); inverse<dim,cdim>(AxisAlignedCubeGeometry<double,dim,cdim>(lo, up), symbolicVector<double,dim>("t"), b); }
}
CHK(box) { box<1,1>(); box<1,2>(); box<1,3>(); box<2,2>(); box<2,3>(); box<3,3>(); }

// embedded sub-entities of reference elements are affine geometries too
template<int dim, int codim> void embedded()
{
  if constexpr (codim < dim) {
    for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
      const auto re = referenceElement<double,dim>(GeometryType(id, dim));
      for (int i = 0; i < re.size(codim); ++i) {
        v_label("shape", id); v_label("codim", codim); v_label("sub", i);
        const auto g = re.template geometry<codim>(i); const auto x = symbolicVector<double,dim-codim>("t");
        inverse<dim-codim,dim>(g, x, g.jacobianTransposed(x));
      }
    }
    embedded<dim,codim+1>();
  }
}
CHK(embedded) { embedded<1,0>(); embedded<2,0>(); embedded<3,0>(); }
