// Geometry classes built from the same data agree.
#include <models.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
using namespace Dune;
template<class M> double entry(const M& m, int i, int j) { return m[i][j]; }
template<class ct, int n> double entry(const DiagonalMatrix<ct,n>& m, int i, int j) { return i == j ? m.diagonal()[i] : 0; }

template<int dim, int cdim, class G, class H> void agree(const char* what, const G& g, const H& h, const FieldVector<double,dim>& x, bool inverses = true, bool volume = true, bool element = true)
{
  v_labels("classes", what); v_label("dim", dim); v_label("cdim", cdim);
  v_true(g.type() == h.type(), "type");
  v_true(referenceElement(g) == referenceElement(h), "reference element");
  v_eqi(g.corners(), h.corners(), "number of corners");
  for (int k = 0; k < g.corners(); ++k) { const auto a = g.corner(k), b = h.corner(k); for (int j = 0; j < cdim; ++j) v_eq(a[j], b[j], "corner"); }
  const auto a = g.global(x), b = h.global(x); for (int j = 0; j < cdim; ++j) v_eq(a[j], b[j], "global");
  const auto c = g.center(), d = h.center(); for (int j = 0; j < cdim; ++j) v_eq(c[j], d[j], "centre");
  const auto p = g.jacobianTransposed(x); const auto q = h.jacobianTransposed(x); const auto r = g.jacobian(x); const auto s = h.jacobian(x);
  for (int i = 0; i < dim; ++i) for (int j = 0; j < cdim; ++j) { v_eq(entry(p, i, j), entry(q, i, j), "transposed Jacobian"); v_eq(entry(r, j, i), entry(s, j, i), "Jacobian"); v_eq(entry(r, j, i), entry(p, i, j), "Jacobian is the transpose of the transposed Jacobian"); }
  if (inverses) {
    const auto p = g.jacobianInverseTransposed(x); const auto q = h.jacobianInverseTransposed(x); const auto r = g.jacobianInverse(x); const auto s = h.jacobianInverse(x);
    for (int i = 0; i < dim; ++i) for (int j = 0; j < cdim; ++j) { v_eq(entry(p, j, i), entry(q, j, i), "transposed inverse Jacobian"); v_eq(entry(r, i, j), entry(s, i, j), "inverse Jacobian"); }
  }
  if (element) v_eq(g.integrationElement(x), h.integrationElement(x), "integration element");
  if (volume) v_eq(g.volume(), h.volume(), "volume");
}

// ---- boxes
template<int dim, int cdim> void box()
{
  v_exact(1);
  const auto lo = symbolicVector<double,cdim>("lo"); const auto h = symbolicVector<double,cdim>("h"); FieldVector<double,cdim> up;
  for (int j = 0; j < cdim; ++j) { v_assume(h[j] > 0); up[j] = lo[j] + h[j]; }
  const unsigned id = (1u << dim) - 1; const auto gt = GeometryTypes::cube(dim);
  const auto x = symbolicVector<double,dim>("t");
  for (unsigned m = 0; m < (1u << cdim); ++m) {
    if (__builtin_popcount(m) != dim) continue;
    v_label("axes", m);
    FieldMatrix<double,dim,cdim> b(0); for (int j = 0, i = 0; j < cdim; ++j) if (m >> j & 1) b[i++][j] = h[j];
    const AxisAlignedCubeGeometry<double,dim,cdim> g(lo, up, std::bitset<cdim>(m));
    const auto c = affineCorners<double,dim,cdim>(id, lo, b);
    for (int k = 0; k < (1 << dim); ++k) for (int j = 0; j < cdim; ++j) v_eq(g.corner(k)[j], c[k][j], "corners enumerate the free directions in increasing order");
    agree<dim,cdim>("box, affine", g, AffineGeometry<double,dim,cdim>(gt, lo, b), x);
    agree<dim,cdim>("box, multilinear", g, MultiLinearGeometry<double,dim,cdim>(gt, c), x);
    agree<dim,cdim>("box, cached multilinear", g, CachedMultiLinearGeometry<double,dim,cdim>(gt, c), x);
    const NodalFE<double,dim,true,1> fe;
    agree<dim,cdim>("box, finite element", g, LocalFiniteElementGeometry<NodalFE<double,dim,true,1>,cdim>(gt, fe, c), x, true, dim < 3);
    AxisAlignedCubeGeometry<double,dim,cdim> e; e = g; agree<dim,cdim>("box, assigned box", g, e, x);
  }
  if constexpr (dim == cdim) agree<dim,cdim>("box, box given by two corners", AxisAlignedCubeGeometry<double,dim,cdim>(lo, up, std::bitset<cdim>((1u << cdim)-1)), AxisAlignedCubeGeometry<double,dim,cdim>(lo, up), x);
}
CHK(box1) { box<1,1>(); box<1,2>(); box<1,3>(); }
CHK(box2) { box<2,2>(); box<2,3>(); }
CHK(box3) { box<3,3>(); }
template<int cdim> void point()
{
  const auto o = symbolicVector<double,cdim>("o"); const FieldVector<double,0> x;
  const AxisAlignedCubeGeometry<double,0,cdim> g(o), g2(o, o, std::bitset<cdim>(0));
  const AffineGeometry<double,0,cdim> a(GeometryTypes::vertex, o, FieldMatrix<double,0,cdim>());
  const MultiLinearGeometry<double,0,cdim> m(GeometryTypes::vertex, std::vector<FieldVector<double,cdim>>(1, o));
  const CachedMultiLinearGeometry<double,0,cdim> c(GeometryTypes::vertex, std::vector<FieldVector<double,cdim>>(1, o));
  auto cmp = [&](const char* what, const auto& h) {
    v_labels("classes", what); v_label("dim", 0); v_label("cdim", cdim);
    v_true(h.type() == g.type(), "type"); v_eqi(h.corners(), 1, "number of corners"); v_eq(h.volume(), 1, "volume"); v_eq(h.integrationElement(x), 1, "integration element"); v_true(h.affine(), "affine flag of a point");
    for (int j = 0; j < cdim; ++j) { v_eq(h.corner(0)[j], o[j], "corner"); v_eq(h.center()[j], o[j], "centre"); v_eq(h.global(x)[j], o[j], "global"); }
    (void)h.local(o);
  };
  cmp("box", g); cmp("box with axes", g2); cmp("affine", a); cmp("multilinear", m); cmp("cached", c);
}
CHK(points) { point<1>(); point<2>(); point<3>(); }

// ---- affine images of every shape
template<int dim, int cdim> void affine(unsigned id)
{
  v_exact(1); v_label("shape", id);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b);
  const GeometryType gt(id, dim); const auto c = affineCorners<double,dim,cdim>(id, o, b);
  const auto p = parametrisedPoint<double,dim>(id);
  const AffineGeometry<double,dim,cdim> g(gt, o, b);
  agree<dim,cdim>("affine, multilinear", g, MultiLinearGeometry<double,dim,cdim>(gt, c), p.x);
  agree<dim,cdim>("affine, cached multilinear", g, CachedMultiLinearGeometry<double,dim,cdim>(gt, c), p.x);
  if (id == 0) {
    agree<dim,cdim>("affine, affine given by corners", g, AffineGeometry<double,dim,cdim>(gt, c), p.x);
    const NodalFE<double,dim,false,1> fe; using LFE = LocalFiniteElementGeometry<NodalFE<double,dim,false,1>,cdim>;
    agree<dim,cdim>("affine, finite element", g, LFE(gt, fe, c), p.x);
    agree<dim,cdim>("affine, interpolated finite element", g, LFE(gt, fe, [&](const FieldVector<double,dim>& x) { auto y = o; for (int i = 0; i < dim; ++i) y.axpy(x[i], b[i]); return y; }), p.x);
    v_true(LFE(gt, fe, c).affine(), "finite element geometry of order one on a simplex is affine");
  }
  AffineGeometry<double,dim,cdim> e(gt, FieldVector<double,cdim>(0), b); e = g; agree<dim,cdim>("affine, assigned affine", g, e, p.x);
}
CHK(affine1) { affine<1,1>(0); affine<1,2>(0); affine<1,3>(0); }
CHK(affine2) { for (unsigned id = 0; id < 4; ++id) affine<2,2>(id); }
CHK(affine23) { affine<2,3>(0); affine<2,3>(3); }
CHK(affine3) { for (unsigned id = 0; id < 8; ++id) affine<3,3>(id); }

// ---- affine map composed with the reference element
template<int dim, int wdim, bool cube> void mapped()
{
  v_exact(1);
  const QuadraticMap<double,dim,wdim> f(false);
  const unsigned id = cube ? (1u << dim) - 1 : 0; const GeometryType gt(id, dim);
  FieldVector<double,wdim> o; FieldMatrix<double,dim,wdim> b; for (int i = 0; i < wdim; ++i) { o[i] = f.a[i]; for (int j = 0; j < dim; ++j) b[j][i] = f.l[i][j]; }
  assumeFullRank<dim,wdim>(b);
  const auto base = referenceElement<double,dim>(gt).template geometry<0>(0);
  agree<dim,wdim>("affine, mapped reference element", AffineGeometry<double,dim,wdim>(gt, o, b), MappedGeometry(f, base, true), symbolicVector<double,dim>("t"), true, dim < 3);
}
CHK(mapped1) { mapped<1,1,false>(); mapped<1,2,true>(); mapped<1,3,false>(); }
CHK(mapped2) { mapped<2,2,false>(); mapped<2,2,true>(); mapped<2,3,false>(); }
CHK(mapped3) { mapped<3,3,false>(); mapped<3,3,true>(); }

// ---- multilinear cube and first order finite element with the same unknown corners
template<int dim, int cdim> void multilinear(bool inverses)
{
  v_exact(1);
  const unsigned id = (1u << dim) - 1; const auto gt = GeometryTypes::cube(dim);
  const auto c = symbolicCorners<double,dim,cdim>(id); const NodalFE<double,dim,true,1> fe; const auto x = symbolicVector<double,dim>("t");
  const MultiLinearGeometry<double,dim,cdim> g(gt, c); const LocalFiniteElementGeometry<NodalFE<double,dim,true,1>,cdim> h(gt, fe, c);
  FieldMatrix<double,dim,cdim> J = g.jacobianTransposed(x); if (dim < 3) assumeFullRank<dim,cdim>(J);
  agree<dim,cdim>("multilinear, finite element", g, h, x, inverses, false, dim < 3);
  v_eqi(h.coefficients().size(), 1u << dim, "number of coefficients"); v_eqi(h.finiteElement().size(), 1u << dim, "size of the stored finite element"); v_eqi(h.localBasis().size(), 1u << dim, "size of the stored basis");
  for (int l = 0; l < (1 << dim); ++l) for (int j = 0; j < cdim; ++j) v_eq(h.coefficients()[l][j], c[l][j], "coefficient");
  const LocalFiniteElementGeometry<NodalFE<double,dim,true,1>,cdim> k(gt, fe, [&](const FieldVector<double,dim>& y) { return g.global(y); });
  for (int l = 0; l < (1 << dim); ++l) for (int j = 0; j < cdim; ++j) v_eq(k.corner(l)[j], c[l][j], "corner of the interpolated finite element");
}
CHK(multilinear1) { multilinear<1,1>(true); multilinear<1,2>(true); multilinear<1,3>(true); }
CHK(multilinear2) { multilinear<2,2>(true); multilinear<2,3>(false); }
CHK(multilinear3) { multilinear<3,3>(false); }

// affine flag of a first order finite element on a quadrilateral / hexahedron: moved corner
template<int dim> void flag()
{
  v_exact(1); v_labels("classes", "finite element"); v_label("dim", dim);
  const unsigned id = (1u << dim) - 1; const auto gt = GeometryTypes::cube(dim); const NodalFE<double,dim,true,1> fe; const double e = v_real("e");
  const auto o = symbolicVector<double,dim>("o"); const auto b = symbolicMatrix<double,dim,dim>();
  for (int k = 0; k < (1 << dim); ++k) for (int j = 0; j < dim; ++j) {
    v_label("corner", k); v_label("direction", j);
    auto c = affineCorners<double,dim,dim>(id, o, b); c[k][j] += e;
    const LocalFiniteElementGeometry<NodalFE<double,dim,true,1>,dim> g(gt, fe, c);
    FieldMatrix<double,dim,dim> J; for (int i = 0; i < dim; ++i) J[i] = c[1 << i] - c[0]; assumeFullRank<dim,dim>(J);
    const bool a = g.affine();
    v_true(!a | (e*e < 1e-10), "a moved corner makes the map non-affine"); v_true(a | (e*e > 1e-30), "an unmoved corner keeps the map affine");
    v_true(g.affine() == a, "the affine flag does not change");
  }
}
CHK(flag2) { flag<2>(); }
CHK(flag3) { flag<3>(); }
