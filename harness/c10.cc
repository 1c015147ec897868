// Jacobians are derivatives of the global map.
#include <models.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
using namespace Dune;

// entries of a row of a dense or diagonal matrix
template<class M> double entry(const M& m, int i, int j) { return m[i][j]; }
template<class ct, int n> double entry(const DiagonalMatrix<ct,n>& m, int i, int j) { return i == j ? m.diagonal()[i] : 0; }

// dy/dt_l = sum_i dy/dx_i dx_i/dt_l for all parameters t_l of the point
template<int dim, int cdim, class Geo, class P> void derivative(const Geo& g, const P& p)
{
  const auto y = g.global(p.x);
  const auto jt = g.jacobianTransposed(p.x);
  const auto J = g.jacobian(p.x);
  for (int i = 0; i < dim; ++i) for (int j = 0; j < cdim; ++j)
    v_eq(entry(J, j, i), entry(jt, i, j), "Jacobian is the transpose of the transposed Jacobian");
  for (int l = 0; l < dim; ++l) for (int j = 0; j < cdim; ++j) {
    v_label("direction", l); v_label("component", j);
    double s = 0; for (int i = 0; i < dim; ++i) s += entry(jt, i, j)*v_diff(p.x[i], p.t[l]);
    v_eq(s, v_diff(y[j], p.t[l]), "transposed Jacobian is the derivative of the global map");
  }
}
template<class ct, int dim, int cdim, bool cached> void mlg(unsigned id)
{
  using Geo = std::conditional_t<cached, CachedMultiLinearGeometry<ct,dim,cdim>, MultiLinearGeometry<ct,dim,cdim>>;
  v_labels("class", cached ? "CachedMultiLinearGeometry" : "MultiLinearGeometry"); v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  const auto p = parametrisedPoint<ct,dim>(id);
  if constexpr (!cached) {
    const Geo g(GeometryType(id, dim), symbolicCorners<ct,dim,cdim>(id));
    derivative<dim,cdim>(g, p);
    for (unsigned beyond = 1; beyond < (1u << dim); ++beyond) {
      bool ok = true; // only pyramid steps have an apex
      for (int j = 0; j < dim; ++j) if ((beyond & (1u << j)) && (j == 0 || spec::prism(id, j+1))) ok = false;
      if (!ok) continue;
      v_label("beyond apex of steps", beyond);
      derivative<dim,cdim>(g, parametrisedPoint<ct,dim>(id, beyond));
    }
    v_label("beyond apex of steps", 0);
    // at every corner and the centre of an affine element: the constant derivative
    {
      const auto A = symbolicMatrix<ct,dim,cdim>();
      const Geo h(GeometryType(id, dim), affineCorners<ct,dim,cdim>(id, symbolicVector<ct,cdim>("o"), A));
      for (int k = 0; k < h.corners(); ++k) {
        FieldVector<ct,dim> x; for (int j = 0; j < dim; ++j) x[j] = spec::coord(id, dim, k, j);
        const auto jt = h.jacobianTransposed(x);
        for (int i = 0; i < dim; ++i) for (int j = 0; j < cdim; ++j) v_eq(jt[i][j], A[i][j], "derivative of an affine element at a corner");
      }
    }
    // at an apex: derivative along the axis
    if (dim > 1 && !spec::prism(id, dim)) {
      FieldVector<ct,dim> x(0); x[dim-1] = 1;
      const auto jt = g.jacobianTransposed(x);
      for (int j = 0; j < cdim; ++j) v_eq(jt[dim-1][j], g.corner(g.corners()-1)[j] - g.corner(0)[j], "axis derivative at the apex");
    }
  } else {
    const Geo g(GeometryType(id, dim), affineCorners<ct,dim,cdim>(id, symbolicVector<ct,cdim>("o"), symbolicMatrix<ct,dim,cdim>()));
    v_true(g.affine(), "affine configuration");
    derivative<dim,cdim>(g, p);
    // without the affine shortcut: bend one corner by a fixed amount
    auto c = affineCorners<ct,dim,cdim>(id, symbolicVector<ct,cdim>("o"), symbolicMatrix<ct,dim,cdim>());
    if (id != 0 && dim > 1 && id > 1) {
      bool simplex = true; for (int d = 2; d <= dim; ++d) simplex &= !spec::prism(id, d);
      if (!simplex) { // corner 3 of a quadrilateral base or the last corner of the first prism step is not fixed by an affine map
        int d = 2; while (!spec::prism(id, d)) ++d;
        const int k = spec::count(spec::base(id, d), d-1, d-1) + 1;
        c[k][0] += 1;
        const Geo h(GeometryType(id, dim), c);
        v_true(!h.affine(), "bent configuration is not affine");
        derivative<dim,cdim>(h, p);
      }
    }
  }
}
template<int dim, int cdim, bool cached = false, class ct = double> void allmlg() { for (unsigned id = 0; id < spec::ntopo(dim); ++id) mlg<ct,dim,cdim,cached>(id); }
CHK(mlg01) { allmlg<0,1>(); allmlg<1,1>(); allmlg<1,2>(); allmlg<1,3>(); }
CHK(mlg22) { allmlg<2,2>(); }
CHK(mlg23) { allmlg<2,3>(); }
CHK(mlg33) { allmlg<3,3>(); }
CHK(mlg33f) { v_tol(1e-5); allmlg<3,3,false,float>(); }
CHK(mlg44) { allmlg<4,4>(); }
CHK(cached) { allmlg<1,1,true>(); allmlg<1,3,true>(); allmlg<2,2,true>(); allmlg<2,3,true>(); allmlg<3,3,true>(); }

template<class ct, int dim> Point<ct,dim> plainPoint() { Point<ct,dim> p; for (int j = 0; j < dim; ++j) p.x[j] = p.t[j] = v_real("t", j); return p; }

template<int dim, int cdim> void affine()
{
  v_labels("class", "AffineGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("shape", id);
    const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
    assumeFullRank<dim,cdim>(b);
    const AffineGeometry<double,dim,cdim> g(GeometryType(id, dim), o, b);
    derivative<dim,cdim>(g, plainPoint<double,dim>());
  }
  std::vector<FieldVector<double,cdim>> c; for (int k = 0; k <= dim; ++k) { FieldVector<double,cdim> y; for (int j = 0; j < cdim; ++j) y[j] = v_real("c", k*10+j); c.push_back(y); }
  FieldMatrix<double,dim,cdim> b; for (int k = 0; k < dim; ++k) b[k] = c[k+1] - c[0];
  assumeFullRank<dim,cdim>(b);
  const AffineGeometry<double,dim,cdim> g(GeometryTypes::simplex(dim), c);
  derivative<dim,cdim>(g, plainPoint<double,dim>());
}
CHK(affine1) { affine<1,1>(); affine<1,2>(); affine<1,3>(); }
CHK(affine22) { affine<2,2>(); }
CHK(affine23) { affine<2,3>(); }
CHK(affine33) { affine<3,3>(); }

template<int dim, int cdim> void box()
{
  v_labels("class", "AxisAlignedCubeGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto lo = symbolicVector<double,cdim>("lo"), up = symbolicVector<double,cdim>("up");
  for (unsigned m = 0; m < (1u << cdim); ++m) {
    if (__builtin_popcount(m) != dim) continue;
    v_label("axes", m);
    const AxisAlignedCubeGeometry<double,dim,cdim> g(lo, up, std::bitset<cdim>(m));
    derivative<dim,cdim>(g, plainPoint<double,dim>());
  }
  if constexpr (dim == cdim) {
    const AxisAlignedCubeGeometry<double,dim,cdim> g(lo, up);
    derivative<dim,cdim>(g, plainPoint<double,dim>());
  }
}
CHK(box1) { box<1,1>(); box<1,2>(); box<1,3>(); }
CHK(box2) { box<2,2>(); box<2,3>(); }
CHK(box3) { box<3,3>(); box<3,4>(); }

template<int dim, int cdim, int wdim> void mapped()
{
  v_labels("class", "MappedGeometry"); v_label("dim", dim); v_label("cdim", wdim);
  const QuadraticMap<double,cdim,wdim> f;
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("shape", id);
    const MultiLinearGeometry<double,dim,cdim> base(GeometryType(id, dim), symbolicCorners<double,dim,cdim>(id));
    const MappedGeometry g(f, base);
    derivative<dim,wdim>(g, parametrisedPoint<double,dim>(id));
  }
}
CHK(mapped1) { mapped<1,1,1>(); mapped<1,2,3>(); }
CHK(mapped2) { mapped<2,2,2>(); mapped<2,2,3>(); }
CHK(mapped3) {
  // reference geometry as base: all shapes
  v_labels("class", "MappedGeometry"); v_label("dim", 3); v_label("cdim", 3);
  const QuadraticMap<double,3,3> f;
  for (unsigned id = 0; id < 8; ++id) {
    v_label("shape", id);
    const auto base = referenceElement<double,3>(GeometryType(id, 3)).geometry<0>(0);
    const MappedGeometry g(f, base);
    derivative<3,3>(g, plainPoint<double,3>());
  }
}
template<int dim, int cdim, bool cube, int ord> void lfe()
{
  v_labels("class", "LocalFiniteElementGeometry"); v_label("dim", dim); v_label("cdim", cdim); v_label("order", ord);
  const NodalFE<double,dim,cube,ord> fe;
  std::vector<FieldVector<double,cdim>> c(fe.size()); for (unsigned k = 0; k < c.size(); ++k) for (int j = 0; j < cdim; ++j) c[k][j] = v_real("c", k*10+j);
  const LocalFiniteElementGeometry<NodalFE<double,dim,cube,ord>,cdim> g(fe.type(), fe, c);
  derivative<dim,cdim>(g, plainPoint<double,dim>());
}
CHK(lfe1) { lfe<1,1,false,1>(); lfe<1,2,false,2>(); lfe<1,3,true,1>(); }
CHK(lfe2) { lfe<2,2,false,1>(); lfe<2,2,true,1>(); lfe<2,3,true,1>(); lfe<2,3,false,2>(); }
CHK(lfe3) { lfe<3,3,false,1>(); lfe<3,3,true,1>(); lfe<3,3,false,2>(); }
