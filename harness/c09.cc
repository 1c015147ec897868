// The global map of multilinear geometries.
#include <geo.hh>
#include <dune/geometry/multilineargeometry.hh>
using namespace Dune;

template<class Geo, class ct, int dim, int cdim> void one(unsigned id)
{
  v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id);
  const auto c = symbolicCorners<ct,dim,cdim>(id);
  const Geo g(GeometryType(id, dim), c);
  v_eqi(g.type().dim(), dim, "type dimension");
  v_eqi(spec::canon(g.type().id(), dim), spec::canon(id, dim), "type shape");
  v_true(!g.type().isNone(), "type has a shape");
  v_eqi(g.corners(), c.size(), "number of corners");
  FieldVector<ct,cdim> sum(0);
  for (int k = 0; k < (int)c.size(); ++k) {
    v_label("corner", k);
    const auto y = g.corner(k);
    FieldVector<ct,dim> x; for (int j = 0; j < dim; ++j) x[j] = spec::coord(id, dim, k, j);
    const auto z = g.global(x);
    for (int j = 0; j < cdim; ++j) {
      v_eq(y[j], c[k][j], "corner is reported unchanged");
      v_eq(z[j], c[k][j], "reference corner is mapped to the corner");
    }
    sum += y;
  }
  for (unsigned beyond = 0; beyond < (1u << dim); ++beyond) {
    bool ok = true; // only pyramid steps have an apex
    for (int j = 0; j < dim; ++j) if ((beyond & (1u << j)) && (j == 0 || spec::prism(id, j+1))) ok = false;
    if (!ok) continue;
    v_label("beyond apex of steps", beyond);
    const auto p = parametrisedPoint<ct,dim>(id, beyond);
    const auto y = g.global(p.x);
    const auto z = blend<ct,dim,cdim>(id, dim, c, 0, p);
    for (int j = 0; j < cdim; ++j) v_eq(y[j], z[j], "global map is the recursive blend of the corners");
  }
  FieldVector<ct,dim> m;
  for (int j = 0; j < dim; ++j) { double s = 0; for (int k = 0; k < (int)c.size(); ++k) s += spec::coord(id, dim, k, j); m[j] = s/c.size(); }
  const auto a = g.center(), b = g.global(m);
  for (int j = 0; j < cdim; ++j) v_eq(a[j], b[j], "reported centre is the image of the reference centre");
}
template<int dim, int cdim, class ct = double> void all()
{
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) one<MultiLinearGeometry<ct,dim,cdim>,ct,dim,cdim>(id);
}
CHK(d0) { all<0,0>(); all<0,1>(); all<0,3>(); }
CHK(d1) { all<1,1>(); all<1,2>(); all<1,3>(); }
CHK(d22) { all<2,2>(); }
CHK(d23) { all<2,3>(); }
CHK(d33) { all<3,3>(); }
CHK(d33f) { v_tol(1e-5); all<3,3,float>(); }
CHK(d44) { all<4,4>(); }
// geometry restricted to one shape by its traits
template<class ct, unsigned id> struct Single : MultiLinearGeometryTraits<ct> {
  template<int d> struct hasSingleGeometryType { static const bool v = true; static const unsigned int topologyId = id; };
  template<int m, int c> struct CornerStorage { typedef std::vector<FieldVector<ct,c>> Type; };
};
CHK(single) {
  v_labels("traits", "single geometry type");
  one<MultiLinearGeometry<double,3,3,Single<double,0>>,double,3,3>(0);
  one<MultiLinearGeometry<double,3,3,Single<double,3>>,double,3,3>(3);
  one<MultiLinearGeometry<double,3,3,Single<double,5>>,double,3,3>(5);
  one<MultiLinearGeometry<double,3,3,Single<double,7>>,double,3,3>(7);
}
// other ways of holding corners: reference wrapper
struct RefTraits : MultiLinearGeometryTraits<double> {
  template<int m, int c> struct CornerStorage { typedef std::reference_wrapper<const std::vector<FieldVector<double,c>>> Type; };
};
CHK(refwrap) {
  v_labels("traits", "corner reference");
  for (unsigned id : {0u, 3u, 5u, 7u}) {
    v_label("shape", id);
    const auto c = symbolicCorners<double,3,3>(id);
    const MultiLinearGeometry<double,3,3,RefTraits> g(GeometryType(id, 3), std::cref(c));
    const auto p = parametrisedPoint<double,3>(id);
    const auto y = g.global(p.x), z = blend<double,3,3>(id, 3, c, 0, p);
    for (int j = 0; j < 3; ++j) v_eq(y[j], z[j], "global map is the recursive blend of the corners");
    for (int k = 0; k < g.corners(); ++k) for (int j = 0; j < 3; ++j) v_eq(g.corner(k)[j], c[k][j], "corner is reported unchanged");
  }
}
