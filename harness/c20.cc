// Access to reference elements.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
using namespace Dune;

template<int dim, class ct = double> void all()
{
  using R = ReferenceElements<ct,dim>;
  v_label("dim", dim);
  unsigned n = 0;
  for (auto it = R::begin(); it != R::end(); ++it, ++n) {
    v_label("shape", n);
    v_true(it->type().dim() == dim && R::general(it->type()) == *it, "iteration and lookup by type give the same handle");
    v_true(spec::canon(it->type().id(), dim) == spec::canon(n, dim), "iteration visits the shapes in order");
  }
  v_eqi(n, spec::ntopo(dim), "iteration visits every shape");
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("shape", id);
    const GeometryType gt(id, dim);
    const auto r = R::general(gt);
    v_true(r == referenceElement<ct,dim>(gt) && r == referenceElement(ct(), gt, Dim<dim>()), "all access functions give the same handle");
    v_true(!(r != R::general(gt)), "inequality is the negation of equality");
    v_true(hash_value(r) == hash_value(R::general(gt)), "equal handles hash equally");
    v_eqi(r.type().dim(), dim, "handle has the requested dimension");
    v_true(r.type() == gt, "handle has the requested type");
    v_eqp(&r.impl(), &R::general(gt).impl(), "equal handles refer to the same data");
    for (unsigned jd = 0; jd < spec::ntopo(dim); ++jd)
      if (spec::canon(id, dim) != spec::canon(jd, dim))
        v_true(r != R::general(GeometryType(jd, dim)), "handles of different shapes differ");
      else {
        const auto q = R::general(GeometryType(jd, dim));
        v_true(r == q && !(r != q), "handles of equal types are equal");
        v_true(hash_value(r) == hash_value(q), "handles of equal types hash equally");
      }
    const auto copy = r; typename R::ReferenceElement assigned; assigned = r;
    v_true(copy == r && assigned == r, "copies are equal");
    // from geometries
    v_true(referenceElement(r.template geometry<0>(0)) == r, "handle of an embedding geometry");
    if constexpr (dim > 0) for (int f = 0; f < r.size(1); ++f)
      v_true(referenceElement(r.template geometry<1>(f)) == (ReferenceElements<ct,dim-1>::general(r.type(f, 1))), "handle of a facet geometry");
    FieldVector<ct,dim> corners[32]; for (int k = 0; k < r.size(dim); ++k) corners[k] = r.position(k, dim);
    std::vector<FieldVector<ct,dim>> cv(corners, corners + r.size(dim));
    v_true(referenceElement(MultiLinearGeometry<ct,dim,dim>(gt, cv)) == r, "handle of a multilinear geometry");
    v_true(referenceElement(MultiLinearGeometry<ct,dim,dim>(r, cv)) == r, "handle of a multilinear geometry made from the handle");
  }
  v_true(R::simplex() == R::general(GeometryTypes::simplex(dim)), "simplex access");
  v_true(R::cube() == R::general(GeometryTypes::cube(dim)), "cube access");
}
CHK(line) {
  using R = ReferenceElements<double,1>;
  v_true(R::simplex() == R::cube(), "the line is both a simplex and a cube");
  v_true(R::simplex() == R::general(GeometryTypes::line), "the line by its name");
  using R2 = ReferenceElements<double,2>;
  typename R2::ReferenceElement none, other;
  v_true(none == other && hash_value(none) == hash_value(other) && none != R2::simplex() && R2::simplex() != none, "an unassigned handle differs from every element");
}
CHK(d0) { all<0>(); }
CHK(d1) { all<1>(); }
CHK(d2) { all<2>(); }
CHK(d3) { all<3>(); }
CHK(d3f) { all<3,float>(); }
CHK(d4) { all<4>(); }
// the handles only
template<int dim> void handles()
{
  using R = ReferenceElements<double,dim>;
  v_label("dim", dim);
  unsigned n = 0;
  for (auto it = R::begin(); it != R::end(); ++it, ++n) {
    v_label("shape", n);
    const GeometryType gt(n, dim);
    const auto r = R::general(gt);
    v_true(r.type() == gt, "handle has the requested type");
    v_true(r == referenceElement<double,dim>(gt) && r == referenceElement(double(), gt, Dim<dim>()), "all access functions give the same handle");
    v_true(it->type() == gt && *it == r && hash_value(*it) == hash_value(r), "iteration and lookup by type give the same handle");
    v_eqi(r.size(dim), spec::count(n, dim, dim), "handle answers for the requested shape");
    v_eqi(it->size(dim), spec::count(n, dim, dim), "handle answers for the requested shape");
  }
  v_eqi(n, spec::ntopo(dim), "iteration visits every shape");
  v_true(R::simplex() == R::general(GeometryTypes::simplex(dim)), "simplex access");
  v_true(R::cube() == R::general(GeometryTypes::cube(dim)), "cube access");
}
CHK(deep5) { handles<5>(); }
CHK(deep6) { handles<6>(); }
CHK(named) {
  using R = ReferenceElements<double,3>;
  v_true(R::general(GeometryTypes::simplex(3)).size(3) == 4 && R::general(GeometryTypes::simplex(3)).size(1) == 4, "simplex shape");
  v_true(R::general(GeometryTypes::cube(3)).size(3) == 8 && R::general(GeometryTypes::cube(3)).size(1) == 6, "cube shape");
  v_true(R::general(GeometryTypes::pyramid).size(3) == 5 && R::general(GeometryTypes::pyramid).size(1) == 5, "pyramid shape");
  v_true(R::general(GeometryTypes::prism).size(3) == 6 && R::general(GeometryTypes::prism).size(1) == 5, "prism shape");
}
template<int dim> void wrong()
{
  v_label("dim", dim);
  for (int d = 0; d <= 5; ++d) if (d != dim) for (unsigned id = 0; id < spec::ntopo(d); ++id) {
    v_label("asked dim", d); v_label("shape", id);
    const GeometryType gt(id, d);
    v_true(v_try([&]{ (void)ReferenceElements<double,dim>::general(gt); }, "") != 0, "a type of another dimension is refused");
    v_true(v_try([&]{ (void)referenceElement<double,dim>(gt); }, "") != 0, "a type of another dimension is refused");
    v_true(v_try([&]{ (void)referenceElement(double(), gt, Dim<dim>()); }, "") != 0, "a type of another dimension is refused");
  }
}
template<int dim> void shapeless()
{
  v_label("dim", dim);
  const GeometryType gt = GeometryTypes::none(dim);
  v_true(v_try([&]{ (void)ReferenceElements<double,dim>::general(gt); }, "") != 0, "a type without a shape is refused");
  v_true(v_try([&]{ (void)referenceElement<double,dim>(gt); }, "") != 0, "a type without a shape is refused");
}
CHK(shapeless) { shapeless<0>(); shapeless<1>(); shapeless<2>(); shapeless<3>(); }
CHK(wrong) { wrong<0>(); wrong<1>(); wrong<2>(); wrong<3>(); }
