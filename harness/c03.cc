// Geometry type from dimension and corner count.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

template<unsigned dim> void lookup()
{
  v_label("dim", dim);
  // arbitrary corner count
  const int n = v_int("corners");
  v_assume(n >= 0); v_assume(n <= 1000000);
  unsigned match = 0; bool known = dim < 2;
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) known = known | (n == spec::count(id, dim, dim));
  GeometryType gt;
  const int st = v_try([&]{ gt = geometryTypeFromVertexCount(dim, n); }, "NotImplemented");
  v_true((st == 0) == known, "corner count is accepted exactly when some shape has it");
  v_true(st != 2, "refusal is the documented error");
  (void)match;
}
template<int dim> void shapes()
{
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("dim", dim); v_label("shape", id);
    const int n = spec::count(id, dim, dim);
    const auto r = ReferenceElements<double,dim>::general(GeometryType(id, dim));
    v_eqi(r.size(dim), n, "corner count of the reference element");
    if constexpr (dim <= 3) {
      GeometryType t = GeometryTypes::none(7);
      v_eqi(v_try([&]{ t = geometryTypeFromVertexCount(dim, n); }, ""), 0, "corner count of a shape is accepted");
      v_true(t.dim() == dim && !t.isNone(), "looked-up type has the dimension");
      v_true(spec::canon(t.id(), dim) == spec::canon(id, dim), "looked-up type is the shape with that corner count");
    }
  }
}
CHK(lookup0) { lookup<0>(); }
CHK(lookup1) { lookup<1>(); }
CHK(lookup2) { lookup<2>(); }
CHK(lookup3) { lookup<3>(); }
CHK(shapes0) { shapes<0>(); }
CHK(shapes1) { shapes<1>(); }
CHK(shapes2) { shapes<2>(); }
CHK(shapes3) { shapes<3>(); }
CHK(shapes4) { shapes<4>(); }
CHK(shapes5) { shapes<5>(); }
CHK(highdim) {
  const int d = v_int("dim"), n = v_int("corners");
  v_assume(d >= 4); v_assume(d <= 1000); v_assume(n >= 0); v_assume(n <= 1000000);
  v_eqi(v_try([&]{ (void)geometryTypeFromVertexCount(d, n); }, "NotImplemented"), 1, "dimensions above three are refused");
}
