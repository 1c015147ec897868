// Reference elements against the recursive definition.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

template<int dim, class ct> void one(unsigned id)
{
  v_label("dim", dim); v_label("shape", id);
  const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
  v_eqi(r.type().dim(), dim, "type dimension");
  v_eqi(spec::canon(r.type().id(), dim), spec::canon(id, dim), "type shape");
  v_true(!r.type().isNone(), "type is not none");
  v_eqi(r.dimension, dim, "dimension");
  for (int c = 0; c <= dim; ++c) {
    v_label("codim", c);
    const int n = spec::count(id, dim, c);
    v_eqi(r.size(c), n, "number of sub-entities");
    for (int i = 0; i < n; ++i) {
      v_label("sub-entity", i);
      const auto t = r.type(i, c); const unsigned s = spec::shape(id, dim, c, i);
      v_eqi(t.dim(), dim-c, "sub-entity dimension");
      v_eqi(spec::canon(t.id(), dim-c), spec::canon(s, dim-c), "sub-entity shape");
      for (int cc = c; cc <= dim; ++cc)
        v_eqi(r.size(i, c, cc), spec::count(s, dim-c, cc-c), "number of sub-entities of a sub-entity");
    }
  }
  v_label("codim", dim);
  for (int k = 0; k < spec::count(id, dim, dim); ++k) {
    v_label("sub-entity", k);
    const auto& x = r.position(k, dim);
    for (int j = 0; j < dim; ++j) v_eq(x[j], spec::coord(id, dim, k, j), "corner coordinate");
  }
}
template<int dim, class ct = double> void all() { for (unsigned id = 0; id < spec::ntopo(dim); ++id) one<dim,ct>(id); }
CHK(d0) { all<0>(); }
CHK(d1) { all<1>(); }
CHK(d2) { all<2>(); }
CHK(d3) { all<3>(); }
CHK(d3f) { all<3,float>(); }
CHK(d4) { all<4>(); }
CHK(d5) { all<5>(); }
CHK(deep6) { all<6>(); }
