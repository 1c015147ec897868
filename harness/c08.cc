// The inside test on an arbitrary point.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

// the value of every facet inequality at x: >= 0 inside
struct Ineq { int n; double g[16]; };
template<class X> Ineq facets(unsigned id, int dim, const X& x, double scale)
{
  Ineq q; q.n = 0;
  if (dim == 0) return q;
  const double t = x[dim-1];
  if (spec::prism(id, dim)) {
    if (dim > 1) q = facets(spec::base(id, dim), dim-1, x, scale);
    q.g[q.n++] = t; q.g[q.n++] = scale - t;
  } else {
    q = facets(spec::base(id, dim), dim-1, x, scale - t);
    q.g[q.n++] = t;
  }
  return q;
}
template<int dim, class ct> void reject(unsigned id, double slack)
{
  v_label("dim", dim); v_label("shape", id);
  const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
  FieldVector<ct,dim> x; for (int j = 0; j < dim; ++j) x[j] = v_real("x", j);
  const bool in = r.checkInside(x);
  const Ineq q = facets(id, dim, x, 1);
  v_eqi(q.n, dim == 0 ? 0 : spec::count(id, dim, 1), "one inequality per facet");
  for (int f = 0; f < q.n; ++f) {
    v_label("facet inequality", f);
    v_true(!(in & (q.g[f] <= -slack)), "a point outside a facet by more than the tolerance is rejected");
  }
}
// every point of the element is t-wise a prism or cone point over a point of the base
template<int dim, class ct> void accept(unsigned id)
{
  v_label("dim", dim); v_label("shape", id);
  const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
  FieldVector<ct,dim> x;
  for (int j = 0; j < dim; ++j) {
    const double t = v_real("t", j); v_assume(t >= 0); v_assume(t <= 1);
    if (!spec::prism(id, j+1)) for (int k = 0; k < j; ++k) x[k] *= 1 - t;
    x[j] = t;
  }
  v_true(r.checkInside(x), "a point of the element is accepted");
}
template<int dim, class ct = double> void all(double slack = 1e-11)
{ for (unsigned id = 0; id < spec::ntopo(dim); ++id) { reject<dim,ct>(id, slack); accept<dim,ct>(id); } }
CHK(d0) { all<0>(); }
CHK(d1) { all<1>(); }
CHK(d2) { all<2>(); }
CHK(d3) { all<3>(); }
CHK(d3f) { all<3,float>(1e-4); }
CHK(d4) { all<4>(); }
