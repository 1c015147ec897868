// Positions, volumes and embeddings.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

template<int dim, int c, class ct> void emb(unsigned id)
{
  const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
  for (int i = 0; i < spec::count(id, dim, c); ++i) {
    v_label("codim", c); v_label("sub-entity", i);
    int sv[64]; const int ns = spec::corners(id, dim, c, i, sv);
    const unsigned s = spec::shape(id, dim, c, i);
    const auto& pos = r.position(i, c);
    for (int j = 0; j < dim; ++j) {
      int sum = 0; for (int k = 0; k < ns; ++k) sum += spec::coord(id, dim, sv[k], j);
      v_eq(pos[j], double(sum)/ns, "position is the centre of the corners");
    }
    const auto g = r.template geometry<c>(i);
    v_true(g.affine(), "embedding is affine");
    v_eqi(g.type().dim(), dim-c, "embedding type dimension");
    v_eqi(spec::canon(g.type().id(), dim-c), spec::canon(s, dim-c), "embedding type shape");
    v_eqi(g.corners(), ns, "embedding corner count");
    for (int k = 0; k < ns; ++k) {
      const auto y = g.corner(k);
      FieldVector<ct,dim-c> x; for (int j = 0; j < dim-c; ++j) x[j] = spec::coord(s, dim-c, k, j);
      const auto z = g.global(x);
      for (int j = 0; j < dim; ++j) {
        v_eq(y[j], spec::coord(id, dim, sv[k], j), "embedding corner");
        v_eq(z[j], spec::coord(id, dim, sv[k], j), "embedding maps corner to corner");
      }
    }
    // arbitrary local point: the affine map fixed by the origin and unit-vector corners
    FieldVector<ct,dim-c> x; for (int j = 0; j < dim-c; ++j) x[j] = v_real("x", j);
    const auto z = g.global(x);
    int o = -1, e[dim+1] = {};
    for (int k = 0; k < ns; ++k) {
      int nz = 0, l = -1; for (int j = 0; j < dim-c; ++j) if (spec::coord(s, dim-c, k, j)) { ++nz; l = j; }
      if (nz == 0) o = k; else if (nz == 1) e[l] = k;
    }
    for (int j = 0; j < dim; ++j) {
      double w = spec::coord(id, dim, sv[o], j);
      for (int l = 0; l < dim-c; ++l) w += x[l]*(spec::coord(id, dim, sv[e[l]], j) - spec::coord(id, dim, sv[o], j));
      v_eq(z[j], w, "embedding at an arbitrary local point");
    }
  }
  if constexpr (c < dim) emb<dim,c+1,ct>(id);
}
template<int dim, class ct = double> void all()
{
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("dim", dim); v_label("shape", id);
    const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
    v_eq(r.volume()*spec::volinv(id, dim), 1, "volume of the reference element");
    emb<dim,0,ct>(id);
  }
}
CHK(d0) { all<0>(); }
CHK(d1) { all<1>(); }
CHK(d2) { all<2>(); }
CHK(d3) { all<3>(); }
CHK(d3f) { v_tol(1e-6); all<3,float>(); }
CHK(d4) { all<4>(); }
CHK(deep5) { all<5>(); }
#ifdef VERIF_THOROUGH
CHK(deep6) { all<6>(); }
#endif
