// Sub-entity numberings against corner lists of the recursive definition.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/referenceelements.hh>
using namespace Dune;

template<int dim, class ct> void one(unsigned id)
{
  v_label("dim", dim); v_label("shape", id);
  const auto r = ReferenceElements<ct,dim>::general(GeometryType(id, dim));
  for (int c = 0; c <= dim; ++c)
    for (int i = 0; i < spec::count(id, dim, c); ++i) {
      v_label("codim", c); v_label("sub-entity", i);
      int sv[64]; const int ns = spec::corners(id, dim, c, i, sv);
      const unsigned s = spec::shape(id, dim, c, i);
      for (int cc = 0; cc <= dim; ++cc) {
        v_label("sub-codim", cc);
        const int n = cc < c ? 0 : spec::count(s, dim-c, cc-c);
        v_eqi(r.size(i, c, cc), n, "count of sub-sub-entities");
        const auto range = r.subEntities(i, c, cc);
        v_eqi(range.size(), n, "size of the sub-entity range");
        int it = 0; bool in[128] = {};
        for (auto k : range) {
          v_true(it < n && k < (unsigned)spec::count(id, dim, cc), "range element is a valid number");
          if (it < n) v_eqi(k, r.subEntity(i, c, it, cc), "iteration and single lookup agree");
          in[k] = true; ++it;
        }
        v_eqi(it, n, "iteration visits all sub-entities");
        for (int k = 0; k < spec::count(id, dim, cc); ++k)
          v_true(range.contains(k) == in[k], "membership and iteration agree");
        for (int ii = 0; ii < n; ++ii) {
          v_label("sub-number", ii);
          const int k = r.subEntity(i, c, ii, cc);
          v_true(k >= 0 && k < spec::count(id, dim, cc), "sub-entity number is valid");
          // corners via the sub-entity's own reference element = corners of the designated sub-entity
          int tv[64], kv[64]; const int nt = spec::corners(s, dim-c, cc-c, ii, tv);
          const int nk = spec::corners(id, dim, cc, k, kv);
          v_eqi(nt, nk, "designated sub-entity has the right number of corners");
          unsigned long a = 0, b = 0;
          for (int j = 0; j < nt; ++j) { a |= 1ul << sv[tv[j]]; b |= 1ul << kv[j]; }
          v_eqi(a, b, "designated sub-entity has the right corners");
        }
        if (cc == dim) for (int j = 0; j < ns; ++j) {
          v_label("sub-number", j);
          v_eqi(r.subEntity(i, c, j, dim), sv[j], "corner order of a sub-entity");
        }
      }
    }
}
template<int dim, class ct = double> void all() { for (unsigned id = 0; id < spec::ntopo(dim); ++id) one<dim,ct>(id); }
CHK(d0) { all<0>(); }
CHK(d1) { all<1>(); }
CHK(d2) { all<2>(); }
CHK(d3) { all<3>(); }
CHK(d3f) { all<3,float>(); }
CHK(d4) { all<4>(); }
CHK(deep5) { all<5>(); }
