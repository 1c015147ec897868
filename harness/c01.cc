// Identity, ordering and predicates of geometry types.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/type.hh>
using namespace Dune;

struct T { unsigned id; unsigned dim; bool none; GeometryType g; };
// same dimension, same shape up to the irrelevant bit
static bool same(const T& a, const T& b)
{
  if (a.dim != b.dim || a.none != b.none) return false;
  return a.none || spec::canon(a.id, a.dim) == spec::canon(b.id, b.dim);
}
struct All { int n = 0; T t[160]; };
static void fill(All& a, unsigned maxdim)
{
  for (unsigned d = 0; d <= maxdim; ++d) {
    for (unsigned id = 0; id < spec::ntopo(d); ++id) a.t[a.n++] = T{id, d, false, GeometryType(id, d)};
    a.t[a.n++] = T{0, d, true, GeometryTypes::none(d)};
  }
}
static void labels(const T& a) { v_label("dim", a.dim); v_label("shape", a.none ? -1 : (long)a.id); }

CHK(equality) {
  All a; fill(a, 6);
  for (int i = 0; i < a.n; ++i) {
    labels(a.t[i]);
    for (int j = 0; j < a.n; ++j) {
      v_label("other dim", a.t[j].dim); v_label("other shape", a.t[j].none ? -1 : (long)a.t[j].id);
      const bool s = same(a.t[i], a.t[j]);
      const GeometryType &x = a.t[i].g, &y = a.t[j].g;
      v_true((x == y) == s, "types are equal exactly when dimension and shape agree");
      v_true((x != y) == !s, "inequality is the negation of equality");
    }
  }
}
CHK(order) {
  All a; fill(a, 6);
  int rank[160] = {};
  for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) if (a.t[j].g < a.t[i].g) ++rank[i];
  for (int i = 0; i < a.n; ++i) {
    labels(a.t[i]);
    for (int j = 0; j < a.n; ++j) {
      v_label("other dim", a.t[j].dim); v_label("other shape", a.t[j].none ? -1 : (long)a.t[j].id);
      const bool lt = a.t[i].g < a.t[j].g, gt = a.t[j].g < a.t[i].g;
      v_true(int(lt) + int(gt) + int(same(a.t[i], a.t[j])) == 1, "exactly one of less, equal, greater holds");
      v_true(lt == (rank[i] < rank[j]), "ordering is transitive");
    }
  }
}
CHK(ids) {
  All a; fill(a, 6);
  for (int i = 0; i < a.n; ++i) {
    labels(a.t[i]);
    const GeometryType g = a.t[i].g;
    const GeometryType::Id k = g.toId(), k2 = g;
    v_true(k == k2, "both conversions to the identifier agree");
    const GeometryType h(k);
    v_true(h == g && same(a.t[i], T{h.id(), h.dim(), h.isNone(), h}), "type survives the round trip through its identifier");
    v_eqi(h.id(), g.id(), "round trip keeps the shape id");
    v_eqi(g.dim(), a.t[i].dim, "dimension is reported");
    v_true(g.isNone() == a.t[i].none, "shapelessness is reported");
    if (!a.t[i].none) v_eqi(g.id(), a.t[i].id, "shape id is reported");
    for (int j = 0; j < a.n; ++j) {
      const std::uint64_t x = (std::uint64_t)k, y = (std::uint64_t)a.t[j].g.toId();
      if (!same(a.t[i], a.t[j])) v_true(x != y, "different types have different identifiers");
      else v_true(a.t[i].id != a.t[j].id || x == y, "same shape id gives the same identifier");
    }
  }
}
CHK(predicates) {
  All a; fill(a, 6);
  for (int i = 0; i < a.n; ++i) {
    labels(a.t[i]);
    const T& t = a.t[i]; const GeometryType g = t.g; const unsigned d = t.dim;
    bool simplex = !t.none, cube = !t.none;
    for (unsigned k = 2; k <= d; ++k) (spec::prism(t.id, k) ? simplex : cube) = false;
    v_true(g.isSimplex() == simplex, "simplex predicate");
    v_true(g.isCube() == cube, "cube predicate");
    if (!t.none) { v_true(g.isVertex() == (d == 0), "vertex predicate"); v_true(g.isLine() == (d == 1), "line predicate"); }
    v_true(g.isTriangle() == (d == 2 && simplex), "triangle predicate");
    v_true(g.isQuadrilateral() == (d == 2 && cube), "quadrilateral predicate");
    v_true(g.isTetrahedron() == (d == 3 && simplex), "tetrahedron predicate");
    v_true(g.isHexahedron() == (d == 3 && cube), "hexahedron predicate");
    v_true(g.isPyramid() == (d == 3 && !t.none && spec::prism(t.id, 2) && !spec::prism(t.id, 3)), "pyramid predicate");
    v_true(g.isPrism() == (d == 3 && !t.none && !spec::prism(t.id, 2) && spec::prism(t.id, 3)), "prism predicate");
    if (d > 0) {
      v_true(g.isPrismatic() == (!t.none && spec::prism(t.id, d)), "prismatic predicate");
      v_true(g.isConical() == (!t.none && (d == 1 || !spec::prism(t.id, d))), "conical predicate");
    }
    for (unsigned s = 0; s < d; ++s) {
      v_label("step", s);
      v_true(g.isPrismatic(s) == (!t.none && spec::prism(t.id, s+1)), "prismatic predicate of a step");
      v_true(g.isConical(s) == (!t.none && (s == 0 || !spec::prism(t.id, s+1))), "conical predicate of a step");
      if (!t.none) {
        v_true(Impl::isPrism(t.id, d, d-1-s) == spec::prism(t.id, s+1), "prism step of a shape id");
        v_true(Impl::isPyramid(t.id, d, d-1-s) == (s == 0 || !spec::prism(t.id, s+1)), "pyramid step of a shape id");
      }
    }
    if (!t.none) {
      v_eqi(Impl::numTopologies(d), spec::ntopo(d), "number of shape ids");
      for (unsigned c = 0; c <= d; ++c) v_eqi(Impl::baseTopologyId(t.id, d, c), t.id & (spec::ntopo(d-c)-1), "base of a shape id");
      if (d > 0) {
        const GeometryType b = Impl::getBase(g);
        v_true(b.dim() == d-1 && !b.isNone() && spec::canon(b.id(), d-1) == spec::canon(spec::base(t.id, d), d-1), "base of a type");
      }
    }
    const GeometryType c = GeometryTypes::conicalExtension(g), p = GeometryTypes::prismaticExtension(g);
    v_true(c.dim() == d+1 && p.dim() == d+1 && c.isNone() == t.none && p.isNone() == t.none, "extensions raise the dimension by one");
    if (!t.none) {
      v_true(spec::canon(spec::base(c.id(), d+1), d) == spec::canon(t.id, d) && (d == 0 || !spec::prism(c.id(), d+1)), "conical extension");
      v_true(spec::canon(spec::base(p.id(), d+1), d) == spec::canon(t.id, d) && spec::prism(p.id(), d+1), "prismatic extension");
    }
  }
}
CHK(named) {
  for (unsigned d = 0; d <= 8; ++d) {
    v_label("dim", d);
    const GeometryType s = GeometryTypes::simplex(d), c = GeometryTypes::cube(d), n = GeometryTypes::none(d);
    v_true(s.dim() == d && c.dim() == d && n.dim() == d, "named constructors keep the dimension");
    v_true(!s.isNone() && !c.isNone() && n.isNone(), "only the shapeless type is shapeless");
    v_eqi(spec::canon(s.id(), d), spec::canon(0, d), "simplex constructor");
    v_eqi(spec::canon(c.id(), d), spec::canon(spec::ntopo(d)-1, d), "cube constructor");
  }
  using namespace GeometryTypes;
  v_true(vertex.dim() == 0 && line.dim() == 1 && triangle.dim() == 2 && quadrilateral.dim() == 2 && tetrahedron.dim() == 3 && hexahedron.dim() == 3 && GeometryTypes::pyramid.dim() == 3 && GeometryTypes::prism.dim() == 3, "named types have their dimension");
  v_true(!vertex.isNone() && !line.isNone() && !triangle.isNone() && !quadrilateral.isNone() && !tetrahedron.isNone() && !hexahedron.isNone() && !GeometryTypes::pyramid.isNone() && !GeometryTypes::prism.isNone(), "named types have a shape");
  v_eqi(spec::count(triangle.id(), 2, 2), 3, "triangle has three corners");
  v_eqi(spec::count(quadrilateral.id(), 2, 2), 4, "quadrilateral has four corners");
  v_eqi(spec::count(tetrahedron.id(), 3, 3), 4, "tetrahedron has four corners");
  v_eqi(spec::count(GeometryTypes::pyramid.id(), 3, 3), 5, "pyramid has five corners");
  v_eqi(spec::count(GeometryTypes::prism.id(), 3, 3), 6, "prism has six corners");
  v_eqi(spec::count(hexahedron.id(), 3, 3), 8, "hexahedron has eight corners");
  const GeometryType def; v_true(def.isNone(), "a default-constructed type has no shape");
}
// high dimensions: shapes given by one, two or all but one bit
CHK(wide) {
  for (unsigned d = 7; d <= 31; ++d) {
    v_label("dim", d);
    unsigned ids[70]; int n = 0; const unsigned all = (d < 32 ? 1u << d : 0u) - 1u;
    ids[n++] = 0; ids[n++] = all;
    for (unsigned k = 1; k < d; ++k) { ids[n++] = 1u << k; ids[n++] = all & ~(1u << k); }
    for (int i = 0; i < n; ++i) {
      v_label("shape", ids[i]);
      const GeometryType g(ids[i], d); const GeometryType h(g.toId()), o(ids[i] ^ 1u, d);
      v_eqi(g.id(), ids[i], "shape id is reported"); v_eqi(g.dim(), d, "dimension is reported"); v_true(!g.isNone(), "shapelessness is reported");
      v_true(h == g && h.id() == g.id() && h.dim() == d && !h.isNone(), "type survives the round trip through its identifier");
      v_true(g == o && !(g < o) && !(o < g), "the irrelevant bit does not matter");
      v_true(g != GeometryTypes::none(d), "no shape is a shape of its own");
      v_true(g.isSimplex() == ((ids[i] & ~1u) == 0) && g.isCube() == ((ids[i] | 1u) == all), "simplex and cube predicates");
      v_true(g.isPrismatic() == spec::prism(ids[i], d) && g.isConical() == !spec::prism(ids[i], d), "prismatic and conical predicates");
      for (unsigned k = 1; k < d; ++k) v_true(g.isPrismatic(k) == (ids[i] >> k & 1) && g.isConical(k) == !(ids[i] >> k & 1), "prismatic and conical predicates of a step");
      for (int j = 0; j < i; ++j) {
        const GeometryType p(ids[j], d); const bool same = (ids[i] >> 1) == (ids[j] >> 1);
        v_true((g == p) == same && (g != p) == !same, "types are equal exactly when dimension and shape agree");
        v_true(int(g < p) + int(p < g) + int(same) == 1, "exactly one of less, equal, greater holds");
        if (!same) v_true((std::uint64_t)g.toId() != (std::uint64_t)p.toId(), "different types have different identifiers");
      }
      if (d < 31) {
        v_true(GeometryTypes::prismaticExtension(g) == GeometryType(ids[i] | 1u << d, d+1), "prismatic extension");
        v_true(GeometryTypes::conicalExtension(g) == GeometryType(ids[i], d+1), "conical extension");
        v_true(GeometryType(ids[i], d+1) != g, "types of different dimension differ");
      }
    }
    v_true(GeometryTypes::simplex(d) == GeometryType(0, d) && GeometryTypes::cube(d) == GeometryType(all, d), "named constructors");
  }
}
