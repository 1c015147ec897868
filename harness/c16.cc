// Points, weights and types of every quadrature rule.
#include <quad.hh>
using namespace Dune;

template<int dim> void shape(unsigned id, const Family& f, int to)
{
  const GeometryType gt(id, dim);
  v_label("dim", dim); v_label("shape", id); v_labels("family", f.name);
  const int m = tabulated<dim>(gt, f);
  for (int p = 0; p <= m && p <= to; ++p) {
    v_label("order", p);
    const auto& rule = QuadratureRules<double,dim>::rule(gt, p, f.qt);
    v_true(rule.type() == gt, "rule reports the requested geometry type");
    v_true(!rule.empty(), "rule has points");
    record<dim>(rule);
    v_rinside(id, dim, "points lie in the closed reference element and those with weight are pairwise distinct");
    v_rcheck(id, dim, 0, f.alpha, "weights add up to the integral of the weight function");
    if (dim == 1) for (const auto& q : rule) v_true(q.weight() > 0, "one-dimensional weights are positive");
  }
}
template<int dim> void family(int k, int to)
{
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) if (dim < 3 || !(id & 1) || k == 0) shape<dim>(id, families[k], id & 1 ? 6 : to);
}
#ifdef VERIF_THOROUGH
enum { cap3 = 62, cap4 = 10 };
#else
enum { cap3 = 40, cap4 = 8 };
#endif
CHK(point) {
  const auto& rule = QuadratureRules<double,0>::rule(GeometryTypes::vertex, 3);
  v_true(rule.type() == GeometryTypes::vertex, "rule reports the requested geometry type");
  v_eqi(rule.size(), 1, "one point");
  v_eq(rule[0].weight(), 1, "unit weight");
}
CHK(line) { for (int k = 0; k < 7; ++k) family<1>(k, 200); }
#define FAM(k) CHK(plane##k) { family<2>(k, 200); } CHK(space##k) { family<3>(k, cap3); }
FAM(0) FAM(1) FAM(2) FAM(3) FAM(4) FAM(5) FAM(6)
CHK(four) { family<4>(0, cap4); }
// a rule's points can be taken apart
CHK(binding) {
  for (int p = 0; p <= 6; ++p) {
    const auto& rule = QuadratureRules<double,2>::rule(GeometryTypes::triangle, p);
    for (const auto& q : rule) {
      const auto [x, w] = q;
      v_true(x == q.position() && w == q.weight(), "structured access to a point");
      v_true(q.template get<0>() == q.position() && q.template get<1>() == q.weight(), "indexed access to a point");
    }
    auto copy = rule; QuadratureRule<double,2> assigned; v_true(assigned.empty(), "default rule is empty"); assigned = rule;
    v_true(copy.order() == rule.order() && assigned.order() == rule.order() && copy.type() == rule.type() && assigned.type() == rule.type() && copy.size() == rule.size() && assigned.size() == rule.size(), "copies of a rule");
  }
}
// requests by basic shape name
template<int dim> void basic()
{
  v_label("dim", dim);
  for (int p = 0; p <= 3; ++p) for (const auto& f : families) {
    v_labels("family", f.name); v_label("order", p);
    using R = QuadratureRules<double,dim>;
    v_true(R::rule(GeometryType::simplex, p, f.qt).type() == GeometryTypes::simplex(dim), "simplex rule by name");
    v_true(R::rule(GeometryType::cube, p, f.qt).type() == GeometryTypes::cube(dim), "cube rule by name");
    if constexpr (dim == 3) {
      v_true(R::rule(GeometryType::prism, p, f.qt).type() == GeometryTypes::prism, "prism rule by name");
      v_true(R::rule(GeometryType::pyramid, p, f.qt).type() == GeometryTypes::pyramid, "pyramid rule by name");
    }
  }
}
CHK(basic) { basic<0>(); basic<1>(); basic<2>(); basic<3>(); }
