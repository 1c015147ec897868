// Composite quadrature is the base rule repeated on every sub-element.
#include <v.hh>
#include <quad.hh>
#include <refine.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
using namespace Dune;

// a base rule with arbitrary points and weights
template<int dim> struct AnyRule : QuadratureRule<double,dim>
{
  AnyRule(GeometryType gt, int order, int points) : QuadratureRule<double,dim>(gt, order)
  {
    static const char* names[] = {"xa", "xb", "xc", "xd"};
    for (int i = 0; i < points; ++i) {
      FieldVector<double,dim> x; for (int j = 0; j < dim; ++j) x[j] = v_real(names[j], i);
      this->push_back(QuadraturePoint<double,dim>(x, v_real("w", i)));
    }
  }
};
template<int dim> void arbitrary(int upTo)
{
  using P = Pair<0,0,dim>;
  v_exact(1);
  v_label("dim", dim);
  for (int n = 1; n <= upTo; ++n) for (unsigned id = 0; id < 2u; ++id) for (int points = 0; points <= 2; ++points) {
    v_label("n", n); v_label("points", points);
    const AnyRule<dim> base(GeometryType(id, dim), 3*n + points, points);
    const CompositeQuadratureRule<double,dim> rule(base, refinementIntervals(n));
    v_eqi(rule.order(), base.order(), "the order is the base rule's order");
    v_true(rule.type() == base.type(), "the type is the base rule's type");
    v_eqi(rule.size(), P::elements(n)*points, "every sub-element carries the base points");
    if (long(rule.size()) != P::elements(n)*points) return;
    double sum = 0, base_ = 0; for (const auto& q : rule) sum += q.weight(); for (const auto& q : base) base_ += q.weight();
    v_eq(sum, base_, "the weights sum to the sum of the base weights");
    // every base point appears once on every sub-element
    std::vector<bool> used(rule.size(), false);
    double scale = 1; for (int j = 0; j < dim; ++j) scale /= n;
    for (auto it = P::Static::eBegin(refinementIntervals(n)), end = P::Static::eEnd(refinementIntervals(n)); it != end; ++it) {
      v_label("element", it.index());
      const auto g = it.geometry();
      for (int i = 0; i < points; ++i) {
        const auto x = g.global(base[i].position());
        bool found = false;
        for (unsigned k = 0; k < rule.size() && !found; ++k) {
          if (used[k]) continue;
          bool same = true;
          for (int j = 0; j < dim; ++j) same = same && v_isconst(rule[k].position()[j] - x[j]) && rule[k].position()[j] - x[j] == 0;
          same = same && v_isconst(rule[k].weight() - scale*base[i].weight());
          if (!same) continue;
          used[k] = found = true;
          v_eq(rule[k].weight(), scale*base[i].weight(), "the base weight is scaled by the part of the volume");
          for (int j = 0; j < dim; ++j) v_eq(rule[k].position()[j], x[j], "the base point is mapped into the sub-element");
        }
        v_true(found, "every base point is mapped into every sub-element");
      }
    }
    v_label("element", -1);
    // the rule is a value: the base rule is unchanged
    const AnyRule<dim> again(GeometryType(id, dim), 3*n + points, points);
    v_eqi(again.size(), base.size(), "the base rule is unchanged");
  }
}
CHK(any1) { arbitrary<1>(5); }
CHK(any2) { arbitrary<2>(4); }
CHK(any3) { arbitrary<3>(3); }

// points stay inside, for base points inside
template<int dim> void insideAll(int upTo)
{
  v_label("dim", dim); v_exact(1);
  for (int n = 1; n <= upTo; ++n) {
    v_label("n", n);
    AnyRule<dim> base(GeometryTypes::simplex(dim), 1, 1);
    double s = 0; for (int j = 0; j < dim; ++j) { v_assume(base[0].position()[j] >= 0); s += base[0].position()[j]; } v_assume(s <= 1);
    const CompositeQuadratureRule<double,dim> rule(base, refinementIntervals(n));
    for (unsigned k = 0; k < rule.size(); ++k) {
      v_label("point", k);
      double t = 0;
      for (int j = 0; j < dim; ++j) { t += rule[k].position()[j]; v_true(rule[k].position()[j] >= 0, "points lie inside the element"); }
      v_true(t <= 1, "points lie inside the element");
    }
  }
}
CHK(inside1) { insideAll<1>(4); }
CHK(inside2) { insideAll<2>(3); }
CHK(inside3) { insideAll<3>(2); }

// the library's own rules
template<int dim> void own(int upTo, int orders)
{
  v_label("dim", dim);
  for (int n = 1; n <= upTo; ++n) for (int p = 0; p <= orders; ++p) {
    v_label("n", n); v_label("order", p);
    const auto& base = QuadratureRules<double,dim>::rule(GeometryTypes::simplex(dim), p);
    const CompositeQuadratureRule<double,dim> rule(base, refinementIntervals(n));
    v_eqi(rule.order(), base.order(), "the order is the base rule's order");
    v_eqi(rule.size(), Pair<0,0,dim>::elements(n)*base.size(), "every sub-element carries the base points");
    record<dim>(rule);
    for (const auto& q : rule) {
      double t = 0; for (int j = 0; j < dim; ++j) { t += q.position()[j]; v_true(q.position()[j] >= -1e-14, "points lie inside the element"); }
      v_true(t <= 1 + 1e-14, "points lie inside the element");
    }
    v_rcheck(rule.type().id(), dim, rule.order(), 0, "polynomials up to the order are integrated exactly");
    const CompositeQuadratureRule<double,dim> level(base, refinementLevels(1));
    v_eqi(level.size(), Pair<0,0,dim>::elements(2)*base.size(), "levels double the intervals");
  }
}
CHK(own1) { own<1>(6, 12); }
CHK(own2) { own<2>(4, 12); }
CHK(own3) { own<3>(3, 7); }
