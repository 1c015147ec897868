// Polynomial exactness of every tabulated or composed quadrature rule.
#include <quad.hh>
using namespace Dune;

// rules of family f for one shape, orders from..to
template<int dim> void shape(unsigned id, const Family& f, int to)
{
  const GeometryType gt(id, dim);
  v_label("dim", dim); v_label("shape", id); v_labels("family", f.name);
  const int m = tabulated<dim>(gt, f);
  for (int p = 0; p <= m && p <= to; ++p) {
    v_label("order", p);
    const auto& rule = QuadratureRules<double,dim>::rule(gt, p, f.qt);
    v_true(rule.order() >= p, "reported order is at least the requested one");
    record<dim>(rule);
    v_rcheck(id, dim, rule.order(), f.alpha, "all monomials up to the reported order are integrated exactly");
  }
}
template<int dim> void family(int k, int to)
{
  for (unsigned id = 0; id < spec::ntopo(dim); id += (dim > 1 ? 2 : 1)) shape<dim>(id, families[k], to);
}
#ifdef VERIF_THOROUGH
enum { cap2 = 200, cap3 = 80, cap4 = 10 };
#else
enum { cap2 = 200, cap3 = 62, cap4 = 8 };
#endif
CHK(point) {
  const auto& rule = QuadratureRules<double,0>::rule(GeometryTypes::vertex, 3);
  v_true(rule.order() >= 3, "reported order is at least the requested one");
  double s = 0; for (auto& q : rule) s += q.weight();
  v_eq(s, 1, "constants are integrated exactly on a point");
}
CHK(line) { for (int k = 0; k < 7; ++k) family<1>(k, 200); }

#define FAM(k) CHK(plane##k) { family<2>(k, cap2); } CHK(tet##k) { shape<3>(0, families[k], cap3); } CHK(pyramid##k) { shape<3>(2, families[k], cap3); } \
  CHK(prism##k) { shape<3>(4, families[k], cap3); } CHK(cube##k) { shape<3>(6, families[k], cap3); }
FAM(0) FAM(1) FAM(2) FAM(3) FAM(4) FAM(5) FAM(6)
CHK(four0) { family<4>(0, cap4); }
CHK(four3) { family<4>(3, cap4); }
CHK(floats) { // other number types take the same tables
  for (int k = 0; k < 7; ++k) for (int p = 0; p <= 20; ++p) {
    v_labels("family", families[k].name); v_label("order", p);
    const auto& r = QuadratureRules<float,2>::rule(GeometryTypes::triangle, p, families[k].qt);
    const auto& d = QuadratureRules<double,2>::rule(GeometryTypes::triangle, p, families[k].qt);
    v_eqi(r.order(), d.order(), "order in single precision"); v_eqi(r.size(), d.size(), "number of points in single precision");
    if (r.size() == d.size()) for (std::size_t i = 0; i < r.size(); ++i)
      v_true(std::abs(r[i].weight() - d[i].weight()) < 2e-6 && (r[i].position() - FieldVector<float,2>(d[i].position())).two_norm() < 2e-6, "points in single precision");
  }
}
