// Rules computed from an eigenvalue problem.
#include <quad.hh>
using namespace Dune;
static const Family n0 = families[3];
template<int dim> void shape(unsigned id, int from, int to, int step = 1)
{
  const GeometryType gt(id, dim);
  v_label("dim", dim); v_label("shape", id);
  const int m = QuadratureRules<double,dim>::maxOrder(gt, n0.qt);
  v_true(m >= to || dim < 2, "orders are available");
  for (int p = from; p <= m && p <= to; p += step) {
    v_label("order", p);
    const auto& rule = QuadratureRules<double,dim>::rule(gt, p, n0.qt);
    v_true(rule.order() >= p, "reported order is at least the requested one");
    record<dim>(rule);
    v_rinside(id, dim, "points of a computed rule lie in the element");
    v_rcheck(id, dim, rule.order(), 0, "a computed rule integrates all monomials up to its order");
    if (dim == 1) for (const auto& q : rule) v_true(q.weight() > 0, "weights of a computed rule are positive");
  }
}
CHK(line) { shape<1>(0, 61, 127); v_true((QuadratureRules<double,1>::maxOrder(GeometryTypes::line, n0.qt)) >= 61, "orders beyond the tables are offered"); }
CHK(triangle) { shape<2>(0, 61, 127); }
CHK(square) { shape<2>(2, 61, 127); }
CHK(tetrahedron) { shape<3>(0, 61, 64); }
CHK(pyramid) { shape<3>(2, 61, 63); }
#ifdef VERIF_THOROUGH
enum { cap4 = 12 };
#else
enum { cap4 = 7 };
#endif
// exponents above two: conical steps in four and more dimensions
CHK(four) { for (unsigned id = 0; id < 8; id += 2) shape<4>(id, 0, cap4); }
CHK(five) { for (unsigned id : {0u, 6u, 14u}) shape<5>(id, 0, 4); }
// large exponents
CHK(six) { for (unsigned id : {0u, 30u, 46u}) shape<6>(id, 0, 3); }
CHK(seven) { for (unsigned id : {0u, 62u}) shape<7>(id, 0, 3); }
CHK(eight) { for (unsigned id : {0u, 126u}) shape<8>(id, 0, 3); }
CHK(nine) { shape<9>(0, 0, 3); shape<10>(0, 0, 3); }
CHK(eleven) { shape<11>(0, 0, 3); shape<12>(0, 0, 3); }
// single precision
CHK(single) {
  for (int p = 61; p <= 127; p += 6) {
    v_label("order", p);
    const auto& r = QuadratureRules<float,1>::rule(GeometryTypes::line, p, n0.qt);
    const auto& d = QuadratureRules<double,1>::rule(GeometryTypes::line, p, n0.qt);
    v_eqi(r.size(), d.size(), "number of points in single precision");
    if (r.size() == d.size()) for (std::size_t i = 0; i < r.size(); ++i)
      v_true(std::abs(r[i].weight() - d[i].weight()) < 4e-6 && std::abs(r[i].position()[0] - d[i].position()[0]) < 4e-6, "points in single precision");
  }
}
