// Every request for a quadrature rule is served or refused.
#include <quad.hh>
using namespace Dune;

template<int dim, class ct = double> void served(const GeometryType& gt, const Family& f, int to)
{
  v_label("dim", dim); v_label("shape", gt.id()); v_labels("family", f.name);
  using R = QuadratureRules<ct,dim>;
  const int m = R::maxOrder(gt, f.qt);
  v_true(m >= 1, "some orders are advertised");
  for (int p = 0; p <= m && p <= to; ++p) {
    v_label("order", p);
    const QuadratureRule<ct,dim>* r = nullptr;
    v_eqi(v_try([&]{ r = &R::rule(gt, p, f.qt); }, ""), 0, "an advertised order is served");
    if (r) { v_true(r->size() > 0, "an advertised order yields a non-empty rule"); v_true(r->order() >= p, "reported order is at least the requested one"); }
  }
}
template<int dim, class ct = double> void refused(const GeometryType& gt, const Family& f)
{
  v_label("dim", dim); v_label("shape", gt.id()); v_labels("family", f.name);
  using R = QuadratureRules<ct,dim>;
  const int m = R::maxOrder(gt, f.qt);
  const int p = v_int("p"); v_assume(p > m);
  v_eqi(v_try([&]{ (void)R::rule(gt, p, f.qt); }, "QuadratureOrderOutOfRange"), 1, "an order above the advertised maximum is refused");
  const int q = v_int("q"); v_assume(q < 0);
  v_eqi(v_try([&]{ (void)R::rule(gt, q, f.qt); }, "QuadratureOrderOutOfRange"), 1, "a negative order is refused");
  // also after valid requests
  (void)R::rule(gt, 0, f.qt); (void)R::rule(gt, m < 5 ? m : 5, f.qt);
  v_eqi(v_try([&]{ (void)R::rule(gt, p, f.qt); }, "QuadratureOrderOutOfRange"), 1, "an order above the advertised maximum is refused after valid requests");
  v_true(R::rule(gt, 0, f.qt).size() > 0, "valid requests are still served afterwards");
}
#ifdef VERIF_THOROUGH
enum { cap3 = 45, cap4 = 12 };
#else
enum { cap3 = 30, cap4 = 8 };
#endif
template<int dim> void allServed(int k, int to) { for (unsigned id = 0; id < spec::ntopo(dim); ++id) served<dim>(GeometryType(id, dim), families[k], to); }
template<int dim, class ct = double> void allRefused() { for (unsigned id = 0; id < spec::ntopo(dim); ++id) for (const auto& f : families) refused<dim,ct>(GeometryType(id, dim), f); }
CHK(line) { for (int k = 0; k < 7; ++k) allServed<1>(k, 200); }
#define FAM(k) CHK(served2_##k) { allServed<2>(k, 200); } CHK(served3_##k) { allServed<3>(k, cap3); }
FAM(0) FAM(1) FAM(2) FAM(3) FAM(4) FAM(5) FAM(6)
CHK(served4) { for (int k = 0; k < 7; ++k) allServed<4>(k, k == 0 ? cap4 : 3); }
// the same for some representative orders, independent of how an unknown order is treated
template<int dim, class ct = double> void outside(const GeometryType& gt, const Family& f)
{
  v_label("dim", dim); v_label("shape", gt.id()); v_labels("family", f.name);
  using R = QuadratureRules<ct,dim>;
  const int m = R::maxOrder(gt, f.qt);
  for (int p : {m+1, m+2, 2*m+1, 1000, 2147483647, -1, -2, -1000, -2147483647-1}) {
    v_label("order", p);
    v_true(v_try([&]{ (void)R::rule(gt, p, f.qt); }, "") != 0, "an order outside the advertised range is refused");
  }
}
CHK(outside1) { for (const auto& f : families) outside<1>(GeometryTypes::line, f); }
CHK(outside2) { for (const auto& f : families) { outside<2>(GeometryTypes::triangle, f); outside<2>(GeometryTypes::quadrilateral, f); } }
CHK(outside3) { for (const auto& f : families) for (unsigned id = 0; id < 8; id += 2) outside<3>(GeometryType(id, 3), f); }
CHK(refused1) { allRefused<1>(); }
CHK(refused2) { allRefused<2>(); }
CHK(refused3) { allRefused<3>(); }
CHK(refused4) { for (unsigned id = 0; id < spec::ntopo(4); id += 2) refused<4>(GeometryType(id, 4), families[0]); }
CHK(refusedf) { allRefused<1,float>(); }
CHK(point) {
  for (const auto& f : families) {
    v_labels("family", f.name);
    const int p = v_int("p"); v_assume(p >= 0);
    v_eqi(v_try([&]{ (void)QuadratureRules<double,0>::rule(GeometryTypes::vertex, p, f.qt); }, ""), 0, "every order is served on a point");
  }
}
template<int dim> void other()
{
  v_label("dim", dim);
  using R = QuadratureRules<double,dim>;
  for (const auto& f : families) for (int p = 0; p <= 2; ++p) {
    v_labels("family", f.name); v_label("order", p);
    v_true(v_try([&]{ (void)R::rule(GeometryTypes::none(dim), p, f.qt); }, "") != 0, "the type without shape is refused");
    for (int d = 0; d <= 4; ++d) if (d != dim) for (unsigned id = 0; id < spec::ntopo(d); ++id)
      v_true(v_try([&]{ (void)R::rule(GeometryType(id, d), p, f.qt); }, "") != 0, "a type of another dimension is refused");
  }
  for (int qt : {int(QuadratureType::size), int(QuadratureType::size)+1, -1, 100}) for (int p = 0; p <= 2; ++p) {
    v_label("family number", qt); v_label("order", p);
    v_true(v_try([&]{ (void)R::rule(GeometryTypes::simplex(dim), p, QuadratureType::Enum(qt)); }, "") != 0, "an unknown family is refused");
    v_true(v_try([&]{ (void)R::rule(GeometryTypes::cube(dim), p, QuadratureType::Enum(qt)); }, "") != 0, "an unknown family is refused");
  }
}
CHK(other0) { other<0>(); }
CHK(other1) { other<1>(); }
CHK(other2) { other<2>(); }
CHK(other3) { other<3>(); }
template<int dim> void basic()
{
  v_label("dim", dim);
  using R = QuadratureRules<double,dim>;
  v_true(v_try([&]{ (void)R::rule(GeometryType::none, 1); }, "") != 0, "the type without shape is refused by name");
  v_true(v_try([&]{ (void)R::rule(GeometryType::extended, 1); }, "") != 0, "unnamed shapes are refused by name");
  if (dim != 3) {
    v_true(v_try([&]{ (void)R::rule(GeometryType::prism, 1); }, "") != 0, "prisms are refused outside three dimensions");
    v_true(v_try([&]{ (void)R::rule(GeometryType::pyramid, 1); }, "") != 0, "pyramids are refused outside three dimensions");
  }
}
CHK(basic) { basic<1>(); basic<2>(); basic<3>(); }
