// One-dimensional families in arbitrary precision.
#include <quad.hh>
// number type given by its decimal expansion; the analyser carries it exactly
struct HP {
  long i;
  HP() : i(v_hpd(0)) {}
  HP(double d) : i(v_hpd(d)) {}
  HP(int d) : i(v_hpd(d)) {}
  explicit HP(const char* s) : i(v_hpstr(s)) {}
  static HP raw(long k) { HP h; h.i = k; return h; }
  HP& operator+=(const HP& o) { i = v_hpop(0, i, o.i); return *this; }
  HP& operator-=(const HP& o) { i = v_hpop(1, i, o.i); return *this; }
  HP& operator*=(const HP& o) { i = v_hpop(2, i, o.i); return *this; }
  HP& operator/=(const HP& o) { i = v_hpop(3, i, o.i); return *this; }
  friend HP operator+(HP a, const HP& b) { return a += b; }
  friend HP operator-(HP a, const HP& b) { return a -= b; }
  friend HP operator*(HP a, const HP& b) { return a *= b; }
  friend HP operator/(HP a, const HP& b) { return a /= b; }
  friend bool operator==(const HP& a, const HP& b) { return v_hpget(v_hpop(1, a.i, b.i)) == 0; }
  friend bool operator!=(const HP& a, const HP& b) { return !(a == b); }
  double d() const { return v_hpget(i); }
};
template<> struct Dune::IsNumber<HP> : std::true_type {};
using namespace Dune;
using R = QuadratureRules<HP,1>;
enum { digits = 80 };

static int points(QuadratureType::Enum qt, int order) // fewest points of the family for an order
{
  switch (qt) {
    case QuadratureType::GaussLobatto: { const int n = (order + 4)/2; return n < 2 ? 2 : n; }
    case QuadratureType::GaussRadauLeft: case QuadratureType::GaussRadauRight: return order/2 + 1 + (order % 2);
    default: return order/2 + 1;
  }
}
static int find(const QuadratureRule<HP,1>& r, double x) { for (int i = 0; i < (int)r.size(); ++i) { const double e = r[i].position()[0].d() - x; if (e < 1e-12 && e > -1e-12) return i; } return -1; }
static void contains(const QuadratureRule<HP,1>& r, double x, const char* msg)
{
  const int i = find(r, x);
  v_true(i >= 0, msg);
  if (i >= 0) v_hpeq(r[i].position()[0].i, HP(x).i, 90, msg);
}
// b is the mirror image of a
static void mirrored(const QuadratureRule<HP,1>& a, const QuadratureRule<HP,1>& b, const char* msg)
{
  v_eqi(a.size(), b.size(), msg);
  for (const auto& q : a) {
    const HP m = HP(1) - q.position()[0];
    const int i = find(b, m.d());
    v_true(i >= 0, msg);
    if (i >= 0) { v_hpeq(b[i].position()[0].i, m.i, digits, msg); v_hpeq(b[i].weight().i, q.weight().i, digits, msg); }
  }
}
static void table(const Family& f)
{
  v_labels("family", f.name);
  const int m = R::maxOrder(GeometryTypes::line, f.qt);
  v_true(m >= 1, "family is available");
  for (int p = 0; p <= m; ++p) {
    v_label("order", p);
    const auto& r = R::rule(GeometryTypes::line, p, f.qt);
    v_eqi(r.size(), points(f.qt, r.order()), "fewest points for the reported order");
    v_true(r.order() >= p, "reported order is at least the requested one");
    for (const auto& q : r) {
      HP w = q.weight(); for (int a = 0; a < f.alpha; ++a) w *= HP(0.5);
      v_hppt(q.position()[0].i, w.i);
    }
    v_hpcheck(f.alpha, r.order(), digits, "table satisfies its moment equations far beyond double precision");
    switch (f.qt) {
      case QuadratureType::GaussLegendre: mirrored(r, r, "Gauss rules are symmetric"); break;
      case QuadratureType::GaussLobatto: mirrored(r, r, "Lobatto rules are symmetric"); contains(r, 0, "Lobatto rules contain the left end point"); contains(r, 1, "Lobatto rules contain the right end point"); break;
      case QuadratureType::GaussRadauLeft: contains(r, 0, "left Radau rules contain the left end point"); mirrored(r, R::rule(GeometryTypes::line, p, QuadratureType::GaussRadauRight), "Radau families mirror each other"); break;
      case QuadratureType::GaussRadauRight: contains(r, 1, "right Radau rules contain the right end point"); mirrored(r, R::rule(GeometryTypes::line, p, QuadratureType::GaussRadauLeft), "Radau families mirror each other"); break;
      default: break;
    }
    // the double table is the rounded exact table
    const auto& d = QuadratureRules<double,1>::rule(GeometryTypes::line, p, f.qt);
    v_eqi(d.size(), r.size(), "same number of points in double precision"); v_eqi(d.order(), r.order(), "same order in double precision");
    if (d.size() == r.size()) for (std::size_t i = 0; i < d.size(); ++i)
      v_true(std::abs(d[i].position()[0] - r[i].position()[0].d()) <= 3e-16 && std::abs(d[i].weight() - r[i].weight().d()) <= 3e-16, "double table is the rounded table");
  }
}
CHK(gauss) { table(families[0]); }
CHK(jacobi1) { table(families[1]); }
CHK(jacobi2) { table(families[2]); }
CHK(lobatto) { table(families[4]); }
CHK(radauleft) { table(families[5]); }
CHK(radauright) { table(families[6]); }
CHK(triangle) { // products keep the precision
  using R2 = QuadratureRules<HP,2>;
  v_labels("family", "GaussLegendre square");
  for (int p = 0; p <= 20; ++p) {
    v_label("order", p);
    const auto& r = R2::rule(GeometryTypes::quadrilateral, p);
    for (const auto& q : r) v_hppt(q.position()[0].i, q.weight().i);
    v_hpcheck(0, r.order(), digits, "product rules keep the precision of the tables");
    for (const auto& q : r) v_hppt(q.position()[1].i, q.weight().i);
    v_hpcheck(0, r.order(), digits, "product rules keep the precision of the tables");
  }
}
