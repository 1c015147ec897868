// Shared tables are created once, completely, under one-time initialisation, and never changed afterwards.
//
// v_effects(1): writes to shared objects are only allowed inside a one-time initialisation or a lock.
// v_effects(2): additionally this is a thread that has seen nothing yet: what was written inside an
// initialisation may only be read after passing that initialisation.
#include <quad.hh>
#include <refine.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/virtualrefinement.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
using namespace Dune;

template<int dim, class ct = double> struct Request { GeometryType gt; int order; QuadratureType::Enum qt; const QuadratureRule<ct,dim>* rule; const void* points; std::size_t size; int reported; double sum[dim+2]; };
template<int dim, class ct> void contents(const QuadratureRule<ct,dim>& r, double (&s)[dim+2])
{
  for (auto& x : s) x = 0;
  double k = 1;
  for (const auto& q : r) { s[dim] += k*q.weight(); for (int j = 0; j < dim; ++j) s[j] += k*q.position()[j]; k += 1; }
  s[dim+1] = r.type().id() + 1000*r.type().dim();
}
template<int dim, class ct> void first(Request<dim,ct>& q)
{
  v_effects(1);
  const auto& r = QuadratureRules<ct,dim>::rule(q.gt, q.order, q.qt);
  v_effects(0);
  q.rule = &r; q.size = r.size(); q.points = r.data(); q.reported = r.order(); contents<dim,ct>(r, q.sum);
  v_true(r.size() > 0 && r.order() >= q.order && r.type() == q.gt, "the first request gets a complete rule");
}
template<int dim, class ct> void again(const Request<dim,ct>& q)
{
  v_effects(2);
  const auto& r = QuadratureRules<ct,dim>::rule(q.gt, q.order, q.qt);
  double s[dim+2]; contents<dim,ct>(r, s);
  const std::size_t n = r.size(); const int o = r.order(); const void* p = r.data();
  v_effects(0);
  v_eqp(&r, q.rule, "a later request gets the same object");
  v_eqp(p, q.points, "the points stay where they were");
  v_eqi(n, q.size, "the number of points is unchanged"); v_eqi(o, q.reported, "the order is unchanged");
  for (int j = 0; j < dim+2; ++j) v_eq(s[j], q.sum[j], "the contents are unchanged");
}
template<int dim, class ct = double> void rules(int step, bool reverse)
{
  v_label("dim", dim); v_label("reverse", reverse);
  std::vector<Request<dim,ct>> q;
  for (unsigned id = 0; id < spec::ntopo(dim); id += step) for (const auto& f : families) for (int p : {0, 1, 2, 3, 5, 8}) if (dim < 3 || p < 4 || f.qt == QuadratureType::GaussLegendre) q.push_back({GeometryType(id, dim), p, f.qt, nullptr, nullptr, 0, 0, {}});
  const int n = q.size();
  for (int i = 0; i < n; ++i) { auto& x = q[reverse ? n-1-i : i]; v_label("shape", x.gt.id()); v_label("family", x.qt); v_label("order", x.order); first(x); }
  for (int i = 0; i < n; ++i) { auto& x = q[i]; v_label("shape", x.gt.id()); v_label("family", x.qt); v_label("order", x.order); again(x); }
}
CHK(rules0) { rules<0>(1, false); }
CHK(rules1) { rules<1>(2, false); }
CHK(rules1r) { rules<1>(1, true); }
CHK(rules2) { rules<2>(2, false); }
CHK(rules2r) { rules<2>(1, true); }
CHK(rules3) { rules<3>(2, false); }
CHK(rules3r) { rules<3>(2, true); }
CHK(rules2f) { rules<2,float>(2, false); }
// every advertised order
template<int dim> void orders(unsigned id, const Family& f, int to)
{
  v_label("dim", dim); v_label("shape", id); v_labels("family", f.name);
  std::vector<Request<dim,double>> q;
  const int m = QuadratureRules<double,dim>::maxOrder(GeometryType(id, dim), f.qt);
  for (int p = 0; p <= m && p <= to; ++p) { v_label("order", p); q.push_back({GeometryType(id, dim), p, f.qt, nullptr, nullptr, 0, 0, {}}); first(q.back()); }
  for (auto& x : q) { v_label("order", x.order); again(x); }
}
CHK(orders1) { for (const auto& f : families) orders<1>(1, f, 60); }
CHK(orders2) { orders<2>(0, families[0], 60); orders<2>(3, families[0], 20); orders<2>(0, families[4], 10); }
CHK(orders3) { for (unsigned id : {0u, 3u, 5u, 7u}) orders<3>(id, families[0], 14); }

// a refused request changes nothing and a maximum order is computed without shared state
CHK(refused) {
  (void)QuadratureRules<double,2>::rule(GeometryTypes::triangle, 2);
  v_effects(1);
  const int st = v_try([&]{ (void)QuadratureRules<double,2>::rule(GeometryTypes::triangle, 1000); }, "QuadratureOrderOutOfRange");
  const auto m = QuadratureRules<double,2>::maxOrder(GeometryTypes::triangle);
  v_effects(0);
  v_eqi(st, 1, "an unsupported order is refused"); v_true(m > 0, "maximum order");
}

// ---- reference elements: every access path, every query
template<int dim, int codim, class R> double embedding(const R& r, double s)
{
  for (int i = 0; i < r.size(codim); ++i) { const auto g = r.template geometry<codim>(i); s += g.volume() + g.corners() + g.type().id(); for (int k = 0; k < g.corners(); ++k) for (int j = 0; j < dim; ++j) s += (k+j)*g.corner(k)[j]; }
  if constexpr (codim < dim) return embedding<dim,codim+1>(r, s); else return s;
}
template<int dim, class ct> double queries(const typename ReferenceElements<ct,dim>::ReferenceElement& r)
{
  double s = r.volume() + r.type().id(), w = 1;
  for (int c = 0; c <= dim; ++c) {
    s += w*r.size(c); w += 1;
    for (int i = 0; i < r.size(c); ++i) {
      s += w*r.type(i, c).id();
      for (int j = 0; j < dim; ++j) s += (w+j)*r.position(i, c)[j];
      for (int cc = c; cc <= dim; ++cc) { for (int ii = 0; ii < r.size(i, c, cc); ++ii) { s += w*r.subEntity(i, c, ii, cc); w += 1; } for (auto k : r.subEntities(i, c, cc)) s += w*k; s += r.subEntities(i, c, cc).contains(0); }
    }
  }
  s += r.checkInside(r.position(0, 0));
  if constexpr (dim > 0) for (int f = 0; f < r.size(1); ++f) for (int j = 0; j < dim; ++j) { s += w*r.integrationOuterNormal(f)[j]; w += 1; }
  return embedding<dim,0>(r, s);
}
template<int dim, class ct = double> void elements()
{
  using R = ReferenceElements<ct,dim>;
  v_label("dim", dim);
  constexpr bool byRef = std::is_reference_v<decltype(R::general(GeometryType()))> && std::is_reference_v<decltype(R::simplex())> && std::is_reference_v<decltype(R::cube())>;
  double s[1u << dim]; const void* p[1u << dim]; const void* h[1u << dim];
  v_effects(1);
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) { const auto& r = R::general(GeometryType(id, dim)); p[id] = &r.impl(); h[id] = &r; }
  v_effects(0);
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) { v_label("shape", id); s[id] = queries<dim,ct>(R::general(GeometryType(id, dim))); v_true(R::general(GeometryType(id, dim)).size(0) == 1, "the first request gets a complete element"); }
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("shape", id);
    v_effects(2);
    const auto& r = R::general(GeometryType(id, dim));
    const double t = queries<dim,ct>(r); const void* q = &r.impl();
    v_effects(0);
    if (byRef) v_eqp(&r, h[id], "a later request gets the same handle");
    v_eqp(q, p[id], "a later request gets the same object"); v_eq(t, s[id], "the contents are unchanged");
  }
  v_effects(2);
  int n = 0; double t = 0; for (auto it = R::begin(); it != R::end(); ++it, ++n) t += queries<dim,ct>(*it);
  const auto &a = R::simplex(), &b = R::cube(); const double x = queries<dim,ct>(a), y = queries<dim,ct>(b); const void *pa = &a.impl(), *pb = &b.impl();
  v_effects(0);
  double sum = 0; for (double v : s) sum += v;
  if (byRef) { v_true(&a == h[0] || (dim > 0 && &a == h[1]), "named access gives the same handle"); v_true(&b == h[spec::ntopo(dim)-1] || (dim > 0 && &b == h[spec::ntopo(dim)-2]), "named access gives the same handle"); }
  v_eq(t, sum, "iteration sees the same contents");
  v_true(pa == p[0] || (dim > 0 && pa == p[1]), "named access gives the same object"); v_true(pb == p[spec::ntopo(dim)-1] || (dim > 0 && pb == p[spec::ntopo(dim)-2]), "named access gives the same object");
  v_true(x == s[0] || (dim > 0 && x == s[1]), "the contents are unchanged"); v_true(y == s[spec::ntopo(dim)-1] || (dim > 0 && y == s[spec::ntopo(dim)-2]), "the contents are unchanged");
}
CHK(elements0) { elements<0>(); }
CHK(elements1) { elements<1>(); }
CHK(elements2) { elements<2>(); }
CHK(elements3) { elements<3>(); }
CHK(elements3f) { elements<3,float>(); }
CHK(elements4) { elements<4>(); }

// ---- refinements selected at run time
template<class P, class V> double walk(V& r, int n)
{
  double s = 0, w = 1;
  const auto tag = refinementIntervals(n);
  s += r.nVertices(tag) + r.nElements(tag);
  { const auto e = r.vEnd(tag); for (auto v = r.vBegin(tag); v != e; ++v) { s += w*v.index(); for (int j = 0; j < P::dim; ++j) s += (w+j)*v.coords()[j]; w += 1; } }
  { const auto e = r.eEnd(tag); for (auto v = r.eBegin(tag); v != e; ++v) { s += w*v.index(); for (auto k : v.vertexIndices()) s += w*k; for (int j = 0; j < P::dim; ++j) s += (w+j)*v.coords()[j]; w += 1; } }
  return s;
}
template<class P> void refinement()
{
  v_label("dim", P::dim); v_label("shape", P::element); v_label("target", P::sub);
  v_effects(1);
  auto& r = buildRefinement<P::dim, typename P::ct>(GeometryType(P::element, P::dim), GeometryType(P::sub, P::dim));
  const double s = walk<P>(r, 2);
  v_effects(0);
  v_true(r.nElements(refinementIntervals(1)) > 0, "the first request gets a complete object");
  for (int k = 0; k < 2; ++k) {
    v_effects(2);
    auto& q = buildRefinement<P::dim, typename P::ct>(GeometryType(P::element, P::dim), GeometryType(P::sub, P::dim));
    const double t = walk<P>(q, 2);
    v_effects(0);
    v_eqp(&q, &r, "a later request gets the same object"); v_eq(t, s, "the contents are unchanged");
  }
}
CHK(refinement) { refinement<Line>(); refinement<Triangle>(); refinement<Quad>(); refinement<QuadSimplex>(); refinement<Tet>(); refinement<Hex>(); refinement<HexSimplex>(); refinement<PrismSimplex>(); refinement<PyramidSimplex>(); }
// two requests for different keys
CHK(refinements) { refinement<Triangle>(); refinement<Quad>(); refinement<Triangle>(); refinement<QuadSimplex>(); refinement<Quad>(); }

// ---- geometries that use the tables behind the scenes
template<class G> double ask(const G& g)
{
  double s = g.volume() + g.corners() + g.affine() + g.type().id();
  const auto x = g.center(); for (int k = 0; k < g.corners(); ++k) s += k*g.corner(k)[0];
  typename G::LocalCoordinate l(0.25);
  s += g.global(l)[0] + g.local(x)[0] + g.integrationElement(l) + g.jacobianTransposed(l)[0][0] + g.jacobianInverseTransposed(l)[0][0];
  return s;
}
template<int dim> void geometry(unsigned id)
{
  v_label("dim", dim); v_label("shape", id);
  std::vector<FieldVector<double,dim>> c;
  for (int k = 0; k < spec::count(id, dim, dim); ++k) { FieldVector<double,dim> x; for (int j = 0; j < dim; ++j) x[j] = spec::coord(id, dim, k, j) + (k == 3 ? 0.25 : 0.0); c.push_back(x); }
  double s[4];
  for (int k = 0; k < 2; ++k) {
    v_effects(k+1);
    const MultiLinearGeometry<double,dim,dim> a(GeometryType(id, dim), c);
    const CachedMultiLinearGeometry<double,dim,dim> b(GeometryType(id, dim), c);
    const AxisAlignedCubeGeometry<double,dim,dim> d(FieldVector<double,dim>(0.5), FieldVector<double,dim>(2.5));
    const double x = ask(a), y = ask(b), z = ask(d);
    v_effects(0);
    if (k == 0) { s[0] = x; s[1] = y; s[2] = z; }
    else { v_eq(x, s[0], "same answers"); v_eq(y, s[1], "same answers"); v_eq(z, s[2], "same answers"); }
  }
}
CHK(geometry) { geometry<1>(1); geometry<2>(3); geometry<2>(0); geometry<3>(7); geometry<3>(3); geometry<3>(5); geometry<3>(0); }
