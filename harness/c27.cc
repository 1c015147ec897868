// Objects own their storage: copies, moves and assignments are independent of their source.
#include <models.hh>
#include <refine.hh>
#include <utility>
#include <vector>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/virtualrefinement.hh>
using namespace Dune;

using Answers = std::vector<double>;
static void same(const Answers& a, const Answers& b, const char* rule)
{
  v_eqi(a.size(), b.size(), rule);
  for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) v_eq(a[i], b[i], rule);
}

// make, other: produce objects; ask: everything the object answers
template<class Make, class Other, class Ask> void ownership(Make make, Other other, Ask ask)
{
  using T = decltype(make());
  const Answers want = ask(make()), otherwise = ask(other());
  { T* p = new T(make()); T copy(*p); same(ask(copy), want, "a copy equals its source"); delete p; same(ask(copy), want, "a copy outlives its source"); }
  { T* p = new T(make()); T moved(std::move(*p)); delete p; same(ask(moved), want, "a moved object outlives its source"); }
  if constexpr (std::is_copy_assignable_v<T>) {
  { T b(other()); T* p = new T(make()); b = *p; same(ask(*p), want, "assignment leaves the source"); delete p; same(ask(b), want, "an assigned object outlives its source"); }
  { T b(other()); T* p = new T(make()); b = std::move(*p); delete p; same(ask(b), want, "a move-assigned object outlives its source"); }
  { T a(make()); T copy(a); a = other(); same(ask(copy), want, "changing the source leaves the copy"); same(ask(a), otherwise, "assignment replaces the contents"); }
  { T a(make()); T copy(a); copy = other(); same(ask(a), want, "changing the copy leaves the source"); same(ask(copy), otherwise, "assignment replaces the contents"); }
  { T a(make()); T& s = a; a = s; same(ask(a), want, "self-assignment keeps the contents"); T b(a); same(ask(b), want, "a copy of a self-assigned object equals it"); }
  { T a(make()), b(other()); std::swap(a, b); same(ask(a), otherwise, "swapping exchanges the contents"); same(ask(b), want, "swapping exchanges the contents"); }
  {
    std::vector<T> v; for (int k = 0; k < 3; ++k) { v.push_back(make()); v.push_back(other()); }
    v.erase(v.begin());
    for (std::size_t k = 0; k < v.size(); ++k) same(ask(v[k]), k % 2 ? want : otherwise, "objects in a container keep their contents");
    std::vector<T> w(v); v.clear(); v.shrink_to_fit();
    for (std::size_t k = 0; k < w.size(); ++k) same(ask(w[k]), k % 2 ? want : otherwise, "a copied container owns its objects");
  }
  }
}

template<class G> Answers askGeometry(const G& g)
{
  constexpr int dim = G::mydimension, cdim = G::coorddimension;
  typename G::LocalCoordinate x; for (int j = 0; j < dim; ++j) x[j] = 1./(4 << j);
  Answers a;
  a.push_back(g.type().id() >> 1); a.push_back(g.affine());
  for (int k = 0; k < g.corners(); ++k) { const auto c = g.corner(k); for (int j = 0; j < cdim; ++j) a.push_back(c[j]); }
  const auto y = g.global(x), c = g.center(); for (int j = 0; j < cdim; ++j) { a.push_back(y[j]); a.push_back(c[j]); }
  const auto jt = g.jacobianTransposed(x); for (int i = 0; i < dim; ++i) { typename G::GlobalCoordinate row(0); typename G::LocalCoordinate e(0); e[i] = 1; jt.mtv(e, row); for (int j = 0; j < cdim; ++j) a.push_back(row[j]); }
  const auto ji = g.jacobianInverseTransposed(x); for (int i = 0; i < dim; ++i) { typename G::GlobalCoordinate col(0); typename G::LocalCoordinate e(0); e[i] = 1; ji.mv(e, col); for (int j = 0; j < cdim; ++j) a.push_back(col[j]); }
  a.push_back(g.integrationElement(x));
  return a;
}
// what a geometry returned stays valid without the geometry
template<class Make> void results(Make make)
{
  using G = decltype(make());
  constexpr int dim = G::mydimension, cdim = G::coorddimension;
  const G g(make());
  typename G::LocalCoordinate x; for (int j = 0; j < dim; ++j) x[j] = 1./(4 << j);
  G* p = new G(make());
  const typename G::JacobianTransposed jt = p->jacobianTransposed(x); const typename G::JacobianInverseTransposed ji = p->jacobianInverseTransposed(x);
  const auto j = p->jacobian(x); const auto jinv = p->jacobianInverse(x); const auto c = p->corner(0); const auto y = p->global(x);
  const auto re = referenceElement(*p);
  delete p;
  typename G::LocalCoordinate e(0); typename G::GlobalCoordinate f(0);
  for (int i = 0; i < dim; ++i) {
    e = 0; e[i] = 1;
    typename G::GlobalCoordinate u(0), v(0); jt.mtv(e, u); g.jacobianTransposed(x).mtv(e, v); for (int k = 0; k < cdim; ++k) v_eq(u[k], v[k], "results outlive the geometry");
    u = 0; v = 0; ji.mv(e, u); g.jacobianInverseTransposed(x).mv(e, v); for (int k = 0; k < cdim; ++k) v_eq(u[k], v[k], "results outlive the geometry");
    u = 0; v = 0; j.mv(e, u); g.jacobian(x).mv(e, v); for (int k = 0; k < cdim; ++k) v_eq(u[k], v[k], "results outlive the geometry");
  }
  for (int i = 0; i < cdim; ++i) {
    f = 0; f[i] = 1;
    typename G::LocalCoordinate u(0), v(0); jinv.mv(f, u); g.jacobianInverse(x).mv(f, v); for (int k = 0; k < dim; ++k) v_eq(u[k], v[k], "results outlive the geometry");
  }
  for (int k = 0; k < cdim; ++k) { v_eq(c[k], g.corner(0)[k], "results outlive the geometry"); v_eq(y[k], g.global(x)[k], "results outlive the geometry"); }
  v_true(re.type() == g.type() && re.size(0) == 1, "the reference element outlives the geometry");
}

template<int dim, int cdim> std::vector<FieldVector<double,cdim>> corners(unsigned id, int k)
{ // a non-degenerate element; everything but the shape of the first corner is fixed
  const auto r = ReferenceElements<double,dim>::general(GeometryType(id, dim));
  std::vector<FieldVector<double,cdim>> c(r.size(dim), FieldVector<double,cdim>(k));
  for (int i = 0; i < r.size(dim); ++i) for (int j = 0; j < dim; ++j) c[i][j] += (k + 1)*r.position(i, dim)[j]*(i == r.size(dim)-1 ? 1.5 : 1);
  return c;
}
template<template<class,int,int,class> class G_, int dim, int cdim> void multilinear()
{
  using G = G_<double,dim,cdim,MultiLinearGeometryTraits<double>>;
  for (unsigned id = 0; id < spec::ntopo(dim); id += dim > 0 ? 2 : 1) for (unsigned jd = 0; jd < spec::ntopo(dim); jd += dim > 0 ? 2 : 1) {
    v_label("dim", dim); v_label("cdim", cdim); v_label("shape", id); v_label("other", jd);
    auto make = [&]() { return G(GeometryType(id, dim), corners<dim,cdim>(id, 0)); };
    auto other = [&]() { return G(GeometryType(jd, dim), corners<dim,cdim>(jd, 1)); };
    ownership(make, other, [](const G& g) { return askGeometry(g); });
    if (id == jd) results(make);
  }
}
CHK(plain1) { multilinear<MultiLinearGeometry,1,1>(); }
CHK(plain2) { multilinear<MultiLinearGeometry,2,3>(); }
CHK(plain3) { multilinear<MultiLinearGeometry,3,3>(); }
CHK(cached1) { multilinear<CachedMultiLinearGeometry,1,2>(); }
CHK(cached2) { multilinear<CachedMultiLinearGeometry,2,2>(); }
CHK(cached3) { multilinear<CachedMultiLinearGeometry,3,3>(); }

template<int dim, int cdim> void affine()
{
  using G = AffineGeometry<double,dim,cdim>;
  v_label("dim", dim); v_label("cdim", cdim);
  auto any = [&](unsigned id, int k) { return [id, k]() { return G(GeometryType(id, dim), corners<dim,cdim>(id, k)); }; };
  auto ask = [](const G& g) { return askGeometry(g); };
  const unsigned cube = (1u << dim) - 1;
  ownership(any(0, 0), any(0, 1), ask); ownership(any(cube & 0, 0), any(0, 2), ask);
  results(any(0, 0));
  G g; g = any(0, 0)(); same(ask(g), ask(any(0, 0)()), "an assigned default object has the assigned contents");
}
CHK(affine) { affine<1,1>(); affine<2,2>(); affine<2,3>(); affine<3,3>(); }

template<int dim, int cdim> void axisAligned()
{
  using G = AxisAlignedCubeGeometry<double,dim,cdim>;
  v_label("dim", dim); v_label("cdim", cdim);
  static double lo[3], hi[3]; for (int j = 0; j < cdim; ++j) { lo[j] = v_real("lo", j); hi[j] = v_real("hi", j); }
  auto make = [&]() {
    FieldVector<double,cdim> a, b; for (int j = 0; j < cdim; ++j) { a[j] = lo[j]; b[j] = hi[j]; }
    if constexpr (dim == cdim) return G(a, b);
    else { std::bitset<cdim> s; for (int j = 0; j < dim; ++j) s[cdim-1-j] = true; for (int j = 0; j < cdim; ++j) if (!s[j]) b[j] = a[j]; return G(a, b, s); }
  };
  auto other = [&]() {
    FieldVector<double,cdim> a(1), b(3);
    if constexpr (dim == cdim) return G(a, b);
    else { std::bitset<cdim> s; for (int j = 0; j < dim; ++j) s[j] = true; for (int j = 0; j < cdim; ++j) if (!s[j]) b[j] = a[j]; return G(a, b, s); }
  };
  auto ask = [](const G& g) {
    Answers a; FieldVector<double,dim> x(0.25);
    for (int k = 0; k < g.corners(); ++k) { const auto c = g.corner(k); for (int j = 0; j < cdim; ++j) a.push_back(c[j]); }
    const auto y = g.global(x); for (int j = 0; j < cdim; ++j) a.push_back(y[j]);
    a.push_back(g.volume()); a.push_back(g.integrationElement(x));
    return a;
  };
  ownership(make, other, ask);
  G g(make()); g = other(); same(ask(g), ask(other()), "assignment replaces the contents");
}
CHK(axisAligned) { axisAligned<1,1>(); axisAligned<2,2>(); axisAligned<3,3>(); axisAligned<1,2>(); axisAligned<2,3>(); axisAligned<1,3>(); axisAligned<0,2>(); }

// user maps that own storage
template<int n> struct HeapMap
{
  std::vector<FieldVector<double,n>> row;
  explicit HeapMap(double s) : row(n, FieldVector<double,n>(0)) { for (int i = 0; i < n; ++i) { row[i][i] = s + i; if (i) row[i][0] = 0.5; } }
  FieldVector<double,n> operator()(const FieldVector<double,n>& x) const { FieldVector<double,n> y; for (int i = 0; i < n; ++i) y[i] = row[i]*x; return y; }
  friend auto derivative(const HeapMap& f) { return [f](const FieldVector<double,n>&) { FieldMatrix<double,n,n> m; for (int i = 0; i < n; ++i) m[i] = f.row[i]; return m; }; }
};
struct MapHolder { };
template<int n> void mapped()
{
  using L = AffineGeometry<double,n,n>; using G = MappedGeometry<HeapMap<n>, L>;
  v_label("dim", n);
  auto local = [](int k) { return L(GeometryTypes::simplex(n), corners<n,n>(0, k)); };
  auto make = [&]() { return G(HeapMap<n>(2), local(0)); };
  const G want(make());
  FieldVector<double,n> x; for (int j = 0; j < n; ++j) x[j] = 1./(4 << j);
  auto ask = [&](const G& g) {
    Answers a; for (int k = 0; k < g.corners(); ++k) { const auto c = g.corner(k); for (int j = 0; j < n; ++j) a.push_back(c[j]); }
    const auto y = g.global(x); for (int j = 0; j < n; ++j) a.push_back(y[j]);
    const auto jac = g.jacobian(x); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a.push_back(jac[i][j]);
    a.push_back(g.integrationElement(x));
    return a;
  };
  { G* p = new G(make()); G copy(*p); delete p; same(ask(copy), ask(want), "a copy outlives its source"); }
  { G* p = new G(make()); G moved(std::move(*p)); delete p; same(ask(moved), ask(want), "a moved object outlives its source"); }
  { // the geometry owns the map it was given and its derivative
    HeapMap<n>* f = new HeapMap<n>(2); L* l = new L(local(0)); G g(*f, *l); delete f; delete l;
    same(ask(g), ask(want), "the geometry outlives the map and the local geometry it was made from");
  }
  { std::vector<G> v; for (int k = 0; k < 3; ++k) v.push_back(make()); for (auto& g : v) same(ask(g), ask(want), "objects in a container keep their contents"); }
}
CHK(mapped) { mapped<1>(); mapped<2>(); mapped<3>(); }
template<int dim, int cdim, bool cube> void finiteElement()
{
  using FE = NodalFE<double,dim,cube>; using G = LocalFiniteElementGeometry<FE,cdim>;
  const unsigned id = cube ? (1u << dim) - 1 : 0;
  v_label("dim", dim); v_label("cdim", cdim);
  auto make = [&]() { return G(GeometryType(id, dim), FE(), corners<dim,cdim>(id, 0)); };
  auto other = [&]() { return G(GeometryType(id, dim), FE(), corners<dim,cdim>(id, 1)); };
  auto ask = [](const G& g) {
    Answers a; FieldVector<double,dim> x; for (int j = 0; j < dim; ++j) x[j] = 1./(4 << j);
    for (int k = 0; k < g.corners(); ++k) { const auto c = g.corner(k); for (int j = 0; j < cdim; ++j) a.push_back(c[j]); }
    const auto y = g.global(x); for (int j = 0; j < cdim; ++j) a.push_back(y[j]);
    const auto jac = g.jacobian(x); for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) a.push_back(jac[i][j]);
    a.push_back(g.integrationElement(x));
    return a;
  };
  ownership(make, other, ask);
  std::vector<FieldVector<double,cdim>>* c = new std::vector<FieldVector<double,cdim>>(corners<dim,cdim>(id, 0));
  G g(GeometryType(id, dim), FE(), *c); delete c;
  same(ask(g), ask(make()), "the geometry outlives the coefficients it was made from");
}
CHK(finiteElement) { finiteElement<1,1,false>(); finiteElement<2,2,false>(); finiteElement<2,3,true>(); finiteElement<3,3,false>(); }
template<int dim, int cdim> void fromTemporaries()
{
  for (unsigned id = 0; id < spec::ntopo(dim); id += 2) {
    v_label("dim", dim); v_label("shape", id);
    auto* c = new std::vector<FieldVector<double,cdim>>(corners<dim,cdim>(id, 0));
    MultiLinearGeometry<double,dim,cdim> g(GeometryType(id, dim), *c); CachedMultiLinearGeometry<double,dim,cdim> h(GeometryType(id, dim), *c);
    delete c;
    const MultiLinearGeometry<double,dim,cdim> w(GeometryType(id, dim), corners<dim,cdim>(id, 0));
    same(askGeometry(g), askGeometry(w), "the geometry outlives the corners it was made from"); same(askGeometry(h), askGeometry(w), "the geometry outlives the corners it was made from");
  }
}
CHK(temporaries) { fromTemporaries<1,1>(); fromTemporaries<2,2>(); fromTemporaries<3,3>(); }

// quadrature rules are containers of values
template<int dim> Answers askRule(const QuadratureRule<double,dim>& r)
{
  Answers a; a.push_back(r.type().id() >> 1); a.push_back(r.order());
  for (const auto& p : r) { a.push_back(p.weight()); for (int j = 0; j < dim; ++j) a.push_back(p.position()[j]); }
  return a;
}
template<int dim> void rules()
{
  for (unsigned id = 0; id < spec::ntopo(dim); id += dim > 0 ? 2 : 1) for (int o = 0; o < 4; ++o) {
    v_label("dim", dim); v_label("shape", id); v_label("order", o);
    const QuadratureRule<double,dim>& shared = QuadratureRules<double,dim>::rule(GeometryType(id, dim), o);
    const Answers before = askRule<dim>(shared);
    ownership([&]() { return QuadratureRule<double,dim>(shared); }, [&]() { return QuadratureRule<double,dim>(QuadratureRules<double,dim>::rule(GeometryType(0, dim), 5)); }, [](const QuadratureRule<double,dim>& r) { return askRule<dim>(r); });
    QuadratureRule<double,dim> mine(shared); mine.clear(); mine.push_back(QuadraturePoint<double,dim>(FieldVector<double,dim>(7), 7));
    same(askRule<dim>(shared), before, "changing a copy leaves the shared rule");
  }
}
CHK(rules1) { rules<1>(); }
CHK(rules2) { rules<2>(); }
CHK(rules3) { rules<3>(); }
CHK(rules0) { rules<0>(); }
template<int dim> void composite()
{
  v_label("dim", dim);
  using C = CompositeQuadratureRule<double,dim>;
  auto* base = new QuadratureRule<double,dim>(QuadratureRules<double,dim>::rule(GeometryTypes::simplex(dim), 2));
  const C r(*base, refinementIntervals(2)); const Answers want = askRule<dim>(C(*base, refinementIntervals(2)));
  delete base;
  same(askRule<dim>(r), want, "a composite rule outlives its base rule");
  C copy(r); same(askRule<dim>(copy), want, "a copy equals its source");
}
CHK(composite) { composite<1>(); composite<2>(); composite<3>(); }

// vertex orders and their iterators
template<int dim> void orders()
{
  using O = GeneralVertexOrder<dim, int>;
  for (unsigned id = 0; id < spec::ntopo(dim); id += 2) {
    v_label("dim", dim); v_label("shape", id);
    const int n = spec::count(id, dim, dim);
    auto make = [&]() { int ids[16]; for (int k = 0; k < n; ++k) ids[k] = (7*k + 3) % 17; return O(GeometryType(id, dim), +ids, ids + n); };
    auto other = [&]() { int ids[16]; for (int k = 0; k < n; ++k) ids[k] = -k; return O(GeometryType(id, dim), +ids, ids + n); };
    auto ask = [&](const O& o) {
      Answers a;
      for (int c = 0; c <= dim; ++c) for (int i = 0; i < spec::count(id, dim, c); ++i) { for (auto it = o.begin(c, i); it != o.end(c, i); ++it) a.push_back(*it); std::vector<int> red; o.getReduced(c, i, red); for (int k : red) a.push_back(k); }
      return a;
    };
    ownership(make, other, ask);
    typename O::iterator it; const O o(make()); it = o.begin(0, 0); v_eqi(*it, *o.begin(0, 0), "an assigned default iterator points to the element");
    v_eqi(it[n-1], *(o.end(0, 0) - 1), "iterator arithmetic stays inside the element");
  }
}
CHK(orders1) { orders<1>(); }
CHK(orders2) { orders<2>(); }
CHK(orders3) { orders<3>(); }

// refinement iterators, type-erased and static
template<class I> void iterators(I begin, I end, int n)
{
  auto ask = [](const I& i) { Answers a; a.push_back(i.index()); const auto x = i.coords(); for (std::size_t j = 0; j < x.size(); ++j) a.push_back(x[j]); return a; };
  ownership([&]() { return begin; }, [&]() { I i(begin); for (int k = 0; k + 1 < n; ++k) ++i; return i; }, ask);
  std::vector<I> all; for (I i(begin); i != end; ++i) all.push_back(i);
  v_eqi(all.size(), n, "every position can be stored");
  for (int k = n; k-- > 0; ) v_eqi(all[k].index(), k, "stored iterators keep their position");
}
template<class P> void refinement(int n)
{
  v_label("dim", P::dim); v_label("shape", P::element); v_label("into", P::sub);
  const auto tag = refinementIntervals(n);
  using S = typename P::Static;
  iterators(S::vBegin(tag), S::vEnd(tag), P::vertices(n)); iterators(S::eBegin(tag), S::eEnd(tag), P::elements(n));
  auto& r = buildRefinement<P::dim, double>(GeometryType(P::element, P::dim), GeometryType(P::sub, P::dim));
  iterators(r.vBegin(tag), r.vEnd(tag), P::vertices(n)); iterators(r.eBegin(tag), r.eEnd(tag), P::elements(n));
  // what an iterator returned outlives it
  auto* it = new decltype(r.eBegin(tag))(r.eBegin(tag)); const auto ids = it->vertexIndices(), want = r.eBegin(tag).vertexIndices(); delete it;
  for (std::size_t k = 0; k < ids.size(); ++k) v_eqi(ids[k], want[k], "results outlive the iterator");
}
CHK(refineLine) { refinement<Line>(3); }
CHK(refineTriangle) { refinement<Triangle>(2); }
CHK(refineQuad) { refinement<Quad>(2); refinement<QuadSimplex>(2); }
CHK(refineTet) { refinement<Tet>(2); }
CHK(refineHex) { refinement<Hex>(2); refinement<HexSimplex>(1); }
CHK(refinePrism) { refinement<PrismSimplex>(1); }
CHK(refinePyramid) { refinement<PyramidSimplex>(1); }

// reference elements: handles are views of data that lives until the end
template<int dim> void handles()
{
  v_label("dim", dim);
  using R = ReferenceElements<double,dim>; using H = typename R::ReferenceElement;
  for (unsigned id = 0; id < spec::ntopo(dim); id += dim > 0 ? 2 : 1) {
    v_label("shape", id);
    auto ask = [&](const H& h) {
      Answers a; a.push_back(h.type().id() >> 1); a.push_back(h.volume());
      for (int c = 0; c <= dim; ++c) for (int i = 0; i < h.size(c); ++i) {
        a.push_back(h.type(i, c).id() >> 1); const auto x = h.position(i, c); for (int j = 0; j < dim; ++j) a.push_back(x[j]);
        for (int cc = c; cc <= dim; ++cc) for (int k = 0; k < h.size(i, c, cc); ++k) a.push_back(h.subEntity(i, c, k, cc));
      }
      if constexpr (dim > 0) for (int f = 0; f < h.size(1); ++f) { const auto m = h.integrationOuterNormal(f); for (int j = 0; j < dim; ++j) a.push_back(m[j]); }
      return a;
    };
    ownership([&]() { return H(R::general(GeometryType(id, dim))); }, [&]() { return H(R::general(GeometryType(0, dim))); }, ask);
    auto* h = new H(R::general(GeometryType(id, dim))); const auto g = h->template geometry<0>(0); const auto range = h->subEntities(0, 0, dim); delete h;
    v_eqi(g.corners(), spec::count(id, dim, dim), "embeddings outlive the handle"); int k = 0; for (auto i : range) v_eqi(i, k++, "ranges outlive the handle");
  }
}
CHK(handles0) { handles<0>(); }
CHK(handles1) { handles<1>(); }
CHK(handles2) { handles<2>(); }
CHK(handles3) { handles<3>(); }
