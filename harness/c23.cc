// Run-time selected refinement equals the compile-time one.
#include <v.hh>
#include <refine.hh>
#include <dune/geometry/virtualrefinement.hh>
using namespace Dune;

template<class P> auto& build(unsigned e, unsigned s) { return buildRefinement<P::dim, typename P::ct>(GeometryType(e, P::dim), GeometryType(s, P::dim)); }

template<class P> void same(int n)
{
  using R = typename P::Static;
  constexpr int dim = P::dim;
  auto& r = build<P>(P::element, P::sub);
  for (int kind = 0; kind < 2; ++kind) {
    const auto tag = kind ? refinementLevels(n) : refinementIntervals(n);
    const int N = kind ? 1 << n : n;
    v_label(kind ? "level" : "n", n);
    v_eqi(r.nVertices(tag), P::vertices(N), "number of vertices");
    v_eqi(r.nElements(tag), P::elements(N), "number of elements");
    long k = 0;
    {
      auto s = R::vBegin(tag); auto v = r.vBegin(tag); const auto vEnd = r.vEnd(tag);
      for (; v != vEnd && k <= P::vertices(N); ++v, ++s, ++k) {
        v_eqi(v.index(), s.index(), "vertex index");
        const auto a = v.coords(), b = s.coords();
        for (int j = 0; j < dim; ++j) v_eq(a[j], b[j], "vertex coordinates");
      }
      v_eqi(k, P::vertices(N), "iteration visits all vertices");
    }
    {
      k = 0;
      auto s = R::eBegin(tag); auto v = r.eBegin(tag); const auto vEnd = r.eEnd(tag);
      for (; v != vEnd && k <= P::elements(N); ++v, ++s, ++k) {
        v_eqi(v.index(), s.index(), "element index");
        const auto a = v.coords(), b = s.coords();
        for (int j = 0; j < dim; ++j) v_eq(a[j], b[j], "element centre");
        const auto p = v.vertexIndices(); const auto q = s.vertexIndices();
        v_eqi(p.size(), q.size(), "number of listed vertices");
        for (unsigned i = 0; i < p.size() && i < q.size(); ++i) v_eqi(p[i], q[i], "listed vertices");
      }
      v_eqi(k, P::elements(N), "iteration visits all elements");
    }
  }
}

// iterators are values that own what they refer to
template<class I> void values(const I& begin, const I& end)
{
  I a(begin), b(begin);
  v_true(a == b && !(a != b) && a != end, "copies are equal");
  const int first = a.index(); const auto x = a.coords();
  ++a;
  v_true(a != b && !(a == b), "advancing a copy leaves the original");
  v_eqi(b.index(), first, "advancing a copy leaves the original");
  v_eqi(a.index(), first+1, "advancing moves to the next index");
  I c = a++;                                                  // post-increment
  v_eqi(c.index(), first+1, "post-increment returns the old position");
  v_eqi(a.index(), first+2, "post-increment advances");
  b = c; v_true(b == c, "assigned iterators are equal");
  ++c;
  v_true(b != c && c == a, "assigned iterators are independent");
  v_eqi(b.index(), first+1, "assigned iterators are independent");
  b = a; a = I(begin);
  v_eqi(b.index(), first+2, "assigned iterators own their position");
  v_eqi(a.index(), first, "assigned iterators own their position");
  for (int j = 0; j < int(x.size()); ++j) v_eq(a.coords()[j], x[j], "assigned iterators own their position");
  { I d(b); b = d; }
  v_eqi(b.index(), first+2, "assigned iterators outlive the source");
  I& self = b; b = self;
  v_eqi(b.index(), first+2, "self-assignment keeps the position");
  ++b;
  v_eqi(b.index(), first+3, "a self-assigned iterator advances");
  (b = a) = I(end);
  v_true(b == end, "assignment returns the assigned iterator");
}
template<class P> void all(int upTo, int levelTo)
{
  v_label("dim", P::dim); v_label("shape", P::element); v_label("into", P::sub);
  for (int n = 1; n <= upTo; ++n) same<P>(n <= levelTo ? n : upTo);
  auto& r = build<P>(P::element, P::sub);
  const auto tag = refinementIntervals(P::dim == 1 ? 6 : 3);
  values(r.vBegin(tag), r.vEnd(tag));
  values(r.eBegin(tag), r.eEnd(tag));
  v_true(r.vBegin(tag) != r.vBegin(refinementIntervals(2)), "iterators of different subdivisions differ");
  v_true(r.eBegin(tag) != r.eBegin(refinementIntervals(2)), "iterators of different subdivisions differ");
}
CHK(line) { all<Line>(3, 3); }
CHK(triangle) { all<Triangle>(3, 3); }
CHK(quad) { all<Quad>(3, 3); }
CHK(quadSimplex) { all<QuadSimplex>(3, 3); }
CHK(tet) { all<Tet>(2, 2); }
CHK(hex) { all<Hex>(2, 2); }
CHK(hexSimplex) { all<HexSimplex>(2, 2); }
CHK(prism) { all<PrismSimplex>(2, 2); }
CHK(pyramid) { all<PyramidSimplex>(2, 2); }
CHK(simplex4) { all<Simplex4>(1, 1); }
CHK(cube4) { all<Cube4>(1, 1); }
CHK(cube4Simplex) { all<Cube4Simplex>(1, 1); }
CHK(lineFloat) { all<Pair<0,0,1,float>>(2, 2); }
CHK(quadFloat) { all<Pair<3,3,2,float>>(2, 2); }
CHK(pyramidFloat) { all<Pair<3,0,3,float>>(1, 1); }

// every pair of shapes: the same refinement for every spelling of the pair, an error if there is none
template<class P> bool is(unsigned e, unsigned s) { return e >> 1 == P::element >> 1 && s >> 1 == P::sub >> 1; }
template<class P, class Q = P> void expect(unsigned e, unsigned s, bool& known)
{
  if (!is<P>(e, s)) return;
  known = true;
  v_eqp(&build<P>(e, s), &build<P>(P::element, P::sub), "the same pair of shapes gives the same object");
  v_eqi(build<P>(e, s).nElements(refinementIntervals(2)), P::elements(2), "the object refines the requested shape");
  v_eqi(build<P>(e, s).nVertices(refinementIntervals(2)), P::vertices(2), "the object refines the requested shape");
  auto it = build<P>(e, s).eBegin(refinementIntervals(1));
  v_eqi(it.vertexIndices().size(), P::cubes ? 1 << P::dim : P::dim+1, "the object has sub-elements of the requested shape");
}
template<int dim, class... P> void pairs()
{
  v_label("dim", dim);
  for (unsigned e = 0; e < (1u << dim); ++e) for (unsigned s = 0; s < (1u << dim); ++s) {
    v_label("shape", e); v_label("into", s);
    bool known = false;
    (expect<P>(e, s, known), ...);
    if (!known)
      v_eqi(v_try([&]{ (void)buildRefinement<dim,double>(GeometryType(e, dim), GeometryType(s, dim)); }, "NotImplemented"), 1, "a refinement that does not exist is refused");
  }
}
template<int dim> void shapeless()
{
  v_label("dim", dim);
  for (unsigned s = 0; s < (1u << dim); ++s) {
    v_label("shape", s);
    const GeometryType t(s, dim), n = GeometryTypes::none(dim);
    v_eqi(v_try([&]{ (void)buildRefinement<dim,double>(n, t); }, "NotImplemented"), 1, "a type without a shape is refused");
    v_eqi(v_try([&]{ (void)buildRefinement<dim,double>(t, n); }, "NotImplemented"), 1, "a type without a shape is refused");
  }
}
CHK(shapeless) { shapeless<1>(); shapeless<2>(); shapeless<3>(); }
CHK(pairs1) { pairs<1, Line>(); }
CHK(pairs2) { pairs<2, Triangle, Quad, QuadSimplex>(); }
CHK(pairs3) { pairs<3, Tet, Hex, HexSimplex, PrismSimplex, PyramidSimplex>(); }
CHK(pairs4) { pairs<4, Simplex4, Cube4, Cube4Simplex>(); }
// different refinements of one dimension
CHK(mixed) {
  const auto tag = refinementIntervals(2);
  auto& q = build<Quad>(3, 3); auto& s = build<QuadSimplex>(3, 0); auto& t = build<Triangle>(0, 0);
  v_true(q.eBegin(tag) != s.eBegin(tag) && s.eBegin(tag) != t.eBegin(tag) && t.vBegin(tag) != q.vBegin(tag), "iterators of different refinements differ");
  auto it = q.eBegin(tag); ++it;
  it = s.eBegin(tag);
  v_eqi(it.vertexIndices().size(), 3, "an iterator can be assigned from another refinement of its dimension");
  v_eqi(it.index(), 0, "an iterator can be assigned from another refinement of its dimension");
  ++it; it = q.eBegin(tag);
  v_eqi(it.vertexIndices().size(), 4, "an iterator can be assigned from another refinement of its dimension");
}
