// Refinements count and number their vertices and elements consistently.
#include <v.hh>
#include <refine.hh>
using namespace Dune;

template<class P> void enumerate(int n)
{
  using R = typename P::Static;
  const auto tag = refinementIntervals(n);
  v_label("n", n);
  long i = 0;
  for (auto it = R::vBegin(tag), end = R::vEnd(tag); it != end; ++it, ++i) {
    if (i > P::vertices(n)) break;
    v_eqi(it.index(), i, "vertices come in the order of their indices");
  }
  v_eqi(i, P::vertices(n), "iteration visits as many vertices as the subdivision has");
  v_eqi(R::nVertices(tag), i, "advertised number of vertices");
  i = 0;
  for (auto it = R::eBegin(tag), end = R::eEnd(tag); it != end; ++it, ++i) {
    if (i > P::elements(n)) break;
    v_eqi(it.index(), i, "elements come in the order of their indices");
    const auto v = it.vertexIndices();
    for (unsigned k = 0; k < v.size(); ++k) v_true(v[k] >= 0 && v[k] < P::vertices(n), "elements refer to existing vertices");
  }
  v_eqi(i, P::elements(n), "iteration visits as many elements as the subdivision has");
  v_eqi(R::nElements(tag), i, "advertised number of elements");
  // iterators are values
  auto a = R::vBegin(tag), b = a; v_true(a == b && !(a != b), "a copied iterator is equal");
  auto c = a++; v_true(c == b && a != b && a.index() == 1 && c.index() == 0, "post-increment returns the old position");
  ++b; v_true(a == b, "equal positions are equal");
  auto e = R::eBegin(tag), f = e; v_true(e == f && !(e != f), "a copied iterator is equal");
  ++f; v_true(e != f && e.index() == 0 && f.index() == 1, "a copied iterator is independent");
}
template<class P> void counts(int upTo)
{
  using R = typename P::Static;
  for (int n = 1; n <= upTo; ++n) {
    v_label("n", n);
    v_eqi(R::nVertices(refinementIntervals(n)), P::vertices(n), "advertised number of vertices");
    v_eqi(R::nElements(refinementIntervals(n)), P::elements(n), "advertised number of elements");
  }
}
template<class P> void levels(int upTo)
{
  using R = typename P::Static;
  for (int l = 0; l <= upTo; ++l) {
    v_label("level", l);
    v_eqi(R::nVertices(refinementLevels(l)), P::vertices(1L << l), "a level doubles the intervals");
    v_eqi(R::nElements(refinementLevels(l)), P::elements(1L << l), "a level doubles the intervals");
    if (l > 2) continue;
    auto a = R::vBegin(refinementLevels(l)); auto b = R::vBegin(refinementIntervals(1 << l));
    v_true(a == b, "levels and intervals give the same refinement");
    auto c = R::eBegin(refinementLevels(l)); auto d = R::eBegin(refinementIntervals(1 << l));
    v_true(c == d, "levels and intervals give the same refinement");
    v_true(R::vEnd(refinementLevels(l)) == R::vEnd(refinementIntervals(1 << l)) && R::eEnd(refinementLevels(l)) == R::eEnd(refinementIntervals(1 << l)), "levels and intervals give the same refinement");
  }
}
template<class P> void all(int upTo, int countsTo, int levelsTo)
{
  v_label("dim", P::dim); v_label("shape", P::element); v_label("into", P::sub);
  for (int n = 1; n <= upTo; ++n) enumerate<P>(n);
  counts<P>(countsTo); levels<P>(levelsTo);
}
#ifdef VERIF_THOROUGH
constexpr int more = 2;
#else
constexpr int more = 1;
#endif
CHK(line) { all<Line>(40*more, 1000, 20); }
CHK(lineCube) { all<LineCube>(20*more, 1000, 20); }
CHK(triangle) { all<Triangle>(16*more, 500, 12); }
CHK(triangle1) { all<Triangle1>(4, 20, 4); }
CHK(quad) { all<Quad>(16*more, 500, 12); }
CHK(quad2) { all<Quad2>(4, 20, 4); }
CHK(quadSimplex) { all<QuadSimplex>(12*more, 500, 12); }
CHK(tet) { all<Tet>(9*more, 300, 8); }
CHK(hex) { all<Hex>(9*more, 300, 8); }
CHK(hexSimplex) { all<HexSimplex>(6*more, 300, 8); }
CHK(hexMixed) { all<HexMixed>(3, 20, 4); }
CHK(prism) { all<PrismSimplex>(7*more, 300, 8); }
CHK(prism4) { all<Prism4>(3, 20, 4); }
CHK(pyramid) { all<PyramidSimplex>(7*more, 300, 8); }
CHK(pyramid2) { all<Pyramid2>(3, 20, 4); }
CHK(simplex4) { all<Simplex4>(5*more, 60, 5); }
CHK(cube4) { all<Cube4>(5*more, 60, 5); }
CHK(cube4Simplex) { all<Cube4Simplex>(3*more, 60, 5); }
// subdivisions beyond the range of narrow counters
template<class P> void large(int n, bool elements = true)
{
  using R = typename P::Static;
  const auto tag = refinementIntervals(n);
  v_label("dim", P::dim); v_label("shape", P::element); v_label("into", P::sub); v_label("n", n);
  long i = 0;
  for (auto it = R::vBegin(tag), end = R::vEnd(tag); it != end && i <= P::vertices(n); ++it, ++i)
    if (it.index() != i) { v_label("vertex", i); v_eqi(it.index(), i, "vertices come in the order of their indices"); return; }
  v_eqi(i, P::vertices(n), "iteration visits as many vertices as the subdivision has");
  if (!elements) return;
  i = 0; long most = 0;
  for (auto it = R::eBegin(tag), end = R::eEnd(tag); it != end && i <= P::elements(n); ++it, ++i) {
    if (it.index() != i) { v_label("element", i); v_eqi(it.index(), i, "elements come in the order of their indices"); return; }
    for (long v : it.vertexIndices()) { if (v < 0) { v_label("element", i); v_eqi(v, 0, "elements refer to existing vertices"); return; } if (v > most) most = v; }
  }
  v_eqi(i, P::elements(n), "iteration visits as many elements as the subdivision has");
  v_eqi(most, P::vertices(n)-1, "elements refer to every vertex, up to the last one");
}
CHK(largeLine) { large<Line>(70000); }
CHK(largeTriangle) { large<Triangle>(270); }
CHK(largeQuad) { large<Quad>(260); }
CHK(largeQuadSimplex) { large<QuadSimplex>(190); }
CHK(largePrism) { large<PrismSimplex>(40); }
CHK(largePyramid) { large<PyramidSimplex>(46); }
CHK(largeHexSimplex) { large<HexSimplex>(31); }
CHK(levels) {
  for (int l = 0; l < 30; ++l) { v_label("level", l); v_eqi(refinementLevels(l).intervals(), 1L << l, "a level doubles the intervals"); }
  const int n = v_int("n");
  v_eqi(refinementIntervals(n).intervals(), n, "the tag stores the number of intervals");
}
