// Refined elements tile the reference element and share its vertices.
#include <v.hh>
#include <refine.hh>
#include <vector>
using namespace Dune;

// is the point (times n a lattice point or not) inside the reference element, by its recursive definition
template<class X> bool inside(unsigned id, int dim, const X& x, double scale)
{
  for (int d = dim; d > 0; --d) {
    const double c = x[d-1];
    if (c < 0 || c > scale) return false;
    if (!spec::prism(id, d)) scale -= c;
  }
  return true;
}
double det(const double (&m)[4][4], int n)
{
  if (n == 1) return m[0][0];
  if (n == 2) return m[0][0]*m[1][1] - m[0][1]*m[1][0];
  double s = 0;
  for (int c = 0; c < n; ++c) {
    double q[4][4] = {};
    for (int i = 1; i < n; ++i) for (int j = 0, k = 0; j < n; ++j) if (j != c) q[i-1][k++] = m[i][j];
    s += (c % 2 ? -1. : 1.) * m[0][c] * det(q, n-1);
  }
  return s;
}
template<class P> void tile(int n)
{
  using R = typename P::Static;
  constexpr int dim = P::dim, corners = P::cubes ? 1 << dim : dim+1;
  const auto tag = refinementIntervals(n);
  v_label("n", n);
  std::vector<FieldVector<double,dim>> vertex;
  for (auto it = R::vBegin(tag), end = R::vEnd(tag); it != end; ++it) {
    v_label("vertex", it.index());
    const auto x = it.coords();
    v_true(inside(P::element, dim, x, 1), "vertices lie inside the reference element");
    const auto g = it.geometry();
    v_true(g.type() == GeometryTypes::vertex && g.corners() == 1, "the geometry of a vertex is a point");
    for (int j = 0; j < dim; ++j) {
      v_eq(n*x[j], double(int(n*x[j] + 0.5)), "vertices are points of the n-fold subdivision");
      v_eq(g.corner(0)[j], x[j], "the geometry of a vertex is its coordinate");
      v_eq(g.center()[j], x[j], "the geometry of a vertex is its coordinate");
      v_eq(g.global(FieldVector<double,0>())[j], x[j], "the geometry of a vertex is its coordinate");
    }
    vertex.push_back(x);
  }
  v_label("vertex", -1);
  std::vector<FieldVector<double,dim>> centre;
  std::vector<std::vector<FieldVector<double,dim>>> cell;
  double volume = 0, reference = double(P::pieces()); 
  double factorial = 1; for (int i = 2; i <= dim; ++i) factorial *= i;
  if (!P::cubes) reference /= factorial;
  for (auto it = R::eBegin(tag), end = R::eEnd(tag); it != end; ++it) {
    v_label("element", it.index());
    const auto g = it.geometry();
    const auto v = it.vertexIndices();
    v_true(g.type() == GeometryType(P::sub, dim), "an element has the requested shape");
    v_eqi(g.corners(), corners, "an element has the corners of its shape");
    v_eqi(v.size(), corners, "an element lists one vertex for every corner");
    FieldVector<double,dim> mean(0.0);
    std::vector<FieldVector<double,dim>> c;
    bool used[16] = {};
    for (int k = 0; k < corners; ++k) {
      c.push_back(g.corner(k));
      mean += c[k];
      v_true(inside(P::element, dim, c[k], 1), "elements lie inside the reference element");
      if (P::cubes) for (int j = 0; j < dim; ++j)
        v_eq(c[k][j], vertex[v[k]][j], "corner coordinates are those of the listed vertices, in order");
      else {
        bool found = false;
        for (int l = 0; l < corners && !found; ++l) {
          bool same = !used[l];
          for (int j = 0; j < dim; ++j) same = same && n*(c[k][j] - vertex[v[l]][j]) < 0.25 && n*(c[k][j] - vertex[v[l]][j]) > -0.25;
          if (!same) continue;
          found = used[l] = true;
          for (int j = 0; j < dim; ++j) v_eq(c[k][j], vertex[v[l]][j], "corner coordinates are those of the listed vertices");
        }
        v_true(found, "every corner is one of the listed vertices");
      }
    }
    mean /= corners;
    const auto x = it.coords();
    for (int j = 0; j < dim; ++j) { v_eq(x[j], mean[j], "the centre is the centre of the corners"); v_eq(g.center()[j], mean[j], "the geometry has the same centre"); }
    // volume, from the corners and as reported
    double m[4][4] = {};
    for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) m[i][j] = n*(c[P::cubes ? (1 << i) : i+1][j] - c[0][j]);
    double det_ = det(m, dim); if (det_ < 0) det_ = -det_;
    v_eq(det_, 1, "elements have the volume of a uniform subdivision");
    if (P::cubes) for (int k = 0; k < corners; ++k) for (int j = 0; j < dim; ++j) {
      double s = c[0][j]; for (int i = 0; i < dim; ++i) if (k >> i & 1) s += c[1 << i][j] - c[0][j];
      v_eq(c[k][j], s, "elements are parallel copies of the element");
    }
    double vol = 1; for (int i = 0; i < dim; ++i) vol /= n;
    if (!P::cubes) vol /= factorial;
    v_eq(g.volume(), vol, "reported volume");
    volume += g.volume();
    centre.push_back(x); cell.push_back(c);
  }
  v_label("element", -1);
  v_eq(volume, reference, "the volumes add up to that of the reference element");
  // the centre of no element lies in another one
  for (unsigned e = 0; e < cell.size(); ++e) {
    const auto& c = cell[e];
    double m[4][4] = {}; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) m[i][j] = n*(c[P::cubes ? (1 << i) : i+1][j] - c[0][j]);
    const double D = det(m, dim);
    double lo[4], hi[4];
    for (int j = 0; j < dim; ++j) { lo[j] = hi[j] = c[0][j]; for (const auto& q : c) { if (q[j] < lo[j]) lo[j] = q[j]; if (q[j] > hi[j]) hi[j] = q[j]; } }
    unsigned inThis = 0;
    for (unsigned f = 0; f < cell.size(); ++f) {
      bool may = true; for (int j = 0; j < dim; ++j) may = may && centre[f][j] > lo[j] && centre[f][j] < hi[j];
      if (!may) continue;
      double sum = 0; bool in = true;
      for (int i = 0; i < dim; ++i) {
        double q[4][4]; for (int a = 0; a < dim; ++a) for (int j = 0; j < dim; ++j) q[a][j] = a == i ? n*(centre[f][j] - c[0][j]) : m[a][j];
        const double b = det(q, dim) / D; sum += b; if (b < 1e-9 || b > 1 - 1e-9) in = false;
      }
      if (!P::cubes && sum > 1 - 1e-9) in = false;
      if (in) ++inThis;
    }
    v_label("element", e);
    v_eqi(inThis, 1, "the elements do not overlap");
  }
}
template<class P> void all(int upTo)
{
  v_exact(1);
  v_label("dim", P::dim); v_label("shape", P::element); v_label("into", P::sub);
  for (int n = 1; n <= upTo; ++n) tile<P>(n);
}
#ifdef VERIF_THOROUGH
constexpr int more = 1;
#else
constexpr int more = 0;
#endif
CHK(line) { all<Line>(12 + 8*more); }
CHK(lineCube) { all<LineCube>(6 + 6*more); }
CHK(triangle) { all<Triangle>(7 + 4*more); }
CHK(triangle1) { all<Triangle1>(2); }
CHK(quad) { all<Quad>(7 + 4*more); }
CHK(quad2) { all<Quad2>(2); }
CHK(quadSimplex) { all<QuadSimplex>(6 + 3*more); }
CHK(tet) { all<Tet>(5 + more); }
CHK(hex) { all<Hex>(5 + more); }
CHK(hexSimplex) { all<HexSimplex>(3 + more); }
CHK(hexMixed) { all<HexMixed>(2); }
CHK(prism) { all<PrismSimplex>(4 + more); }
CHK(prism4) { all<Prism4>(2); }
CHK(pyramid) { all<PyramidSimplex>(4 + more); }
CHK(pyramid2) { all<Pyramid2>(2); }
CHK(simplex4) { all<Simplex4>(2 + more); }
CHK(cube4) { all<Cube4>(2 + more); }
CHK(cube4Simplex) { all<Cube4Simplex>(1 + more); }

// fine subdivisions: the elements along the way still refer to their own corners
template<class P> void fine(int n, long upTo)
{
  v_exact(1);
  using R = typename P::Static;
  constexpr int dim = P::dim, corners = P::cubes ? 1 << dim : dim+1;
  const auto tag = refinementIntervals(n);
  v_label("dim", P::dim); v_label("shape", P::element); v_label("into", P::sub); v_label("n", n);
  std::vector<FieldVector<double,dim>> vertex;
  for (auto it = R::vBegin(tag), end = R::vEnd(tag); it != end; ++it) {
    const auto x = it.coords();
    if (!inside(P::element, dim, x, 1)) { v_label("vertex", it.index()); v_true(false, "vertices lie inside the reference element"); return; }
    vertex.push_back(x);
  }
  double volume = 0, cell = 1; for (int i = 0; i < dim; ++i) cell /= n;
  if (!P::cubes) for (int i = 2; i <= dim; ++i) cell /= i;
  long e = 0;
  for (auto it = R::eBegin(tag), end = R::eEnd(tag); it != end; ++it, ++e) {
    const auto v = it.vertexIndices();
    FieldVector<double,dim> mean(0.0), o = vertex[v[0]];
    for (int k = 0; k < corners; ++k) mean += vertex[v[k]];
    mean /= corners;
    const auto x = it.coords();
    for (int j = 0; j < dim; ++j) if (x[j] != mean[j]) { v_label("element", e); v_eq(x[j], mean[j], "the centre is the centre of the listed vertices"); return; }
    double m[4][4] = {};
    for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) m[i][j] = n*(vertex[v[P::cubes ? (1 << i) : i+1]][j] - o[j]);
    const double d = det(m, dim);
    if (d != 1 && d != -1) { v_label("element", e); v_eq(d*d, 1, "elements have the volume of a uniform subdivision"); return; }
    if (e % upTo == 0) {
      v_label("element", e);
      const auto g = it.geometry();
      for (int j = 0; j < dim; ++j) v_eq(g.center()[j], x[j], "the geometry has the same centre");
      v_eq(g.volume(), cell, "reported volume");
    }
    volume += cell;
  }
  v_eq(volume, double(P::elements(n))*cell, "the volumes add up to that of the reference element");
}
CHK(fineLine) { fine<Line>(70000, 7000); }
CHK(fineTriangle) { fine<Triangle>(262, 7000); }
CHK(fineQuad) { fine<Quad>(262, 7000); }
CHK(fineQuadSimplex) { fine<QuadSimplex>(140, 7000); }
CHK(finePrism) { fine<PrismSimplex>(16, 1000); }
CHK(finePyramid) { fine<PyramidSimplex>(16, 1000); }
CHK(fineHexSimplex) { fine<HexSimplex>(13, 1000); }
CHK(fineTet) { fine<Tet>(26, 1000); }
CHK(fineHex) { fine<Hex>(26, 1000); }
