// Matrix routines and the inverse Jacobians / integration elements built on them.
#include <models.hh>
#include <dune/geometry/utility/defaultmatrixhelper.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
using namespace Dune;
using H = Impl::FieldMatrixHelper<double>;
// results must not depend on what the output held before
template<class R> void stale(R& r) { int k = 0; for (auto&& row : r) for (auto& e : row) e = v_real("stale", k++); }
template<int n> void stale(FieldVector<double,n>& r) { int k = 0; for (auto& e : r) e = v_real("stale", k++); }

// A is m x n, m <= n, full row rank
template<int m, int n> void right()
{
  v_label("rows", m); v_label("columns", n);
  const auto A = symbolicMatrix<double,m,n>("a");
  assumeFullRank<m,n>(A);
  const auto g = gram<m,n>(A); const double d = det(g.g, m);
  const double s = H::sqrtDetAAT(A);
  v_eq(s*s, d, "square of sqrt(det(A A^T))"); v_true(s >= 0, "sqrt(det(A A^T)) is not negative");
  FieldMatrix<double,n,m> R; stale(R);
  const double r = H::rightInvA(A, R);
  v_eq(r*r, d, "square of the determinant returned with the right inverse"); v_true(r >= 0, "returned determinant is not negative");
  for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k) {
    double t = 0; for (int j = 0; j < m; ++j) t += g.g[i][j]*R[k][j];
    v_eq(t, A[i][k], "right inverse is A^T (A A^T)^-1");
  }
  const auto x = symbolicVector<double,n>("x"); FieldVector<double,m> y; stale(y);
  v_true(H::xTRightInvA(A, x, y), "a full-rank matrix is reported invertible");
  for (int i = 0; i < m; ++i) {
    double t = 0, u = 0; for (int j = 0; j < m; ++j) t += g.g[i][j]*y[j]; for (int k = 0; k < n; ++k) u += A[i][k]*x[k];
    v_eq(t, u, "x^T times the right inverse");
  }
}
template<int m, int n> void left()   // A is m x n, m >= n, full column rank
{
  v_label("rows", m); v_label("columns", n);
  const auto A = symbolicMatrix<double,m,n>("a");
  FieldMatrix<double,n,m> T; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) T[j][i] = A[i][j];
  assumeFullRank<n,m>(T);
  const auto g = gram<n,m>(T); const double d = det(g.g, n);
  const double s = H::detATA(A);
  v_eq(s*s, d, "square of sqrt(det(A^T A))"); v_true(s >= 0, "sqrt(det(A^T A)) is not negative");
  FieldMatrix<double,n,m> L; stale(L);
  const double r = H::leftInvA(A, L);
  v_eq(r*r, d, "square of the determinant returned with the left inverse"); v_true(r >= 0, "returned determinant is not negative");
  for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) {
    double t = 0; for (int j = 0; j < n; ++j) t += g.g[i][j]*L[j][k];
    v_eq(t, A[k][i], "left inverse is (A^T A)^-1 A^T");
  }
  const auto x = symbolicVector<double,m>("x"); FieldVector<double,n> y; stale(y);
  v_true(H::leftInvAx(A, x, y), "a full-rank matrix is reported invertible");
  for (int i = 0; i < n; ++i) {
    double t = 0, u = 0; for (int j = 0; j < n; ++j) t += g.g[i][j]*y[j]; for (int k = 0; k < m; ++k) u += A[k][i]*x[k];
    v_eq(t, u, "left inverse times x");
  }
}
CHK(right1) { right<1,1>(); right<1,2>(); right<1,3>(); }
CHK(right2) { right<2,2>(); right<2,3>(); }
CHK(right24) { right<2,4>(); }
CHK(right33) { right<3,3>(); }
CHK(left1) { left<1,1>(); left<2,1>(); left<3,1>(); }
CHK(left2) { left<2,2>(); left<3,2>(); }
CHK(left33) { left<3,3>(); }

template<int n> void spd()
{
  v_label("size", n);
  double L[6][6] = {}; FieldMatrix<double,n,n> Lm(0), A, R(0);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { L[i][j] = v_real("l", i*10+j); if (i == j) v_assume(L[i][j] > 0); Lm[i][j] = L[i][j]; }
  stale(A); H::LLT(Lm, A); stale(R);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += L[i][k]*L[j][k]; v_eq(A[i][j], s, "product L L^T"); }
  v_true(H::cholesky_L(A, R), "positive definite matrix has a Cholesky factor");
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) v_eq(R[i][j], L[i][j], "Cholesky factor");
  FieldMatrix<double,n,n> B; stale(B); H::LTL(Lm, B);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += L[k][i]*L[k][j]; v_eq(B[i][j], s, "product L^T L"); }
  const auto x = symbolicVector<double,n>("x"); FieldVector<double,n> y, z; stale(y); stale(z);
  H::Lx(Lm, x, y); H::LTx(Lm, x, z);
  for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int k = 0; k < n; ++k) { s += L[i][k]*x[k]; t += L[k][i]*x[k]; } v_eq(y[i], s, "product L x"); v_eq(z[i], t, "product L^T x"); }
  H::invLx(Lm, y); H::invLTx(Lm, z);
  for (int i = 0; i < n; ++i) { v_eq(y[i], x[i], "forward substitution"); v_eq(z[i], x[i], "backward substitution"); }
  double d = 1; for (int i = 0; i < n; ++i) d *= L[i][i];
  v_eq(H::detL(Lm), d, "determinant of a triangular matrix");
  v_eq(H::spdDetA(A), d, "square root of the determinant of a positive definite matrix");
  FieldMatrix<double,n,n> I(Lm); v_eq(H::invL(I), d, "determinant returned with the triangular inverse");
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double s = 0; for (int k = j; k <= i; ++k) s += L[i][k]*I[k][j]; v_eq(s, i == j, "triangular inverse"); }
  FieldMatrix<double,n,n> S(A); v_eq(H::spdInvA(S), d, "determinant returned with the positive definite inverse");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += A[i][k]*S[k][j]; v_eq(s, i == j, "positive definite inverse"); }
  FieldMatrix<double,n,n> S2(A); FieldVector<double,n> w(x);
  v_true(H::spdInvAx(S2, w, true), "positive definite system is reported solvable");
  for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < n; ++k) s += A[i][k]*w[k]; v_eq(s, x[i], "positive definite solve"); }
}
CHK(spd) { spd<1>(); spd<2>(); spd<3>(); }
CHK(spd4) { spd<4>(); }
CHK(spd5) { spd<5>(); }

// larger sizes: rows are a triangular matrix in some of the columns, so that the factor of the Gram matrix is known
template<int m, int n> void large(int shift)
{
  v_label("rows", m); v_label("columns", n);
  FieldMatrix<double,m,n> A(0); FieldMatrix<double,n,m> T(0);
  double d = 1;
  for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) {
    const double x = v_real("l", i*10+j); if (i == j) { v_assume(x > 0); d *= x; }
    A[i][(j+shift) % n] = x; T[(j+shift) % n][i] = x;
  }
  const auto check = [&](double det, const FieldMatrix<double,n,m>& R, const char* what) {
    v_eq(det, d, what);
    for (int i = 0; i < m; ++i) for (int k = 0; k < m; ++k) { double t = 0; for (int j = 0; j < n; ++j) t += A[i][j]*R[j][k]; v_eq(t, i == k, "inverse of a large matrix"); }
    for (int j = 0; j < n; ++j) if ((j - shift + n) % n >= m) for (int k = 0; k < m; ++k) v_eq(R[j][k], 0, "columns of the inverse lie in the row space");
  };
  FieldMatrix<double,n,m> R; stale(R); check(H::rightInvA(A, R), R, "determinant returned with the right inverse");
  FieldMatrix<double,m,n> L; stale(L); const double dl = H::leftInvA(T, L);
  FieldMatrix<double,n,m> LT; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) LT[j][i] = L[i][j];
  check(dl, LT, "determinant returned with the left inverse");
  v_eq(H::sqrtDetAAT(A), d, "sqrt(det(A A^T))"); v_eq(H::detATA(T), d, "sqrt(det(A^T A))");
  // x in the row space has known coordinates
  FieldVector<double,m> y, z, w; FieldVector<double,n> x(0.);
  for (int i = 0; i < m; ++i) { w[i] = v_real("w", i); for (int j = 0; j < n; ++j) x[j] += w[i]*A[i][j]; }
  stale(y); v_true(H::xTRightInvA(A, x, y), "a full-rank matrix is reported invertible");
  stale(z); v_true(H::leftInvAx(T, x, z), "a full-rank matrix is reported invertible");
  for (int i = 0; i < m; ++i) { v_eq(y[i], w[i], "x^T times the right inverse"); v_eq(z[i], w[i], "left inverse times x"); }
}
CHK(large34) { large<3,4>(0); large<3,4>(2); large<2,4>(3); }
CHK(large44) { large<4,4>(0); large<4,4>(1); }
CHK(large45) { large<4,5>(3); large<3,5>(3); }
CHK(large55) { large<5,5>(0); }

template<int m, int n> void products()
{
  v_label("rows", m); v_label("columns", n);
  const auto A = symbolicMatrix<double,m,n>("a"); const auto B = symbolicMatrix<double,2,m>("b");
  FieldMatrix<double,n,2> C; stale(C); H::ATBT(A, B, C);
  for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) { double s = 0; for (int k = 0; k < m; ++k) s += A[k][i]*B[j][k]; v_eq(C[i][j], s, "product A^T B^T"); }
  FieldMatrix<double,n,n> ata; stale(ata); H::ATA_L(A, ata);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double s = 0; for (int k = 0; k < m; ++k) s += A[k][i]*A[k][j]; v_eq(ata[i][j], s, "lower triangle of A^T A"); }
  FieldMatrix<double,m,m> l, f; stale(l); stale(f); H::AAT_L(A, l); H::AAT(A, f);
  for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += A[i][k]*A[j][k]; if (j <= i) v_eq(l[i][j], s, "lower triangle of A A^T"); v_eq(f[i][j], s, "product A A^T"); }
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
  const auto x = symbolicVector<double,n>("x"); const auto z = symbolicVector<double,m>("z");
  FieldVector<double,m> ax; FieldVector<double,n> atz; stale(ax); stale(atz); H::Ax(A, x, ax); H::ATx(A, z, atz);
  for (int i = 0; i < m; ++i) { double s = 0; for (int k = 0; k < n; ++k) s += A[i][k]*x[k]; v_eq(ax[i], s, "product A x"); }
  for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < m; ++k) s += A[k][i]*z[k]; v_eq(atz[i], s, "product A^T x"); }
  FieldMatrix<double,2,n> ba; stale(ba); H::AB(B, A, ba);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < m; ++k) s += B[i][k]*A[k][j]; v_eq(ba[i][j], s, "product A B"); }
  FieldMatrix<double,n,n> full; stale(full); H::ATA(A, full);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < m; ++k) s += A[k][i]*A[k][j]; v_eq(full[i][j], s, "product A^T A"); }
#pragma clang diagnostic pop
}
CHK(products) { products<1,1>(); products<2,3>(); products<3,2>(); products<3,3>(); products<1,4>(); products<4,5>(); products<5,4>(); products<5,5>(); }

// singular matrices are reported, not inverted
CHK(singular) {
  FieldMatrix<double,2,3> A; const double s = v_real("s");
  for (int j = 0; j < 3; ++j) { A[0][j] = v_real("a", j); A[1][j] = s*A[0][j]; }
  const auto x = symbolicVector<double,3>("x"); FieldVector<double,2> y;
  v_assume(A[0][0]*A[0][0] + A[0][1]*A[0][1] + A[0][2]*A[0][2] > 0);
  v_true(!H::xTRightInvA(A, x, y), "dependent rows are reported as not invertible");
  FieldMatrix<double,1,2> Z(0); FieldVector<double,1> z; FieldVector<double,2> x2; x2[0] = x[0]; x2[1] = x[1];
  v_true(!H::xTRightInvA(Z, x2, z), "zero row is reported as not invertible");
}

// ---- geometries: J^T is trusted (see C10); inverse and integration element must fit it
template<class M> double entry(const M& m, int i, int j) { return m[i][j]; }
template<class ct, int n> double entry(const DiagonalMatrix<ct,n>& m, int i, int j) { return i == j ? m.diagonal()[i] : 0; }

template<int dim, int cdim, class Geo, class X> void fits(const Geo& g, const X& x)
{
  const auto jt = g.jacobianTransposed(x);
  FieldMatrix<double,dim,cdim> J; for (int i = 0; i < dim; ++i) for (int k = 0; k < cdim; ++k) J[i][k] = entry(jt, i, k);
  const auto G = gram<dim,cdim>(J);
  assumeFullRank<dim,cdim>(J);
  const auto jit = g.jacobianInverseTransposed(x); const auto ji = g.jacobianInverse(x);
  for (int i = 0; i < dim; ++i) for (int k = 0; k < cdim; ++k) {
    double t = 0; for (int j = 0; j < dim; ++j) t += G.g[i][j]*entry(jit, k, j);
    v_eq(t, J[i][k], "inverse transposed Jacobian is the pseudo-inverse of the Jacobian");
    v_eq(entry(ji, i, k), entry(jit, k, i), "inverse Jacobian is the transpose of the inverse transposed Jacobian");
  }
  const double ie = g.integrationElement(x);
  v_eq(ie*ie, det(G.g, dim), "square of the integration element is the Gram determinant");
  v_true(ie >= 0, "integration element is not negative");
}
template<int dim, int cdim> void affine()
{
  v_labels("class", "AffineGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b);
  const AffineGeometry<double,dim,cdim> g(GeometryTypes::simplex(dim), o, b);
  fits<dim,cdim>(g, symbolicVector<double,dim>("t"));
  v_eq(g.volume()*spec::volinv(0, dim), g.integrationElement(FieldVector<double,dim>(0)), "volume is integration element times reference volume");
  std::vector<FieldVector<double,cdim>> c; c.push_back(o); for (int i = 0; i < dim; ++i) c.push_back(o + b[i]);
  const AffineGeometry<double,dim,cdim> h(GeometryTypes::simplex(dim), c);
  fits<dim,cdim>(h, symbolicVector<double,dim>("t"));
}
CHK(affine1) { affine<1,1>(); affine<1,2>(); affine<1,3>(); }
CHK(affine2) { affine<2,2>(); affine<2,3>(); }
CHK(affine3) { affine<3,3>(); }

template<int dim, int cdim, bool cached> void mlgAffine()
{
  using Geo = std::conditional_t<cached, CachedMultiLinearGeometry<double,dim,cdim>, MultiLinearGeometry<double,dim,cdim>>;
  v_labels("class", cached ? "CachedMultiLinearGeometry" : "MultiLinearGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  assumeFullRank<dim,cdim>(b);
  for (unsigned id = 0; id < spec::ntopo(dim); id += (dim == 3 ? 3 : 1)) {
    v_label("shape", id);
    FieldVector<double,dim> x(0.25);
    fits<dim,cdim>(Geo(GeometryType(id, dim), affineCorners<double,dim,cdim>(id, o, b)), x);
  }
}
CHK(mlg1) { mlgAffine<1,1,false>(); mlgAffine<1,2,false>(); mlgAffine<1,3,false>(); mlgAffine<1,1,true>(); mlgAffine<1,3,true>(); }
CHK(mlg2) { mlgAffine<2,2,false>(); mlgAffine<2,3,false>(); mlgAffine<2,2,true>(); mlgAffine<2,3,true>(); }
CHK(mlg3) { mlgAffine<3,3,false>(); }
CHK(mlg3c) { mlgAffine<3,3,true>(); }
// general quadrilateral at an unknown point
CHK(quad) {
  v_labels("class", "MultiLinearGeometry"); v_label("dim", 2); v_label("cdim", 2); v_label("shape", 3);
  const MultiLinearGeometry<double,2,2> g(GeometryTypes::quadrilateral, symbolicCorners<double,2,2>(3));
  fits<2,2>(g, symbolicVector<double,2>("t"));
}
template<int dim, int cdim> void box()
{
  v_labels("class", "AxisAlignedCubeGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const auto lo = symbolicVector<double,cdim>("lo"); const auto h = symbolicVector<double,cdim>("h"); FieldVector<double,cdim> up;
  for (int j = 0; j < cdim; ++j) { v_assume(h[j] > 0); up[j] = lo[j] + h[j]; }
  for (unsigned m = 0; m < (1u << cdim); ++m) {
    if (__builtin_popcount(m) != dim) continue;
    v_label("axes", m);
    fits<dim,cdim>(AxisAlignedCubeGeometry<double,dim,cdim>(lo, up, std::bitset<cdim>(m)), symbolicVector<double,dim>("t"));
  }
}
CHK(box) { box<1,1>(); box<1,2>(); box<1,3>(); box<2,2>(); box<2,3>(); box<3,3>(); }
template<int dim, int wdim> void mapped()
{
  v_labels("class", "MappedGeometry"); v_label("dim", dim); v_label("cdim", wdim);
  const QuadraticMap<double,dim,wdim> f(false);
  const auto base = referenceElement<double,dim>(GeometryTypes::simplex(dim)).template geometry<0>(0);
  const MappedGeometry g(f, base, true);
  fits<dim,wdim>(g, symbolicVector<double,dim>("t"));
}
CHK(mapped1) { mapped<1,1>(); mapped<1,2>(); mapped<1,3>(); }
CHK(mapped2) { mapped<2,2>(); mapped<2,3>(); }
CHK(mapped3) { mapped<3,3>(); }
template<int dim, int cdim, bool cube> void lfe()
{
  v_labels("class", "LocalFiniteElementGeometry"); v_label("dim", dim); v_label("cdim", cdim);
  const NodalFE<double,dim,cube,1> fe;
  const auto o = symbolicVector<double,cdim>("o"); const auto b = symbolicMatrix<double,dim,cdim>();
  const unsigned id = cube ? (1u << dim) - 1 : 0;
  const LocalFiniteElementGeometry<NodalFE<double,dim,cube,1>,cdim> g(fe.type(), fe, affineCorners<double,dim,cdim>(id, o, b));
  fits<dim,cdim>(g, symbolicVector<double,dim>("t"));
}
CHK(lfe1) { lfe<1,1,false>(); lfe<1,3,false>(); lfe<1,2,true>(); }
CHK(lfe2) { lfe<2,2,false>(); lfe<2,3,true>(); lfe<2,2,true>(); }
CHK(lfe3) { lfe<3,3,false>(); }
