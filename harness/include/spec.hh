// Independent statement of the recursive definition of reference elements
// (doc/appl/refelements): a shape of dimension d is a prism or a pyramid over a
// shape of dimension d-1.  Nothing here uses code of the library.
#ifndef VERIF_SPEC_HH
#define VERIF_SPEC_HH
namespace spec {
  constexpr bool prism(unsigned id, int dim) { return dim == 1 || ((id >> (dim-1)) & 1u); }   // last step of the construction
  constexpr unsigned base(unsigned id, int dim) { return id & ((1u << (dim-1)) - 1u); }
  constexpr unsigned canon(unsigned id, int dim) { return dim == 0 ? 0u : (id & ((1u << dim) - 1u)) | 1u; }
  constexpr unsigned ntopo(int dim) { return 1u << dim; }

  // number of codim-c sub-entities
  constexpr int count(unsigned id, int dim, int c)
  {
    if (c < 0 || c > dim) return 0;
    if (c == 0) return 1;
    unsigned b = base(id, dim);
    if (prism(id, dim)) return count(b, dim-1, c) + 2*count(b, dim-1, c-1);
    return count(b, dim-1, c-1) + (c == dim ? 1 : count(b, dim-1, c));
  }
  // shape id of a sub-entity
  constexpr unsigned shape(unsigned id, int dim, int c, int i)
  {
    if (c == 0) return id & ((1u << dim) - 1u);
    if (c == dim) return 0u;
    unsigned b = base(id, dim); int sd = dim - c;
    if (prism(id, dim)) {
      int n = count(b, dim-1, c), m = count(b, dim-1, c-1);
      if (i < n) return shape(b, dim-1, c, i) | (1u << (sd-1));
      return shape(b, dim-1, c-1, i < n+m ? i-n : i-n-m);
    }
    int m = count(b, dim-1, c-1);
    if (i < m) return shape(b, dim-1, c-1, i);
    return shape(b, dim-1, c, i-m);       // cone over it: last bit 0
  }
  // corner numbers of a sub-entity in the order of its own reference element
  constexpr int corners(unsigned id, int dim, int c, int i, int* v)
  {
    if (c == 0) { int n = count(id, dim, dim); for (int k = 0; k < n; ++k) v[k] = k; return n; }
    unsigned b = base(id, dim); int N = count(b, dim-1, dim-1);
    if (prism(id, dim)) {
      int n = count(b, dim-1, c), m = count(b, dim-1, c-1);
      if (i < n) { int k = corners(b, dim-1, c, i, v); for (int j = 0; j < k; ++j) v[k+j] = v[j] + N; return 2*k; }
      if (i < n+m) return corners(b, dim-1, c-1, i-n, v);
      int k = corners(b, dim-1, c-1, i-n-m, v); for (int j = 0; j < k; ++j) v[j] += N; return k;
    }
    int m = count(b, dim-1, c-1);
    if (i < m) return corners(b, dim-1, c-1, i, v);
    if (c == dim) { v[0] = N; return 1; }
    int k = corners(b, dim-1, c, i-m, v); v[k] = N; return k+1;
  }
  // coordinate x_j of corner k
  constexpr int coord(unsigned id, int dim, int k, int j)
  {
    if (dim == 0) return 0;
    unsigned b = base(id, dim); int N = count(b, dim-1, dim-1);
    if (prism(id, dim)) { if (j == dim-1) return k >= N; return coord(b, dim-1, k >= N ? k-N : k, j); }
    if (k == N) return j == dim-1;
    if (j == dim-1) return 0;
    return coord(b, dim-1, k, j);
  }
  // inverse volume as an integer: product over pyramid steps of the dimension
  constexpr long volinv(unsigned id, int dim)
  {
    long v = 1; for (int d = 2; d <= dim; ++d) if (!prism(id, d)) v *= d; return v;
  }
}
#endif
