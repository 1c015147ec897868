// Refinements: every supported pair of element and sub-element shape, as compile-time refinements.
#ifndef VERIF_REFINE_HH
#define VERIF_REFINE_HH
#include <spec.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/type.hh>

template<unsigned from, unsigned to, int d, class ct_ = double> struct Pair
{
  static constexpr unsigned element = from, sub = to;
  static constexpr int dim = d;
  using ct = ct_;
  using Static = Dune::StaticRefinement<from, ct, to, d>;
  static constexpr bool cubes = d > 1 && (to >> 1) == ((1u << (d-1)) - 1u);     // the sub-elements are cubes
  // how many simplices the undivided element falls into
  static constexpr int pieces()
  {
    if (cubes || d == 1) return 1;
    if ((from >> 1) == 0) return 1;
    if ((from >> 1) == ((1u << (d-1)) - 1u)) { int f = 1; for (int i = 2; i <= d; ++i) f *= i; return f; }
    return from >> 1 == 2 ? 3 : 2;                       // prism, pyramid
  }
  // advertised numbers of the uniform n-fold subdivision
  static constexpr long elements(long n) { long p = pieces(); for (int i = 0; i < d; ++i) p *= n; return p; }
  static constexpr long vertices(long n)
  {
    long p = 1;
    if (cubes) { for (int i = 0; i < d; ++i) p *= n+1; return p; }
    for (int i = 1; i <= d; ++i) p = p * (n+i) / i;
    return p * pieces();
  }
};
using Line = Pair<0,0,1>;
using LineCube = Pair<1,1,1>;
using Triangle = Pair<0,0,2>;
using Quad = Pair<3,3,2>;
using QuadSimplex = Pair<3,0,2>;
using Tet = Pair<0,0,3>;
using Hex = Pair<7,7,3>;
using HexSimplex = Pair<7,0,3>;
using PrismSimplex = Pair<5,0,3>;
using PyramidSimplex = Pair<3,0,3>;
using Simplex4 = Pair<0,0,4>;
using Cube4 = Pair<15,15,4>;
using Cube4Simplex = Pair<15,0,4>;
// other spellings of the same shapes
using Triangle1 = Pair<1,1,2>;
using Quad2 = Pair<2,2,2>;
using Prism4 = Pair<4,1,3>;
using Pyramid2 = Pair<2,1,3>;
using HexMixed = Pair<6,1,3>;
#endif
