// Access to the quadrature families from the harnesses.
#ifndef VERIF_QUAD_HH
#define VERIF_QUAD_HH
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/typeindex.hh>
struct Family { Dune::QuadratureType::Enum qt; const char* name; int alpha; };
inline const Family families[] = {
  {Dune::QuadratureType::GaussLegendre, "GaussLegendre", 0},
  {Dune::QuadratureType::GaussJacobi_1_0, "GaussJacobi_1_0", 1},
  {Dune::QuadratureType::GaussJacobi_2_0, "GaussJacobi_2_0", 2},
  {Dune::QuadratureType::GaussJacobi_n_0, "GaussJacobi_n_0", 0},
  {Dune::QuadratureType::GaussLobatto, "GaussLobatto", 0},
  {Dune::QuadratureType::GaussRadauLeft, "GaussRadauLeft", 0},
  {Dune::QuadratureType::GaussRadauRight, "GaussRadauRight", 0}};
// highest order of a family
template<int dim, class ct = double> int tabulated(const Dune::GeometryType& gt, const Family& f)
{
  const int m = Dune::QuadratureRules<ct,dim>::maxOrder(gt, f.qt);
  return m;
}
template<int dim, class Rule> void record(const Rule& rule)
{
  for (const auto& q : rule) {
    const auto& x = q.position();
    [&]<std::size_t... k>(std::index_sequence<k...>) { v_rpt((double)q.weight(), (double)x[k]...); }(std::make_index_sequence<dim>{});
  }
}
#endif
