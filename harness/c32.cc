// Factories by shape: the user's constructor for exactly the requested shape and key.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/topologyfactory.hh>
#include <dune/geometry/typeindex.hh>
using namespace Dune;

static int created, released, live;
struct Product { unsigned id; int dim, key; Product(unsigned i, int d, int k) : id(i), dim(d), key(k) { ++created; ++live; } ~Product() { ++released; --live; } };
template<int dim> struct Maker
{
  template<GeometryType::Id id> static const Product* createObject(const int& key) { constexpr GeometryType gt = id; return new Product(gt.id(), gt.dim(), key); }
  template<class Topology> static const Product* createObject(const int& key) { return new Product(Topology::id, Topology::dimension, key); }
};
template<unsigned i, unsigned d> struct Shape { static const unsigned int id = i, dimension = d; };
template<int d> struct Traits { static const unsigned int dimension = d; using Key = int; using Object = const Product; using Factory = Maker<d>; };

template<int dim> void dynamic()
{
  using F = TopologyFactory<Traits<dim>>;
  const int key = v_int("key");
  v_label("dim", dim);
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("shape", id);
    const int before = created;
    const Product* p = F::create(GeometryType(id, dim), key);
    v_eqi(created, before + 1, "one object is created");
    v_true(GeometryType(p->id, p->dim) == GeometryType(id, dim), "the object is that of the requested shape");
    v_eqi(p->key, key, "the object is that of the requested key");
    const Product* q = F::create(GeometryType(id, dim), key);
    v_true(p != q, "every request creates a new object");
    const int r = released; F::release(p); v_eqi(released, r + 1, "a released object is destroyed");
    v_eqi(q->key, key, "releasing an object leaves the others"); F::release(q);
  }
  v_eqi(live, 0, "released objects are destroyed once");
}
template<int dim, unsigned... id> void staticIds(std::integer_sequence<unsigned, id...>)
{
  using F = TopologyFactory<Traits<dim>>;
  auto one = [](auto i) {
    constexpr GeometryType gt(decltype(i)::value, dim); v_label("shape", gt.id());
    const Product* p = F::template create<gt>(7);
    v_true(GeometryType(p->id, p->dim) == gt, "the object is that of the requested shape"); v_eqi(p->key, 7, "the object is that of the requested key");
    F::release(p);
    p = F::template create<Shape<gt.id(), dim>>(8);
    v_true(GeometryType(p->id, p->dim) == gt, "the object is that of the requested shape"); v_eqi(p->key, 8, "the object is that of the requested key");
    F::release(p);
  };
  (one(std::integral_constant<unsigned, id>()), ...);
}
CHK(dynamic0) { dynamic<0>(); staticIds<0>(std::make_integer_sequence<unsigned, 1>()); }
CHK(dynamic1) { dynamic<1>(); staticIds<1>(std::make_integer_sequence<unsigned, 2>()); }
CHK(dynamic2) { dynamic<2>(); staticIds<2>(std::make_integer_sequence<unsigned, 4>()); }
CHK(dynamic3) { dynamic<3>(); staticIds<3>(std::make_integer_sequence<unsigned, 8>()); }
CHK(dynamic4) { dynamic<4>(); staticIds<4>(std::make_integer_sequence<unsigned, 16>()); }

template<int dim, unsigned... ids> void singleton(std::integer_sequence<unsigned, ids...>)
{
  using S = TopologySingletonFactory<TopologyFactory<Traits<dim>>>;
  v_label("dim", dim);
  const Product* seen[1 << dim][3];
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) for (int key = 0; key < 3; ++key) {
    v_label("shape", id); v_label("key", key);
    const Product* p = S::create(GeometryType(id, dim), key - 1);
    v_true(GeometryType(p->id, p->dim) == GeometryType(id, dim), "the object is that of the requested shape");
    v_eqi(p->key, key - 1, "the object is that of the requested key");
    seen[id][key] = p;
  }
  const int total = created;
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) for (int key = 0; key < 3; ++key) {
    v_label("shape", id); v_label("key", key);
    const Product* p = S::create(GeometryType(id, dim), key - 1);
    v_eqp(p, seen[id][key], "repeated requests give the same object");
    v_true(GeometryType(p->id, p->dim) == GeometryType(id, dim) && p->key == key - 1, "the object is unchanged");
    S::release(p);
    v_eqp(S::create(GeometryType(id, dim), key - 1), p, "releasing does not end the object");
    for (unsigned jd = 0; jd < spec::ntopo(dim); ++jd) for (int k2 = 0; k2 < 3; ++k2) {
      const bool equal = GeometryType(id, dim) == GeometryType(jd, dim) && key == k2;
      v_label("shape2", jd); v_label("key2", k2);
      v_true((seen[id][key] == seen[jd][k2]) == equal, "objects are shared exactly between equal types and equal keys");
    }
  }
  auto one = [&](auto i) {
    constexpr GeometryType gt(decltype(i)::value, dim); v_label("shape", gt.id());
    v_eqp(S::template create<gt>(0), seen[gt.id()][1], "compile-time and run-time requests share objects");
  };
  (one(std::integral_constant<unsigned, ids>()), ...);
  v_eqi(created, total, "nothing is created twice");
  // first requested by compile-time id or by topology
  auto first = [&](auto i) {
    constexpr GeometryType gt(decltype(i)::value, dim); v_label("shape", gt.id());
    const Product* p = S::template create<gt>(10); const Product* q = S::template create<Shape<gt.id(), dim>>(11);
    v_true(GeometryType(p->id, p->dim) == gt && p->key == 10, "the object is that of the requested shape and key");
    v_true(GeometryType(q->id, q->dim) == gt && q->key == 11 && p != q, "the object is that of the requested shape and key");
    v_eqp(S::create(gt, 10), p, "compile-time and run-time requests share objects"); v_eqp(S::create(gt, 11), q, "compile-time and run-time requests share objects");
    v_eqp(S::template create<gt>(10), p, "repeated requests give the same object"); v_eqp(S::template create<Shape<gt.id(), dim>>(11), q, "repeated requests give the same object");
    v_eqp(S::template create<Shape<gt.id(), dim>>(0), seen[gt.id()][1], "requests by topology share objects with the others");
    v_eqi(q->key, 11, "the object is unchanged");
  };
  (first(std::integral_constant<unsigned, ids>()), ...);
  v_eqi(created, total + 2*int(dim == 0 ? 1 : spec::ntopo(dim)/2), "nothing is created twice");
  v_eqi(released, 0, "nothing is released while in use");
}
CHK(singleton0) { singleton<0>(std::make_integer_sequence<unsigned, 1>()); }
CHK(singleton1) { singleton<1>(std::make_integer_sequence<unsigned, 2>()); }
CHK(singleton2) { singleton<2>(std::make_integer_sequence<unsigned, 4>()); }
CHK(singleton3) { singleton<3>(std::make_integer_sequence<unsigned, 8>()); }
