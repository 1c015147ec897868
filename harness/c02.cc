// Local and global geometry type indices, run-time to compile-time dispatch.
#include <v.hh>
#include <spec.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
using namespace Dune;
using L = LocalGeometryTypeIndex; using G = GlobalGeometryTypeIndex;

// number of distinct shapes of a dimension, plus the shapeless type
constexpr unsigned long distinct(unsigned d) { return (d == 0 ? 1ul : 1ul << (d-1)) + 1; }

CHK(local) {
  for (unsigned d = 0; d <= 8; ++d) {
    v_label("dim", d);
    v_eqi(L::size(d), distinct(d), "size is the number of distinct types");
    int seen[300] = {};
    for (unsigned id = 0; id < spec::ntopo(d); ++id) {
      v_label("shape", id);
      const GeometryType gt(id, d);
      const auto k = L::index(gt);
      v_true(k < distinct(d), "index is in range");
      const GeometryType back = L::type(d, k);
      v_true(!back.isNone() && back.dim() == d && spec::canon(back.id(), d) == spec::canon(id, d), "type of the index is the type");
      if (spec::canon(id, d) == id || d == 0) ++seen[k];
      v_eqi(L::index(GeometryType(spec::canon(id, d), d)), k, "the irrelevant bit does not change the index");
    }
    v_label("shape", -1);
    const auto k = L::index(GeometryTypes::none(d));
    v_true(k < distinct(d), "index is in range");
    ++seen[k];
    const GeometryType n = L::type(d, k);
    v_true(n.isNone() && n.dim() == d, "type of the index of the shapeless type");
    for (unsigned j = 0; j < distinct(d); ++j) {
      v_eqi(seen[j], 1, "every index belongs to exactly one type");
      v_eqi(L::index(L::type(d, j)), j, "index of the type of an index");
    }
  }
}
CHK(global) {
  unsigned long off = 0;
  for (unsigned d = 0; d <= 8; ++d) {
    v_label("dim", d);
    v_eqi(G::offset(d), off, "offset is the number of types of lower dimension");
    for (unsigned id = 0; id <= spec::ntopo(d); ++id) {
      v_label("shape", id);
      const GeometryType gt = id < spec::ntopo(d) ? GeometryType(id, d) : GeometryTypes::none(d);
      v_eqi(G::index(gt), off + L::index(gt), "global index is offset plus local index");
    }
    off += distinct(d);
    v_eqi(G::size(d), off, "size is the number of types up to the dimension");
  }
}
// high dimensions: shapes given by one or all but one bit
CHK(wide) {
  unsigned long off = 0; for (unsigned d = 0; d <= 8; ++d) off += distinct(d);
  for (unsigned d = 9; d <= 28; ++d) {
    v_label("dim", d);
    v_eqi(L::size(d), distinct(d), "size is the number of distinct types"); v_eqi(G::offset(d), off, "offset is the number of types of lower dimension");
    for (unsigned k = 0; k <= 2*d; ++k) {
      const unsigned id = k == 0 ? 0 : k <= d ? 1u << (k-1) : ((1u << d)-1) & ~(1u << (k-d-1));
      v_label("shape", id);
      const GeometryType gt(id, d); const auto i = L::index(gt);
      v_true(i < distinct(d) && i != L::index(GeometryTypes::none(d)), "index is in range");
      const GeometryType back = L::type(d, i);
      v_true(!back.isNone() && back.dim() == d && back.id() >> 1 == id >> 1, "type of the index is the type");
      v_eqi(L::index(GeometryType(id ^ 1u, d)), i, "the irrelevant bit does not change the index");
      v_eqi(G::index(gt), off + i, "global index is offset plus local index");
    }
    const auto i = L::index(GeometryTypes::none(d)); const GeometryType n = L::type(d, i);
    v_true(i < distinct(d) && n.isNone() && n.dim() == d, "type of the index of the shapeless type");
    v_eqi(G::index(GeometryTypes::none(d)), off + i, "global index is offset plus local index");
    off += distinct(d);
    v_eqi(G::size(d), off, "size is the number of types up to the dimension");
  }
}
template<int dim> void dispatch()
{
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("dim", dim); v_label("shape", id);
    unsigned long got = ~0ul; int calls = 0;
    Impl::toGeometryTypeIdConstant<dim>(GeometryType(id, dim), [&](auto c) { constexpr GeometryType t = decltype(c)::value; got = t.id(); ++calls; v_eqi(t.dim(), dim, "selected type has the dimension"); v_true(!t.isNone(), "selected type has a shape"); });
    v_eqi(calls, 1, "exactly one type is selected");
    v_eqi(spec::canon(got, dim), spec::canon(id, dim), "the equal type is selected");
  }
}
template<GeometryType::Id g> struct Op { static unsigned long apply(int& calls) { ++calls; constexpr GeometryType t = g; return t.id() | (unsigned long)t.dim() << 32 | (unsigned long)t.isNone() << 63; } };
template<int dim> void ifgt()
{
  for (unsigned id = 0; id < spec::ntopo(dim); ++id) {
    v_label("dim", dim); v_label("shape", id);
    int calls = 0;
    const unsigned long r = Impl::IfGeometryType<Op, dim>::apply(GeometryType(id, dim), calls);
    v_eqi(calls, 1, "exactly one type is selected");
    v_eqi(r >> 32, dim, "selected type has the dimension");
    v_eqi(spec::canon((unsigned)r, dim), spec::canon(id, dim), "the equal type is selected");
  }
}
CHK(dispatch0) { dispatch<0>(); ifgt<0>(); }
CHK(dispatch1) { dispatch<1>(); ifgt<1>(); }
CHK(dispatch2) { dispatch<2>(); ifgt<2>(); }
CHK(dispatch3) { dispatch<3>(); ifgt<3>(); }
CHK(dispatch4) { dispatch<4>(); ifgt<4>(); }
CHK(dispatch5) { dispatch<5>(); ifgt<5>(); }
