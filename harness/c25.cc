// Vertex orderings of elements and sub-entities are consistent.
#include <v.hh>
#include <spec.hh>
#include <algorithm>
#include <array>
#include <forward_list>
#include <limits>
#include <vector>
#include <dune/geometry/generalvertexorder.hh>
using namespace Dune;

// reduction of arbitrary ids: the reduced id is the number of smaller ids
template<int n, class Id> void rank()
{
  v_label("ids", n);
  static const char* names[] = {"a","b","c","d","e","f","g","h"};
  Id id[n]; for (int i = 0; i < n; ++i) id[i] = std::is_floating_point<Id>::value ? Id(v_real(names[i])) : Id(v_int(names[i]));
  std::vector<std::size_t> out(n+1, 99);
  reduceOrder(+id, id+n, out.begin());
  for (int i = 0; i < n; ++i) {
    v_label("position", i);
    long smaller = 0; for (int j = 0; j < n; ++j) if (j != i) smaller += id[j] < id[i];
    v_eqi(out[i], smaller, "the reduced id is the number of smaller ids");
  }
  v_eqi(out[n], 99, "nothing behind the output range is written");
}
CHK(rank1) { rank<1,int>(); }
CHK(rank2) { rank<2,int>(); rank<2,double>(); }
CHK(rank3) { rank<3,int>(); rank<3,double>(); }
CHK(rank4) { rank<4,int>(); rank<4,double>(); }
CHK(rank5) { rank<5,int>(); }
// more ids: one of them unknown, the others in various arrangements with ties
template<int n, class Id> void rankOne()
{
  v_label("ids", n);
  for (int unknown = 0; unknown < n; unknown += n > 8 ? 7 : 1) for (int step : {1, 3, 5}) {
    v_label("unknown", unknown); v_label("arrangement", step);
    Id id[n]; for (int i = 0; i < n; ++i) id[i] = Id((i*step % n)*3 / (step == 5 ? 2 : 1));
    id[unknown] = Id(v_int("a"));
    std::vector<std::size_t> out(n+1, 99);
    reduceOrder(+id, id+n, out.begin());
    for (int i = 0; i < n; ++i) {
      v_label("position", i);
      long smaller = 0; for (int j = 0; j < n; ++j) if (j != i) smaller += id[j] < id[i];
      v_eqi(out[i], smaller, "the reduced id is the number of smaller ids");
    }
    v_eqi(out[n], 99, "nothing behind the output range is written");
  }
}
CHK(rank6) { rankOne<6,int>(); rankOne<7,long>(); }
CHK(rank8) { rankOne<8,int>(); }
CHK(rank16) { rankOne<16,int>(); }
CHK(rank32) { rankOne<32,long>(); }

// extreme ids and other iterators
template<class Id> void extremes()
{
  using L = std::numeric_limits<Id>;
  const std::forward_list<Id> ids{L::max(), L::lowest(), Id(0), Id(L::max()-1), Id(1), Id(L::lowest()+1), Id(L::max()/2)};
  std::forward_list<int> out(7);
  reduceOrder(ids.begin(), ids.end(), out.begin());
  std::vector<Id> v(ids.begin(), ids.end()); std::vector<int> w(out.begin(), out.end());
  for (int i = 0; i < 7; ++i) { long s = 0; for (int j = 0; j < 7; ++j) s += v[j] < v[i]; v_eqi(w[i], s, "the reduced id is the number of smaller ids"); }
}
CHK(extremes) { extremes<int>(); extremes<unsigned>(); extremes<long>(); extremes<unsigned long>(); extremes<short>(); extremes<unsigned char>(); extremes<double>(); }
CHK(empty) { const int* p = nullptr; int out = 5; reduceOrder(p, p, &out); v_eqi(out, 5, "an empty range writes nothing"); }

template<int dim, class Index, class Id> void check(unsigned shape, const std::vector<Id>& ids)
{
  const int n = spec::count(shape, dim, dim);
  const GeometryType gt(shape, dim);
  const GeneralVertexOrder<dim,Index> order(gt, ids.begin(), ids.end());
  v_true(order.type() == gt, "the type is kept");
  std::vector<long> rank(n); for (int i = 0; i < n; ++i) { rank[i] = 0; for (int j = 0; j < n; ++j) rank[i] += ids[j] < ids[i]; }
  std::vector<Index> reduced(3, Index(77));
  for (int c = 0; c <= dim; ++c) for (int e = 0; e < spec::count(shape, dim, c); ++e) {
    v_label("codim", c); v_label("entity", e);
    int v[32]; const int m = spec::corners(shape, dim, c, e, v);
    // unreduced
    auto it = order.begin(c, e); const auto end = order.end(c, e);
    v_eqi(end - it, m, "a sub-entity lists its corners"); v_eqi(it - end, -m, "distances have a sign");
    int k = 0;
    for (; it != end && k < m; ++it, ++k) {
      v_eqi(*it, rank[v[k]], "corner ids of a sub-entity keep the order of the ids");
      v_eqi(order.begin(c, e)[k], rank[v[k]], "indexed access agrees with iteration");
      v_eqi(*(order.begin(c, e) + k), rank[v[k]], "jumping agrees with iteration");
    }
    v_eqi(k, m, "iteration visits all corners");
    for (int p = 0; p <= m; ++p) {
      auto at = order.begin(c, e) + p;
      for (int q = 0; q <= m; ++q) {
        if (q < m) { v_eqi(at[q-p], rank[v[q]], "indexed access from any position"); v_eqi(*(at + (q-p)), rank[v[q]], "jumping from any position"); v_eqi(*(at - (p-q)), rank[v[q]], "jumping from any position"); }
        const auto to = end - (m-q);
        v_eqi(to - at, q-p, "distance of two positions"); v_true((at < to) == (p < q) && (at == to) == (p == q) && (at > to) == (p > q), "positions are ordered");
      }
    }
    v_true(it == end, "iteration ends behind the last corner");
    while (k > 0) { --it; --k; v_eqi(*it, rank[v[k]], "backward iteration agrees with iteration"); }
    v_true(it == order.begin(c, e), "backward iteration ends at the beginning");
    // reduced
    order.getReduced(c, e, reduced);
    v_eqi(reduced.size(), m, "the reduced order has one entry for every corner");
    bool seen[32] = {};
    for (int i = 0; i < m && i < int(reduced.size()); ++i) {
      v_true(reduced[i] >= 0 && reduced[i] < Index(m) && !seen[reduced[i]], "the reduced order is a permutation");
      if (reduced[i] >= 0 && reduced[i] < Index(m)) seen[reduced[i]] = true;
      long smaller = 0; for (int j = 0; j < m; ++j) smaller += ids[v[j]] < ids[v[i]];
      v_eqi(reduced[i], smaller, "the reduced order sorts the ids of the corners");
    }
  }
}
// all orderings, or every step-th one in lexicographic order (step prime to the length of a block)
template<int dim, class Index = std::size_t, class Id = int> void orderings(unsigned shape, long first, long step)
{
  v_label("dim", dim); v_label("shape", shape);
  const int n = spec::count(shape, dim, dim);
  long total = 1; for (int i = 2; i <= n; ++i) total *= i;
  for (long k = first; k < total; k += step) {
    // k-th permutation
    std::vector<Id> ids(n); std::vector<int> pool(n); for (int i = 0; i < n; ++i) pool[i] = i;
    long r = k, f = total;
    for (int i = 0; i < n; ++i) { f /= n-i; const int d = r / f; r %= f; ids[i] = Id(pool[d]*11 + 3); pool.erase(pool.begin() + d); }
    v_label("ordering", k);
    check<dim,Index>(shape, ids);
  }
}
CHK(d0) { orderings<0>(0, 0, 1); }
CHK(d1) { orderings<1>(0, 0, 1); orderings<1>(1, 0, 1); orderings<1,int,double>(1, 0, 1); orderings<1,unsigned,unsigned>(0, 0, 1); }
CHK(triangle) { orderings<2>(0, 0, 1); orderings<2>(1, 0, 1); orderings<2,int,long>(0, 0, 1); }
CHK(quad) { orderings<2>(2, 0, 1); orderings<2>(3, 0, 1); orderings<2,unsigned char,double>(3, 0, 1); }
CHK(tet) { orderings<3>(0, 0, 1); orderings<3,short,unsigned long>(1, 0, 1); }
CHK(pyramid) { orderings<3>(3, 0, 1); }
CHK(pyramid2) { orderings<3,int>(2, 0, 7); }
CHK(prism) { orderings<3>(5, 0, 3); }
CHK(prism1) { orderings<3>(4, 1, 7); }
CHK(hex) { orderings<3>(7, 0, 79); }
CHK(hex1) { orderings<3,int>(6, 17, 277); }
CHK(d4) { orderings<4>(0, 0, 7); orderings<4>(4, 0, 1511); }
// default constructed and assigned iterators, and orders as values
CHK(values) {
  std::vector<int> ids{40, 10, 30, 20};
  GeneralVertexOrder<2> a(GeometryTypes::quadrilateral, ids.begin(), ids.end());
  ids.assign(4, 0);
  GeneralVertexOrder<2> b(a);
  GeneralVertexOrder<2>::iterator it; it = b.begin(1, 0);
  v_eqi(*it, 3, "an assigned iterator"); it += 1; v_eqi(*it, 2, "an assigned iterator"); it -= 1; v_eqi(*it, 3, "an assigned iterator");
  v_true(a.begin(1, 0) != a.begin(1, 1) && a.begin(0, 0) != a.begin(1, 0) && a.begin(1, 0) == a.begin(1, 0), "iterators of different sub-entities differ");
  auto jt = it++; v_eqi(*jt, 3, "post-increment returns the old position"); v_eqi(*it, 2, "post-increment advances");
  v_true(jt < it && it > jt && jt <= it && it >= jt, "positions are ordered");
}
