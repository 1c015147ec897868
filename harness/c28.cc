// What Python sees: texts, equality, hashes, index checks and array views agree with C++.
// The bindings register their callables with a stand-in of pybind11; each one is called here
// with every index in and around its range and with one unknown index on either side.
#define INCLUDE_REFELEM_INLINE
#include <v.hh>
#include <array>
#include <cstring>
#include <string>
#include <tuple>
#include <dune/python/pybind11/pybind11.h>
#include <python/dune/geometry/_geometry.cc>
#include <dune/python/geometry/multilineargeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/typeindex.hh>

using GT = Dune::GeometryType;
template<int d> using Ref = typename Dune::ReferenceElements<double, d>::ReferenceElement;
template<int d> using Vec = Dune::FieldVector<double, d>;

enum Group { None, Types, Refs, Quads, Geometries, Module };
static Group group = None;
static const char* seen[400]; static int seenArgs[400]; static const void* seenOwner[400]; static int nSeen = 0;
template<class T> const void* ownerId() { static int id; return &id; }
static bool is(const char* a, const char* b) { return std::strcmp(a, b) == 0; }
template<class T> void expect(const char* name, int args)
{
  bool found = false;
  for (int i = 0; i < nSeen; ++i) if (seenOwner[i] == ownerId<T>() && seenArgs[i] == args && is(seen[i], name)) found = true;
  v_labels("name", name); v_true(found, "the function is available from Python");
}

// ---- calling a bound function with Python integers -------------------------------------------
template<class F> struct Sig : Sig<decltype(&F::operator())> {};
template<class R, class... A> struct Sig<R (*)(A...)> { using Ret = R; using Args = std::tuple<std::decay_t<A>...>; };
template<class R, class C, class... A> struct Sig<R (C::*)(A...) const> { using Ret = R; using Args = std::tuple<std::decay_t<A>...>; };
template<class R, class C, class... A> struct Sig<R (C::*)(A...)> { using Ret = R; using Args = std::tuple<std::decay_t<A>...>; };
template<class R, class... A> struct Sig<R (*)(A...) noexcept> : Sig<R (*)(A...)> {};
template<class R, class C, class... A> struct Sig<R (C::*)(A...) const noexcept> : Sig<R (C::*)(A...) const> {};
// member functions count the object as an argument
template<class F> constexpr bool isMember = std::is_member_function_pointer_v<F>;

template<class T> struct IntArgs { static constexpr int n = std::is_integral_v<T> && !std::is_same_v<T, bool> ? 1 : 0; };
template<class... T> struct IntArgs<std::tuple<T...>> { static constexpr int n = sizeof...(T); };
template<class T, std::size_t k> struct IntArgs<std::array<T, k>> { static constexpr int n = k; };
template<class A, class B> struct IntArgs<std::pair<A, B>> { static constexpr int n = 2; };

template<class T> T pyInt(long v)
{ // the conversion refuses numbers the parameter cannot hold
  if constexpr (std::is_unsigned_v<T>) { if (v < 0) throw pybind11::type_error("incompatible arguments"); }
  return static_cast<T>(v);
}
template<class T> struct FromInts { static T make(const long*& p) { return pyInt<T>(*p++); } };
template<class... T> struct FromInts<std::tuple<T...>> { static std::tuple<T...> make(const long*& p) { return std::tuple<T...>{FromInts<T>::make(p)...}; } };
template<class T, std::size_t k> struct FromInts<std::array<T, k>> { static std::array<T, k> make(const long*& p) { std::array<T, k> a; for (auto& x : a) x = pyInt<T>(*p++); return a; } };
template<class A, class B> struct FromInts<std::pair<A, B>> { static std::pair<A, B> make(const long*& p) { A a = pyInt<A>(*p++); B b = pyInt<B>(*p++); return {a, b}; } };

template<class Owner, class F, class... A> constexpr bool selfFirst(std::tuple<A...>*)
{
  if constexpr (isMember<F>) return false;
  else if constexpr (sizeof...(A) == 0) return false;
  else { using First = std::tuple_element_t<0, std::tuple<A...>>; return std::is_same_v<First, Owner> || std::is_base_of_v<pybind11::handle, First>; }
}
template<class... A> constexpr int intCount(std::tuple<A...>*) { return (0 + ... + IntArgs<A>::n); }

template<class Owner, class F> struct Bound
{
  using S = Sig<F>; using Args = typename S::Args; using Ret = std::decay_t<typename S::Ret>;
  static constexpr bool member = isMember<F>, self = selfFirst<Owner, F>(static_cast<Args*>(nullptr));
  static constexpr int params = std::tuple_size_v<Args> - (self ? 1 : 0), ints = intCount(static_cast<Args*>(nullptr));
  template<std::size_t... i> static Ret callInts(F& f, const Owner& o, const long* p, std::index_sequence<i...>)
  {
    constexpr int off = self ? 1 : 0;
    std::tuple<std::tuple_element_t<i + off, Args>...> a{FromInts<std::tuple_element_t<i + off, Args>>::make(p)...};
    if constexpr (member) return (o.*f)(std::get<i>(a)...);
    else if constexpr (!self) return f(std::get<i>(a)...);
    else if constexpr (std::is_same_v<std::tuple_element_t<0, Args>, Owner>) return f(o, std::get<i>(a)...);
    else { pybind11::object h; h.kind = pybind11::handle::Ref; h.ref = &o; return f(h, std::get<i>(a)...); }
  }
  static Ret call(F& f, const Owner& o, const long* p) { return callInts(f, o, p, std::make_index_sequence<params>()); }
};

// ---- comparing results ------------------------------------------------------------------------
static void same(const GT& a, const GT& b, const char* rule) { v_true(a == b, rule); }
template<class V> void sameVec(const V& a, const V& b, const char* rule) { for (std::size_t j = 0; j < a.size(); ++j) v_eq(a[j], b[j], rule); }
template<int d> void same(const Vec<d>& a, const Vec<d>& b, const char* rule) { for (int j = 0; j < d; ++j) v_eq(a[j], b[j], rule); }
static void same(long a, long b, const char* rule) { v_eqi(a, b, rule); }
static void same(const pybind11::int_& a, long b, const char* rule) { v_eqi(a.i, b, rule); }
static void same(double a, double b, const char* rule) { v_eq(a, b, rule); }
static const char* EQ = "Python returns what the C++ query returns";
static const char* REFUSE = "an index out of range is refused";

template<int d, class Ret> void answer(const Ref<d>& r, const char* name, int n, const long* p, const Ret& ret)
{
  if constexpr (std::is_same_v<Ret, pybind11::tuple> || std::is_same_v<Ret, pybind11::list>)
  {
    long sz = is(name, "types") || is(name, "positions") ? r.size(p[0]) : is(name, "subEntities") ? r.size(p[0], p[1], p[2]) : is(name, "corners") ? r.size(d) : d > 0 ? r.size(1) : 0;
    v_eqi(ret.size(), sz, "Python returns one entry per sub-entity");
    for (long k = 0; k < sz; ++k)
    {
      const pybind11::object& o = ret[k]; v_label("entry", k);
      if (is(name, "types")) same(o.cast<GT>(), r.type(k, p[0]), EQ);
      else if (is(name, "subEntities")) same(o.cast<long>(), (long) r.subEntity(p[0], p[1], k, p[2]), EQ);
      else if (is(name, "positions")) same<d>(o.cast<Vec<d>>(), r.position(k, p[0]), EQ);
      else if (is(name, "corners")) same<d>(o.cast<Vec<d>>(), r.position(k, d), EQ);
      else if constexpr (d > 0) { if (is(name, "integrationOuterNormals")) same<d>(o.cast<Vec<d>>(), r.integrationOuterNormal(k), EQ); }
    }
  }
  else if constexpr (std::is_same_v<Ret, GT>) { if (is(name, "type")) same(ret, n == 2 ? r.type(p[0], p[1]) : r.type(), EQ); }
  else if constexpr (std::is_same_v<Ret, Vec<d>>)
  {
    if (is(name, "position")) same<d>(ret, r.position(p[0], p[1]), EQ);
    else if (is(name, "center")) same<d>(ret, r.position(0, 0), EQ);
    else if constexpr (d > 0) { if (is(name, "integrationOuterNormal")) same<d>(ret, r.integrationOuterNormal(p[0]), EQ); }
  }
  else if constexpr (std::is_same_v<Ret, double>) { if (is(name, "volume")) same(ret, r.volume(), EQ); }
  else if constexpr (std::is_integral_v<Ret> || std::is_same_v<Ret, pybind11::int_>)
  {
    long v; if constexpr (std::is_integral_v<Ret>) v = ret; else v = ret.i;
    if (is(name, "dimension")) same(v, long(d), EQ);
    else if (is(name, "size")) same(v, long(n == 1 ? r.size(p[0]) : r.size(p[0], p[1], p[2])), EQ);
    else if (is(name, "subEntity")) same(v, long(r.subEntity(p[0], p[1], p[2], p[3])), EQ);
  }
}
template<int d> bool valid(const Ref<d>& r, const char* name, int n, const long* p)
{
  auto entity = [&](long i, long c) { return c >= 0 && c <= d && i >= 0 && i < r.size(c); };
  if (n == 0) return true;
  if (is(name, "integrationOuterNormal")) return d > 0 && p[0] >= 0 && p[0] < r.size(d > 0 ? 1 : 0);
  if (n == 1) return p[0] >= 0 && p[0] <= d;
  if (n == 2) return entity(p[0], p[1]);
  if (n == 3) return entity(p[0], p[1]) && p[2] >= p[1] && p[2] <= d;
  return entity(p[0], p[1]) && p[3] >= p[1] && p[3] <= d && p[2] >= 0 && p[2] < r.size(p[0], p[1], p[3]);
}
static bool known(const char* name, int n)
{
  return n == 0 || (n == 1 && (is(name, "size") || is(name, "types") || is(name, "positions") || is(name, "integrationOuterNormal")))
    || (n == 2 && (is(name, "type") || is(name, "position"))) || (n == 3 && (is(name, "size") || is(name, "subEntities"))) || (n == 4 && is(name, "subEntity"));
}
template<class Owner, class F> bool refused(F& f, const Owner& o, const long* p)
{ // a failed assertion ends the Python interpreter, so it is no refusal
  return v_try([&]() { Bound<Owner, F>::call(f, o, p); }, "assertion") == 2;
}

template<int d, class F> void boundRef(const char* name, F& f)
{
  using R = Ref<d>;
  if constexpr (Bound<R, F>::params > 0 && Bound<R, F>::ints == 0) return;
  else
  {
    constexpr int n = Bound<R, F>::ints;
    if (group != Refs || !known(name, n)) return;
    for (unsigned id = 0; id < (1u << d); id += (d > 0 ? 2 : 1))
    {
      const R r = Dune::ReferenceElements<double, d>::general(GT(id, d));
      v_labels("name", name); v_label("id", id); v_label("dim", d);
      // all combinations of indices around their ranges
      const long max = 9;
      long p[4] = {0, 0, 0, 0};
      auto one = [&]() {
        v_label("i", p[0]); v_label("j", p[1]); v_label("k", p[2]); v_label("l", p[3]);
        if (valid<d>(r, name, n, p)) answer<d>(r, name, n, p, Bound<R, F>::call(f, r, p));
        else v_true(refused<R>(f, r, p), REFUSE);
      };
      if constexpr (n == 0) one();
      else if constexpr (n == 1) { for (p[0] = -2; p[0] <= max + 5; ++p[0]) one(); }
      else
      {
        for (p[1] = -1; p[1] <= d + 1; ++p[1])
        {
          const long sz = p[1] >= 0 && p[1] <= d ? r.size(p[1]) : 1;
          for (p[0] = -1; p[0] <= sz; ++p[0])
            if constexpr (n == 2) one();
            else if constexpr (n == 3) { for (p[2] = -1; p[2] <= d + 1; ++p[2]) one(); }
            else for (p[3] = -1; p[3] <= d + 1; ++p[3])
            {
              const long ssz = p[1] >= 0 && p[1] <= d && p[0] >= 0 && p[0] < sz && p[3] >= p[1] && p[3] <= d ? r.size(p[0], p[1], p[3]) : 1;
              for (p[2] = -1; p[2] <= ssz; ++p[2]) one();
            }
        }
      }
      // an index anywhere beyond, in each argument
      for (int k = 0; k < n; ++k)
        for (int side = 0; side < 2; ++side)
        {
          long q[4] = {0, 0, 0, 0};
          const int u = v_int("index");
          const int bound = n > 1 && (k == 0 || (k == 2 && n == 4)) ? (k == 0 ? r.size(q[1]) : 1) : d + (is(name, "integrationOuterNormal") ? r.size(d > 0 ? 1 : 0) - d : 1);
          if (side) v_assume(u >= bound); else v_assume(u < 0);
          q[k] = u;
          v_label("argument", k);
          v_true(refused<R>(f, r, q), REFUSE);
        }
    }
  }
}

// ---- geometry types -----------------------------------------------------------------------------
template<class F> void allTypes(F f)
{
  for (int d = 0; d <= 5; ++d) { for (unsigned id = 0; id < (1u << d); ++id) f(GT(id, d)); f(Dune::GeometryTypes::none(d)); }
}
static bool property(const char* name, const GT& t)
{
  if (is(name, "isVertex")) return t.isNone() ? t.isVertex() : t.dim() == 0;
  const unsigned id = t.id() & ~1u, d = t.dim(); const bool n = t.isNone();
  if (is(name, "isLine")) return n ? t.isLine() : d == 1;
  if (is(name, "isTriangle")) return d == 2 && id == 0 && !n;
  if (is(name, "isQuadrilateral")) return d == 2 && id == 2 && !n;
  if (is(name, "isTetrahedron")) return d == 3 && id == 0 && !n;
  if (is(name, "isPyramid")) return d == 3 && id == 2 && !n;
  if (is(name, "isPrism")) return d == 3 && id == 4 && !n;
  if (is(name, "isHexahedron")) return d == 3 && id == 6 && !n;
  if (is(name, "isSimplex")) return (d <= 1 || id == 0) && !n;
  if (is(name, "isCube")) return (d <= 1 || id == ((1u << d) - 1 & ~1u)) && !n;
  return n;
}
template<class F> void boundType(const char* name, F& f)
{
  if (group != Types) return;
  using B = Bound<GT, F>;
  if constexpr (B::params == 0)
  {
    v_labels("name", name);
    if constexpr (std::is_same_v<typename B::Ret, bool>)
      allTypes([&](const GT& t) { v_label("id", t.id()); v_label("dim", t.dim()); v_true(B::call(f, t, nullptr) == property(name, t), "the property agrees with the type"); });
    else if constexpr (std::is_integral_v<typename B::Ret>)
    {
      if (is(name, "dim") || is(name, "dimension"))
        allTypes([&](const GT& t) { v_label("id", t.id()); v_label("dim", t.dim()); v_eqi(B::call(f, t, nullptr), t.dim(), "the dimension agrees with the type"); });
      else if (is(name, "__hash__"))
        allTypes([&](const GT& t) {
          v_label("id", t.id()); v_label("dim", t.dim());
          v_eqi(B::call(f, t, nullptr), B::call(f, GT(t.id() ^ (t.dim() > 0 ? 1 : 0), t.dim(), t.isNone()), nullptr), "equal types hash alike");
        });
    }
    else if constexpr (std::is_same_v<typename B::Ret, std::string>)
    {
      if (is(name, "__str__") || is(name, "__repr__"))
        allTypes([&](const GT& t) {
          v_label("id", t.id()); v_label("dim", t.dim());
          const std::string s = B::call(f, t, nullptr);
          v_true(Dune::geometryTypeFromString(s) == t, "parsing the text of a type yields the type");
        });
    }
  }
}
static bool parses(const char* s, const GT& t) { v_labels("text", s); return Dune::geometryTypeFromString(s) == t; }
static bool rejects(const std::string& s)
{
  v_labels("text", s.c_str());
  return v_try([&]() { Dune::geometryTypeFromString(s); }, "assertion") == 2;
}

// ---- registration hooks --------------------------------------------------------------------------
template<class Owner> struct RefDim { static constexpr int value = -1; };
template<int d> struct RefDim<Dune::Geo::ReferenceElement<Dune::Geo::ReferenceElementImplementation<double, d>>> { static constexpr int value = d; };
template<class T> struct RuleDim { static constexpr int value = -1; };
template<int d> struct RuleDim<Dune::QuadratureRule<double, d>> { static constexpr int value = d; };
template<class T> struct PointDim { static constexpr int value = -1; };
template<int d> struct PointDim<Dune::QuadraturePoint<double, d>> { static constexpr int value = d; };
template<class T> struct Geo { static constexpr int dim = -1, cdim = -1; };
template<int d, int c> struct Geo<Dune::MultiLinearGeometry<double, d, c>> { static constexpr int dim = d, cdim = c; };
template<class T> struct IsIter : std::false_type {};
template<class A, class B> struct IsIter<pybind11::iterator_state<A, B>> : std::true_type {};

static const char* submodule = nullptr; static bool submoduleSeen[5];
void v_submodule(const char* name)
{
  static char buf[64]; std::strncpy(buf, name, 63); buf[63] = 0; submodule = buf;
}
template<int d, class F> void boundRule(const char* name, F& f)
{
  using R = Dune::QuadratureRule<double, d>; using B = Bound<R, F>;
  if constexpr (B::params == 0)
  {
    if (group != Quads) return;
    for (unsigned id = 0; id < (1u << d); id += (d > 0 ? 2 : 1)) for (int order = 0; order <= 3; ++order)
    {
      const R& r = Dune::QuadratureRules<double, d>::rule(GT(id, d), order);
      v_labels("name", name); v_label("id", id); v_label("dim", d); v_label("order", order);
      if constexpr (std::is_same_v<typename B::Ret, GT>) { if (is(name, "type")) same(B::call(f, r, nullptr), r.type(), EQ); }
      else if constexpr (std::is_integral_v<typename B::Ret>) { if (is(name, "order")) same(long(B::call(f, r, nullptr)), long(r.order()), EQ); }
      else if constexpr (IsIter<typename B::Ret>::value)
      {
        auto it = B::call(f, r, nullptr); std::size_t k = 0;
        for (auto p = it.begin; p != it.end; ++p, ++k) { v_true(k < r.size(), "every point is visited once"); v_eqp(&*p, &r[k], "every point is visited in order"); }
        v_eqi(k, r.size(), "every point is visited once");
      }
      else if constexpr (requires { B::call(f, r, nullptr).first.shape; })
      {
        const auto a = B::call(f, r, nullptr);
        v_eqi(a.first.shape.size(), 2, "positions form a table"); v_eqi(a.second.shape.size(), 1, "weights form a vector");
        v_eqi(a.first.shape[0], d, "one row per coordinate"); v_eqi(a.first.shape[1], r.size(), "one column per point"); v_eqi(a.second.shape[0], r.size(), "one weight per point");
        for (std::size_t k = 0; k < r.size(); ++k)
        {
          for (int j = 0; j < d; ++j) v_eq(a.first.data[j*r.size() + k], r[k].position()[j], "the table holds the positions");
          v_eq(a.second.data[k], r[k].weight(), "the vector holds the weights");
        }
      }
    }
  }
}
template<int d, class F> void boundPoint(const char* name, F& f)
{
  using P = Dune::QuadraturePoint<double, d>; using B = Bound<P, F>;
  if (group != Quads) return;
  v_labels("name", name); v_label("dim", d);
  Vec<d> x; for (int j = 0; j < d; ++j) x[j] = v_real("x", j);
  const double w = v_real("w"); const P p(x, w);
  if constexpr (B::params == 0)
  {
    if constexpr (std::is_same_v<typename B::Ret, Vec<d>> && !std::is_same_v<Vec<d>, double>) { if (is(name, "position")) same<d>(B::call(f, p, nullptr), x, EQ); }
    else if constexpr (std::is_same_v<typename B::Ret, double>) { if (is(name, "weight")) same(B::call(f, p, nullptr), w, EQ); }
  }
}
template<int d, int c, class F> void boundGeo(const char* name, F& f)
{
  using G = Dune::MultiLinearGeometry<double, d, c>; using B = Bound<G, F>;
  if (group != Geometries) return;
  for (unsigned id = 0; id < (1u << d); id += (d > 0 ? 2 : 1))
  {
    const GT t(id, d); const int n = Dune::ReferenceElements<double, d>::general(t).size(d);
    v_labels("name", name); v_label("id", id); v_label("dim", d); v_label("cdim", c);
    std::vector<Vec<c>> x(n);
    for (int k = 0; k < n; ++k) for (int j = 0; j < c; ++j) x[k][j] = v_real("x", k*c + j);
    if constexpr (B::ints == 1 && B::params == 1)
    {
      if (!is(name, "corner")) return;
      const G g(t, x);
      for (long k = -1; k <= n; ++k)
      {
        v_label("index", k);
        if (k >= 0 && k < n) same<c>(B::call(f, g, &k), x[k], EQ);
        else v_true(refused<G>(f, g, &k), REFUSE);
      }
      const long lo = v_int("below"), hi = v_int("above"); v_assume(lo < 0); v_assume(hi >= n);
      v_true(refused<G>(f, g, &lo), REFUSE); v_true(refused<G>(f, g, &hi), REFUSE);
    }
    else if constexpr (B::params == 0)
    {
      // reference positions are a valid, simple geometry
      std::vector<Vec<c>> y(n, Vec<c>(0)); const auto re = Dune::ReferenceElements<double, d>::general(t);
      for (int k = 0; k < n; ++k) for (int j = 0; j < d && j < c; ++j) y[k][j] = 2*re.position(k, d)[j];
      const G g(t, y);
      if constexpr (std::is_same_v<typename B::Ret, bool>) { if (is(name, "affine")) v_true(B::call(f, g, nullptr) == g.affine(), EQ); }
      else if constexpr (std::is_same_v<typename B::Ret, GT>) { if (is(name, "type")) same(B::call(f, g, nullptr), t, EQ); }
      else if constexpr (std::is_integral_v<typename B::Ret>) { if (is(name, "corners")) same(long(B::call(f, g, nullptr)), long(n), EQ); }
      else if constexpr (std::is_same_v<typename B::Ret, double>) { if (is(name, "volume")) same(B::call(f, g, nullptr), g.volume(), EQ); }
      else if constexpr (std::is_same_v<typename B::Ret, Vec<c>>) { if (is(name, "center")) same<c>(B::call(f, g, nullptr), g.center(), EQ); }
    }
    else if constexpr (B::ints == 0 && B::params == 1)
    {
      // a function of a point: compared with the C++ function of the class
      std::vector<Vec<c>> y(n, Vec<c>(0)); const auto re = Dune::ReferenceElements<double, d>::general(t);
      for (int k = 0; k < n; ++k) for (int j = 0; j < d && j < c; ++j) y[k][j] = 2*re.position(k, d)[j] + 1;
      const G g(t, y);
      using A = std::tuple_element_t<B::self ? 1 : 0, typename B::Args>;
      auto call = [&](const A& a) { if constexpr (B::member) return (g.*f)(a); else return f(g, a); };
      if constexpr (std::is_same_v<A, Vec<d>> || std::is_same_v<A, Vec<c>>)
      {
        A a; for (std::size_t j = 0; j < a.size(); ++j) a[j] = 1./(4 << j);
        if constexpr (std::is_same_v<typename B::Ret, double> && std::is_same_v<A, Vec<d>>) { if (is(name, "integrationElement")) same(call(a), g.integrationElement(a), EQ); }
        else if constexpr (std::is_same_v<typename B::Ret, Vec<c>> && std::is_same_v<A, Vec<d>>)
        {
          if (is(name, "toGlobal")) same<c>(call(a), g.global(a), EQ);
        }
        else if constexpr (requires { call(a).N(); } && std::is_same_v<A, Vec<d>>)
        {
          if (is(name, "jacobianTransposed")) { const auto m = call(a); const auto e = g.jacobianTransposed(a); for (int i = 0; i < d; ++i) for (int j = 0; j < c; ++j) v_eq(m[i][j], e[i][j], EQ); }
          if constexpr (c >= d) if (is(name, "jacobianInverseTransposed")) { const auto m = call(a); const auto e = g.jacobianInverseTransposed(a); for (int i = 0; i < c; ++i) for (int j = 0; j < d; ++j) v_eq(m[i][j], e[i][j], EQ); }
        }
        if constexpr (std::is_same_v<typename B::Ret, Vec<d>> && std::is_same_v<A, Vec<c>> && c >= d)
          if (is(name, "toLocal") && id == 0) { const Vec<c> z = y[0]; same<d>(call(z), g.local(z), EQ); }
      }
    }
  }
}
template<class F> void boundModule(const char* name, F& f)
{
  using B = Bound<ModuleScope, F>; using Ret = typename B::Ret;
  if constexpr (std::is_same_v<Ret, GT> && B::ints == 1 && B::params == 1)
  {
    if (group != Module) return;
    for (long d = 0; d <= 8; ++d)
    {
      v_labels("name", name); v_label("dim", d);
      const GT t = B::call(f, ModuleScope(), &d);
      if (is(name, "simplex")) v_true(t == GT(0, d, false), "the name denotes the type");
      else if (is(name, "cube")) v_true(t == GT((1u << d) - 1, d, false), "the name denotes the type");
      else if (is(name, "none")) v_true(t == GT(0, d, true), "the name denotes the type");
    }
  }
  else if constexpr (B::params == 1 && std::is_base_of_v<pybind11::object, Ret> && std::is_same_v<std::tuple_element_t<0, typename B::Args>, GT>)
  {
    if (group != Module || !submodule) return;
    if (!is(name, "general")) return;
    const int d = submodule[std::strlen(submodule) - 1] - '0';
    for (unsigned id = 0; id < (1u << d); ++id)
    {
      v_labels("name", name); v_label("id", id); v_label("dim", d);
      const auto o = f(GT(id, d));
      v_true(o.kind == pybind11::handle::Ref, "a reference element is returned");
      auto check = [&](auto D) {
        if constexpr (D.value <= 4) if (d == D.value) { v_eqp(o.ref ? o.type : nullptr, ownerId<Ref<D.value>>(), "the reference element has the dimension of the module"); }
      };
      check(std::integral_constant<int, 0>()); check(std::integral_constant<int, 1>()); check(std::integral_constant<int, 2>()); check(std::integral_constant<int, 3>()); check(std::integral_constant<int, 4>());
      v_eqi(o.id, id, "the reference element has the requested type");
    }
    v_true(f(Dune::GeometryTypes::none(d)).kind == pybind11::handle::None, "no reference element for types that have none");
  }
  else if constexpr (B::params == 2 && RuleDim<Ret>::value >= 0)
  {
    constexpr int d = RuleDim<Ret>::value;
    if (group != Module || !is(name, "rule")) return;
    for (unsigned id = 0; id < (1u << d); id += (d > 0 ? 2 : 1)) for (int order = 0; order <= 3; ++order)
    {
      v_labels("name", name); v_label("id", id); v_label("dim", d); v_label("order", order);
      decltype(auto) r = f(GT(id, d), order); const auto& e = Dune::QuadratureRules<double, d>::rule(GT(id, d), order);
      v_eqi(r.size(), e.size(), EQ); v_eqi(r.order(), e.order(), EQ); same(r.type(), e.type(), EQ);
      for (std::size_t k = 0; k < e.size(); ++k) { v_eq(r[k].weight(), e[k].weight(), EQ); for (int j = 0; j < d; ++j) v_eq(r[k].position()[j], e[k].position()[j], EQ); }
    }
  }
}
template<class Owner, bool keepsAlive, class F> void v_bound(const char* name, F f)
{
  using B = Bound<Owner, F>;
  if (nSeen < 400) { seen[nSeen] = name; seenArgs[nSeen] = B::params; seenOwner[nSeen] = ownerId<Owner>(); ++nSeen; }
  if constexpr (IsIter<typename B::Ret>::value)
    if (group == Quads) { v_labels("name", name); v_true(keepsAlive, "an iterator keeps the object it refers to alive"); }
  if constexpr (RefDim<Owner>::value >= 0) boundRef<RefDim<Owner>::value>(name, f);
  else if constexpr (std::is_same_v<Owner, GT>) boundType(name, f);
  else if constexpr (RuleDim<Owner>::value >= 0) boundRule<RuleDim<Owner>::value>(name, f);
  else if constexpr (PointDim<Owner>::value >= 0) boundPoint<PointDim<Owner>::value>(name, f);
  else if constexpr (Geo<Owner>::dim >= 0) boundGeo<Geo<Owner>::dim, Geo<Owner>::cdim>(name, f);
  else if constexpr (std::is_same_v<Owner, ModuleScope>) boundModule(name, f);
}
template<class Owner, class F> void v_constructor(F f)
{
  nSeen < 400 ? (seen[nSeen] = "__init__", seenArgs[nSeen] = Bound<ModuleScope, F>::params, seenOwner[nSeen] = ownerId<Owner>(), ++nSeen) : 0;
  if constexpr (std::is_same_v<Owner, GT>)
  {
    if (group != Types) return;
    if constexpr (std::is_same_v<typename Sig<F>::Args, std::tuple<std::string>>)
      allTypes([&](const GT& t) {
        v_label("id", t.id()); v_label("dim", t.dim());
        auto p = f(Dune::to_string(t)); v_true(*p == t, "constructing from the text of a type yields the type");
      });
  }
  else if constexpr (PointDim<Owner>::value >= 0)
  {
    constexpr int d = PointDim<Owner>::value;
    if (group != Quads) return;
    Vec<d> x; for (int j = 0; j < d; ++j) x[j] = v_real("x", j);
    const double w = v_real("w"); auto p = f(x, w);
    same<d>(p->position(), x, EQ); same(p->weight(), w, EQ);
  }
  else if constexpr (Geo<Owner>::dim >= 0)
  {
    constexpr int d = Geo<Owner>::dim, c = Geo<Owner>::cdim;
    if (group != Geometries) return;
    v_labels("name", "__init__"); v_label("dim", d); v_label("cdim", c);
    for (unsigned id = 0; id < (1u << d); id += (d > 0 ? 2 : 1))
    {
      const GT t(id, d); const int n = Dune::ReferenceElements<double, d>::general(t).size(d);
      for (int m = 0; m <= n + 2; ++m)
      {
        v_label("id", id); v_label("corners", m);
        pybind11::list l; std::vector<Vec<c>> x(m);
        for (int k = 0; k < m; ++k) { for (int j = 0; j < c; ++j) x[k][j] = v_real("x", k*c + j); l.append(x[k]); }
        if (m == n)
        {
          auto g = f(t, l); same(g->type(), t, "the geometry has the given type"); v_eqi(g->corners(), n, "the geometry has the given corners");
          for (int k = 0; k < n; ++k) same<c>(g->corner(k), x[k], "the geometry has the given corners");
        }
        else v_true(v_try([&]() { f(t, l); }, "assertion") == 2, "a wrong number of corners is refused");
      }
    }
    for (int e = 0; e <= 4; ++e) if (e != d)
    {
      pybind11::list l; for (int k = 0; k < (1 << d); ++k) l.append(Vec<c>(k));
      v_label("typedim", e);
      v_true(v_try([&]() { f(Dune::GeometryTypes::cube(e), l); }, "assertion") == 2, "a type of another dimension is refused");
    }
    pybind11::list l; for (int k = 0; k < (1 << d); ++k) l.append(Vec<c>(k));
    v_true(v_try([&]() { f(Dune::GeometryTypes::none(d), l); }, "assertion") == 2, "a type without corners is refused");
  }
}
template<class Owner> void v_operator(const char* name, bool (*f)(const Owner&, const Owner&))
{
  if (nSeen < 400) { seen[nSeen] = name; seenArgs[nSeen] = 1; seenOwner[nSeen] = ownerId<Owner>(); ++nSeen; }
  if constexpr (std::is_same_v<Owner, GT>)
  {
    if (group != Types) return;
    v_labels("name", name);
    const bool ne = is(name, "__ne__");
    for (int d = 0; d <= 4; ++d) for (int e = 0; e <= 4; ++e) for (unsigned a = 0; a < (1u << d); ++a) for (unsigned b = 0; b < (1u << e); ++b) for (int n = 0; n < 4; ++n)
    {
      const bool na = n & 1, nb = n & 2; const GT s(a, d, na), t(b, e, nb);
      const bool equal = d == e && na == nb && (na || (a >> 1) == (b >> 1));
      v_label("id", a); v_label("dim", d); v_label("id2", b); v_label("dim2", e);
      v_true(f(s, t) == (equal != ne), "equality is that of the types");
    }
  }
}
static int attributes;
void v_attribute(const char* name, const GT& t)
{
  ++attributes;
  if (group != Module) return;
  v_labels("name", name);
  const GT e = is(name, "vertex") ? GT(0, 0) : is(name, "line") ? GT(0, 1) : is(name, "triangle") ? GT(0, 2) : is(name, "quadrilateral") ? GT(2, 2)
    : is(name, "tetrahedron") ? GT(0, 3) : is(name, "pyramid") ? GT(2, 3) : is(name, "prism") ? GT(4, 3) : is(name, "hexahedron") ? GT(6, 3) : t;
  v_true(t == e, "the name denotes the type");
}

// ---- entries ---------------------------------------------------------------------------------------
CHK(types)
{
  group = Types; pybind11::module m;
  Dune::Python::registerGeometryType(m);
  expect<GT>("__init__", 1); expect<GT>("__str__", 0); expect<GT>("__hash__", 0); expect<GT>("__eq__", 1); expect<GT>("__ne__", 1); expect<GT>("dim", 0); expect<GT>("dimension", 0);
  for (const char* n : {"isVertex", "isLine", "isTriangle", "isQuadrilateral", "isTetrahedron", "isPyramid", "isPrism", "isHexahedron", "isSimplex", "isCube", "isNone"}) expect<GT>(n, 0);
}
CHK(texts)
{
  static const char* R = "the text denotes the type";
  for (int d = 0; d <= 9; ++d)
  {
    const char c[2] = {char('0' + d), 0}; const std::string s(c);
    v_true(parses(("cube(" + s + ")").c_str(), GT((1u << d) - 1, d)), R); v_true(parses(("simplex(" + s + ")").c_str(), GT(0, d)), R); v_true(parses(("none(" + s + ")").c_str(), GT(0, d, true)), R);
  }
  v_true(parses("simplex(12)", GT(0, 12)), R); v_true(parses("cube(12)", GT(4095, 12)), R);
  v_true(parses("vertex", GT(0, 0)), R); v_true(parses("line", GT(0, 1)), R); v_true(parses("triangle", GT(0, 2)), R); v_true(parses("quadrilateral", GT(3, 2)), R);
  v_true(parses("tetrahedron", GT(0, 3)), R); v_true(parses("pyramid", GT(3, 3)), R); v_true(parses("prism", GT(5, 3)), R); v_true(parses("hexahedron", GT(7, 3)), R);
  for (int d = 0; d <= 5; ++d) for (unsigned id = 0; id < (1u << d); ++id) { const std::string a = std::to_string(id), b = std::to_string(d); v_true(parses(("general(" + a + ", " + b + ")").c_str(), GT(id, d)), R); v_true(parses(("general(" + a + "," + b + ")").c_str(), GT(id, d)), R); }
}
CHK(refused)
{
  static const char* R = "a text that denotes no type is refused";
  for (const char* s : {"", " ", "(", ")", "()", "(3)", "cube", "cube(", "cube()", "cube( )", "cube(3", "cube(3,", "cube(3,)", "cube(,3)", "cube(3)x", "cube(3))", "cube(3)(3)", "cube(3) x", "cube(x)", "cube(3x)", "cube(3 4)", "cube(-1)", "cube(3.5)",
      "cube(1,2)", "cube(1, 2, 3)", "Cube(3)", "cubes(3)", "cub(3)", "cube(300)", "cube(31)", "cube(32)", "cube(64)", "cube(4294967298)", "cube(99999999999999999999999)",
      "simplex", "simplex()", "simplex(a)", "simplex(2a)", "simplex(-2)", "simplex(256)", "simplex(1,1)", "simplex(4294967298)", "none", "none()", "none(b)", "none(256)", "none(1,2)", "none(-1)",
      "general", "general()", "general(1)", "general(1, 2, 3)", "general(4, 2)", "general(2, 1)", "general(1, 0)", "general(16, 4)", "general(0, 32)", "general(0, 64)", "general(0, 40)", "general(4294967296, 2)", "general(a, 2)", "general(1, b)", "general(-1, 2)", "general(0, -2)", "general(0, 2)3",
      "vertex()", "vertex(0)", "line(1)", "line()", "triangle(2)", "quadrilateral(2)", "tetrahedron(3)", "pyramid(3)", "prism(3)", "hexahedron(3)", "hexahedron(7, 3)", "unknown", "a", "zzz", "point", "tri"})
    v_true(rejects(s), R);
  for (const char* s : {"cube", "general", "hexahedron", "line", "none", "prism", "pyramid", "quadrilateral", "simplex", "tetrahedron", "triangle", "vertex"})
  {
    const std::string n(s);
    v_true(rejects(n + "s"), R); v_true(rejects(n.substr(0, n.size() - 1)), R); v_true(rejects(n.substr(1)), R); v_true(rejects("x" + n), R); v_true(rejects(n + " x"), R); v_true(rejects(n + "(1, 2, 3)"), R);
  }
}
CHK(module)
{
  group = Module;
  v_python_module(pybind11::module());
  v_eqi(attributes >= 8, 1, "the predefined types are available from Python");
  expect<ModuleScope>("simplex", 1); expect<ModuleScope>("cube", 1); expect<ModuleScope>("none", 1); expect<ModuleScope>("general", 1); expect<ModuleScope>("rule", 2);
  expect<GT>("__init__", 1);
  expect<Ref<0>>("position", 2); expect<Ref<1>>("position", 2); expect<Ref<2>>("position", 2); expect<Ref<3>>("position", 2); expect<Ref<4>>("position", 2);
}
template<int d> void reference()
{
  group = Refs; pybind11::module m;
  Dune::Python::registerReferenceElementToModule<d>(m);
  expect<Ref<d>>("dimension", 0); expect<Ref<d>>("size", 1); expect<Ref<d>>("size", 2); expect<Ref<d>>("size", 3); expect<Ref<d>>("type", 1); expect<Ref<d>>("type", 2); expect<Ref<d>>("types", 1);
  expect<Ref<d>>("subEntity", 4); expect<Ref<d>>("subEntity", 2); expect<Ref<d>>("subEntities", 3); expect<Ref<d>>("subEntities", 2); expect<Ref<d>>("position", 1); expect<Ref<d>>("position", 2); expect<Ref<d>>("positions", 1);
  expect<Ref<d>>("center", 0); expect<Ref<d>>("corners", 0); expect<Ref<d>>("volume", 0);
  if (d > 0) { expect<Ref<d>>("integrationOuterNormal", 1); expect<Ref<d>>("integrationOuterNormals", 0); }
}
CHK(ref0) { reference<0>(); }
CHK(ref1) { reference<1>(); }
CHK(ref2) { reference<2>(); }
CHK(ref3) { reference<3>(); }
CHK(ref4) { reference<4>(); }
template<int d> void rules()
{
  using R = Dune::QuadratureRule<double, d>; using P = Dune::QuadraturePoint<double, d>;
  group = Quads; pybind11::module m;
  Dune::Python::registerQuadratureRule<double, d>(m);
  expect<P>("__init__", 2); expect<P>("position", 0); expect<P>("weight", 0); expect<R>("order", 0); expect<R>("type", 0); expect<R>("get", 0); expect<R>("__iter__", 0);
  const int n = nSeen; Dune::Python::registerQuadratureRule<double, d>(m);
  v_eqi(nSeen, n, "classes are registered once");
}
CHK(rule1) { rules<1>(); }
CHK(rule2) { rules<2>(); }
CHK(rule3) { rules<3>(); }
template<int d, int c> void geometries()
{
  using G = Dune::MultiLinearGeometry<double, d, c>;
  group = Geometries; pybind11::module m;
  Dune::Python::registerMultiLinearGeometryType<double, d, c>(m);
  expect<G>("__init__", 2); expect<G>("corner", 1); for (const char* n : {"affine", "type", "corners", "center", "volume"}) expect<G>(n, 0);
  expect<G>("integrationElement", 1); expect<G>("jacobianTransposed", 1); expect<G>("toGlobal", 1);
  if (c >= d) { expect<G>("toLocal", 1); expect<G>("jacobianInverseTransposed", 1); }
  const int n = nSeen; Dune::Python::registerMultiLinearGeometryType<double, d, c>(m);
  v_eqi(nSeen, n, "classes are registered once");
}
CHK(geometry11) { geometries<1, 1>(); }
CHK(geometry22) { geometries<2, 2>(); }
CHK(geometry23) { geometries<2, 3>(); }
CHK(geometry33) { geometries<3, 3>(); }
