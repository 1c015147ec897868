// Stand-in for the part of pybind11 the bindings of this repository use.  Registering a
// callable hands it to the harness (v_bound), which states what the callable must do.
#ifndef VERIF_PYBIND11_H
#define VERIF_PYBIND11_H
#include <cassert>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <initializer_list>
#include <type_traits>
#include <v.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/type.hh>
#include <sys/types.h>

// defined by the harness
struct ModuleScope {};
template<class T> const void* ownerId();
template<class Owner, bool keepsAlive, class F> void v_bound(const char* name, F f);
void v_submodule(const char* name);
template<class Owner, class F> void v_constructor(F f);
template<class Owner> void v_operator(const char* name, bool (*f)(const Owner&, const Owner&));
void v_attribute(const char* name, const Dune::GeometryType& gt);

namespace pybind11
{
  using ssize_t = ::ssize_t;
  struct builtin_exception { std::string text; builtin_exception(const std::string& s = "") : text(s) {} const char* what() const { return text.c_str(); } };
  struct value_error : builtin_exception { using builtin_exception::builtin_exception; };
  struct index_error : builtin_exception { using builtin_exception::builtin_exception; };
  struct type_error : builtin_exception { using builtin_exception::builtin_exception; };
  struct key_error : builtin_exception { using builtin_exception::builtin_exception; };
  struct cast_error : builtin_exception { using builtin_exception::builtin_exception; };
  struct stop_iteration : builtin_exception { using builtin_exception::builtin_exception; };

  enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
  struct arg { const char* name; };
  inline arg operator""_a(const char* s, std::size_t) { return {s}; }
  inline namespace literals { }
  template<int nurse, int patient> struct keep_alive {};
  template<class... X> constexpr bool keepsSelf = (std::is_same_v<X, keep_alive<0, 1>> || ...);
  struct options { options& disable_function_signatures() { return *this; } };

  // a Python object as far as the bindings create one: a number, a vector, a type or a C++ reference
  struct handle
  {
    enum Kind { None, Int, Vector, Type, Ref } kind = None; long i = 0; double x[4] = {}; int n = 0; unsigned id = 0, dim = 0; const void *ref = nullptr, *type = nullptr;
    explicit operator bool() const { return true; }
    struct Attr { const char* name; template<class T> void operator=(const T& t) { if constexpr (std::is_convertible_v<T, Dune::GeometryType>) v_attribute(name, t); } };
    Attr attr(const char* n) const { return {n}; }
    template<class T> T cast() const
    {
      if constexpr (std::is_integral_v<T>) { if (kind != Int) throw cast_error("not a number"); return i; }
      else if constexpr (std::is_same_v<T, Dune::GeometryType>) { if (kind != Type) throw cast_error("not a type"); return Dune::GeometryType(id, dim); }
      else if constexpr (std::is_reference_v<T>) { if (kind != Ref) throw cast_error("not an object"); return *static_cast<const std::remove_reference_t<T>*>(ref); }
      else { if (kind != Vector || n != T::dimension) throw cast_error("not a vector"); T v; for (int j = 0; j < T::dimension; ++j) v[j] = x[j]; return v; }
    }
  };
  struct object : handle {};
  struct none : object {};
  struct int_ : object { int_(long k) { kind = Int; i = k; } };
  inline object make_object(long k) { return int_(k); }
  template<class T> object cast(const T& t, return_value_policy = return_value_policy::automatic)
  {
    object o;
    if constexpr (std::is_same_v<T, Dune::GeometryType>) { o.kind = handle::Type; o.id = t.id(); o.dim = t.dim(); }
    else if constexpr (std::is_integral_v<T>) { o.kind = handle::Int; o.i = t; }
    else if constexpr (requires { T::dimension; t.two_norm(); }) { o.kind = handle::Vector; o.n = T::dimension; for (int j = 0; j < T::dimension; ++j) o.x[j] = t[j]; }
    else { o.kind = handle::Ref; o.ref = &t; o.type = ownerId<T>(); if constexpr (requires { t.type().id(); }) { o.id = t.type().id(); o.dim = t.type().dim(); } }
    return o;
  }
  template<class T> T cast(const handle& h) { return h.template cast<T>(); }
  struct tuple : object
  {
    std::vector<object> items;
    explicit tuple(std::size_t n = 0) : items(n) {}
    std::size_t size() const { return items.size(); }
    object& operator[](std::size_t k) { v_true(k < items.size(), "Python tuples are filled within their size"); return items[k]; }
    const object& operator[](std::size_t k) const { v_true(k < items.size(), "Python tuples are read within their size"); return items[k]; }
  };
  struct list : tuple { using tuple::tuple; template<class T> void append(const T& t) { items.push_back(pybind11::cast(t)); } };
  struct str : object {};
  struct dict : object {};

  template<class It, class End> struct iterator_state { It begin; End end; };
  template<class It, class End> iterator_state<It, End> make_iterator(It a, End b) { return {a, b}; }
  template<class C> auto make_iterator(const C& c) { return make_iterator(c.begin(), c.end()); }

  template<class F> struct init_t { F f; };
  template<class F> init_t<F> init(F f) { return {f}; }
  template<class... A> struct init_args {};
  template<class... A> init_args<A...> init() { return {}; }
  struct self_t {};
  static const self_t self = self_t();
  struct op_eq {}; struct op_ne {};
  inline op_eq operator==(const self_t&, const self_t&) { return {}; }
  inline op_ne operator!=(const self_t&, const self_t&) { return {}; }

  struct module : object
  {
    template<class F, class... X> module& def(const char* name, F f, const X&...) { v_bound<ModuleScope, keepsSelf<X...>>(name, f); return *this; }
    module def_submodule(const char* name, const char* = nullptr) { v_submodule(name); return {}; }
  };
  using module_ = module;

  template<class T, class... Opt> struct class_ : object
  {
    class_() {}
    template<class Scope, class... X> class_(const Scope&, const char*, const X&...) {}
    template<class F, class... X> class_& def(const init_t<F>& i, const X&...) { v_constructor<T>(i.f); return *this; }
    template<class... A, class... X> class_& def(const init_args<A...>&, const X&...) { v_constructor<T>([](A... a) { return new T(a...); }); return *this; }
    template<class... X> class_& def(op_eq, const X&...) { v_operator<T>("__eq__", [](const T& a, const T& b) -> bool { return a == b; }); return *this; }
    template<class... X> class_& def(op_ne, const X&...) { v_operator<T>("__ne__", [](const T& a, const T& b) -> bool { return a != b; }); return *this; }
    template<class F, class... X> class_& def(const char* name, F f, const X&...) { v_bound<T, keepsSelf<X...>>(name, f); return *this; }
    template<class F, class... X> class_& def_property_readonly(const char* name, F f, const X&...) { v_bound<T, keepsSelf<X...>>(name, f); return *this; }
    template<class F, class... X> class_& def_property_readonly_static(const char*, F, const X&...) { return *this; }
    template<class F, class... X> class_& def_static(const char* name, F f, const X&...) { v_bound<T, keepsSelf<X...>>(name, f); return *this; }
  };
  struct is_operator {};
}
#define PYBIND11_MODULE(name, variable) void v_python_module(pybind11::module variable)
#endif
