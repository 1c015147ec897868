// Stand-in for the type registry: a class is new the first time it is inserted.
#ifndef VERIF_TYPEREGISTRY_HH
#define VERIF_TYPEREGISTRY_HH
#include <initializer_list>
#include <dune/common/typetraits.hh>
#include <dune/common/visibility.hh>
#include <dune/python/pybind11/pybind11.h>
namespace Dune { namespace Python {
  struct GenerateTypeName { template<class... A> GenerateTypeName(const A&...) {} };
  struct IncludeFiles { IncludeFiles(std::initializer_list<const char*>) {} };
  template<class T> inline bool v_registered = false;
  template<class Type, class... options, class... Args> std::pair<pybind11::class_<Type, options...>, bool> insertClass(pybind11::handle, std::string, const Args&...)
  {
    const bool isNew = !v_registered<Type>; v_registered<Type> = true;
    return {pybind11::class_<Type, options...>(), isNew};
  }
} }
#endif
