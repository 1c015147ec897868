#ifndef VERIF_PYBIND11_NUMPY_H
#define VERIF_PYBIND11_NUMPY_H
#include <dune/python/pybind11/pybind11.h>
namespace pybind11
{
  // copies the described memory, so that every element described is read
  template<class T> struct array_t : object
  {
    std::vector<ssize_t> shape; std::vector<T> data;
    template<class U> array_t(std::initializer_list<ssize_t> sh, std::initializer_list<ssize_t> st, const U* p) : shape(sh)
    {
      static_assert(sizeof(U) == sizeof(T));
      const std::vector<ssize_t> s(st);
      const ssize_t a = shape[0], b = shape.size() > 1 ? shape[1] : 1;
      for (ssize_t i = 0; i < a; ++i) for (ssize_t j = 0; j < b; ++j)
        data.push_back(*reinterpret_cast<const T*>(reinterpret_cast<const char*>(p) + i*s[0] + (s.size() > 1 ? j*s[1] : 0)));
    }
  };
}
#endif
