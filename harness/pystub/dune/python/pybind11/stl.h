#include <dune/python/pybind11/pybind11.h>
