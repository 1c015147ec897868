#ifndef VERIF_FVECMATREGISTRY_HH
#define VERIF_FVECMATREGISTRY_HH
#include <dune/common/fmatrix.hh>
#include <dune/python/common/typeregistry.hh>
namespace Dune { namespace Python { template<class T> struct registerFieldVecMat { static void apply() {} }; } }
#endif
