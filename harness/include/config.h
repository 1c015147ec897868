// Configuration header used when the analysed headers are compiled by the checks.
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#include <dune-common-config.hh>
#define HAVE_DUNE_GEOMETRY 1
#define DUNE_GEOMETRY_VERSION "2.12-git"
#define DUNE_GEOMETRY_VERSION_MAJOR 2
#define DUNE_GEOMETRY_VERSION_MINOR 12
#define DUNE_GEOMETRY_VERSION_REVISION 0
#define LAPACK_NEEDS_UNDERLINE 1
#endif
