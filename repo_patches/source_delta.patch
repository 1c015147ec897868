From 352858d6e80a2fb73501c6a03f96afefd9a30f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:50 +0000
Subject: [PATCH 01/20] fix: compare the dimension of geometry types without
 shape

GeometryType documents that two types 'none' are equal if and only if they
have the same dimension, and operator< already orders them by dimension.
operator== ignored the dimension, so none(1) == none(2) held together with
none(1) < none(2).
---
 dune/geometry/type.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/type.hh b/dune/geometry/type.hh
index 7a39694..950d29a 100644
--- a/dune/geometry/type.hh
+++ b/dune/geometry/type.hh
@@ -376,10 +376,9 @@ namespace Dune
      */
     constexpr bool operator==(const GeometryType& other) const {
       return ( ( none_ == other.none_ )
+               && ( dim_ == other.dim_ )
                && ( ( none_ == true )
-                    || ( ( dim_ == other.dim_ )
-                         && ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
-                         )
+                    || ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
                     )
                );
     }
-- 
2.43.0


From d20f7e0a01c2cb89f0e1cf0c190ff76b54378aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:35 +0000
Subject: [PATCH 02/20] fix: report collapsed affine geometries as not
 invertible in the caching geometry

CachedMultiLinearGeometry::local ignored the result of the linear solve for
affine mappings and returned a partially computed coordinate. Return the same
value as MultiLinearGeometry::local.
---
 dune/geometry/multilineargeometry.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index 1ca32dc..f3fd1b4 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -608,8 +608,8 @@ namespace Dune
         LocalCoordinate local;
         if( jacobianInverseTransposedComputed_ )
           jacobianInverseTransposed_.mtv( global - corner( 0 ), local );
-        else
-          MatrixHelper::xTRightInvA( jacobianTransposed_, global - corner( 0 ), local );
+        else if( !MatrixHelper::xTRightInvA( jacobianTransposed_, global - corner( 0 ), local ) )
+          return LocalCoordinate( std::numeric_limits< ctype > :: max() );
         return local;
       }
       else
-- 
2.43.0


From d4dd480cbfadf5a2ef723cf2eed6ca8ea5c8b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:05 +0000
Subject: [PATCH 03/20] fix: refuse quadrature requests that lie outside the
 rule cache

Orders above the maximum or below zero, unknown quadrature types and
geometry types without shape were used as indices into the rule cache
before anything checked them.
---
 dune/geometry/quadraturerules.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..5a052fd 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -276,6 +276,14 @@ namespace Dune {
     {
       assert(t.dim()==dim);
 
+      // the tables below are indexed by these arguments
+      if (qt < 0 || qt >= QuadratureType::size)
+        DUNE_THROW(Exception, "Unknown QuadratureType");
+      if (t.isNone())
+        DUNE_THROW(Exception, "Unknown GeometryType");
+      if (dim > 0 && (p < 0 || static_cast<unsigned>(p) > QuadratureRuleFactory<ctype,dim>::maxOrder(t, qt)))
+        DUNE_THROW(QuadratureOrderOutOfRange, "Quadrature rule " << p << " not supported!");
+
       DUNE_ASSERT_CALL_ONCE();
 
       static QuadratureCacheVector quadratureCache(QuadratureType::size);
-- 
2.43.0


From 3a0014209d02f97eb313f4a612706f6cad3a1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:05 +0000
Subject: [PATCH 04/20] fix: select quadrature rules by basic type, not by its
 enum value

The basic type was passed on as a topology id, so asking for a cube rule
in two dimensions returned the rule of the triangle.
---
 dune/geometry/quadraturerules.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 5a052fd..6a0c762 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -339,8 +339,23 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
-      return instance()._rule(gt,p,qt);
+      switch (t) {
+      case GeometryType::simplex :
+        return instance()._rule(GeometryTypes::simplex(dim),p,qt);
+      case GeometryType::cube :
+        return instance()._rule(GeometryTypes::cube(dim),p,qt);
+      case GeometryType::pyramid :
+        if (dim == 3)
+          return instance()._rule(GeometryTypes::pyramid,p,qt);
+        break;
+      case GeometryType::prism :
+        if (dim == 3)
+          return instance()._rule(GeometryTypes::prism,p,qt);
+        break;
+      default :
+        break;
+      }
+      DUNE_THROW(Exception, "Unknown GeometryType");
     }
   };
 
-- 
2.43.0


From 39cd899724f5dcd826194b4cd32fd38275b48577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:18 +0000
Subject: [PATCH 05/20] fix: put the geometry of refined simplex vertices at
 their coordinates

The vertex iterator built its geometry from the integer lattice point in the
Kuhn simplex, which agrees with coords() neither in scale nor in orientation.
---
 dune/geometry/refinement/simplex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/simplex.cc b/dune/geometry/refinement/simplex.cc
index c06f22b..6f3b203 100644
--- a/dune/geometry/refinement/simplex.cc
+++ b/dune/geometry/refinement/simplex.cc
@@ -522,7 +522,7 @@ namespace Dune {
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = (CoordVector)vertex;
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From c15e5617f5cf1eb5917d528c68554d581903c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:18 +0000
Subject: [PATCH 06/20] fix: orient the geometry of refined pyramid vertices
 like their coordinates

The vertex geometry lacked the transformation from the Kuhn pyramid to the
reference pyramid that coords() applies.
---
 dune/geometry/refinement/pyramidtriangulation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/pyramidtriangulation.cc b/dune/geometry/refinement/pyramidtriangulation.cc
index 59d4cef..c230040 100644
--- a/dune/geometry/refinement/pyramidtriangulation.cc
+++ b/dune/geometry/refinement/pyramidtriangulation.cc
@@ -224,7 +224,8 @@ namespace Dune
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = referenceToKuhn(backend.coords(), getPermutation<dimension>(kuhnIndex));
+        corners[0] = transformCoordinate(referenceToKuhn(backend.coords(),
+                                                         getPermutation<dimension>(kuhnIndex)));
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From 80e7e29288f079b5401d808f38a25abf6752ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:18 +0000
Subject: [PATCH 07/20] fix: number refined cube vertices by the vertex grid in
 their geometry

The vertex iterator's geometry decomposed the vertex index as if there were
only as many vertices as intervals per direction.
---
 dune/geometry/refinement/hcube.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 0e7c00e..77c4201 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -391,14 +391,13 @@ namespace Dune
       typename RefinementImp<dimension, CoordType>::template Codim<codimension>::Geometry
       RefinementImp<dimension, CoordType>::Codim<codimension>::SubEntityIterator::geometry () const
       {
-        std::array<unsigned int,dimension> intCoords = idx2coord(_index,_nIntervals);
-
         Dune::FieldVector<CoordType,dimension> lower;
         Dune::FieldVector<CoordType,dimension> upper;
 
         assert(codimension == 0 or codimension == dimension);
 
         if constexpr (codimension == 0) {
+          std::array<unsigned int,dimension> intCoords = cellCoord();
           for (size_t j = 0; j < dimension; j++)
           {
             lower[j] = double(intCoords[j])     / double(_nIntervals);
@@ -408,6 +407,7 @@ namespace Dune
           return typename RefinementImp<dimension,
                                         CoordType>::template Codim<codimension>::Geometry(lower,upper);
         } else {
+          std::array<unsigned int,dimension> intCoords = vertexCoord();
           for (size_t j = 0; j < dimension; j++)
             lower[j] = upper[j] = double(intCoords[j]) / double(_nIntervals);
 
-- 
2.43.0


From 65e40ff361caa8fbfe7a0fccd272fe104cfc6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:49 +0000
Subject: [PATCH 08/20] fix: let refinement iterators survive self-assignment

The assignment operator released its backend before copying the other one,
which reads freed memory when both are the same iterator.
---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..2ce388a 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *copy = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = copy;
     return *this;
   }
 
-- 
2.43.0


From b1a70fd0407169d5e79e677f77189f3522d6d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:30 +0000
Subject: [PATCH 09/20] fix: report a missed tolerance when no Newton step is
 taken

The residual norm started at zero, so an iteration budget of zero steps (or of
zero line-search steps) was reported as a solution for any initial guess.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 40259a6..5355c42 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -69,7 +69,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
   Domain dx{};
   Range dy = f(x0) - y;
   R resNorm0 = dy.two_norm();
-  R resNorm = 0;
+  R resNorm = resNorm0;
 
   for (int i = 0; i < opts.maxIt; ++i)
   {
-- 
2.43.0


From ad5b6a78b539e39c80b77c0db9ec3f95ecc96e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:30 +0000
Subject: [PATCH 10/20] fix: accept an initial guess that already solves the
 problem

When the initial guess is exact the residual cannot be reduced any further,
which was reported as stagnation.  The inverse map of a geometry therefore
threw for the centre of the element.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 5355c42..d94d2f1 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -95,7 +95,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
 
     // cannot reduce the residual
     if (!(resNorm < resNorm0))
-      return GaussNewtonErrorCode::STAGNATION;
+      return resNorm0 < opts.absTol ? GaussNewtonErrorCode::OK : GaussNewtonErrorCode::STAGNATION;
 
     x0 = x;
     resNorm0 = resNorm;
-- 
2.43.0


From d72c376612754b688caeeb2e31f7b71c998c85fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:15 +0000
Subject: [PATCH 11/20] fix: compare reference elements by type

The unit line is reachable through the simplex and the cube lookup. The two
lookups return distinct objects although the geometry types are equal, so the
handles compared unequal and hashed differently.
---
 dune/geometry/referenceelement.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/referenceelement.hh b/dune/geometry/referenceelement.hh
index 2376aca..af3eee9 100644
--- a/dune/geometry/referenceelement.hh
+++ b/dune/geometry/referenceelement.hh
@@ -268,7 +268,7 @@ namespace Dune {
       //! Compares for equality with another reference element.
       bool operator==(const ReferenceElement& r) const
       {
-        return _impl == r._impl;
+        return _impl == r._impl || (_impl && r._impl && type() == r.type());
       }
 
       //! Compares for inequality with another reference element.
@@ -280,7 +280,8 @@ namespace Dune {
       //! Yields a hash value suitable for storing the reference element a in hash table
       friend std::size_t hash_value(const ReferenceElement& r)
       {
-        return reinterpret_cast<std::size_t>(r._impl);
+        // the lowest bit of the id does not distinguish types
+        return r._impl ? (r.type().id() >> 1) + 1 : 0;
       }
 
     private:
-- 
2.43.0


From abf02746b6a56c036549c1a022d6253547834388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:15 +0000
Subject: [PATCH 12/20] fix: register the methods of newly exported multilinear
 geometries

The flag returned for a class is true when the class is new. The test was
inverted, so the first registration exported a class without any methods.
---
 dune/python/geometry/multilineargeometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 9633c6f..8180369 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -66,7 +66,7 @@ namespace Dune
           );
       auto cls = entry.first;
 
-      if (!entry.second)
+      if (entry.second)
       {
         cls.def( pybind11::init( [] ( Dune::GeometryType type, pybind11::list corners ) {
             const std::size_t numCorners = corners.size();
-- 
2.43.0


From e7f4bc72f36eb7c6b10b1fd4f49b1d2b13fc2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:15 +0000
Subject: [PATCH 13/20] fix: check corner numbers of exported multilinear
 geometries

Python callers could pass a list of corners that does not fit the geometry
type and ask for corners out of range. Both read beyond the stored corners.
---
 dune/python/geometry/multilineargeometry.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 8180369..874cc00 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -70,6 +70,8 @@ namespace Dune
       {
         cls.def( pybind11::init( [] ( Dune::GeometryType type, pybind11::list corners ) {
             const std::size_t numCorners = corners.size();
+            if( (type.dim() != dim) || type.isNone() || (numCorners != static_cast< std::size_t >( referenceElement< ctype, dim >( type ).size( dim ) )) )
+              throw pybind11::value_error( "Geometry type does not match the dimension or the number of corners." );
             std::vector< FieldVector< double, coorddim > > copyCorners( numCorners );
             for( std::size_t i = 0; i < numCorners; ++i )
               copyCorners[ i ] = corners[ i ].template cast< FieldVector< double, coorddim > >();
@@ -85,7 +87,11 @@ namespace Dune
         cls.def_property_readonly("corners", &MGeometry::corners);
         cls.def_property_readonly("center" , &MGeometry::center);
         cls.def_property_readonly("volume" , &MGeometry::volume);
-        cls.def("corner"                   , &MGeometry::corner);
+        cls.def("corner", [](const MGeometry& geom, int i) {
+            if ((i < 0) || (i >= geom.corners()))
+              throw pybind11::value_error("Invalid index: " + std::to_string(i) + " (must be in [0, " + std::to_string(geom.corners()) + ")).");
+            return geom.corner(i);
+          });
         cls.def("integrationElement"       , &MGeometry::integrationElement);
 
         cls.def("jacobianTransposed",
-- 
2.43.0


From 976e344f87cb1cef5707e8abb2c6c0e841dc8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:15 +0000
Subject: [PATCH 14/20] fix: refuse malformed geometry type texts

Texts after the closing parenthesis, signs, trailing letters and dimensions
too large for a topology id were accepted and yielded some other type.
---
 dune/python/geometry/type.hh | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/dune/python/geometry/type.hh b/dune/python/geometry/type.hh
index dd91967..f12e696 100644
--- a/dune/python/geometry/type.hh
+++ b/dune/python/geometry/type.hh
@@ -54,6 +54,20 @@ namespace Dune
 
 
 
+  // geometryTypeArgument
+  // --------------------
+
+  inline static unsigned long geometryTypeArgument ( const std::string &arg, unsigned long bound )
+  {
+    // only digits are permitted, in particular no sign and no trailing characters
+    const bool valid = (arg.find_first_not_of( "0123456789" ) == std::string::npos) && (arg.size() < 12);
+    if( !valid || (std::stoul( arg ) >= bound) )
+      DUNE_THROW( Exception, "Invalid GeometryType argument '" << arg << "'." );
+    return std::stoul( arg );
+  }
+
+
+
   // geometryTypeFromString
   // ----------------------
 
@@ -80,16 +94,14 @@ namespace Dune
           [] ( const std::vector< std::string > &args ) {
               if( args.size() != 1 )
                 DUNE_THROW( Exception, "GeometryType 'cube' requires integer argument for dimension." );
-              return GeometryTypes::cube( std::stoul( args[ 0 ] ) );
+              return GeometryTypes::cube( geometryTypeArgument( args[ 0 ], 31 ) );
             },
           // general
           [] ( const std::vector< std::string > &args ) {
               if( args.size() != 2 )
                 DUNE_THROW( Exception, "GeometryType 'general' requires two integer arguments, topologyId and dimension." );
-              const auto id = std::stoul( args[ 0 ] );
-              const auto dim = std::stoul( args[ 1 ] );
-              if( id >= Dune::Impl::numTopologies( dim ) )
-                DUNE_THROW( Exception, "Topology id " << id << " too large for dimension " << dim << "." );
+              const auto dim = geometryTypeArgument( args[ 1 ], 32 );
+              const auto id = geometryTypeArgument( args[ 0 ], Dune::Impl::numTopologies( dim ) );
               return GeometryType( id, dim );
             },
           // hexahedron
@@ -108,7 +120,7 @@ namespace Dune
           [] ( const std::vector< std::string > &args ) {
               if( args.size() != 1 )
                 DUNE_THROW( Exception, "GeometryType 'none' requires integer argument for dimension." );
-              return GeometryTypes::none( std::stoul( args[ 0 ] ) );
+              return GeometryTypes::none( geometryTypeArgument( args[ 0 ], 256 ) );
             },
           // prism
           [] ( const std::vector< std::string > &args ) {
@@ -132,7 +144,7 @@ namespace Dune
           [] ( const std::vector< std::string > &args ) {
               if( args.size() != 1 )
                 DUNE_THROW( Exception, "GeometryType 'simplex' requires integer argument for dimension." );
-              return GeometryTypes::simplex( std::stoul( args[ 0 ] ) );
+              return GeometryTypes::simplex( geometryTypeArgument( args[ 0 ], 256 ) );
             },
           // tetrahedron
           [] ( const std::vector< std::string > &args ) {
@@ -184,6 +196,8 @@ namespace Dune
 
         args.push_back( s.substr( m, k-m+1 ) );
       }
+      if( n+1 != s.size() )
+        DUNE_THROW( Exception, "Unexpected characters after argument list." );
     }
 
     // call constructor
-- 
2.43.0


From 6259b1792b24a2c3d5be3621f3ee78b3cc167314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:15 +0000
Subject: [PATCH 15/20] fix: integrate over geometries

The fallback for arguments without a geometry attribute named an undefined
variable, so applying a quadrature rule to a geometry always failed.
---
 python/dune/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dune/geometry/__init__.py b/python/dune/geometry/__init__.py
index d594cc8..11bc7c9 100644
--- a/python/dune/geometry/__init__.py
+++ b/python/dune/geometry/__init__.py
@@ -10,7 +10,7 @@ def _duneIntegrate(self,entity,f):
     try:
         ie = entity.geometry.integrationElement
     except AttributeError:
-        ie = geometry.integrationElement
+        ie = entity.integrationElement
     return numpy.sum(f(entity,points)*ie(points)*weights,axis=-1)
 
 _duneQuadratureRules = {}
-- 
2.43.0


From 14866f141e5dfc0eb4139dbad75d3e31542c7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:15 +0000
Subject: [PATCH 16/20] fix: keep a quadrature rule alive while it is iterated

Rules are returned to Python by value. An iterator over a temporary rule
outlived the points it refers to.
---
 dune/python/geometry/quadraturerules.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/quadraturerules.hh b/dune/python/geometry/quadraturerules.hh
index b3266cc..6258d4e 100644
--- a/dune/python/geometry/quadraturerules.hh
+++ b/dune/python/geometry/quadraturerules.hh
@@ -85,7 +85,7 @@ namespace Dune
             return quadratureToNumpy<Rule>(self);
             } );
 
-        cls.def( "__iter__", [] ( const Rule &rule ) { return pybind11::make_iterator( rule.begin(), rule.end() ); } );
+        cls.def( "__iter__", [] ( const Rule &rule ) { return pybind11::make_iterator( rule.begin(), rule.end() ); }, pybind11::keep_alive< 0, 1 >() );
       }
 
     } // namespace detail
-- 
2.43.0


From 9a9292ccbba88c72ff5ca0e14685c5b03034d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:59:51 +0000
Subject: [PATCH 17/20] fix: share singletons between equal geometry types

Topology ids that differ in the lowest bit denote the same geometry type. The
singleton factory created a separate object for each of them.
---
 dune/geometry/topologyfactory.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/topologyfactory.hh b/dune/geometry/topologyfactory.hh
index c4309f8..ba9a5c1 100644
--- a/dune/geometry/topologyfactory.hh
+++ b/dune/geometry/topologyfactory.hh
@@ -130,7 +130,8 @@ namespace Dune
 
     std::unique_ptr< Object, ObjectDeleter > &find ( const unsigned int topologyId, const Key &key )
     {
-      return storage_[ key ][ topologyId ];
+      // the lowest bit of the id does not distinguish types
+      return storage_[ key ][ topologyId & ~1u ];
     }
 
     Object *getObject ( const Dune::GeometryType &gt, const Key &key )
-- 
2.43.0


From 1b87a3fd8a3758f60cd89599e83a9f877976a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:33 +0000
Subject: [PATCH 18/20] fix: refuse run-time refinements of shapeless types

A geometry type without a shape has topology id 0 and was silently
refined as a simplex.
---
 dune/geometry/virtualrefinement.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index 2ce388a..b91070a 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -509,6 +509,8 @@ namespace Dune
   {
     // Check that the user used valid geometry types
     assert(geometryType.dim() == dimension && coerceTo.dim() == dimension);
+    if (geometryType.isNone() || coerceTo.isNone())
+      DUNE_THROW( NotImplemented, "No Refinement for shapeless geometry types.");
     return RefinementBuilder<dimension, CoordType>::build( geometryType.id(), coerceTo.id() );
   }
 
-- 
2.43.0


From d5f58a34271779195babdb9f92d9b92bc17e9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:33 +0000
Subject: [PATCH 19/20] fix: refuse reference elements of shapeless types

Like a type of the wrong dimension, a type without a shape has no
reference element. It was answered with the simplex.
---
 dune/geometry/referenceelements.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/referenceelements.hh b/dune/geometry/referenceelements.hh
index c651932..ad0701b 100644
--- a/dune/geometry/referenceelements.hh
+++ b/dune/geometry/referenceelements.hh
@@ -62,7 +62,7 @@ namespace Dune
 
         const ReferenceElement& operator() ( const GeometryType &type ) const
         {
-          assert( type.dim() == dim );
+          assert( type.dim() == dim && !type.isNone() );
           return reference_elements_[ type.id() ];
         }
 
-- 
2.43.0


From e693bf615279ccc88083d45535e8a4b92e00bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:51:01 +0000
Subject: [PATCH 20/20] fix: do not take a repeated quadrature rule for
 convergence of the volume

The volume of a mapped or finite-element geometry is computed with rules of
increasing order until two successive values agree. Rules of neighbouring
orders are often the same rule, for example on lines and cubes, so that the
iteration stopped at once with a value that was not converged. Skip repeated
rules and stop at the highest available order.
---
 dune/geometry/localfiniteelementgeometry.hh | 16 +++++++++++++---
 dune/geometry/mappedgeometry.hh             | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..4502733 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -275,17 +275,27 @@ public:
    **/
   Volume volume (Impl::ConvergenceOptions<ctype> opts = {}) const
   {
-    Volume vol0 = volume(QuadratureRules<ctype, mydimension>::rule(type(), 1));
+    const auto& quadRule0 = QuadratureRules<ctype, mydimension>::rule(type(), 1);
+    Volume vol0 = volume(quadRule0);
     if (affine())
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
-      Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
+    std::size_t size0 = quadRule0.size();
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 2; p < opts.maxIt && p <= maxOrder; ++p) {
+      const auto& quadRule1 = QuadratureRules<ctype, mydimension>::rule(type(), p);
+
+      // successive orders may refer to the same rule, which tells nothing about convergence
+      if (quadRule1.size() == size0)
+        continue;
+
+      Volume vol1 = volume(quadRule1);
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
 
       vol0 = vol1;
+      size0 = quadRule1.size();
     }
     return vol0;
   }
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 89604ac..967ea87 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -240,17 +240,27 @@ public:
    **/
   Volume volume (Impl::ConvergenceOptions<ctype> opts = {}) const
   {
-    Volume vol0 = volume(QuadratureRules<ctype, mydimension>::rule(type(), 1));
+    const auto& quadRule0 = QuadratureRules<ctype, mydimension>::rule(type(), 1);
+    Volume vol0 = volume(quadRule0);
     if (affine())
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
-      Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
+    std::size_t size0 = quadRule0.size();
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 2; p < opts.maxIt && p <= maxOrder; ++p) {
+      const auto& quadRule1 = QuadratureRules<ctype, mydimension>::rule(type(), p);
+
+      // successive orders may refer to the same rule, which tells nothing about convergence
+      if (quadRule1.size() == size0)
+        continue;
+
+      Volume vol1 = volume(quadRule1);
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
 
       vol0 = vol1;
+      size0 = quadRule1.size();
     }
     return vol0;
   }
-- 
2.43.0

