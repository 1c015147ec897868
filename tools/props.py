"""What is analysed for each property."""
import pyscope

LIBS = {
    "refelem": ["dune/geometry/referenceelementimplementation.cc"],
    "quad": ["dune/geometry/quadraturerules/quadraturerules.cc"],
    "virt": ["dune/geometry/virtualrefinement.cc"],
}
RE = "dune/geometry/referenceelementimplementation.hh"
RC = "dune/geometry/referenceelementimplementation.cc"
MLG = "dune/geometry/multilineargeometry.hh"
GEOS = [MLG, "dune/geometry/affinegeometry.hh", "dune/geometry/axisalignedcubegeometry.hh", "dune/geometry/mappedgeometry.hh", "dune/geometry/localfiniteelementgeometry.hh"]
VF = ("Interprocedural value-flow analysis of the compiler's intermediate representation of the current sources: ")
REALS = "floating point arithmetic on symbolic values is read as exact real arithmetic; constants are the IEEE constants of the program"
LIBM = "the C++ standard library and dune-common are analysed as compiled from their headers; allocation always succeeds"
QR = ["dune/geometry/quadraturerules.hh"] + ["dune/geometry/quadraturerules/%squadrature.hh" % n for n in ("gauss", "gausslobatto", "gaussradauleft", "gaussradauright", "jacobi1", "jacobi2", "jacobiN", "point", "prism", "simplex", "tensorproduct")]
RF = ["dune/geometry/refinement/%s.cc" % n for n in ("base", "hcube", "simplex", "hcubetriangulation", "prismtriangulation", "pyramidtriangulation")]
PROPS = {
 "C01": dict(units=["c01.cc"], anchors=["dune/geometry/type.hh"],
    explanation=VF + "equality, ordering, identifiers, predicates and named constructors of every geometry type of dimension 0..6 (all pairs for the relations) are compared with the bit-by-bit recursive definition.",
    assumptions=[LIBM]),
 "C02": dict(units=["c02.cc"], anchors=["dune/geometry/typeindex.hh", "dune/geometry/type.hh"],
    explanation=VF + "local and global indices of every type of dimension 0..8, their inverses and the dispatch of every type of dimension 0..5 to a compile-time type.",
    assumptions=[LIBM]),
 "C03": dict(units=["c03.cc"], libs=["refelem"], anchors=["dune/geometry/utility/typefromvertexcount.hh", RE, RC],
    explanation=VF + "the lookup function is analysed for an unknown corner count (and unknown dimension above three), the resulting gated exception/return value is compared with the corner counts of the recursive shape definition; every shape's own count must look up that shape.",
    assumptions=[LIBM]),
 "C04": dict(units=["c04.cc"], libs=["refelem"], anchors=[RE, RC, "dune/geometry/referenceelements.hh"],
    explanation=VF + "the values flowing out of every reference element table are compared with an independent recursive definition, for every shape, codimension and sub-entity.",
    assumptions=[LIBM]),
 "C05": dict(units=["c05.cc"], libs=["refelem"], anchors=[RE, RC, "dune/geometry/referenceelements.hh"],
    explanation=VF + "every sub-entity number, count, range and membership flag is compared with the corner sets of an independent recursive definition and with each other.",
    assumptions=[LIBM]),
 "C06": dict(units=["c06.cc"], libs=["refelem"], anchors=[RE, RC, "dune/geometry/affinegeometry.hh"],
    explanation=VF + "positions, volumes and embeddings of all sub-entities; embeddings are compared as polynomials in an unknown local coordinate.",
    assumptions=[LIBM, REALS]),
 "C07": dict(units=["c07.cc"], libs=["refelem"], anchors=[RE, RC],
    explanation=VF + "orthogonality, direction, length (Gram determinant of the facet) and closed-surface sum of every outer normal.",
    assumptions=[LIBM]),
 "C08": dict(units=["c08.cc"], libs=["refelem"], anchors=[RE],
    explanation=VF + "the inside test applied to an unknown point yields a gated boolean over linear threshold atoms; it is compared with the facet inequalities (rejection) and evaluated on the parametrised element (acceptance).",
    assumptions=[LIBM, REALS, "rejection slack 1e-11 (double), 1e-4 (float)"]),
 "C09": dict(units=["c09.cc"], libs=["refelem"], anchors=[MLG],
    explanation=VF + "the global map of a multilinear geometry with unknown corner coordinates at an unknown point (parametrised so that every point below an apex is reached) is compared as a rational function with the documented recursive blend; reference corners and the apex are evaluated with unknown corners.",
    assumptions=[LIBM, REALS, "points whose distance from an apex is below the library's tolerance are only covered at the apex itself"]),
 "C10": dict(units=["c10.cc"], libs=["refelem", "quad"], anchors=GEOS,
    explanation=VF + "for every geometry class the reported Jacobian at an unknown point is compared with the formal derivative of the polynomial (rational) global map with respect to the parameters of the point, with unknown corners, map coefficients and basis coefficients.",
    assumptions=[LIBM, REALS]),
 "C11": dict(units=["c11.cc"], libs=["refelem", "quad"], anchors=GEOS + ["dune/geometry/utility/defaultmatrixhelper.hh"],
    explanation=VF + "matrix routines and geometry queries are applied to matrices of unknown entries of full rank; square roots are algebraic symbols; the defining identities of inverse, pseudo-inverse, Cholesky factor and determinant are compared as rational functions.",
    assumptions=[LIBM, REALS]),
 "C12": dict(units=["c12.cc"], libs=["refelem"], anchors=GEOS[:3],
    explanation=VF + "affine geometries with unknown origin and linearly independent unknown axes: both compositions of local and global (or the normal equations when embedded) are compared as rational functions of the unknowns; the affine flag is evaluated on exactly affine corners and as a gated boolean over the displacement of every single corner.",
    assumptions=[LIBM, REALS, "a displacement e of one corner counts as bent above e^2 = 1e-10 and as affine below e^2 = 1e-30"]),
 "C13": dict(units=["c13.cc"], libs=["refelem"], anchors=[MLG],
    explanation=VF + "for every query and every history of one (two) preceding queries the answer of the caching geometry, of a copy and of an assigned object is compared as a rational function of unknown corners and points with the answer of the plain geometry.",
    assumptions=[LIBM, REALS, "Newton iterations of the inverse on bent geometries only with constant corners"]),
 "C14": dict(units=["c14.cc"], libs=["refelem", "quad"], anchors=GEOS,
    explanation=VF + "pairs of geometry classes are built from the same unknown data (boxes with every choice of free directions, affine images of every shape, multilinear cubes) and every query is compared as a rational function of the data and of an unknown point.",
    assumptions=[LIBM, REALS]),
 "C34": dict(units=["c34.cc"], libs=["refelem", "quad"], anchors=["dune/geometry/mappedgeometry.hh", "dune/geometry/localfiniteelementgeometry.hh", "dune/geometry/utility/convergence.hh"],
    explanation=VF + "mapped and finite-element geometries whose first component is a sum of powers with unknown coefficients are asked for their volume with an unknown tolerance; on every path out of the order iteration the reported value is shown to lie within the tolerance of the exact integral. A map with a kink, which no rule resolves, is followed through all iteration limits.",
    assumptions=[LIBM, "power maps with coefficients in (0,1] and exponents up to the bounds of the harness; tolerances between 1e-9 and 1e-2"]),
 "C15": dict(units=["c15.cc"], libs=["quad"], anchors=QR,
    explanation=VF + "the point and weight tables every request leads to are extracted as constants (through the caching front end, the family selection and the tensor and conical products) and the moment equations of every monomial up to the reported order are compared with their exact values.",
    assumptions=[LIBM, "moments are compared up to 4e-14 times the sum of the absolute weights", "the eigenvalue routine of the linear algebra library returns unit-length eigenvectors of the symmetric matrix it is given"]),
 "C16": dict(units=["c16.cc"], libs=["quad"], anchors=QR,
    explanation=VF + "the points and weights every request leads to are extracted as constants and compared with the facet inequalities of an independently defined element, with each other, and with the integral of the family's weight function.",
    assumptions=[LIBM, "a coordinate may leave the element by at most 4e-16", "the eigenvalue routine of the linear algebra library returns unit-length eigenvectors of the symmetric matrix it is given"]),
 "C17": dict(units=["c17.cc"], libs=["quad"], anchors=QR[:7],
    explanation=VF + "the one-dimensional tables are instantiated with a number type that the analysis carries as exact decimal fractions; moment equations, end points, symmetry, mirror images and point counts are compared to 80 digits, and the double tables with the rounded exact ones.",
    assumptions=[LIBM, "intermediate powers are kept to 440 bits"]),
 "C18": dict(units=["c18.cc"], libs=["quad"], anchors=QR,
    explanation=VF + "every shape and family is requested at every advertised order; orders above the maximum and below zero are one unknown integer each, the gated outcome (exception or return) is decided for all of them; every memory access on the way is checked against its object.",
    assumptions=[LIBM, "a failed assertion counts as a refusal for types of the wrong dimension (assertions are part of the analysed program)"]),
 "C19": dict(units=["c19.cc"], libs=["refelem", "quad"], anchors=["dune/geometry/quadraturerules.hh", "dune/geometry/referenceelements.hh", "dune/geometry/virtualrefinement.cc", "dune/geometry/quadraturerules/simplexquadrature.hh", "dune/geometry/quadraturerules/prismquadrature.hh"],
    explanation="Effect analysis of the compiler's intermediate representation of the current sources: every write to an object that threads share (static or reachable heap storage) must happen inside a one-time initialisation or a lock, everything written there may be read by another thread only after it has passed the same initialisation, initialisations must not re-enter themselves, and repeated requests must yield the same object with the same contents.",
    assumptions=[LIBM, "std::call_once, initialisation of function-local statics, mutexes and acquire loads order memory as the C++ standard says"]),
 "C21": dict(units=["c21.cc"], libs=["refelem"], anchors=RF,
    explanation=VF + "every iterator over vertices and elements of every refinable shape is followed from begin to end and its indices and counts are compared with the closed formulas of the uniform subdivision, for every number of intervals up to a bound; advertised counts up to hundreds of intervals.",
    assumptions=[LIBM, "numbers of intervals up to the bounds listed in DESIGN.md"]),
 "C22": dict(units=["c22.cc"], libs=["refelem"], anchors=RF,
    explanation=VF + "coordinates, vertex lists, centres, volumes and geometries of every vertex and element of every refinement up to a number of intervals are extracted in exact rational arithmetic and compared with each other, with the recursive definition of the shape and with the volume of a uniform subdivision; no element's centre lies in another element.",
    assumptions=[LIBM, REALS, "numbers of intervals up to the bounds listed in DESIGN.md"]),
 "C23": dict(units=["c23.cc"], libs=["refelem"], anchors=["dune/geometry/virtualrefinement.cc", "dune/geometry/virtualrefinement.hh"],
    explanation=VF + "run-time and compile-time refinement are followed in lockstep over all vertices and elements; all pairs of shapes of each dimension are looked up (same object or refusal); copy, assignment, self-assignment, post-increment and comparison of iterators are followed through the type-erased storage with lifetime tracking.",
    assumptions=[LIBM]),
 "C24": dict(units=["c24.cc"], libs=["refelem", "quad"], anchors=["dune/geometry/quadraturerules/compositequadraturerule.hh", "dune/geometry/refinement/simplex.cc"],
    explanation=VF + "composite rules over a base rule whose points and weights are unknown: the resulting points and weights are compared as polynomials with the affine images of the base points and the scaled weights; for the library's own base rules the moments up to the reported order are compared with their exact values.",
    assumptions=[LIBM, REALS, "numbers of intervals and of base points up to the bounds listed in DESIGN.md"]),
 "C25": dict(units=["c25.cc"], libs=["refelem"], anchors=["dune/geometry/generalvertexorder.hh"],
    explanation=VF + "the reduction is applied to up to eight unknown ids and its gated result is compared with the number of smaller ids; for every shape up to dimension three (and some of four) the orders of all sub-entities are compared with the corner numbers of the recursive definition for all orderings of the ids (a sample of the orderings beyond 120).",
    assumptions=[LIBM]),
 "C26": dict(units=["c26.cc"], libs=["refelem"], anchors=["dune/geometry/utility/algorithms.hh", "dune/geometry/mappedgeometry.hh", "dune/geometry/localfiniteelementgeometry.hh", "dune/geometry/multilineargeometry.hh"],
    explanation=VF + "the iteration runs on uninterpreted maps with uninterpreted derivatives, an unknown right-hand side and an unknown tolerance for small iteration budgets; on every path that reports success the residual of the returned point is shown to be below the tolerance. The Newton iteration of the multilinear classes runs with a linear solver whose corrections and refusals are unknown.",
    assumptions=[LIBM, "iteration budgets up to three steps and three line search steps; the loop bodies do not depend on the step number"]),
 "C27": dict(units=["c27.cc"], flags=["-DDUNE_CHECK_BOUNDS", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=array-bounds,return", "-fsanitize-trap=all"], memory_units=["c05.cc", "c06.cc", "c08.cc", "c18.cc", "c22.cc", "c23.cc", "c24.cc", "c25.cc"], libs=["refelem", "quad"], anchors=["dune/geometry/referenceelementimplementation.hh", "dune/geometry/virtualrefinement.hh", "dune/geometry/virtualrefinement.cc", "dune/geometry/quadraturerules.hh", "dune/geometry/refinement/simplex.cc", "dune/geometry/multilineargeometry.hh", "dune/geometry/generalvertexorder.hh"],
    explanation=VF + "every memory access is checked against the extent, lifetime and initialisation state of its object; objects of every owning class are copied, moved, assigned, self-assigned, swapped and stored in containers, their sources destroyed or changed, and all their answers compared with those of an untouched object. The harnesses of reference elements, rules, refinements and vertex orders are analysed again, with only the memory model's verdict counting here.",
    assumptions=[LIBM]),
 "C28": dict(lints=[pyscope.check], units=[("c28.cc", ["-I@HERE@/harness/pystub"])], libs=["refelem", "quad"], anchors=["dune/python/geometry/type.hh", "dune/python/geometry/referenceelements.hh", "dune/python/geometry/quadraturerules.hh", "dune/python/geometry/multilineargeometry.hh", "python/dune/geometry/_geometry.cc"],
    explanation=VF + "the bindings are compiled against a stand-in of the binding library whose registration functions hand every callable to the analysis; each callable is followed for all indices in and around their ranges and for an unknown index on either side (refusal or the C++ answer); texts, equality, hashes and array views are compared with the C++ types and rules; a scope analysis of the Python sources reports names that resolve to nothing.",
    assumptions=[LIBM, "the binding library converts arguments and results as documented", "texts: every type up to dimension five and the malformed texts listed in the harness"]),
 "C33": dict(units=["c33.cc"], anchors=["dune/geometry/type.hh"],
   explanation="Interprocedural value-flow analysis of the compiler's intermediate representation of the current sources: the stream operator of geometry types is analysed for every type of dimension 0 to 6 on an abstract stream whose output functions collect the characters; the text must be the shape's name and the dimension, and differ between different types."),
 "C32": dict(units=["c32.cc"], anchors=["dune/geometry/topologyfactory.hh", "dune/geometry/typeindex.hh"],
    explanation=VF + "a user factory that records what it is asked to build is put behind the factories; every shape of each dimension is requested by run-time type and compile-time id with known and unknown keys; the objects, their identity and their number are compared with the requests.",
    assumptions=[LIBM]),
 "C31": dict(units=["c31.cc"], libs=["quad"], anchors=["dune/geometry/quadraturerules/jacobiNquadrature.hh", "dune/geometry/quadraturerules/tensorproductquadrature.hh"],
    explanation=VF + "the matrix handed to the eigenvalue routine is a constant of the analysis; the routine is replaced by its contract (unit-length eigenvectors of a symmetric matrix) and the moment equations of the rule built from its results are compared with their exact values.",
    assumptions=[LIBM, "the eigenvalue routine of the linear algebra library returns unit-length eigenvectors of the symmetric matrix it is given", "moments are compared up to 4e-14 times the sum of the weights"]),
 "C20": dict(units=["c20.cc"], libs=["refelem"], anchors=["dune/geometry/referenceelements.hh", "dune/geometry/referenceelement.hh"],
    explanation=VF + "object identity of the handles returned by every access path for all pairs of shapes.",
    assumptions=[LIBM]),
}
