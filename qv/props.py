"""Single source of the properties: properties.jsonl, MANIFEST.json and the check registry come from here (./gen.py)."""
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, mod=None, min=1, explains="", technique="", note="", observe=(), state=(), assume=(), na=None, level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, mod=mod, min=min,
                      explains=explains, technique=technique, note=note, observe=list(observe), state=list(state), assume=list(assume), na=na, level=level))


ALGEBRA = ("Interprocedural value-numbering (Herbrand) abstract interpretation of the type-checked C++ (clang AST): every routine is reduced to a "
           "symbolic term over its inputs, loops with constant bounds are unrolled, branches on symbolic values fork; obligations are term identities, "
           "discharged by structural equality or by random-interpretation identity testing of the two terms (no repository code runs, no solver). ")
ALG_ASSUME = ["real arithmetic: terms are compared as functions over the reals (rounding is ignored)",
              "algoim's vector, interval and array classes mean what their documentation says; they are modelled, not analysed (not installed here)",
              "a term identity accepted by the randomised test is wrong with negligible probability; a rejected one is a certain difference"]

prop("C01", "Gradients of level-set functions are the exact gradients of their values",
     "For every level-set function the library provides, every way of constructing it and every point where it is differentiable, the gradient it returns is the vector of partial derivatives of the value it returns. The interval-arithmetic overloads used for domain classification compute the same value and gradient expressions as the real-number ones.",
     ["inputs", "configurations"], "all functions (primitives, periodic minimal surfaces, affine-transformed, summed, subtracted, negated, Bezier and monomial), dimensions 1-3, all parameters and all evaluation points",
     "Tests evaluate a few functions at a few points and mostly check volumes; a wrong partial derivative in one component of one function is invisible there.",
     ["cpp/qugar/primitive_funcs_lib.cpp", "cpp/qugar/impl_funcs_lib.cpp", "cpp/qugar/tpms_lib.cpp", "cpp/include/qugar/impl_funcs_lib_macros.hpp", "cpp/qugar/bezier_tp.cpp", "cpp/qugar/monomials_tp.cpp"],
     [{"name": "hand-written value/gradient pairs", "where": "cpp/qugar/*_lib.cpp"}, {"name": "dispatch and affine pull-back macros", "where": "cpp/include/qugar/impl_funcs_lib_macros.hpp"}],
     mod="derivs", min=20, technique="value-numbering abstract interpretation + symbolic differentiation",
     explains=ALGEBRA + "Obligation per concrete function class and constructor: extracted gradient term == symbolic derivative of the extracted value term, for the real overload, and agreement of the interval overload.",
     note="Every concrete class found in the program with every constructor; parameters and point fully symbolic. Trusts the C++ front end, the abstract evaluator and its model of algoim's containers.",
     assume=ALG_ASSUME, observe=["value, gradient of the function objects"])
prop("C02", "Hessians of level-set functions are the exact second derivatives",
     "For every level-set function the library provides, every way of constructing it and every point where it is twice differentiable, the Hessian it returns lists the second partial derivatives of its value, upper triangle row by row.",
     ["inputs", "configurations"], "all functions that offer a Hessian, dimensions 1-3, all parameters and points",
     "No test compares the Hessian of more than a few functions; off-diagonal entries of composed or periodic functions are never exercised.",
     ["cpp/qugar/primitive_funcs_lib.cpp", "cpp/qugar/impl_funcs_lib.cpp", "cpp/qugar/tpms_lib.cpp", "cpp/include/qugar/impl_funcs_lib_macros.hpp", "cpp/qugar/bezier_tp.cpp", "cpp/qugar/monomials_tp.cpp", "cpp/qugar/affine_transf.cpp"],
     [{"name": "hand-written Hessians", "where": "cpp/qugar/*_lib.cpp"}, {"name": "tensor pull-back", "where": "cpp/qugar/affine_transf.cpp"}],
     mod="derivs", min=20, technique="value-numbering abstract interpretation + symbolic differentiation",
     explains=ALGEBRA + "Obligation per concrete function class and constructor: extracted Hessian term == symbolic second derivative of the extracted value term.",
     note="As C01; functions whose Hessian is declared not implemented (they fail loudly) have no obligation.",
     assume=ALG_ASSUME, observe=["Hessian of the function objects"])
prop("C03", "Level-set values describe the documented shapes, general and Bezier alike",
     "Each named shape (disk/ball, cylinder, ellipsoid, annulus, torus, half-space, box, constant, multilinear, the six periodic surfaces) built with any constructor is negative exactly inside the documented region and zero on its boundary, for all parameters; omitted parameters mean the documented defaults. The general and the polynomial variant of a shape describe the same region, polynomials evaluate to the sum of their coefficients times the Bernstein or monomial basis functions, and transformed, summed, subtracted and negated functions combine their operands as named.",
     ["inputs", "configurations"], "every shape class and constructor, both variants, all parameters and points, dimensions 1-3",
     "Existing volume tests need the geometry library and sample one or two parameter sets per shape.",
     ["cpp/qugar/primitive_funcs_lib.cpp", "cpp/qugar/impl_funcs_lib.cpp", "cpp/qugar/tpms_lib.cpp", "cpp/qugar/ref_system.cpp", "cpp/qugar/bezier_tp.cpp", "cpp/qugar/bezier_tp_utils.cpp", "cpp/qugar/monomials_tp.cpp"],
     [{"name": "value routines and monomial expansions of shapes", "where": "cpp/qugar/primitive_funcs_lib.cpp"}],
     mod="shapes", min=20, technique="value-numbering abstract interpretation against closed-form specifications",
     explains=ALGEBRA + "Obligation per concrete class and constructor: the extracted value term equals the closed-form of the documented shape up to a positive factor that does not depend on the point.",
     note="Closed forms are transcribed from the documentation of each shape; parameters and point symbolic; polynomials for a few fixed degrees per dimension.",
     assume=ALG_ASSUME, observe=["values of the function objects"])
prop("C04", "Affine maps form a group action and pull back gradients and Hessians",
     "An affine map built from coefficients, an origin, a scale or axes maps points by the documented matrix and translation; composing two maps applies the right operand first, and the inverse undoes the map on both sides. Transforming a gradient or a Hessian multiplies by the transposed linear part (on both sides for Hessians), and maps built from axes are right-handed with the requested axis directions and scales.",
     ["inputs", "configurations"], "all invertible coefficients, all points, 2D and 3D, real and interval arguments",
     "Tests only ever use translations and a few rotations; an index swap in the 3D inverse or tensor transform shows only for general matrices.",
     ["cpp/qugar/affine_transf.cpp", "cpp/include/qugar/affine_transf.hpp"], [{"name": "matrix algebra in packed coefficients", "where": "cpp/qugar/affine_transf.cpp"}],
     mod="geom", min=8, technique="value-numbering abstract interpretation against closed-form specifications",
     explains=ALGEBRA + "Obligation per public operation and dimension: the extracted result term equals the matrix-algebra specification.", note="All coefficients symbolic.", assume=ALG_ASSUME)
prop("C05", "Boxes and reference systems: rescaling is exact, frames are orthonormal",
     "Bounding boxes report the corners, lengths, midpoint and volume they were built with, extending them covers the added point or margin, and rescaling to the unit box, back, or to another box maps corner to corner affinely. Reference systems built from any nonzero axis, including axes (nearly) parallel to a coordinate axis, are orthonormal, right-handed and keep the requested axis direction. They are reported as Cartesian-oriented exactly when their axes are those of the space.",
     ["inputs", "configurations"], "all boxes, points and axes, dimensions 1-3",
     "Only the default systems and unit boxes are exercised; branches for special axis directions are never reached.",
     ["cpp/qugar/bbox.cpp", "cpp/qugar/ref_system.cpp", "cpp/qugar/affine_transf.cpp"], [{"name": "per-direction arithmetic", "where": "cpp/qugar/bbox.cpp"}, {"name": "orthonormalisation with fallback axis", "where": "cpp/qugar/ref_system.cpp"}],
     mod="geom", min=15, technique="value-numbering abstract interpretation against closed-form specifications",
     explains=ALGEBRA + "Obligation per public operation and dimension; both branches of the axis fallback are covered with region-restricted identity tests.", note="All coordinates symbolic.", assume=ALG_ASSUME)
prop("C06", "Tabulated 1D quadrature rules are the Gauss-Legendre and tanh-sinh rules",
     "For every supported number of points, the tabulated Gauss rule on the unit interval has ascending points inside the interval and positive weights and is the Gauss-Legendre rule, hence integrates polynomials of degree 2n-1 exactly. Every tanh-sinh rule is symmetric, has weights adding up to one, and consists of the double-exponential images of equidistant points with proportional weights.",
     ["inputs", "configurations"], "all rules with 1 to 100 points, every point and weight (20200 numbers) of both families, through the public accessors",
     "Tests use a handful of orders; one wrong digit in a rarely used rule only degrades accuracy silently.",
     ["cpp/qugar/quadrature_lib.cpp", "cpp/qugar/quadrature.cpp"], [{"name": "precomputed tables and their packed offsets", "where": "cpp/qugar/quadrature_lib.cpp"}],
     mod="quad", min=150, technique="constant propagation through the accessors; comparison of the folded constants with the defining formulas",
     explains="Every accessor call (rule, n, i) is constant-folded by the abstract interpreter over the type-checked source, for both rules, n=1..100 and all i. Obligation per rule: folded constants satisfy order, symmetry, positivity, unit sum and equal the Gauss-Legendre rule to 2e-14 (resp. are a double-exponential rule).",
     note="Exhaustive over the tables. Trusts numpy's Gauss-Legendre rule to 1e-14.", assume=["constants are compared after rounding to double"])
prop("C07", "Multi-dimensional quadratures are tensor products mapped to the requested box",
     "A quadrature created for given point counts per direction and a box contains exactly one point per combination of one-dimensional points, mapped affinely into the box, whose weight is the product of the one-dimensional weights times the volume of the box. Rules on the unit box and rules with the same count in all directions are the corresponding special cases, and scaling weights multiplies every weight and nothing else.",
     ["inputs", "configurations"], "both rule families, dimensions 1-3, arbitrary boxes; several combinations of distinct point counts per direction",
     "Only unit boxes and equal point counts occur in tests, for which swapped directions or a misplaced origin cancel out.",
     ["cpp/qugar/quadrature.cpp", "cpp/include/qugar/quadrature.hpp"], [{"name": "tensor-product loop nest", "where": "cpp/qugar/quadrature.cpp"}],
     mod="quad", min=15, technique="value-numbering abstract interpretation with symbolic tables and boxes",
     explains=ALGEBRA + "Tables and box corners are symbols. Obligation per factory, dimension and combination of counts: list of extracted (point, weight) terms equals the tensor product.",
     note="Point counts are a few distinct constants per direction (at most 12 points), everything else symbolic; order of points: first direction fastest.", assume=ALG_ASSUME)

prop("C08", "Tensor indices, sizes and ranges: flattening is a bijection, iteration is exact",
     "Flattening a tensor index numbers the entries of a tensor consecutively with the first direction fastest, and recovering the tensor index from a flat one is its exact inverse, also when there are more entries than a 32-bit integer can count. Iterating a range visits each index once in that order and stops at its end; a range that is empty along some direction is left at once; splitting a range with more than one index yields two non-empty disjoint ranges covering it; comparison of indices is a strict total order that starts at the last component.",
     ["inputs"], "all sizes, ranges and indices, dimensions 1-3", "Tests use small cubes where swapped directions are invisible.",
     ["cpp/qugar/tensor_index_tp.cpp", "cpp/include/qugar/tensor_index_tp.hpp"], [{"name": "mixed-radix arithmetic", "where": "cpp/include/qugar/tensor_index_tp.hpp"}],
     mod="index", min=15, technique="value-numbering abstract interpretation; inductive step obligations on integer terms",
     explains=ALGEBRA + "Indices, sizes and bounds are integer symbols. Obligations: closed forms for flattening, un-flattening and comparison; one-step successor of the range iterator (induction gives whole iterations); split as an exact cover.",
     note="Unbounded in values (no overflow modelled); one inductive step for iteration.", assume=ALG_ASSUME + ["no integer overflow"])
prop("C09", "Cartesian grids: cells tile the domain and are located and numbered consistently",
     "Cell ids of a Cartesian grid number the cells with the first direction fastest, the boxes of the cells are the products of consecutive breaks, and a point is located in the cell that contains it (the last cell for the upper end of the domain). Boundary cells of a facet are exactly the cells touching it, equispaced grids have equispaced breaks spanning the box, and splitting a sub-grid partitions its cells.",
     ["inputs", "configurations"], "grids with distinct numbers of cells per direction, arbitrary breaks and points, 2D and 3D", "Tests use the same number of cells in every direction.",
     ["cpp/qugar/cart_grid_tp.cpp", "cpp/include/qugar/cart_grid_tp.hpp"], [{"name": "break lookup and index arithmetic", "where": "cpp/qugar/cart_grid_tp.cpp"}],
     mod="index", min=30, technique="value-numbering abstract interpretation against closed-form specifications",
     explains=ALGEBRA + "For six grid shapes (distinct counts per direction) with symbolic breaks and points, every query is reduced to a term and compared with its specification for every cell and facet.",
     note="Numbers of cells are small constants; breaks and points symbolic.", assume=ALG_ASSUME)

ORACLE = ("Path-exhaustive abstract interpretation of the type-checked C++ (clang AST) through the public interface: algoim, which is not part of the repository, is an oracle "
          "whose possible answers (sign of the level set on a box, volume, quadrature nodes) are enumerated as abstract alternatives; no repository code runs, no solver. ")
ORC_ASSUME = ["algoim's answers are right (a uniform interval sign means the level set has that sign on the box; quadratures have the volume of the region)",
              "grids of a few cells with distinct sizes stand for all grids (the decomposition is recursive over sub-grids)"]
prop("C10", "Cells of an unfitted domain are classified once each, and soundly",
     "For every level set and grid, each cell has exactly one status: full or empty only if the level set was found negative (respectively positive) on a box containing the whole cell, or if the volume of the region inside the cell equals that of the cell (respectively zero); cut otherwise. Cells whose volume is that of the cell although the sign is not uniform are full with unfitted boundary. The lists (sorted, no repetitions, with or without requested cells) and numbers of cells of each status agree with the status of the individual cells. A domain restricted to some cells gives those the same status and leaves all the others without status. The same holds for polynomial (Bezier) level sets, whatever the position of the grid.",
     ["inputs", "configurations"], "every combination of signs and volumes the geometry library can return on small grids of each dimension, general and polynomial level sets, every subset of requested cells",
     "Tests that build domains need the geometry library and sample a few shapes; a status recorded for the wrong cell, or only for some combination of signs, is not seen.",
     ["cpp/qugar/impl_unfitted_domain.cpp", "cpp/qugar/unfitted_domain_binary_part.cpp", "cpp/qugar/unfitted_domain.cpp", "cpp/qugar/cart_grid_tp.cpp"],
     [{"name": "recursive decomposition of the grid", "where": "cpp/qugar/impl_unfitted_domain.cpp"}, {"name": "tree of sub-grids", "where": "cpp/qugar/unfitted_domain_binary_part.cpp"}],
     mod="domain", min=50, technique="path-exhaustive abstract interpretation with an oracle for the geometry library",
     explains=ORACLE + "On every path (combination of answers) the status of every cell must be supported by an answer about a box covering it or by its own quadrature; lists and counts are compared with the individual queries.",
     note="Quick: grids of two and three cells per dimension with every subset of requested cells; thorough: up to four cells.", assume=ORC_ASSUME)
prop("C11", "Statuses of facets follow their quadratures, and facet lists follow the statuses",
     "Facets of cells that are full or empty away from the unfitted boundary are full, respectively empty. For the other cells the status of a facet follows from its quadrature: no points means empty (full unfitted in a full cell with unfitted boundary); points off the level set make it cut, or full if they cover it all; points on the level set whose normal points out of (into) the cell across the facet make it part of the unfitted (external) boundary, points with any other normal are ignored; a single such point covering the whole facet makes it full unfitted (full external), and facets of full cells with unfitted boundary without points off the level set are full unfitted. The queries on a facet depend on its status only, as documented, and the lists of facets contain exactly the facets for which the query holds, once each, in the order of the request when facets are requested. Facets of cells outside the domain have no status, and a facet is exterior exactly when it lies on the boundary of the grid.",
     ["inputs", "configurations"], "every status; every combination of quadrature points (on or off the level set, normal outwards, inwards or oblique; covering the facet or not) on every facet, 2D and 3D, general and polynomial level sets",
     "Existing tests compute volumes; statuses such as external boundary or unfitted facet of a full cell appear only in degenerate geometries.",
     ["cpp/qugar/impl_unfitted_domain.cpp", "cpp/qugar/unfitted_domain.cpp", "cpp/qugar/impl_utils.cpp"],
     [{"name": "classification of facets from quadrature nodes", "where": "cpp/qugar/impl_unfitted_domain.cpp"}, {"name": "status predicates and facet queries", "where": "cpp/qugar/unfitted_domain.cpp"}],
     mod="domain", min=700, technique="path-exhaustive abstract interpretation with an oracle for the geometry library",
     explains=ORACLE + "Every facet of a cell gets every combination of classes of quadrature points; the answers of the public queries are compared with the specified status, and the lists with the queries.",
     note="Classes of points stand for all points of the class; up to three points per facet.", assume=ORC_ASSUME)

prop("C12", "Cell and unfitted-boundary quadratures: the right points for every entity",
     "A quadrature of cells or of the unfitted boundary lists the requested cells in the order of the request (repetitions included), with one count per cell; counts, points, weights and normals fit together. Full cells get the tensor-product Gauss rule with exactly the requested points per direction, whatever rules earlier calls used; empty cells get nothing; cut cells get the geometry library's nodes for the negative part of the level set, for the requested number of points, mapped to the unit cell with the weights divided by the volume. Boundary nodes are those of the zero level set in cut cells, without the ones lying on and tangent to a facet with unfitted boundary, with unit normals and weights transported to the unit cell (normal scaled by the lengths of the cell, weight by its norm over the volume). If the parts on facets are included, every facet with unfitted boundary (except, if so requested, the ones on the boundary of the grid) adds its points on the unfitted boundary, or the Gauss rule if it lies wholly on it, with the outward unit normal of the facet; otherwise they are left out.",
     ["inputs", "configurations"], "all requests on grids with every combination of cell kinds and facet statuses, several numbers of points and successive calls, 2D and 3D, general and polynomial level sets, generic nodes",
     "Existing tests need the geometry library and compare total volumes; an entity out of order, a stale rule or a wrong normal on a stretched cell in a degenerate configuration goes unseen.",
     ["cpp/qugar/cut_quadrature.cpp", "cpp/qugar/impl_quadrature.cpp", "cpp/qugar/bbox.cpp", "cpp/qugar/quadrature.cpp", "cpp/qugar/impl_utils.cpp"],
     [{"name": "wrappers that record nodes", "where": "cpp/qugar/impl_quadrature.cpp"}, {"name": "purge and addition of facet points", "where": "cpp/qugar/impl_quadrature.cpp"}, {"name": "bookkeeping per entity", "where": "cpp/qugar/cut_quadrature.cpp"}],
     mod="cutquad", min=500, technique="abstract interpretation with an oracle for the geometry library and random interpretation of its nodes",
     explains=ORACLE + "The nodes of the geometry library are generic values that depend on everything the library passes (box, direction, side, sign, number of points), so a node of the wrong integral is different from the right one; per requested entity the multiset of (point, weight, normal) is compared with the specification.",
     note="Domains are built by the library itself from chosen answers of the geometry library; configurations are a sample covering all facet statuses. Nodes within the tolerance of a facet without being on it are not covered.", assume=ORC_ASSUME)
prop("C13", "Facet quadratures integrate the right part of each facet exactly once",
     "A facet quadrature lists the requested cells and facets in order with one count per entry, and counts, points and weights fit together. Rules for interior integrals hold, for facets inside the grid, the Gauss rule of full facets and the nodes of cut facets that are inside the domain, without the parts lying on the boundary of the domain, and nothing for facets on the boundary of the grid. Rules for exterior integrals hold, on facets on the boundary of the grid, both the parts inside the domain and the parts on its unfitted boundary, and on facets inside the grid only the parts on the unfitted boundary of the cell. Parts where the level set vanishes with the domain on the other side of the facet never belong to the cell. Points are relative to the facet's unit box and weights are divided by the area of the facet.",
     ["inputs", "configurations"], "all requests on grids with every combination of cell kinds and facet statuses, several numbers of points and successive calls, 2D and 3D, general and polynomial level sets, generic nodes",
     "Existing tests compare total areas for a few aligned geometries; facets that are partly cut and partly on a boundary do not occur.",
     ["cpp/qugar/cut_quadrature.cpp", "cpp/qugar/impl_quadrature.cpp", "cpp/qugar/unfitted_domain.cpp", "cpp/qugar/impl_utils.cpp"],
     [{"name": "purge rules for facet points", "where": "cpp/qugar/impl_quadrature.cpp"}, {"name": "flags of interior and exterior integrals", "where": "cpp/qugar/cut_quadrature.cpp"}],
     mod="cutquad", min=500, technique="abstract interpretation with an oracle for the geometry library and random interpretation of its nodes",
     explains=ORACLE + "As C12, per requested facet; classes of nodes (inside, on the boundary outwards, on the boundary inwards) are combined in every way.",
     note="As C12.", assume=ORC_ASSUME)

prop("C15", "Operations on Bezier and monomial polynomials return the named polynomial",
     "For Bezier and monomial polynomials of one to three variables, scalar or vector valued and of any order (including order one in some direction): the value is the sum of the coefficients times the basis functions, and gradient and Hessian are its derivatives. Facets are the restriction to the facet, derivative polynomials the derivative, conversion to Bernstein form and order elevation leave the polynomial as it is, sums, differences, products and compositions of Bezier polynomials combine the operands as named (also of different orders) without changing them, negation, transformations of the image and restriction to a box of the domain do what they say. Copies own their coefficients; the view handed to the geometry library shows the own coefficients with the directions reversed. Lagrange bases are one at their own node and zero at the others, with Chebyshev nodes exactly when these are requested, and their derivatives are the derivatives; Bernstein bases and derivatives likewise.",
     ["inputs"], "symbolic coefficients and points; every instantiated number of variables and components; several orders per direction including one",
     "Tests evaluate a few polynomials of equal orders at a few points; orders of one, facets of monomials and Chebyshev nodes are never used.",
     ["cpp/qugar/bezier_tp.cpp", "cpp/qugar/bezier_tp_utils.cpp", "cpp/qugar/bezier_tp_utils_composition.cpp", "cpp/qugar/monomials_tp.cpp", "cpp/qugar/polynomial_tp.cpp", "cpp/qugar/lagrange_tp_utils.cpp"],
     [{"name": "coefficient formulas", "where": "cpp/qugar/bezier_tp.cpp"}, {"name": "Lagrange nodes", "where": "cpp/qugar/lagrange_tp_utils.cpp"}],
     mod="poly", min=350, technique="value-numbering abstract interpretation against closed-form specifications",
     explains=ALGEBRA + "Obligation per operation, number of variables, components and orders: the value of the result at a symbolic point equals the closed form of the operation on symbolic coefficients.",
     note="Orders up to four per direction (Lagrange up to seven); intervals are covered by C01.", assume=ALG_ASSUME, observe=["values and orders of the resulting polynomials"])

prop("C14", "Reparameterization meshes keep their geometry and have the orientation asked for",
     "Operations on reparameterization meshes keep the geometry. Inserted points are the points of their cell, merged meshes keep all cells and wires of both, points are mapped affinely from the old to the new box (all, or just the requested ones). A full cell has its tensor-product nodes in its box (equally spaced, Chebyshev nodes from order seven on; direction 0 fastest), with all its edges as wires exactly if the wirebasket is requested. Merging coincident points leaves every point of every cell where it was (up to the tolerance), no coincident or unused points, and every wire once, whatever its direction and multiplicity before. Orienting cells renumbers the nodes of the requested cells only, by permuting their directions, so that the Jacobian at the centre is positive, or the normal of the cell (dimension one less) points along the gradient of the level set or out of the facet. The generated wirebasket has the non-degenerate edges that lie on edges of the box, or on its faces and the zero level set (in 2D also on the zero level set inside). The VTK files hold these points, cells and wires at full precision, in VTK's node order and with its cell types.",
     ["inputs", "histories"], "generic points of the cells, meshes of one to several cells, all instantiated dimensions, orders two to seven",
     "Existing tests need the geometry library and compare volumes of merged meshes; a cell turned inside out or a lost wire changes no volume.",
     ["cpp/qugar/reparam_mesh.cpp", "cpp/qugar/impl_reparam_mesh.cpp", "cpp/qugar/point.cpp", "cpp/qugar/tolerance.cpp", "cpp/qugar/lagrange_tp_utils.cpp"],
     [{"name": "merging of points and wires", "where": "cpp/qugar/reparam_mesh.cpp"}, {"name": "orientation of cells", "where": "cpp/qugar/impl_reparam_mesh.cpp"}, {"name": "files", "where": "cpp/qugar/reparam_mesh.cpp"}],
     mod="reparam", min=70, technique="path-exhaustive abstract interpretation with symbolic and generic points",
     explains="The C++ sources are parsed and evaluated abstractly (never compiled into a running program). Meshes are built through the public operations with symbolic points (orientation, scaling, full cells, merging meshes: both outcomes of every branch are followed and judged on the region of points that takes it) or generic points (coincident points, wirebasket, files), and the mesh after the operation is compared with the specification. ",
     note="Meshes of up to a dozen cells; patterns of coincident points and of edges on the boundary are a sample; several implicit functions at once are not covered (the library only uses one).", assume=ALG_ASSUME + ["vectors of the geometry library are zero unless set"], observe=["points, connectivity and wires of the mesh", "contents of the files"])

prop("C16", "Reparameterizations cover exactly the part inside the level set",
     "The reparameterization of a cell cut by a level set covers exactly the part of the cell where the function is not positive (or its zero set, or the part of a facet): all nodes are in the cell and in that part (on the zero set), cells are not inverted, the measures of the cells add up to the measure of the part, cells that the mesh already had are kept, and the wires are the edges of the part. This holds for any arrangement of the zero set with respect to the cell, for any direction chosen as height direction, whether roots at the ends of a line are found or not, and for polynomials as for general functions. The reparameterization of a domain has the order that was asked, one block for each requested cut cell, made with the level set restricted to that cell, and (for the inside only) exactly the requested full cells with their edges as wires; coincident points are merged if and only if that was requested.",
     ["inputs", "configurations"], "level sets in general position with symbolic coefficients (affine, balls and their complements, quadrics with mixed terms, crossing sheets), 2D and 3D, any height directions",
     "Existing tests need the geometry library and compare total volumes with loose tolerances for a few functions; a fold, a hole or a misplaced sheet for some arrangement stays unseen.",
     ["cpp/qugar/impl_reparam.cpp", "cpp/qugar/impl_reparam_general.cpp", "cpp/qugar/impl_reparam_bezier.cpp", "cpp/qugar/impl_utils.cpp", "cpp/qugar/reparam_mesh.cpp", "cpp/qugar/impl_reparam_mesh.cpp"],
     [{"name": "general level sets", "where": "cpp/qugar/impl_reparam_general.cpp"}, {"name": "polynomials", "where": "cpp/qugar/impl_reparam_bezier.cpp"}, {"name": "domains", "where": "cpp/qugar/impl_reparam.cpp"}],
     mod="graphs", min=1200, technique="abstract interpretation with symbolic level sets, one path per arrangement, and identities over the region of each path",
     explains="The C++ sources are parsed and evaluated abstractly (never compiled into a running program). The level set has symbolic coefficients; its bounds on boxes and its roots along lines (answers of the geometry library) are terms over them. For each arrangement the branches of a representative are followed; the nodes of the extracted mesh are terms, and their positions, the orientation and the measures of the cells are compared with the exact clipped box at samples of the region of coefficients that takes the same branches. Domains are checked with the routines for single cells replaced by markers. ",
     note="One path per arrangement (a sample of about 200 arrangements per dimension). Curved level sets (balls, 45 quadrics, 40 quadratic polynomials in two dimensions) are compared up to the interpolation error. In three dimensions, polynomials of degree one. Wires are only compared for functions with gradients of order one, because the tolerance of the library is on the value of the function.",
     assume=ALG_ASSUME + ["vectors of the geometry library are zero unless set", "the sign conditions on the faces of a box are those of Saye (2015)"], observe=["points, connectivity and wires of the mesh"])

PYABS = ("Abstract interpretation of the Python sources (parsed with ast, nothing imported or executed): arrays have an abstract shape and abstract entries, "
         "numbers are Herbrand terms, code outside the repository is opaque and its uses are recorded as an effect trace; branches on abstract conditions fork the path, "
         "an exception reachable from valid inputs is a violation. ")
PY_ASSUME = ["numpy, re and the builtins mean what their documentation says (modelled, not analysed)",
             "DOLFINx, FFCx, UFL, basix and MPI are opaque: their documented contracts are assumed where a rule names them"]
prop("C17", "The compiled module hands valid memory and the library's own values to Python",
     "Every function, method and attribute that the compiled module offers to Python forwards its arguments unchanged to the library routine of the documented dimension and returns the library's own values: arrays with the documented shape, order and type, for 2D and 3D, for arguments given by position or by keyword, as lists, ranges, columns or strided views of arrays. No array handed to Python refers to memory that ends with the call, arguments that are read as raw memory are contiguous, and no registered callable keeps references to variables of the function that registered it.",
     ["inputs", "programs"], "all bound functions and attributes, all forms of their arguments, all objects they may be called on", "The stable tests never load the module (its dependencies are not installed); memory that is used after its end often still has the old values.",
     ["python/nanobind_wrappers/common.cpp", "python/nanobind_wrappers/cut_quad.cpp", "python/nanobind_wrappers/impl_functions.cpp", "python/nanobind_wrappers/quad.cpp", "python/nanobind_wrappers/reparam.cpp", "python/nanobind_wrappers/unf_domain.cpp", "python/nanobind_wrappers/wrapper_utils.hpp", "python/nanobind_wrappers/qugar.cpp"],
     [{"name": "conversion of arrays", "where": "python/nanobind_wrappers/wrapper_utils.hpp"}, {"name": "registration", "where": "python/nanobind_wrappers/qugar.cpp:NB_MODULE"}],
     mod="binding", min=170, technique="abstract interpretation of the wrappers from NB_MODULE on with a model of nanobind's overload resolution, conversions and ownership; escape analysis of captures",
     explains="The wrapper sources are parsed with the clang front end against stub headers of nanobind that record every registration; nothing is compiled into a module or loaded. Each registered callable is called through a model of nanobind (overloads in order, strict pass then converting pass, casters, ownership and lifetime of ndarrays, return policies) with abstract Python values, and its effect compared with the library's own routine or with symbolic objects. Captures of registered callables are checked by kind. ",
     note="Objects and sizes are an enumerated family; values symbolic.", assume=ALG_ASSUME + ["nanobind behaves as documented (model in qv/binds.py)"], observe=["values, shapes and memory of the returned arrays", "arguments that reach the library"])
prop("C18", "Functions made from Python describe the documented shapes",
     "Every implicit function created through the Python package evaluates, with its gradient, to the documented shape (spheres, cylinders, cones, tori, ellipsoids, planes, boxes, annuli, constants, TPMS, transformed ones and their polynomial counterparts) for every combination of its optional arguments, in 2D and 3D, for single and double precision arrays and for any number of points, none included; the polynomial form is used exactly when requested or, if left open, when it exists.",
     ["inputs", "configurations"], "all functions, all combinations of optional arguments, both dimensions, both types, all parameters and points", "The stable tests never create a function from Python; a swapped optional argument only shows for non-default values.",
     ["python/qugar/impl/impl_function.py", "python/nanobind_wrappers/impl_functions.cpp", "cpp/qugar/impl_funcs_lib.cpp", "cpp/qugar/bezier_tp.cpp"],
     [{"name": "creation", "where": "python/qugar/impl/impl_function.py"}, {"name": "registration", "where": "python/nanobind_wrappers/impl_functions.cpp"}],
     mod="binding", min=60, technique="joint abstract interpretation of Python and C++ through a model of nanobind, terms compared with closed-form shapes by random interpretation",
     explains=PYABS + "The compiled module is replaced by the abstract evaluation of the wrapper sources (nanobind is modelled), so one term results for each entry of the returned array; it is compared with the documented shape at samples, gradients with its derivative. ",
     note="Identities of terms are decided by random interpretation (evaluation at random points), not by a solver.", assume=ALG_ASSUME + ["nanobind behaves as documented (model in qv/binds.py)", "numpy means what its documentation says"], observe=["returned arrays"])
prop("C19", "The Python package asks the compiled module for exactly what was requested",
     "Every name that the package takes from the compiled module is registered there. Quadratures are requested for exactly the cells or (cell, facet) pairs given, in their order, in the original numbering with lexicographical local facets, with enough (and no more than needed) Gauss points for the degree and the documented flags, and are returned with the entities that were passed. The unfitted Cartesian mesh has the breaks and the domain of the function given and, if empty cells are excluded, exactly the full and cut cells in order. Reparameterizations have the degree, dimension and domain requested, and their DOLFINx mesh has their points and, in DOLFINx node order, their cells or wires.",
     ["inputs", "configurations"], "all sets and orders of entities, degrees, flags, dimensions, types and exclusion of empty cells", "The stable tests use neither the compiled module nor DOLFINx.",
     ["python/qugar/mesh/unfitted_domain.py", "python/qugar/quad/custom_quad.py", "python/qugar/mesh/unfitted_cart_mesh.py", "python/qugar/reparam/reparam.py"],
     [{"name": "requests of quadratures", "where": "python/qugar/mesh/unfitted_domain.py"}, {"name": "unfitted Cartesian mesh", "where": "python/qugar/mesh/unfitted_cart_mesh.py"}],
     mod="pylib", min=75, technique="joint abstract interpretation of Python and C++ through a model of nanobind; the library's routines observed at their boundary",
     explains=PYABS + "Calls into the compiled module run the abstract evaluation of the wrapper sources, the library's routines behind them are replaced by markers that record the request; the request, the returned entities and the arguments that reach DOLFINx are compared with the specification. ",
     note="Enumerated family of domains, entities and degrees; coordinates symbolic or exact.", assume=PY_ASSUME + ["nanobind behaves as documented (model in qv/binds.py)"], observe=["requests to the library", "arguments of dolfinx.mesh.create_mesh"])

prop("C20", "Tensor-product index helpers enumerate exactly the entities they name",
     "For every number of indices per direction in 1D, 2D and 3D: flat and tensor indices are inverse bijections with the first direction fastest; the indices of a face or edge (given by lexicographical or DOLFINx id) are exactly those lying on it; corners, internal and boundary index sets are the documented ones, sorted, and internal and boundary indices partition the whole set.",
     ["inputs"], "all numbers of indices per direction, all faces, edges and corners, both numberings", "Tests do not touch these helpers; errors in one face or in 3D only are invisible.",
     ["python/qugar/mesh/tp_index.py", "python/qugar/mesh/utils.py"], [{"name": "lexicographical index arithmetic", "where": "python/qugar/mesh/tp_index.py"}],
     mod="pyindex", min=200, technique="abstract interpretation of the Python AST against enumerated and closed-form specifications",
     explains=PYABS + "Obligations: for a family of shapes (all pairwise different extents, unit extents, 1D-3D) the abstract array returned for every face, edge and corner is compared with the set defined by its documentation; flattening and corners also in closed form with symbolic sizes.",
     note="Shapes are enumerated (arrays have concrete lengths in the domain); flattening and corners are for all sizes.", assume=PY_ASSUME)
prop("C21", "Node, face and edge ordering tables are the permutations they document",
     "For every dimension and degree the conversions between VTK, DOLFINx and lexicographical node orderings are permutations satisfying a_from[i] = a_to[perm[i]] for the orderings those libraries document, each conversion is the inverse of its opposite and they compose; the same holds for the face and edge tables.",
     ["inputs", "configurations"], "dimensions 1-3, all degrees, all three orderings", "No test compares the tables; an exchanged pair on one sub-entity only shows for high degrees or in 3D.",
     ["python/qugar/mesh/utils.py"], [{"name": "ordering tables", "where": "python/qugar/mesh/utils.py"}],
     mod="pyindex", min=80, technique="abstract interpretation of the Python AST; table equality against orderings generated from the reference topologies",
     explains=PYABS + "Obligations: every table (6 node tables per dimension and degree, face and edge tables) equals the one generated from the reference topologies of basix and VTK.",
     note="Degrees 1-5 (quick) or 1-8 (thorough).", assume=PY_ASSUME + ["reference topologies of basix hexahedra/quadrilaterals and VTK Lagrange cells as published"])
prop("C22", "Tensor-product meshes have the documented cells, nodes and boundary facets",
     "For every number of cells, degree and dimension the tensor-product and Cartesian meshes pass to DOLFINx the connectivity (DOLFINx node ordering of the lexicographical cells) and the node coordinates of the documented grid, together with the requested ghost mode, coordinate type and active cells; afterwards, whatever renumbering, partition and inactive cells DOLFINx ended up with, the cells, facets and tags of every face, and the tensor index and bounding box of every local cell, are those of the grid.",
     ["inputs", "configurations"], "all grids, degrees, renumberings, partitions and active-cell subsets", "The stable tests never build a mesh (DOLFINx is not even installed); renumbering and partitioning are decided by DOLFINx at run time.",
     ["python/qugar/mesh/tp_mesh.py", "python/qugar/mesh/mesh.py", "python/qugar/mesh/tp_index.py", "python/qugar/mesh/utils.py"],
     [{"name": "connectivity and nodes", "where": "python/qugar/mesh/tp_mesh.py"}, {"name": "renumbering maps", "where": "python/qugar/mesh/mesh.py"}],
     mod="pymesh", min=12, technique="abstract interpretation of the Python AST against a model of a renumbered, partitioned grid",
     explains=PYABS + "Obligations: arguments that reach dolfinx.cpp.mesh.create_mesh / meshtags on every path, with symbolic coordinates; values of the cell and face queries over a family of renumbered, partitioned and partly inactive grids.",
     note="Coordinates are symbolic; grids, degrees, renumberings and partitions are an enumerated family.", assume=PY_ASSUME + ["DOLFINx numbers cells, facets and nodes arbitrarily but consistently (model qv/checks/pymesh.py Model)"])
prop("C23", "Original and DOLFINx numberings convert exactly on every process",
     "On every process, converting local DOLFINx cells or nodes to original ids and back is the identity, ids that are not on the process give -1 (including on processes without cells), inactive cells are skipped consistently, global ids are offset consistently, and when coincident nodes are merged exactly the coincident ones are identified, the coordinates and connectivity follow the returned map, the map is known on every process and the default tolerance scales with the size (not the position) of the mesh.",
     ["inputs", "configurations", "histories"], "all renumberings, partitions, active-cell subsets, groups of coincident nodes and orders in which they are found", "Needs a partitioned DOLFINx mesh; the stable tests build none.",
     ["python/qugar/mesh/mesh.py"], [{"name": "search in renumbered arrays", "where": "python/qugar/mesh/mesh.py:_find_in_array"}, {"name": "merging of nodes", "where": "python/qugar/mesh/mesh.py"}],
     mod="pymesh", min=12, technique="abstract interpretation of the Python AST against a model of a renumbered, partitioned grid",
     explains=PYABS + "Obligations: values of the conversions over a family of renumbered, partitioned and partly inactive grids (first process, later process, process without cells) and over groups of coincident nodes.",
     note="Enumerated family of grids and groups; node coordinates symbolic.", assume=PY_ASSUME + ["DOLFINx numbers cells and nodes arbitrarily but consistently; comm.bcast returns the value of the root process"])
prop("C24", "Mesh facets are sets of (cell, facet) pairs, converted between numberings",
     "Concatenation, union, intersection, difference, search and flattening of mesh facets act on the pairs (never on cells or local facets separately), keep the documented types and leave their operands unchanged; converting to the original numbering and back is the identity; facet ids agree with the connectivity of the mesh; and the sets of exterior, interior and all facets (one or both sides) created on any process contain exactly its own facets in local numbering.",
     ["inputs", "configurations"], "all sets of facets, including empty ones and ones of different sizes; all renumbered and partitioned meshes", "The stable tests do not import this module.",
     ["python/qugar/mesh/mesh_facets.py", "python/qugar/mesh/utils.py"], [{"name": "set algebra on pairs", "where": "python/qugar/mesh/mesh_facets.py"}],
     mod="pymesh", min=100, technique="abstract interpretation of the Python AST against set algebra on pairs",
     explains=PYABS + "Obligations: abstract result of every operation on a family of pairs of facet sets (empty, overlapping, transposed pairs such as (5,2)/(2,5), random) and of every creation function on a family of renumbered, partitioned grids.",
     note="Enumerated family of sets and grids.", assume=PY_ASSUME)
prop("C25", "Cut, full and empty entities follow the classification, whatever came before",
     "The cut, full and empty cells of an unfitted domain are those the C++ classification reports, in sorted local DOLFINx numbering; the facets for exterior integrals are the exterior cut/full/empty ones plus the partial (as cut) and full (as full) unfitted-boundary facets; those for interior integrals are the interior ones, with unfitted-boundary facets that are not cut being empty; no result depends on the order or number of earlier queries; and cell and facet tags carry exactly the requested tag of each kind.",
     ["inputs", "histories", "configurations"], "all classifications, meshes, partitions, tags and sequences of queries", "Depends on the order of calls and on facets on the unfitted boundary, which no test reaches (DOLFINx is not installed).",
     ["python/qugar/mesh/unfitted_domain.py", "python/qugar/mesh/unfitted_domain_abc.py", "python/qugar/mesh/mesh_facets.py"],
     [{"name": "cached classification", "where": "python/qugar/mesh/unfitted_domain.py"}, {"name": "tags", "where": "python/qugar/mesh/unfitted_domain_abc.py"}],
     mod="pymesh", min=100, technique="abstract interpretation of the Python AST; sequences of queries against set specification",
     explains=PYABS + "Obligations: abstract result of every getter, of sequences of getters on one object and of the tag creation for random classifications over a family of renumbered, partitioned grids; the C++ classification is a model that filters by kind.",
     note="Enumerated family of grids, classifications, query orders and tags.", assume=PY_ASSUME)
prop("C26", "Packed coefficients carry every quadrature exactly where the kernels read it",
     "For every integral (cells, exterior and interior facets, mixed-dimensional), scalar type and number of coefficients, the packed array keeps DOLFINx's coefficients of every entity, followed by an offset that is negative for full entities, zero for empty ones and, for cut ones, leads (in real units from the entity's first coefficient) to its own data: for each quadrature of the integral, the number of points, the points in the reference cell (both sides for interior facets, also facet coordinates for mixed-dimensional integrals), weights and, for unfitted boundaries, normals. Data lie inside the array, never overlap, and updating coefficients changes only DOLFINx's part.",
     ["inputs", "configurations", "histories"], "all integral types, scalar types, numbers of coefficients, classifications of the entities (none, all, mixtures), quadratures and points", "Only complex packing of cells is sampled by a test; DOLFINx is not installed.",
     ["python/qugar/dolfinx/custom_coefficients.py", "python/qugar/dolfinx/custom_quad_utils.py"],
     [{"name": "layout of the run-time data", "where": "python/qugar/dolfinx/custom_coefficients.py"}],
     mod="pypack", min=130, technique="abstract interpretation of the Python AST; word-exact abstract memory decoded with the documented layout",
     explains=PYABS + "Obligations: the array returned by CustomCoeffsPacker.pack_coefficients/update_coefficients, word by word (reinterpreting views are modelled exactly), with symbolic coefficients, points, weights and normals, decoded with the layout the kernels assume.",
     note="Values symbolic; integrals (types, numbers of entities, coefficients, points per entity) are an enumerated family.", assume=PY_ASSUME + ["DOLFINx packs the coefficients of an entity contiguously (both sides of an interior facet together)"])
prop("C27", "Facet quadrature points are permuted and mapped as the reference facets demand",
     "For every facet permutation number (2 rotations + reflections) the points of a facet are permuted exactly as the form compiler permutes quadrature points of that facet, each point with the permutation of its own cell and facet; points of facet k map to the cell by the affine map of that reference facet; points passed in are never modified, and no points give no points.",
     ["inputs"], "all points, all cell types, facets and permutation numbers", "Needs cells with every relative orientation in an unstructured mesh; the stable tests do not import this module.",
     ["python/qugar/dolfinx/custom_quad_utils.py"], [{"name": "permutation operators", "where": "python/qugar/dolfinx/custom_quad_utils.py"}],
     mod="pypack", min=30, technique="abstract interpretation of the Python AST with symbolic points; value equality",
     explains=PYABS + "Obligations: coordinates of the points, with symbolic inputs, for every cell type, facet and permutation number, alone and mixed.",
     note="Complete over cell types, facets and permutation numbers; points symbolic.", assume=PY_ASSUME + ["FFCx's permutation of quadrature points and the reference cells of basix"])
prop("C28", "Kernels of custom integrals integrate over the quadrature they are given",
     "The C code generated for an integral (cells, exterior and interior facets, mixed-dimensional; any scalar type, rank, number of coefficients, elements and quadratures) is a kernel that, for cut entities, adds to the element tensor exactly the integrand evaluated at the run-time points of every quadrature, with their weights and normals and the basis functions at those points (of each side for interior facets); for full entities, exactly what the standard kernel adds (without the terms on unfitted boundaries); and nothing for empty ones. It never reads or writes outside its data, and if the element library fails the element tensor is untouched.",
     ["inputs", "configurations"], "all integrals, elements, scalar types, numbers of points (also none), facets, permutations and coefficient values", "FFCx, UFL and DOLFINx are not installed: no test generates or runs a kernel.",
     ["python/qugar/dolfinx/codegeneration.py", "python/qugar/dolfinx/_kernel_body.py", "python/qugar/dolfinx/fe_table.py", "python/qugar/dolfinx/integral_data.py"],
     [{"name": "kernel rewriting", "where": "python/qugar/dolfinx/_kernel_body.py"}, {"name": "shim calls and tables", "where": "python/qugar/dolfinx/codegeneration.py"}],
     mod="pykernel", min=26, technique="abstract interpretation of the generator (Python AST) and of the C text it produces, both over symbolic values; value equality with the integral's own semantics",
     explains=PYABS + "The text the generator returns for a family of synthetic FFCx integrals is parsed and interpreted in turn over symbolic memory (points, weights, coefficients, coordinates and basis values are symbols); each entry of the element tensor is compared with the integral's semantics for custom, full and empty entities and for each failure of the shim. Nothing is executed or compiled.",
     note="Values symbolic; integrals, numbers of points, facets and permutations are an enumerated family (thorough: 120 more random integrals). Kernels that mix one-point rules with others on non-affine meshes are outside (FFCx shares their piecewise scope).", assume=PY_ASSUME + ["FFCx 0.10's layout of kernels and tables, as reproduced by the synthetic integrals"])
prop("C29", "Forms are compiled and integrated where the user asked, and left untouched",
     "form_custom compiles exactly the integrals of the given form, with integrals over the whole boundary (everywhere or -1) given a subdomain id that no other exterior facet integral has and integrated over every facet the unfitted domain deems exterior; all other integrals keep their id, data and metadata and are integrated over the entities of their tags; coefficients, constants and spaces follow the compiled form. The form, its integrals and their metadata (possibly shared with other forms) are as before the call, also if compilation fails, and a list of forms gives one compiled form per form (None for empty ones).",
     ["inputs", "configurations", "histories", "fault_sequences"], "all forms (types, ids, data and metadata of their integrals), lists of forms and errors of the compiler", "DOLFINx and UFL are not installed: no test creates a form.",
     ["python/qugar/dolfinx/forms.py"], [{"name": "integrals over the whole boundary", "where": "python/qugar/dolfinx/forms.py"}],
     mod="pyforms", min=26, technique="abstract interpretation of the Python AST with models of UFL forms; arguments of the form constructor and state of the given form",
     explains=PYABS + "Obligations: for a family of random forms, the arguments given to the compiler and to the C++ form and the fields of the given form and integrals, after one call, after a failing compiler and for two forms that share integrals; lists of forms.",
     note="Family of forms is enumerated (thorough: 150).", assume=PY_ASSUME + ["UFL 2025.2's Form and Integral, as modelled in qv/models/ufl.py"])
prop("C30", "Integrals over unfitted boundaries are scaled once by Nanson's formula",
     "Multiplying an integrand by ds_bdry_unf gives, for every subdomain asked (also several, also after calling the measure any number of times), one cell integral marked as custom unfitted-boundary integral, with the user's degree, metadata and subdomain data, whose integrand is scaled exactly once by the norm of J^-T N for the parametric normal N (of the dimension and type of the mesh); mapped_normal is J^-T N (J (J^T J)^-1 N on manifolds), of unit length unless asked otherwise. Metadata of the user is not modified.",
     ["inputs", "configurations"], "all Jacobians and normals, subdomains, metadata and sequences of reconstructions", "DOLFINx and UFL are not installed; the scale factor is wrong only on non-Cartesian geometry or several subdomains.",
     ["python/qugar/dolfinx/boundary.py"], [{"name": "Nanson's formula", "where": "python/qugar/dolfinx/boundary.py"}],
     mod="pyforms", min=14, technique="abstract interpretation of the Python AST with models of UFL measures; value equality of the scale factor",
     explains=PYABS + "Obligations: integrands (by components, with symbolic Jacobian and normal), ids, data and metadata of the integrals for a family of measures and calls; values of mapped_normal in 2D, 3D and on surfaces.",
     note="Jacobian and normal symbolic; measures are an enumerated family.", assume=PY_ASSUME + ["UFL 2025.2's Measure, as modelled in qv/models/ufl.py"])
prop("C31", "The element library is published whole, current and once",
     "ensure_built returns a library compiled completely from the current sources: it is compiled if and only if it is missing or older than its source or its builder, only once among processes that share the cache, and other processes can at no time (also when the compilation fails or is interrupted) find an incomplete library or an incomplete one left behind. A failure is reported and the next call compiles again; locks are released and no temporary file stays.",
     ["schedules", "crash_points", "fault_sequences", "configurations"], "all states of the cache, interleavings with other processes at the lock, failures and interruptions of the compiler, platforms", "Tests build once, successfully, with processes that wait for the lock; the window in which another process takes the unlocked fast path lasts as long as the linker writes.",
     ["python/qugar/dolfinx/_shim/__init__.py"], [{"name": "unlocked fast path over a shared file", "where": "python/qugar/dolfinx/_shim/__init__.py:ensure_built"}],
     mod="pyshim", min=20, technique="abstract interpretation of the Python AST over an abstract file system shared with other processes",
     explains=PYABS + "Every file operation of ensure_built acts on an abstract file system whose files carry content state and time stamp; obligations: no write to the published path other than an atomic rename of a complete file, freshness on return, number of compilations, leftovers, lock state, for each combination of cache state, environment, platform, other process and sequence of compiler failures.",
     note="States, environments and failures are an enumerated family; interleavings are abstracted: a file that is ever incomplete at its published path counts as observed.", assume=PY_ASSUME + ["rename within a directory is atomic and the compiler writes its output little by little"])
prop("C32", "The C interface to the element library keeps its contract",
     "For each real type, registering an element gives the same non-negative handle to equal parameters and different handles to different ones (whatever was registered before, after failures, after a reset, and when another thread registers at the same time), and creates exactly the element asked for, once. Tabulating with a handle tabulates that element, with the given derivatives and points, into exactly the values it needs. Invalid handles, buffers that are too small and any failure below give a negative code with the buffers untouched; no exception crosses the interface. The declarations in the generated kernels agree with the definitions.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all sequences of registrations, tabulations and resets, handles, sizes, failures (of any exception type, also out of memory) and interleavings of two threads at the locks", "Tests register a handful of elements in order and never make basix or an allocation fail.",
     ["python/qugar/dolfinx/_shim/qugar_basix_shim.cpp", "python/qugar/dolfinx/codegeneration.py"],
     [{"name": "registry of elements", "where": "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"}, {"name": "C declarations in generated kernels", "where": "python/qugar/dolfinx/codegeneration.py"}],
     mod="shim", min=90, technique="abstract interpretation of the type-checked C++ (clang AST) with a model of basix; typed comparison of C declarations across languages",
     explains="Every entry point is evaluated over the clang AST of the shim with symbolic buffers and points and a model of basix that records what it is asked; histories of calls, failures injected at each call that may throw, and a second thread's calls at each lock acquisition are enumerated; buffers are compared symbol by symbol. The prototypes in the C text the generator produces (itself obtained by abstract interpretation) are compared with the definitions. Nothing is executed. ",
     note="Histories, sizes and failures are an enumerated family; values symbolic.", assume=["basix 0.10's interface, as declared in stubs/basix/finite-element.h", "the C++ front end and the abstract evaluator"])
prop("C33", "State that outlives a call is immutable, per thread, or locked",
     "Quadratures, reparameterizations and kernels may be computed by several threads: every variable of the C++ libraries (core, bindings, shim) that outlives a call is constant, or belongs to one thread, or is read under a lock and changed under an exclusive lock, always the same one, that all threads share; locks are not taken twice nor in different orders; constant methods do not change unprotected members; and per-thread scratch buffers are not overwritten by recursive calls while they are in use.",
     ["schedules", "programs"], "all threads and interleavings, all call paths", "A data race shows up only under particular interleavings; no test runs two threads.",
     ["cpp/qugar/impl_quadrature.cpp", "cpp/qugar/impl_reparam_general.cpp", "cpp/qugar/impl_reparam_bezier.cpp", "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp", "cpp/qugar/quadrature_lib.cpp"],
     [{"name": "cached quadratures and scratch buffers", "where": "cpp/qugar/*.cpp"}, {"name": "registries of elements", "where": "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"}],
     mod="threads", min=60, technique="lock-set, escape and lock-order analysis over the typed syntax trees of the whole C++ program",
     explains="Every variable with static storage duration (and every mutable member) in every instantiated function of the core, the bindings and the shim is an obligation: its accesses (through references, accessors that return references, iterators) are classified as reads or changes, and the locks held at each are computed, interprocedurally for functions without external callers. Further obligations: every lock acquisition (self-deadlock, order) and every scratch buffer (call graph cycles through a call during its use). ",
     note="Flow-insensitive in the heap: objects reached through pointers stored in static variables are not followed.", assume=["initialisation of local static variables is thread-safe (C++11)", "lock classes of the standard library or of the repository"])
prop("C34", "Compiling a form leaves the process and the cache consistent",
     "compile_forms (and ffcx_jit) return the objects, the module, the code and the integral data of exactly the given forms. Whatever fails (code generation, the build of the element library, the C compiler, the publication, the load), the failure is reported, the environment and the handlers of the root logger are as before, the source of the failed compilation is moved away so that the next call does not wait for it, and nothing is marked as ready before it is compiled. The element library exists before a module linked against it is compiled or loaded from the cache; modules depend on forms, options and flags, and never collide with those of FFCx. Options and flags of the caller are not changed.",
     ["fault_sequences", "configurations", "histories"], "all failures and sequences of calls, with and without cache, environments, options and flags", "FFCx and CFFI are not installed; tests compile nothing and inject no failure.",
     ["python/qugar/dolfinx/jit.py"], [{"name": "state of the process during a compilation", "where": "python/qugar/dolfinx/jit.py:_compile_objects"}, {"name": "modules linked against the element library", "where": "python/qugar/dolfinx/jit.py:compile_forms"}],
     mod="pyjit", min=35, technique="abstract interpretation of the Python AST with models of CFFI, FFCx's cache and the file system; injected failures",
     explains=PYABS + "Models of the environment, the root logger, cffi's builder, FFCx's cache and the file system record what the code does; obligations: returned values, state after the call, files left, order of library build, compilation, publication and load, name of the module, linkage, for each combination of environment, cache, flags and sequence of failures.",
     note="Environments, flags and failures are an enumerated family.", assume=PY_ASSUME + ["FFCx 0.10's cache protocol and CFFI's set_source/compile, as modelled in qv/checks/pyjit.py"])
prop("C35", "Linear, nonlinear and scalar assembly use data of the current state",
     "Every solve of a linear problem, and every residual and Jacobian of a nonlinear one, in any sequence, assembles with the constants and coefficients as they are at that moment (and the quadratures of the unfitted domain), of the right form, with the boundary conditions lifted and set with the right signs and scales, into zeroed matrices and vectors that are then finished; nested lists of forms are packed and updated form by form. assemble_scalar packs what it is not given. The solver gets the given options under its own prefix, and a problem that could not be built completely can still be destroyed.",
     ["histories", "configurations", "fault_sequences"], "all sequences of solves, residuals and Jacobians, boundary conditions, options, nestings of forms", "PETSc and DOLFINx are not installed; a stale coefficient shows up only from the second assembly on.",
     ["python/qugar/dolfinx/petsc.py", "python/qugar/dolfinx/_dolfinx_patches.py"], [{"name": "coefficients kept between assemblies", "where": "python/qugar/dolfinx/petsc.py:_update_coefficients"}],
     mod="pyjit", min=40, technique="abstract interpretation of the Python AST with recording models of PETSc and DOLFINx's assemblers; typestate of matrices and vectors",
     explains=PYABS + "Forms are models whose packed coefficients carry the state at which they were packed; obligations: each assembly call receives the current data of its form, the sequence of operations on matrices and vectors (zeroing, assembling, lifting, ghost updates, boundary values, finishing) is the specified one, for sequences of calls and configurations.",
     note="Sequences and configurations are an enumerated family.", assume=PY_ASSUME + ["DOLFINx 0.10's assemblers and PETSc's vectors and matrices, as modelled in qv/checks/pyjit.py"])
prop("C36", "Exactly the compatible versions of the dependencies are accepted",
     "A version is accepted if and only if it lies in the half-open range of versions [lower, upper), compared number by number (also with several digits); post-releases and local builds count as the version they come from. The checks for DOLFINx, Basix, FFCx and UFL look at the version of that package, with its own bounds, and answer no when it is not installed.",
     ["inputs", "configurations"], "all versions and bounds, suffixes, packages missing", "Tests run with one installed version.",
     ["python/qugar/utils.py"], [{"name": "version comparison", "where": "python/qugar/utils.py"}],
     mod="pyjit", min=200, technique="abstract interpretation of the Python AST against lexicographic order",
     explains=PYABS + "Obligations: acceptance of every version of a family around every bound of the package (and others with several digits), with and without suffixes, and of the four checks for present and missing packages.",
     note="Versions are an enumerated family; pre-releases of the bounds themselves are left open.", assume=PY_ASSUME)
prop("C37", "PyVista exports show the right cells, facets, points and numbers",
     "The PyVista data made from grids, meshes, unfitted domains, quadratures and reparameterizations describe them faithfully: exactly the selected cells and facets, each with its own classification and its own lexicographical and DOLFINx numbers (also when the mesh is renumbered or leaves empty cells out); every quadrature point of cut cells, unfitted boundaries and facets at its place in its cell, with its weight and normal; cells of reparameterizations with the nodes in VTK's order and the right type.",
     ["inputs", "configurations"], "all grids, classifications and renumberings, both kinds of domain (C++ and mesh), selections, numbers of points, degrees", "PyVista and DOLFINx are not installed; a wrong numbering only shows on renumbered meshes.",
     ["python/qugar/plot/pyvista_tools.py"], [{"name": "cell data in the order of the grid", "where": "python/qugar/plot/pyvista_tools.py"}],
     mod="pyplot", min=70, technique="abstract interpretation of the Python AST with models of PyVista's grids; value numbering of coordinates, weights and normals",
     explains=PYABS + "Grids have symbolic breaks, quadratures symbolic points, weights and normals, cells and facets arbitrary classifications and renumberings; obligations: the cells, facets and points of the resulting data sets and all their cell data against the definition.",
     note="Sizes, classifications and renumberings are an enumerated family.", assume=PY_ASSUME + ["PyVista's data sets as modelled in qv/models/pv.py; extract_surface gives the faces of separate hexahedra by their smallest vertex, extract_all_edges the edges in VTK's order"])
prop("C38", "Integral data match the compiled code in every session",
     "The data returned with the code of several forms describe, in the order of the integrals, each compiled integral: its name, exactly the subdomain ids its form gives it, type, topological dimension and whether it is of mixed dimension, and exactly its quadratures, each with its own rule, whether it is the one of the unfitted boundary, and a degree sufficient for all the terms of the integral that share it; the code of other objects is untouched. The order of the quadratures, that the compiled kernel shares with the data packed for it, is the same in every session, whatever numbers FFCx gives to the elements and whatever the hash seed, so kernels cached by another session read the right data.",
     ["inputs", "configurations", "histories"], "all sets of forms, integrals, subdomain ids, quadratures and degrees, and numberings of elements and hash seeds of sessions", "FFCx is not installed; a wrong order shows only with a cache written by a session that numbered elements differently.",
     ["python/qugar/dolfinx/integral_data.py", "python/qugar/dolfinx/quadrature_data.py", "python/qugar/dolfinx/fe_table.py", "python/qugar/dolfinx/codegeneration.py"],
     [{"name": "matching of ids and names", "where": "python/qugar/dolfinx/integral_data.py"}, {"name": "order independent of element ids", "where": "python/qugar/dolfinx/fe_table.py:_sort_FE_tables"}],
     mod="pykernel", min=10, technique="abstract interpretation of the generator (Python AST) over synthetic FFCx representations; comparison of sessions that differ in element numbers, set order and hashes",
     explains=PYABS + "Families of forms with several integrals, ids and quadratures are given to the generator; obligations: every field of the data of every integral, and equality of the order of quadratures between three sessions with other element numbers, other orders of sets of texts and other hashes.",
     note="Forms are an enumerated family (thorough: 120); terms that share the placeholder rule across integrals may raise the degree.", assume=PY_ASSUME + ["FFCx 0.10 lists tables by name and its names are FE<id>_C.., as reproduced by the synthetic integrals"])

prop("C39", "Comparisons up to a tolerance mean what they say, also at ties",
     "For all real numbers: two values are equal up to a tolerance if and only if they differ by at most the tolerance; greater and smaller mean differing by more than that; greater-or-equal and smaller-or-equal are their unions (so exactly one of smaller, equal and greater holds); zero, positive and negative are these relations with zero; relative comparisons scale the tolerance with the larger of the two magnitudes (and add the absolute tolerance where two are given). A tolerance made from two, or updated with another one, is the larger one. Points are coincident if and only if all their coordinates are equal. Making values unique leaves a sorted subset of them without equal neighbours in which every value has an equal one; identifying coincident points maps coincident points (and only these) to one and the same point among them, and making points unique leaves one of each and returns the map from the old to the new points.",
     ["inputs"], "all pairs of values and tolerances (ties included); values and points in clusters that are closer, or further apart, than the tolerance",
     "No existing test compares values at a distance of exactly the tolerance, negative values, or coincident points that share coordinates with others.",
     ["cpp/qugar/tolerance.cpp", "cpp/qugar/point.cpp"], [{"name": "comparisons", "where": "cpp/qugar/tolerance.cpp"}, {"name": "coincident points", "where": "cpp/qugar/point.cpp"}],
     mod="tol", min=40, technique="value-numbering abstract interpretation against closed-form specifications",
     explains=ALGEBRA + "Obligation per comparison: the extracted decision, as a formula over the values and tolerances, is equivalent to its specification on generic values and at ties. Unique values and points are decided on generic configurations of clusters.",
     note="Chains of values, each within the tolerance of the next one but not of all, are left open.", assume=ALG_ASSUME, observe=["results of the comparisons", "values and maps of indices"])
