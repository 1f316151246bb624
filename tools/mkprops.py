import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
IN=["inputs","configurations"]
p("C01","Basis functions are dual to the degrees of freedom",
"For every element that can be constructed, applying its j-th degree of freedom (the weighted point values and derivative values it publishes) to its i-th tabulated basis function gives 1 when i=j and 0 otherwise. This holds for every family, cell, degree and variant, on reference cells and on user-chosen simplices, and also for dual sets computed for a basis from user-chosen points.",
IN,"all families x cells x degrees x variants x vertex coordinates of the cell",
"Tests check nodality for a fixed list of low-degree elements on the UFC cells, and most of them do so through the same matrix that was used to build the basis; higher degrees, other variants, other simplices, tensor products and wrapped elements are never looked at.",
["FIAT/finite_element.py","FIAT/dual_set.py","FIAT/functional.py","FIAT/polynomial_set.py","FIAT/tensor_product.py","FIAT/hdivcurl.py","FIAT/nodal_enriched.py","FIAT/pointwise_dual.py"],
[("inversion of the generalised Vandermonde matrix","FIAT/finite_element.py CiarletElement.__init__"),("Riesz representation of the dual set","FIAT/dual_set.py to_riesz"),("product functionals","FIAT/tensor_product.py"),("pulled-back functionals of H(div)/H(curl) wrappers","FIAT/hdivcurl.py")],
["constructor return","dual_basis()","tabulate()"])
p("C02","Tabulated derivatives are the true derivatives of the basis",
"Tabulating to order r returns exactly one array for each multi-index of total order at most r, and each of them is the corresponding partial derivative, with respect to the cell's coordinates, of the function tabulated at order zero. Derivatives beyond the polynomial degree are zero, and the lower-order arrays do not depend on the order requested.",
IN,"all elements x derivative orders (also above the degree) x evaluation points (interior, boundary, vertices, outside the cell)",
"Tests compare derivatives with hand-written values for a few P1/P2/Bernstein/tensor elements and a handful of points; mixed and high derivatives of most families, and cells other than the UFC ones, are unchecked.",
["FIAT/polynomial_set.py","FIAT/expansions.py","FIAT/finite_element.py","FIAT/bernstein.py","FIAT/tensor_product.py","FIAT/hdivcurl.py","FIAT/serendipity.py","FIAT/barycentric_interpolation.py"],
[("derivative matrices of expansion sets","FIAT/polynomial_set.py / FIAT/expansions.py make_dmats, tabulate_derivatives"),("Leibniz expansion in tensor products","FIAT/tensor_product.py tabulate"),("degree-lowering identity","FIAT/bernstein.py"),("symbolic differentiation","FIAT/serendipity.py"),("barycentric differentiation","FIAT/barycentric_interpolation.py")],
["tabulate()"])
p("C03","Each family spans exactly the polynomial space it documents",
"The basis of every element is linearly independent and spans exactly the finite-element space its family and degree name: complete polynomials for Lagrange-type, Hermite, Argyris, Morley and BDM/second-kind families, the Raviart-Thomas and Nedelec spaces, tensor-product and serendipity spaces, bubble-enriched spaces, and symmetric-matrix spaces with their defining constraints. The dimension matches the closed formula for the family.",
IN,"all families x cells x degrees x variants",
"Tests count degrees of freedom or check polynomial reproduction for a few members; they never decide span equality, so a space that is too small, too big, or rotated passes.",
["FIAT/polynomial_set.py","FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/nedelec_second_kind.py","FIAT/brezzi_douglas_marini.py","FIAT/brezzi_douglas_fortin_marini.py","FIAT/serendipity.py","FIAT/kong_mulder_veldhuizen.py","FIAT/arnold_winther.py","FIAT/mardal_tai_winther.py","FIAT/bell.py","FIAT/bubble.py","FIAT/regge.py","FIAT/hellan_herrmann_johnson.py","FIAT/discontinuous_pc.py"],
[("space construction by expansion coefficients","FIAT/raviart_thomas.py RTSpace, FIAT/nedelec.py, FIAT/brezzi_douglas_fortin_marini.py BDFMSpace, FIAT/kong_mulder_veldhuizen.py bump functions"),("union and restriction of polynomial sets","FIAT/polynomial_set.py polynomial_set_union_normalized"),("constraint functionals","FIAT/bell.py, FIAT/arnold_winther.py, FIAT/mardal_tai_winther.py, FIAT/brezzi_douglas_fortin_marini.py")],
["constructor return","tabulate()","space_dimension()"])
p("C04","Quadrature rules are exact to their claimed degree on every cell",
"Every quadrature rule obtained for a cell and a requested degree (any scheme, any supported cell including tensor-product cells with per-direction degrees, and arbitrary simplices) integrates every polynomial of that degree exactly; rules requested by number of points are exact to the degree documented for them. The weights sum to the measure of the cell, points and weights correspond in number, and the points lie in the cell.",
IN,"cells x schemes x degrees / point counts x polynomials of the claimed degree",
"Tests integrate one monomial or symmetric function per degree on the UFC cells; a wrong digit in one weight of one table, or a degree-to-point-count slip for one parity, is visible only to particular monomials.",
["FIAT/quadrature.py","FIAT/quadrature_schemes.py","FIAT/orthopoly.py","FIAT/jacobi.py","FIAT/gauss_radau.py"],
[("hard-coded tables","FIAT/quadrature_schemes.py"),("collapsed Gauss-Jacobi rules","FIAT/quadrature.py"),("degree to number of points","FIAT/quadrature_schemes.py create_quadrature"),("Golub-Welsch and Lobatto/Radau modifications","FIAT/orthopoly.py, FIAT/quadrature.py")],
["create_quadrature()","make_quadrature()","quadrature line rule constructors"])
p("C05","Reference cells have consistent topology and geometry",
"For every reference cell, entities, sub-entities and connectivity agree with the vertex sets of the entities; entity-to-cell maps send each sub-entity's reference cell affinely onto exactly that entity with its vertices in order. Normals are orthogonal to their facet with the documented length and direction, tangents join the documented vertices, volumes are the true measures, lattice points lie strictly inside the named entity, and point containment agrees with the geometry. Two cells compare equal exactly when they are the same kind of cell built from the same factors.",
IN,"all cells (UFC, default, Intrepid, tensor-product including nested, flattened) x entities x points",
"Tests look at the UFC cells and a few tensor products with literals; other conventions, nested products, all entities and arbitrary points are not sampled.",
["FIAT/reference_element.py"],
[("topology to sub-entity closure","FIAT/reference_element.py Cell.__init__"),("entity transforms","FIAT/reference_element.py get_entity_transform"),("flattening","FIAT/reference_element.py flatten_entities, compute_unflattening_map"),("normals/tangents/volumes","FIAT/reference_element.py Simplex")],
["cell accessors"])
p("C06","Degrees of freedom are laid out on the mesh entities they belong to",
"In every element each degree of freedom number is attached to exactly one topological entity, entities of the same kind carry equally many unless the family documents otherwise, and the closure table of an entity is exactly the union over its sub-entities. A degree of freedom attached to an entity uses only points located on the closure of that entity, and point-value degrees of freedom on an entity appear in the order of the documented lattice.",
IN,"all families x cells x degrees x variants x entities",
"Tests check a few entity tables; swapped or shifted numberings on one entity of one degree are otherwise silent until an assembled global problem loses conformity.",
["FIAT/dual_set.py","FIAT/finite_element.py","FIAT/lagrange.py","FIAT/tensor_product.py","FIAT/reference_element.py","FIAT/serendipity.py","FIAT/hdiv_trace.py","FIAT/restricted.py","FIAT/mixed.py"],
[("entity id bookkeeping in every dual set","FIAT/*.py entity_ids"),("closure computation","FIAT/dual_set.py make_entity_closure_ids"),("flattening of tensor-product tables","FIAT/tensor_product.py, FIAT/reference_element.py flatten_entities")],
["entity_dofs()","entity_closure_dofs()","dual_basis()"])
p("C07","Shared degrees of freedom give the conformity of the family",
"For every conforming family the part of a function that must be continuous across a facet, edge or vertex (value, normal or tangential component, normal-normal or tangential-tangential component, derivatives at vertices) is determined by the degrees of freedom in that entity's closure alone: all other basis functions have vanishing trace there. Two cells that share an entity therefore see the same trace when the shared degrees of freedom agree, whichever facet of each cell is shared.",
IN,"conforming families x cells x degrees x entities x pairs of local numberings",
"No test assembles two neighbouring cells; tests only confirm single-cell nodality, so a trace leak or a basis that differs between two facets is invisible to them.",
["FIAT/lagrange.py","FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/nedelec_second_kind.py","FIAT/brezzi_douglas_marini.py","FIAT/regge.py","FIAT/hellan_herrmann_johnson.py","FIAT/hermite.py","FIAT/argyris.py","FIAT/serendipity.py","FIAT/kong_mulder_veldhuizen.py","FIAT/hdivcurl.py","FIAT/bernstein.py"],
[("entity-local dual functionals","FIAT/functional.py and all dual sets"),("reference normals and tangents","FIAT/reference_element.py"),("facet-wise numbering","entity tables")],
["tabulate()","entity_closure_dofs()","mapping()"])
p("C08","Tabulating on an entity equals tabulating at the mapped cell points",
"Asking for values on a sub-entity with points in the sub-entity's own reference coordinates gives the same arrays as asking on the cell at the images of those points under the cell's entity map; omitting the entity, or naming the cell itself, means cell coordinates. This holds for every element, every entity dimension and number, and every derivative order.",
IN,"elements x entities x points x derivative orders",
"Tests cover entity tabulation only for trace, tensor-product and a couple of others; families implement the rule separately.",
["FIAT/finite_element.py","FIAT/tensor_product.py","FIAT/bernstein.py","FIAT/serendipity.py","FIAT/enriched.py","FIAT/mixed.py","FIAT/restricted.py","FIAT/quadrature_element.py","FIAT/gauss_lobatto_legendre.py","FIAT/hdivcurl.py"],
[("entity transform before tabulation","FIAT/finite_element.py CiarletElement.tabulate"),("splitting of the entity over factors","FIAT/tensor_product.py")],
["tabulate(order, points, entity)"])
p("C09","Expansion sets and orthogonal polynomials are what they claim",
"The modal expansion functions on lines, triangles and tetrahedra (any vertex coordinates) are mutually orthogonal polynomials, ordered hierarchically by degree so that the first dim P_k of them span P_k, and are orthonormal on the default cells. Their derivative matrices and derivative tabulations reproduce exact derivatives, and Jacobi polynomials, their derivatives, recurrence coefficients, and Gauss/Lobatto nodes satisfy their defining identities for every degree and weight.",
IN,"cells x degrees x points; Jacobi weights a,b and degree n",
"Tests check orthogonality for low orders on the default cells only; the recurrences branch on degree and are used at arbitrary degree, cell and argument type.",
["FIAT/expansions.py","FIAT/jacobi.py","FIAT/orthopoly.py","FIAT/polynomial_set.py"],
[("Dubiner recurrences","FIAT/expansions.py _tabulate"),("index maps","FIAT/expansions.py idx"),("three-term recurrences","FIAT/jacobi.py, FIAT/orthopoly.py")],
["expansion set tabulate()/tabulate_derivatives()","get_expansion_set()","jacobi and orthopoly functions"])
p("C10","Tensor-product elements are the product of their factors",
"The basis of a tensor-product element consists of all products of factor basis functions in lexicographic order, on points whose coordinates are concatenated, with entity tables, degrees, form degree and continuity composed accordingly and derivative arrays the products of factor derivatives. The H(div) and H(curl) versions place those products in the correct vector component with the documented orientation and Piola mapping, and a flattened element on a quadrilateral or hexahedron is the same element with integer-dimensioned entities.",
IN,"pairs and nestings of factor elements x derivative orders x points x entities",
"Tests hand-check about a dozen pairs of degree-one factors at single points; nested products, vector factors, higher derivatives and entity tables over general factors are unchecked.",
["FIAT/tensor_product.py","FIAT/hdivcurl.py","FIAT/reference_element.py"],
[("outer product of tabulations","FIAT/tensor_product.py TensorProductElement.tabulate"),("entity table product","FIAT/tensor_product.py"),("component placement and sign","FIAT/hdivcurl.py")],
["tabulate()","entity_dofs()","mapping()","get_formdegree()"])
p("C11","Composite elements are faithful to their parts",
"Enriched, nodally-enriched, mixed, restricted and discontinuous versions of elements behave as the direct sum, direct product, subset or relabelling of their parts: their basis functions are exactly the parts' basis functions (recombined only where a nodal basis is promised), in the documented order and component slots, for every derivative order and entity. Their entity tables, dual nodes and accessors agree with that ordering, restriction to an entity kind keeps exactly the degrees of freedom of that kind, and accessors forward to the wrapped element without changing meaning.",
IN,"composite constructors x constituent elements x degrees x restriction domains",
"Tests use a few scalar constituents at one degree and inspect dimensions; component slots, order of parts and wrapped accessors for vector or tensor parts are not sampled.",
["FIAT/enriched.py","FIAT/nodal_enriched.py","FIAT/mixed.py","FIAT/restricted.py","FIAT/discontinuous.py","FIAT/bubble.py","FIAT/discontinuous_raviart_thomas.py"],
[("entity table concatenation","FIAT/mixed.py concatenate_entity_dofs"),("index selection","FIAT/restricted.py"),("tabulation merge","FIAT/enriched.py"),("change of basis","FIAT/nodal_enriched.py"),("delegation","FIAT/discontinuous.py")],
["tabulate()","entity_dofs()","dual_basis()","accessors"])
p("C12","Results depend only on the arguments, never on history or batching",
"Every query on an element, cell, rule or dual set returns the same values no matter which queries came before, on this or any other object, in whatever order or repetition, and never changes its arguments or any other object's observable state. Tabulation is pointwise: splitting, permuting or repeating the points, or passing them as tuples, lists, arrays or integers, permutes the answers and changes nothing else.",
["histories","inputs","schedules"],"all call histories (including interleaved objects, cached lookups and concurrent readers) x ways to present the points",
"Each test constructs a fresh object and calls it once; caches, shared default objects, in-place updates and results sharing memory only show up in particular sequences of calls.",
["FIAT/finite_element.py","FIAT/expansions.py","FIAT/polynomial_set.py","FIAT/serendipity.py","FIAT/discontinuous_pc.py","FIAT/barycentric_interpolation.py","FIAT/dual_set.py","FIAT/tensor_product.py","FIAT/hdivcurl.py","FIAT/reference_element.py"],
[("memoised derivatives","FIAT/serendipity.py"),("attribute cache of support dofs","FIAT/finite_element.py entity_support_dofs"),("shared dual/matrix storage","FIAT/dual_set.py, FIAT/discontinuous_pc.py"),("copying of coefficient tables","FIAT/polynomial_set.py take")],
["every public accessor, before and after other calls"],
[dict(name="element caches",meaning="lazily filled derivative and support tables",where="FIAT/serendipity.py, FIAT/finite_element.py")])
p("C13","Support tables list exactly the basis functions living on an entity",
"For every element and every entity dimension, the support table of an entity contains a degree of freedom if and only if that basis function is not identically zero on the entity. The table of an entity therefore contains the tables of its sub-entities, and asking again or asking for another dimension first does not change the answer.",
["inputs","configurations","histories"],"elements x entity dimensions x entities x order of queries",
"Tests check a few scalar Lagrange and DG cases; vector, tensor, enriched and tensor-product elements and high degree (where the test integral gets small) are not.",
["FIAT/finite_element.py"],
[("integral of the square over the entity with a tolerance","FIAT/finite_element.py entity_support_dofs")],
["entity_support_dofs()"])
p("C14","Element construction is equivariant under affine maps of the simplex",
"Building an affinely equivalent element on an affine image of a simplex gives the push-forward of the basis on the original simplex under the mapping rule the element advertises, up to the documented scaling of its degrees of freedom, and always gives the same push-forward of the space. The documented orthogonality, nodality and exactness guarantees do not depend on the position, scale or shape of the simplex.",
IN,"families x degrees x vertex coordinates of nondegenerate simplices",
"Tests use one fixed reference cell per shape (random triangles only for three families); nothing compares two cells.",
["FIAT/reference_element.py","FIAT/expansions.py","FIAT/finite_element.py","FIAT/lagrange.py","FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/regge.py","FIAT/hellan_herrmann_johnson.py"],
[("affine pull-back to the default cell","FIAT/reference_element.py make_affine_mapping, FIAT/expansions.py"),("advertised mapping","mapping()")],
["constructor on two cells","tabulate()","mapping()"])
p("C15","Every degree-of-freedom object computes its documented quantity",
"Applying a degree of freedom to a smooth function through its published points, weights, components and derivative orders yields the quantity its kind names: point value, directional, normal or second derivative, component value, tangential or normal component, face-tangential component, or integral moment against the given weight. Representing it in the expansion basis yields the same number for every function in the space, and direct evaluation on a callable agrees for the kinds that support it.",
IN,"functional kinds x cells x facets x points x test functions (polynomial and smooth)",
"Tests exercise two functional kinds on one cell; the others are only used implicitly, where a consistent scaling or sign error cancels in the nodal basis.",
["FIAT/functional.py","FIAT/dual_set.py"],
[("publication of points, weights and components","FIAT/functional.py"),("Riesz representation with derivatives","FIAT/functional.py to_riesz, FIAT/dual_set.py to_riesz")],
["functional constructors","pt_dict/deriv_dict accessors","to_riesz()","__call__"])
p("C16","Trace elements are supported and tabulated facet by facet",
"A trace element's basis function attached to a facet equals, on that facet, the corresponding discontinuous Lagrange function of that facet and vanishes on every other facet; tabulating by facet entity or by cell points on a facet gives identical values wherever the point determines the facet. Anything that has no meaning for a trace (derivatives, interior points, points on several facets) is reported and never returned as plausible numbers.",
IN,"cells (simplices, tensor products, flattened) x degrees x facets x points on, near and off the facets",
"Tests check a few points for three cells and degrees; boundary tolerances, all facet pairs and tensor-product facets of different kinds are not covered.",
["FIAT/hdiv_trace.py"],
[("facet lookup by barycentric coordinates","FIAT/hdiv_trace.py extract_unique_facet"),("per-facet offsets","FIAT/hdiv_trace.py")],
["tabulate()","get_num_members/entity_dofs"])
p("C17","Unsupported requests are rejected, never answered wrongly",
"Requests outside a family's documented domain (degree below its minimum or above its tables, wrong cell shape, unknown variant, scheme or restriction domain, incompatible constituents, negative quadrature degree, mismatched point and weight counts, unsupported derivative order) raise an error. No such request returns an object or numbers.",
IN,"constructors and queries x out-of-domain arguments",
"Only a few rejections are tested; guards are scattered one per family and removing or off-by-one-ing any of them is silent.",
["FIAT/check_format_variant.py","FIAT/quadrature_schemes.py","FIAT/quadrature.py","FIAT/enriched.py","FIAT/restricted.py","FIAT/hdivcurl.py","FIAT/crouzeix_raviart.py","FIAT/brezzi_douglas_fortin_marini.py","FIAT/kong_mulder_veldhuizen.py","FIAT/arnold_winther.py","FIAT/tensor_product.py","FIAT/bubble.py","FIAT/reference_element.py"],
[("argument guards","constructors of every family"),("variant parsing","FIAT/check_format_variant.py")],
["constructors","tabulate()"])
p("C18","Interpolation reproduces the space and commutes with derivatives",
"Interpolating any function with an element's degrees of freedom and tabulated basis is a projection: it reproduces every member of the element's space, including all polynomials of the degree the family promises, and interpolating twice changes nothing. For integral-moment variants the interpolation commutes with the exterior derivative (gradient, curl, divergence) in exactly the spaces of the corresponding complex.",
IN,"families x degrees x variants x functions to interpolate",
"Tests reproduce a few polynomials for some families; the commuting property depends on the choice of moments and quadrature degree and no test evaluates it.",
["FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/brezzi_douglas_marini.py","FIAT/nedelec_second_kind.py","FIAT/lagrange.py","FIAT/polynomial_set.py"],
[("moment degree of freedom with interpolation degree","FIAT/raviart_thomas.py, FIAT/nedelec.py integral variants"),("L2 projection","FIAT/polynomial_set.py project")],
["dual_basis()","tabulate()"])
p("C19","Collocated elements have diagonal lumped mass matrices of full accuracy",
"For mass-lumping and spectral elements the companion quadrature uses exactly the element's nodes, its weights are positive, the lumped mass matrix is diagonal with the weights on the diagonal, and the rule is exact to the degree needed for the scheme's order. This holds for every supported degree and cell.",
IN,"mass-lumped families x degrees x cells",
"Tests check quadrature degrees and lumping for some degrees; correspondence between node order and quadrature order at each degree is table-driven.",
["FIAT/kong_mulder_veldhuizen.py","FIAT/quadrature_schemes.py","FIAT/gauss_lobatto_legendre.py","FIAT/gauss_legendre.py","FIAT/quadrature_element.py"],
[("node and weight tables","FIAT/quadrature_schemes.py _kmv_lump_scheme"),("dual set built on the rule","FIAT/kong_mulder_veldhuizen.py")],
["create_quadrature(scheme='KMV')","tabulate()"])
p("C20","Published metadata describe what tabulation returns",
"For every element the published space dimension, value shape, entity table sizes, mapping list, polynomial degree, form degree and reference cell agree with the arrays tabulation returns: arrays have shape (dimension, value shape, number of points), the value shape has the rank the mapping requires, and every basis function is a polynomial of at most the published degree (in each factor of a tensor-product, quadrilateral or hexahedral cell), which some basis function of the family attains. Tabulation keys are multi-indices with as many entries as the cell has spatial dimensions.",
IN,"all elements x numbers of points (including one) x derivative orders",
"Tests construct elements and compare a few dimensions; value shapes, degrees and mappings of wrapped or combined elements are largely unchecked, yet quadrature degree estimation in code generators depends on them.",
["FIAT/finite_element.py","FIAT/polynomial_set.py","FIAT/enriched.py","FIAT/mixed.py","FIAT/tensor_product.py","FIAT/hdivcurl.py","FIAT/restricted.py","FIAT/serendipity.py","FIAT/discontinuous_pc.py","FIAT/__init__.py"],
[("accessor overrides per family","FIAT/*.py"),("family registry","FIAT/__init__.py supported_elements")],
["accessors","tabulate()"])
p("C21","Accuracy does not collapse with degree or near nodes",
"One-dimensional spectral elements, Gauss-type rules and the expansion sets stay accurate close to roundoff at high degree: bases remain nodal, sum to one and reproduce polynomials, quadrature keeps its exactness, for degrees far above those in the tests. Evaluation at, next to, and arbitrarily close to nodes or vertices is finite and continuous.",
IN,"degrees up to several dozen x points including nodes, points within rounding of nodes and collapsed-coordinate singularities",
"Tests stop at low degree and generic points; iterations that stop early and removable singularities only show at high degree or special points.",
["FIAT/barycentric_interpolation.py","FIAT/gauss_lobatto_legendre.py","FIAT/gauss_legendre.py","FIAT/gauss_radau.py","FIAT/quadrature.py","FIAT/orthopoly.py","FIAT/expansions.py"],
[("barycentric formula with node snapping","FIAT/barycentric_interpolation.py"),("Newton iterations","FIAT/quadrature.py, FIAT/orthopoly.py"),("singularity-free recurrences","FIAT/expansions.py")],
["tabulate()","quadrature constructors"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
