#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))
I='include/'
prop("C01", "Field arithmetic is exact for every operand",
 "Values of the prime fields (any prime P) behave exactly as integers modulo P and rational values as exact reduced fractions: construction from any integer (negative and large included), comparison with values and integers, +, -, *, /, negation, inverse and compound assignment all agree with integer/fraction arithmetic. Dividing by zero or inverting zero raises an error instead of returning a value.",
 ["inputs","histories"], "all primes used as template arguments, all int operands, all operation sequences",
 "tests/field.cpp evaluates a handful of constants for P=2,3,5; sign and range behaviour of arbitrary integers is not reached",
 [I+"linalg/field.hpp"], [("ModP / ModP<.,2> / Rational operators", I+"linalg/field.hpp")])
prop("C02", "Sparse vectors behave as the dense vectors they represent",
 "After any sequence of sparse-vector operations (axpy in all forms, scaling, sum, difference, dot and Kronecker product, permutation, subvector and block read/write, swapping and mixing entries, inserting and erasing rows, intersections with index sets) the entries equal those of a dense vector put through the same operations. Stored indices stay strictly increasing and no operation that can cancel an entry leaves an explicit zero behind.",
 ["inputs","histories"], "all vectors over F2/F3/F5/Q and all operation sequences with valid arguments",
 "tests/sparse_vector.cpp covers a few fixed vectors; merge loops have many relative-position cases only generated vectors reach",
 [I+"linalg/sparse_vector.hpp"], [("merge loops (axpy, coeff_intersection, ...)", I+"linalg/sparse_vector.hpp")])
prop("C03", "Sparse matrix algebra agrees with dense matrix algebra",
 "Products (matrix-matrix, matrix-vector, vector-transpose-matrix), sums, differences, transposes, anti-transposes (J conjugation), direct sums, Kronecker products, identities, row/column scalings and linear column/row mixes of column-sparse matrices equal the same computation on dense matrices over the same field. Shape and structure predicates (upper/lower triangular, echelon, pivot, reduced, zero) answer what their dense definition says.",
 ["inputs"], "all shapes (empty and degenerate ones included), all entries over F2/F3/F5/Q",
 "tests/col_matrix.cpp uses a few fixed matrices per method; sparsity patterns, empty columns and non-square shapes are not explored",
 [I+"linalg/col_matrix.hpp", I+"linalg/sparse_vector.hpp"], [("ColumnMatrix operators", I+"linalg/col_matrix.hpp")])
prop("C04", "Structural matrix edits move exactly the rows and columns they name",
 "Any history of permuting, swapping, appending, inserting, erasing, clearing, block-reading and block-writing of rows and columns leaves a sparse matrix equal to a dense matrix edited the same way. Rows and columns that an edit does not name keep their entries, and dimensions change by exactly the number of rows or columns added or removed.",
 ["inputs","histories"], "all edit histories with valid index lists",
 "unit tests apply each edit once to one matrix; off-by-one and index-shift errors only show for particular index lists and histories",
 [I+"linalg/col_matrix.hpp", I+"linalg/sparse_vector.hpp"], [("permute_*/insert_*/erase_*/set_block", I+"linalg/col_matrix.hpp")])
prop("C05", "Triangular solves and inverses are exact",
 "For every invertible upper- or lower-triangular sparse matrix and every right-hand side (vector or matrix), the triangular solves return X with A*X equal to the right-hand side, the triangular inverses multiply with A on either side to the identity, and the general inverse of an invertible matrix does the same. The inputs other than the one solved in place are unchanged.",
 ["inputs"], "all invertible matrices and right-hand sides over F2/F3/F5/Q",
 "tests solve a few fixed systems; the outcome depends on sparsity pattern and fill-in",
 [I+"linalg/col_matrix.hpp", I+"linalg/sparse_fact.hpp"], [("u_solve, l_solve, u_inv, l_inv, inv", I+"linalg/col_matrix.hpp")])
prop("C06", "Matrix factorizations multiply back and have the promised shapes",
 "For every matrix over a field, each factorization (LEUP, PLEU, UELP, PUEL, LQU, UQL) returns factors whose product in the named order is the input, with L unit-free invertible lower triangular, U invertible upper triangular, P a permutation and E a pivot matrix of the stated echelon type whose number of pivots is the rank. The commutation routines return a triangular matrix satisfying the stated exchange identity with the echelon matrix.",
 ["inputs"], "all matrices of every shape and rank over F2/F3/F5/Q",
 "tests factor a few random matrices of one shape; rank-deficient, wide, tall, zero and empty shapes decide the pivoting branches",
 [I+"linalg/sparse_fact.hpp"], [("LEUP/PLEU/UELP/PUEL/LQU/UQL", I+"linalg/sparse_fact.hpp"), ("EL_L_commute and friends", I+"linalg/sparse_fact.hpp")])
prop("C07", "Smith normal form and polynomial arithmetic are exact",
 "For every integer or univariate-polynomial matrix, the Smith factorization returns R, S, C with R*S*C equal to the input, R and C invertible over the ring, and S diagonal with each diagonal entry dividing the next; in-place normal form gives the same invariants. Extended Euclid returns Bezout coefficients of a greatest common divisor, and polynomial +, -, *, division with remainder, gcd, evaluation and companion/characteristic matrices satisfy their defining identities.",
 ["inputs"], "all small integer matrices, all polynomials over F2/F3/F5/Q",
 "only two demo programs touch this code; no test asserts a result",
 [I+"linalg/pid.hpp", I+"linalg/polynomial.hpp"], [("smith_factorization", I+"linalg/pid.hpp"), ("UnivariatePolynomial::divrem", I+"linalg/polynomial.hpp")])
prop("C08", "Compressed (CSC) matrices agree with dense matrices",
 "Construction, entry access, submatrix and block selection, sums with coefficients and products of compressed-column matrices equal the dense computation for every shape and sparsity pattern, empty columns included. Conversion to column-sparse matrices over a field keeps every entry.",
 ["inputs"], "all shapes and sparsity patterns",
 "no test builds a CSC matrix directly; only whole boundary matrices pass through",
 [I+"linalg/csc_matrix.hpp", I+"util/sorted.hpp"], [("CSCMatrix, sort_sum_reduce", I+"linalg/csc_matrix.hpp")])
prop("C09", "A simplicial complex is exactly the face-closed set of what was added",
 "After any history of adding simplices (checked adds, recursive adds, duplicates, vertices in any order) both simplicial-complex types contain exactly the simplices a set model contains, with each simplex listed once, all its faces present, stable indices, and index lookup inverse to simplex lookup. In the checked type an add whose faces are missing is refused without changing the complex, and vertex order in the argument never matters.",
 ["inputs","histories"], "all add histories on up to a bounded vertex set, both representations",
 "tests add one or two fixed complexes in order",
 [I+"complex/simplicial_complex.hpp", I+"complex/light_simplicial_complex.hpp", I+"util/trie.hpp"], [("add/add_recursive/find_idx", I+"complex/simplicial_complex.hpp"), ("SparseTrie", I+"util/trie.hpp")])
prop("C10", "A cubical complex is exactly the face-closed set of what was added",
 "After any history of adding elementary cubes (checked, recursive, generated, bulk) a cubical complex contains exactly the cubes of a set model, each once with all faces and stable indices, and lookups and skeleta agree with the model. Adds with missing faces are refused without changing the complex and malformed cubes raise an error.",
 ["inputs","histories"], "all add histories of elementary cubes in ambient dimension 1 to 4",
 "only demos touch cubical complexes",
 [I+"complex/cubical_complex.hpp"], [("add/add_recursive/skeleton", I+"complex/cubical_complex.hpp")])
prop("C11", "Unions, intersections, products and copies of complexes are set operations",
 "Union and intersection of simplicial complexes contain exactly the union and intersection of their simplices, the index list of a subcomplex locates each of its simplices in the larger complex, and the triangulated product contains exactly the chains of the product order inside products of two simplices whose dimensions add up to at most the requested bound. Copies, moves and assignments (also from empty or into non-empty complexes) yield independent complexes: changing one never changes or invalidates another.",
 ["inputs","histories"], "all pairs of complexes; all copy/move/assign histories",
 "no test combines complexes or copies then mutates them",
 [I+"complex/simplicial_complex.hpp", I+"util/trie.hpp"], [("simplicial_union/intersection/TriangulatedProduct", I+"complex/simplicial_complex.hpp"), ("SparseTrie copy/move", I+"util/trie.hpp")])
prop("C12", "Boundary operators are correct and square to zero",
 "For every complex type (simplicial, light simplicial, cubical, cell) and every coefficient field the boundary matrix in each dimension has exactly the faces of each cell with alternating signs (up to a global sign per dimension) and consecutive boundaries compose to zero. The same zero-composition holds for relative, tensor-product, permuted, sub- and filtered chain complexes and for differential graded spaces of degree -1 and +1, and the validity tests of complexes and differentials accept exactly the sequences of matrices whose consecutive products vanish.",
 ["inputs"], "all complexes, all fields, all degrees",
 "tests check one small complex over F2 or F3; sign errors are invisible mod 2",
 [I+"complex/simplicial_complex.hpp", I+"complex/light_simplicial_complex.hpp", I+"complex/cubical_complex.hpp", I+"complex/cell_complex.hpp", I+"chain/chain_complex.hpp", I+"dgvs/dgvs.hpp"], [("boundary_csc", I+"complex/simplicial_complex.hpp"), ("ChainComplex / relative / tensor_product", I+"chain/chain_complex.hpp")])
prop("C13", "Cellular maps give chain maps and composition is respected",
 "A simplicial, cubical or cellular map determines matrices that commute with the boundary operators over every field, sending each cell to the oriented image cell or to zero when the image is degenerate. Inclusions send each cell to itself, identities give identity matrices, and the chain map of a composite equals the product of the chain maps; a vertex map whose image leaves the target raises an error.",
 ["inputs"], "all simplicial maps between all small complexes (collapses, permutations, inclusions), cubical inclusions",
 "one test maps a circle to itself; orientation signs need permuting maps over fields other than F2",
 [I+"complex/simplicial_map.hpp", I+"complex/cubical_map.hpp", I+"complex/cell_map.hpp", I+"chain/chain_map.hpp"], [("SimplicialMap sign computation", I+"complex/simplicial_map.hpp"), ("ChainMap", I+"chain/chain_map.hpp")])
prop("C14", "Betti numbers equal the rank formula under every option",
 "For every finite complex and field, the homology dimension reported in each degree equals cells minus rank of both adjacent boundary maps, computed independently. The answer is the same for every reduction algorithm, clearing/compression choice, basis or no basis, cell order and complex representation, and the Euler characteristic and homology of cones, spheres and disjoint unions come out as theory says.",
 ["inputs","configurations"], "all complexes (simplicial, cubical, cell, relative) x fields x all algorithm/option combinations",
 "tests check four-vertex complexes with fixed options; option-specific bugs depend on column patterns",
 [I+"homology/basis.hpp", I+"homology/reduction.hpp", I+"homology/parallel.hpp", I+"chain/chain_complex.hpp"], [("reduce_matrix (standard/extra/divide-and-conquer)", I+"homology/reduction.hpp"), ("clearing/compression", I+"homology/reduction.hpp")])
prop("C15", "Reduced complexes certify themselves: bases, cycles and representatives",
 "A reduced chain complex with a basis satisfies R = D*U in each degree with R reduced and U invertible (upper triangular for filtrations), its homology representatives are cycles that are independent modulo boundaries, and mapping to and from the homology basis is consistent. The preferred representative of any cycle is homologous to it, depends only on its class, and stays valid after basis changes that sparsify or remove extra cycles. Sparsifying a basis never adds non-zeros, and removing extra cycles leaves in no basis column another cycle.",
 ["inputs","configurations","histories"], "all complexes x fields x options that compute a basis, all cycles",
 "tests check Betti numbers, rarely the basis; only generated cycles exercise the projections",
 [I+"homology/basis.hpp", I+"homology/reduction.hpp"], [("ReducedChainComplex", I+"homology/basis.hpp"), ("sparsify_basis, remove_extra_cycles", I+"homology/reduction.hpp")])
prop("C16", "Relative, product and Mayer-Vietoris homology obey their theorems",
 "Homology of a pair (X, A) equals the rank-formula homology of the quotient chain complex and fits the long exact sequence's Euler characteristic identity, for every subcomplex A. Homology of a tensor product of chain complexes and of a triangulated product satisfies the Kunneth formula, and relative chain maps commute with the relative boundary.",
 ["inputs"], "all pairs (X,A), all pairs of complexes for products, all fields",
 "a demo prints a relative Betti number; nothing asserts it",
 [I+"chain/chain_complex.hpp", I+"chain/chain_map.hpp", I+"complex/simplicial_complex.hpp"], [("relative ChainComplex constructor", I+"chain/chain_complex.hpp"), ("tensor_product", I+"chain/chain_complex.hpp")])
prop("C17", "Induced maps on homology are functorial and have the right rank",
 "The map induced on homology by a chain map sends the class of every cycle to the class of its image, so its rank equals the independently computed rank of the map on homology, and identities induce identities and composites induce products. This holds for every field, every reduction option that keeps a basis, and between complexes reduced with different options.",
 ["inputs","configurations"], "all chain maps from simplicial maps, all degrees, all basis-keeping options",
 "tests check degree 0/1 of a circle map",
 [I+"homology/induced_map.hpp", I+"homology/basis.hpp"], [("induced_map", I+"homology/induced_map.hpp")])
prop("C18", "Differential graded spaces and cohomology agree with homology",
 "Over a field, the differential graded vector space of a complex in degree -1 and degree +1 and its cochain complex report the same dimension in each degree as homology, and augmentation removes exactly one class in degree zero. Persistence pairs computed in degree +1 equal those computed in degree -1, induced maps on DG homology have the rank of the induced homology map, and diagrams of DG spaces give the same barcodes in both degrees.",
 ["inputs","configurations"], "all complexes, filtrations, simplicial maps; degrees -1/+1; augmented or not; all options",
 "tests never compare the two degrees on a generated input",
 [I+"dgvs/dgvs.hpp", I+"dgvs/filtered_dgvs.hpp", I+"homology/dgbasis.hpp", I+"homology/cohom_basis.hpp", I+"persistence/filtered_dgbasis.hpp"], [("ReducedDGVectorSpace", I+"homology/dgbasis.hpp"), ("ReducedCochainComplex", I+"homology/cohom_basis.hpp")])
prop("C19", "Persistence barcodes equal an independent computation under every option",
 "For every filtration (any insertion order, repeated values) of every complex type and every field, the barcode reported in each dimension equals the one determined by the ranks of inclusion-induced maps between sublevel sets, computed independently. All reduction algorithms and clearing/compression/basis options give the same barcode, births and deaths carry the filtration values of the creating and destroying cells, and pairing covers each cell exactly once.",
 ["inputs","configurations"], "all filtrations x fields x complex types x options",
 "tests check a few fixed filtrations with default options",
 [I+"homology/reduction.hpp", I+"persistence/filtered_basis.hpp", I+"chain/filtered_chain_complex.hpp"], [("ReducedFilteredChainComplex::persistence_pairs", I+"persistence/filtered_basis.hpp"), ("reduction with clearing/compression", I+"homology/reduction.hpp")])
prop("C20", "Persistent representatives are born and die with their pair",
 "The representative returned for a persistence pair is a cycle supported on cells present at the birth value, contains the birth cell, is not a boundary before the death value, and at the death value is homologous (in the sublevel set) to a combination of representatives of older pairs that live longer; for infinite pairs it is never a boundary. Representatives of pairs alive at a value form a basis of the homology of that sublevel set.",
 ["inputs","configurations"], "all filtrations and fields, all pairs of the barcode",
 "no test inspects a representative",
 [I+"persistence/filtered_basis.hpp", I+"homology/basis.hpp"], [("representative", I+"persistence/filtered_basis.hpp")])
prop("C21", "Updating filtration values equals recomputing from scratch",
 "After any sequence of filtration-value updates to a reduced filtered complex (valid filtrations on the same cells, in homology or in differential graded form of either degree), the barcode equals that of a fresh reduction with the new values and the updated decomposition is still a valid one. Updates chain: any history of updates ends in the state of the last values alone. Reordering the cells of a reduced chain complex in any way keeps a valid triangular decomposition of the reordered boundaries.",
 ["histories","inputs"], "all pairs and sequences of valid value assignments on one complex",
 "update tests use fixed or lucky random values and one step",
 [I+"persistence/filtered_basis.hpp", I+"homology/basis.hpp", I+"chain/filtered_chain_complex.hpp", I+"dgvs/filtered_dgvs.hpp", I+"persistence/filtered_dgbasis.hpp"], [("update_filtration / permute_basis", I+"homology/basis.hpp")])
prop("C22", "General updates (cells added and removed) equal recomputing",
 "Updating a reduced filtered complex from one filtration to another on different cells (insertions, deletions, reorderings in any combination, with optimisations on or off, homology or cohomology form) gives the barcode of a fresh reduction of the target filtration. Applying updates one after another along a sequence of filtrations keeps that agreement at every step.",
 ["histories","inputs","configurations"], "all pairs and sequences of filtrations with the same top dimension",
 "update tests run a few sampled Rips pairs and print rather than assert",
 [I+"filtration/update_information.hpp", I+"persistence/filtered_basis.hpp", I+"homology/basis.hpp", I+"homology/dgbasis.hpp", I+"linalg/col_matrix.hpp"], [("UpdateInfo2 / Update_info", I+"filtration/update_information.hpp"), ("update_basis_general", I+"homology/basis.hpp")])
prop("C23", "Union-find H0 equals the degree-zero barcode from reduction",
 "For every filtration, unsorted input order and ties included, the union-find computation returns the same degree-zero barcode as matrix reduction, pairing each merging edge with the younger component. The Rips-specific union-find on packed pairwise distances gives the degree-zero barcode of the Rips filtration.",
 ["inputs"], "all filtered graphs and complexes",
 "a demo compares sizes only",
 [I+"persistence/union_find.hpp"], [("union_find_pairs, rips_union_find_pairs", I+"persistence/union_find.hpp")])
prop("C24", "Filtrations, sublevel sets and lower-star extensions are consistent",
 "After any history of filtered adds a filtration reports each cell's value, its sort order is a stable order by value with faces before cofaces whenever values are monotone, and the sublevel set at any value contains exactly the cells at or below it. Lower-star extension of a vertex or grid function gives each cell the maximum over its vertices, for simplicial complexes (naming a vertex that attains it) and for 2- and 3-dimensional cubical grids, and replacing values keeps the complex intact.",
 ["inputs","histories"], "all add histories, all vertex functions including negative values and ties",
 "tests/filtration.cpp checks one or two fixed filtrations",
 [I+"filtration/filtration.hpp", I+"filtration/extension.hpp"], [("Filtration::add/sublevelset/sortperm", I+"filtration/filtration.hpp"), ("extend_filtration, lower_star_filtration", I+"filtration/extension.hpp")])
prop("C25", "Rips and flag constructions are exactly the clique complexes",
 "The Rips complex at radius r contains exactly the cliques (up to the dimension bound) of the graph of pairs at distance at most r, and the Rips filtration gives every such simplex the largest pairwise distance, whether built from points with any metric or from a distance matrix, on either complex representation. Flag complexes and filtrations built from an edge list, their value-extension variants and the enclosing radius satisfy the same clique description. Rips filtrations restricted to a cover use exactly the edges inside a cover set (the strict version only cliques inside one set).",
 ["inputs"], "all point sets and distance matrices, metrics, radii, dimension bounds, duplicate points and ties",
 "demos build one random instance and look at exit status only",
 [I+"topology/rips.hpp", I+"filtration/flag.hpp", I+"topology/metric.hpp", I+"topology/neighborhood.hpp"], [("FlagFiltration/FlagComplex", I+"filtration/flag.hpp"), ("rips_filtration_edges", I+"topology/rips.hpp")])
prop("C26", "Dowker, witness and nerve complexes match their definitions",
 "The nerve of a cover has one vertex per cover element and otherwise contains exactly the sets of elements with a common point, up to the dimension bound. Dowker and witness filtrations (with or without a cover) are the flag filtrations of edges valued by their best common witness; the lazy witness complex is the Rips complex of those values for distances reduced by the nu-th nearest landmark, the strict one is the nerve of the reduced neighbourhoods, and the weak witness complex has exactly the simplices all of whose faces are some witness's nearest landmarks. Values and membership agree with brute force for every input.",
 ["inputs"], "all covers, all landmark-to-witness distance matrices",
 "demos only",
 [I+"topology/nerve.hpp", I+"topology/dowker.hpp", I+"topology/neighborhood.hpp"], [("Nerve", I+"topology/nerve.hpp"), ("DowkerFiltration, WitnessComplex", I+"topology/dowker.hpp")])
prop("C27", "Quiver barcodes equal the rank invariant of the diagram",
 "For every zigzag (type A) diagram of vector spaces with maps in any directions, the barcode is the unique one whose interval counts equal the ranks of the generalised composition over every sub-interval, computed independently by dense linear algebra. Rightward, leftward and divide-and-conquer sweeps give the same barcode at any number of threads, and changing bases at the nodes never changes it.",
 ["inputs","configurations","schedules"], "all type A diagrams (dimensions, directions, ranks) over F2/F3/F5/Q, all algorithms and thread counts",
 "tests compare a few random identity-like diagrams",
 [I+"quiver/sparse.hpp", I+"linalg/sparse_fact.hpp"], [("barcode_sparse rightward/leftward/divide_conquer", I+"quiver/sparse.hpp")])
prop("C28", "Zigzag filtration barcodes equal those of the diagram of level complexes",
 "For every zigzag filtration (cells entering and leaving at arbitrary times, also repeatedly) the barcode equals the one obtained from the homology of the sequence of complexes present at each time with their inclusions, computed independently, and each bar names the cell of the complex whose entry or removal is its birth and its death. Options (optimisation on or off, reduction algorithm) do not change it, cells added recursively bring their faces along, cells whose faces are absent are refused, extending vertex values to a complex gives every cell the interval in which all its vertices are present, and the level set over a closed range contains exactly the cells one of whose intervals meets the range. (A cell re-entering at the very time it leaves, and bars of length zero, are not covered.)",
 ["histories","inputs","configurations"], "all zigzag filtrations of simplicial and cubical complexes, ties and repeated entries included",
 "no unit test covers zigzag filtrations; demos print",
 [I+"zigzag/zigzag_filtration.hpp", I+"zigzag/extension.hpp", I+"zigzag/reduction.hpp"], [("zigzag::barcode", I+"zigzag/reduction.hpp"), ("ZigzagChainComplex", I+"zigzag/reduction.hpp")])
prop("C29", "Diagram functors commute: covers, complexes, chains and homology",
 "Applying the nerve, Rips, chain and homology functors to a diagram gives, at each node, the object the functor gives for that node's data alone and, on each edge, the induced map, so edge maps commute with boundaries and compose functorially. Interleaved union and intersection diagrams of a sequence of sets have the stated nodes, edge directions and inclusion maps, and their homology barcodes equal those computed from the sets independently.",
 ["inputs"], "all sequences of covers or subsets and radii, all fields",
 "only demos drive the functors",
 [I+"multigraph/functors.hpp", I+"multigraph/diagram.hpp", I+"topology/inclusion.hpp", I+"topology/rips.hpp"], [("Nerve/Rips/Chain/Hom functors", I+"multigraph/functors.hpp"), ("linear_subset_union_diagram and friends", I+"topology/inclusion.hpp")])
prop("C30", "Grid, level-set and image constructions produce the right complexes",
 "Freudenthal and cubical grid constructions contain exactly the simplices or cubes of the grid (or of the chosen sub-grid) and triangulate it, so their homology is that of the underlying space. Image-based toplex and level-set zigzags give each cell the interval of times at which it belongs to the level set of the extension, for every image, negative values included.",
 ["inputs"], "all grid sizes and images",
 "demos only",
 [I+"topology/grid.hpp", I+"topology/levelset.hpp", I+"zigzag/extension.hpp"], [("Freudenthal, Cube", I+"topology/grid.hpp"), ("zigzag_toplex", I+"topology/levelset.hpp")])
prop("C31", "Metrics, landmarks and covers satisfy their defining conditions",
 "Distances equal their formulas and are symmetric and zero on the diagonal; greedy landmarking returns distinct points that are each farthest from those before, with the reported covering radius equal to the true one. Every cover construction (uniform interval, landmark, landmark-epsilon, bivariate product) covers every point and assigns points exactly as its definition says.",
 ["inputs"], "all finite point sets and parameters in range",
 "demos only; nothing asserts a value",
 [I+"topology/metric.hpp", I+"topology/landmark.hpp", I+"topology/cover.hpp", I+"topology/data.hpp"], [("greedy_landmarks, hausdorff_landmarks", I+"topology/landmark.hpp"), ("landmark_cover", I+"topology/cover.hpp")])
prop("C32", "Permutation, sorting and set utilities are correct for every input",
 "Sort permutations sort (stably where promised), applying a permutation and then its inverse restores the data, sign and Kendall-tau distance equal their inversion-count definitions, and partial/extension permutations relocate exactly the named positions. Sorted-set union, intersection (bounded variants too), complement, top-k/first-k selection and simplex sign agree with brute force.",
 ["inputs"], "all permutations, vectors with ties, sorted lists",
 "tests/util.cpp and Kendall_tau.cpp use fixed vectors",
 [I+"util/permutation.hpp", I+"util/sorted.hpp", I+"util/set.hpp", I+"util/simplex.hpp"], [("apply_perm*, Kendall_tau", I+"util/permutation.hpp"), ("intersect_sorted*", I+"util/sorted.hpp")])
prop("C33", "Writing and reading back restores the same object",
 "Sparse vectors, column matrices, simplicial complexes and cellular maps written to a stream, string or file and read back with the library's own reader are equal to the original, for every field and shape (empty ones included); files listing cubes or point coordinates load as exactly those cubes, or one data row per line, and command-line parameters are read as written. Saving a diagram writes every node and edge so that reading the files back gives the same objects.",
 ["inputs"], "all objects of each serialisable type",
 "one test writes one matrix",
 [I+"linalg/col_matrix.hpp", I+"linalg/sparse_vector.hpp", I+"complex/simplicial_complex.hpp", I+"complex/cell_map.hpp", I+"topology/data.hpp", I+"multigraph/diagram.hpp"], [("read/write/save and file constructors", I+"linalg/col_matrix.hpp")])
prop("C34", "Results do not depend on the number of threads or on repetition",
 "Every parallel routine (parallel reduction, divide-and-conquer quiver barcode, parallel diagram functors, neighbourhood and distance computations) returns the same result at any number of threads and on every repetition, equal to the single-threaded one. No run reads or writes out of bounds.",
 ["schedules","inputs","configurations"], "thread counts 1 to 8, repetitions, all inputs large enough to reach the parallel branches",
 "tests run each routine once at the default thread count on inputs below the parallel block sizes",
 [I+"homology/parallel.hpp", I+"quiver/sparse.hpp", I+"multigraph/functors.hpp", I+"topology/neighborhood.hpp"], [("partial_reduce_parallel", I+"homology/parallel.hpp"), ("omp parallel loops", I+"multigraph/functors.hpp")])
prop("C35", "Discrete Morozov, oscillating Rips and union zigzags are built as specified",
 "The zigzag-zoo constructions produce, for every point set and parameters, the stated alternating sequence of subsets, parameters and complexes with edges in the stated directions, every edge being a true inclusion of the smaller complex into the larger. Feeding them to the chain and homology functors gives the barcode of the independently built sequence of complexes.",
 ["inputs"], "all point sets and parameters",
 "demos only",
 [I+"topology/zigzag_zoo.hpp", I+"topology/rips.hpp"], [("DiscreteMorozovZigzag, OscillatingRipsZigzag", I+"topology/zigzag_zoo.hpp")])
prop("C36", "Morse pairings and apparent-pair compression never change homology",
 "A Morse pairing accepts a pair only when neither cell is already paired, so after any history (clearing included) each cell is in at most one pair, the pairing is symmetric and the unpaired cells are exactly the rest. Cells added to a complex through a pairing are paired only with one of their own unpaired faces; edges pair vertices by the elder rule, so the pairs of vertices and edges are the degree-0 persistence pairs and one vertex per component stays unpaired. Compressing a chain complex by its apparent pairs leaves Betti numbers, persistence pairs and barcodes unchanged under every reduction option.",
 ["inputs","histories"], "all pairing histories, all filtrations",
 "no test covers pairings",
 [I+"morse/pairing.hpp", I+"chain/chain_complex.hpp", I+"homology/reduction.hpp"], [("MorsePairing::set_pair", I+"morse/pairing.hpp"), ("clear_compress_apparent_pairs", I+"chain/chain_complex.hpp")])
prop("C37", "Dense matrices multiply, factor and solve exactly in every storage order",
 "For every dense matrix over a field, in row- or column-major storage and seen directly or through transposed or reversed views, reading and writing entries, rows and columns acts on exactly the named entries, and copies are independent. Products (in place too) equal the entrywise definition; the LEUP, PLEU, UELP and PUEL factorizations multiply back to the input with triangular, permutation and echelon factors of the stated types and as many pivots as the rank; triangular solves from either side satisfy their equation; and commuting an echelon matrix past a triangular one keeps the product. No input reads or writes outside its storage.",
 ["inputs"], "all shapes, ranks, storage orders and fields",
 "no test covers the dense factorizations",
 [I+"linalg/naive_dense.hpp"], [("ADenseDQ factorizations, solves, matmul, commute", I+"linalg/naive_dense.hpp")])
prop("C38", "The rational canonical form is similar to the operator it is computed from",
 "For every square matrix over a field the Smith normal form of its characteristic matrix yields invariant factors each dividing the next, of total degree the dimension; each annihilates its generator, and the computed basis is a basis in which the operator is the block diagonal of their companion matrices.",
 ["inputs"], "all square matrices over F2/F3/F5/Q, with repeated, trivial and reducible invariant factors",
 "no test covers the rational canonical form",
 [I+"linalg/rcf.hpp", I+"linalg/pid.hpp", I+"linalg/polynomial.hpp"], [("RCF_basis, generators", I+"linalg/rcf.hpp"), ("smith factorization", I+"linalg/pid.hpp")])
prop("C39", "Generated data and random matrices have the stated shape, range and seed",
 "Interval, circle, cylinder, sphere and cube generators return the asked number of points of the asked dimension lying on the named set, products list every pair of points once in order, and seeded generation is reproducible. Noise changes each entry within its range or distribution only. Projecting to the sphere keeps directions; repulsion on projective space acts between nearest representatives, whatever representative is given, and moves no point further than the step. The k-th neighbour distance equals its definition, and random sparse matrices are valid, without stored zeros, with values in range.",
 ["inputs"], "all sizes, dimensions, seeds and parameters in range",
 "demos only; nothing asserts a value",
 [I+"topology/data_gen.hpp", I+"topology/spherical.hpp", I+"topology/density.hpp", I+"linalg/sparse_vector.hpp"], [("sample_sphere, product_space, add_normal_noise", I+"topology/data_gen.hpp"), ("force_repel_rp", I+"topology/spherical.hpp"), ("SparseVector::random", I+"linalg/sparse_vector.hpp")])
prop("C40", "Set-backed sparse vectors behave as the dense vectors they represent",
 "For every history of assignments, replacements through iterators, permutations, copies and additions (whole or restricted to an index range, of set-backed or plain sparse vectors, any coefficient) a set-backed vector holds exactly the entries of the dense vector it represents, in index order and without stored zeros; bounds, lookups, last non-zero and comparison with plain sparse vectors agree with that vector.",
 ["histories","inputs"], "all vectors and operation sequences over F2/F3/F5/Q",
 "one test constructs one vector",
 [I+"linalg/set_vector.hpp"], [("SetVector::axpy, set, replace, permute", I+"linalg/set_vector.hpp")])
for p in P:
    for f in p["anchors"]["files"]+[m["where"] for m in p["anchors"]["mechanism"]]:
        assert os.path.isfile("/repo/"+f), (p["id"], f)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
