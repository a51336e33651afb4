#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
L="src/lib/"; M=L+"matrix/"
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
T="The existing tests evaluate a handful of fixed numeric examples; "
p("C01","Sparse matrix is a faithful map under every edit history",
 "After any sequence of writes, removals, in-place scalings and clears on a sparse matrix, reading any in-range position returns the last value written there and zero where nothing (or zero) was last written, and positions not addressed are unaffected. An entry is reported as present exactly when its last written value is non-zero, and the filled count (total and per row) equals the number of present entries.",
 ["histories","inputs"],"every edit sequence over every position and value, every matrix shape",
 T+"the compressed row storage shifts row pointers on each edit, so errors depend on the edit order and on which rows are empty.",
 [M+"SparseMatrix.h",M+"SparseMatrix.inl",M+"BaseMatrix.inl"],
 [("row pointer maintenance on insert/remove",M+"SparseMatrix.inl: set_at, remove_at, internal_at"),("row counts",M+"SparseMatrix.inl: row_filled_count, row_entry_count")],
 ["at, set, has, erase, clear, filledCount, row_filled_count, isEmpty"],
 [("mRowPtr/mColumnPtr/mValues","compressed sparse row storage",M+"SparseMatrix.h")])
p("C02","Sparse iteration visits each stored entry once, in order",
 "Iterating a sparse matrix over all entries, over one row or over one column visits every present entry of that range exactly once, in increasing row-major (respectively column, row) order, with the right row, column and value, and nothing else, also when rows or columns are empty. Writing a non-zero value through an iterator changes exactly that entry, and erasing at an iterator removes exactly that entry and yields an iterator to the following one.",
 ["histories","inputs"],"every fill pattern, every row and column, every erased position",
 T+"iteration is only tested on one or two fill patterns, while the skipping of empty rows and columns depends on the pattern.",
 [M+"SparseMatrix.h",M+"SparseMatrix.inl"],
 [("iterator increment over row pointers",M+"SparseMatrix.h: SparseMatrixIterator, RowIterator, ColumnIterator"),("begin/row_begin/column_begin/erase",M+"SparseMatrix.inl")],
 ["begin/end, row_begin/row_end, column_begin/column_end, erase(iterator)"])
p("C03","Sparse arithmetic agrees with dense arithmetic",
 "Addition, subtraction, entrywise product and negation of sparse matrices, scaling by a scalar, and products with matrices and with vectors from either side give, at every position, the value the same operation gives on dense matrices with the same entries. Operands other than the assigned one are unchanged, the result's presence and filled count stay consistent with its values (cancelled entries are gone), and using the same object on both sides is allowed.",
 ["inputs","programs"],"all pairs of fill patterns and entry values in range, aliased or not",
 T+"fill pattern combinations, cancellation and aliasing are not covered by the few examples.",
 [M+"SparseMatrix.inl",M+"SparseMatrix.h"],
 [("operators and mul/mul_left",M+"SparseMatrix.inl")],["operator+ - * / and compound forms, mul, mul_left, =="])
p("C04","Containers have value semantics",
 "Copying, assigning, moving, swapping, resizing and clearing vectors and matrices (dense, fixed and sparse) leaves each involved object with exactly the dimensions and contents its role implies: copies equal the source and are independent of it, swap exchanges everything including dimensions, and the surviving part of a resized container keeps its contents. No such operation, self-assignment included, reads or writes outside live storage.",
 ["histories","inputs"],"every shape (also non-square and different shapes on both sides), every content",
 T+"swap and copy are tested on one square pair only.",
 [L+"CountableSet.h",L+"CountableSet.inl",L+"Vector.h",L+"Vector.inl",M+"DenseMatrix.inl",M+"FixedMatrix.inl",M+"SparseMatrix.inl"],
 [("copy/move/swap members",M+"SparseMatrix.inl, DenseMatrix.inl, FixedMatrix.inl; CountableSet.inl")],["copy, =, std::move, swap, resize, clear, =="])
p("C05","Dense and fixed matrices implement matrix algebra",
 "For dense and fixed-size matrices of any compatible shapes, addition, subtraction, negation, scaling, division, entrywise compound product, matrix product and matrix-vector products from both sides equal their entrywise textbook definitions. Operands are not modified, and element access, linear access and row, column and full iteration address the same entries.",
 ["inputs","programs"],"all entry values, all shapes in range including non-square",
 T+"they use square integer examples where row/column confusions and shape errors can cancel.",
 [M+"BaseMatrix.h",M+"BaseMatrix.inl",M+"DenseMatrix.h",M+"DenseMatrix.inl",M+"FixedMatrix.h",M+"FixedMatrix.inl"],
 [("operators, mul, mul_left, iterators",M+"BaseMatrix.inl; DenseMatrix.inl; FixedMatrix.inl")],["operators, mul, mul_left, at, linear_at, iterators"])
p("C06","Transpose, conjugate, adjugate and trace follow their definitions",
 "For every matrix representation the transpose exchanges rows and columns, the conjugate negates imaginary parts entrywise and the adjoint is the conjugate of the transpose, with correspondingly exchanged dimensions and presence information. Applying any of them twice gives back the original, and the trace is the sum of the diagonal.",
 ["inputs"],"all real and complex entries, all shapes and fill patterns in range",
 T+"one fixed matrix each; complex and non-square operands are barely touched.",
 [M+"BaseMatrix.inl",M+"DenseMatrix.inl",M+"FixedMatrix.inl",M+"SparseMatrix.inl",M+"MatrixOperations.inl"],
 [("transpose/conjugate/adjugate/trace",M+"*.inl")],["transpose, conjugate, adjugate, trace"])
p("C07","Vectors implement vector algebra",
 "For dynamic and fixed-size vectors every elementwise operator, scalar operator, dot product (the sum of products), squared magnitude (the dot product with itself), magnitude of real vectors and normalisation equals its definition on real and complex elements, and compound forms agree with the plain ones and modify only their left operand, and leading, trailing and middle parts hold exactly the elements of the named range. Equality holds exactly when sizes and all elements are equal.",
 ["inputs"],"all element values and lengths in range, aliased operands included",
 T+"a few literal vectors only.",
 [L+"Vector.h",L+"Vector.inl",L+"CountableSet.inl"],
 [("operators and norms",L+"Vector.inl")],["operators, dot, mag, magSqr, normalized, =="])
p("C08","Reductions and content queries report the true aggregate",
 "Sum, average, minimum and maximum of a vector or matrix are the true sum, mean, least and greatest of all its elements whatever their signs (entries a sparse matrix does not store count as zero), and the queries for zero, not-a-number and infinite elements answer true exactly when such an element exists. Elementwise reciprocal and fill affect every element.",
 ["inputs"],"all element values including negative, zero, not-a-number and infinite ones, at every position",
 T+"they contain positive maxima and one position of each special value.",
 [L+"CountableSet.inl",M+"BaseMatrix.inl",M+"SparseMatrix.inl"],
 [("reductions",L+"CountableSet.inl; "+M+"BaseMatrix.inl; "+M+"SparseMatrix.inl")],["sum, max, min, avg, hasZero, hasNaN, hasInf, do_reciprocal, fill"])
p("C09","Dimension mismatches are always rejected",
 "Every vector or matrix operation whose operands have incompatible dimensions, and every decomposition, solver or query that requires a square or matching matrix, is refused with an exception of the library's hierarchy before it reads or writes out of range, and the operands are unchanged. Operations on compatible dimensions are never refused for that reason.",
 ["inputs"],"all pairs of shapes in range for every operation",
 T+"a few mismatching pairs; differing shapes with equal element counts are not tried.",
 [L+"Vector.inl",M+"DenseMatrix.inl",M+"SparseMatrix.inl",M+"BaseMatrix.inl",L+"LU.inl",L+"CG.inl",L+"Iterative.inl",L+"Exceptions.h"],
 [("size checks throwing exceptions",L+"Exceptions.h and all operators")],["thrown exception types"])
p("C10","Structural matrix predicates are exact",
 "The predicates for symmetric, hermitian, skew-symmetric, skew-hermitian, orthogonal, unitary and projection matrices answer true exactly for the matrices that satisfy their definition, for every representation. Evaluating a predicate leaves the matrix unchanged.",
 ["inputs"],"all entry values and fill patterns in range; real and complex",
 T+"one positive and one negative example per predicate.",
 [M+"MatrixCheck.h",M+"MatrixCheck.inl",M+"BaseMatrix.h",M+"BaseMatrix.inl"],
 [("predicates",M+"MatrixCheck.inl")],["Check::matrixIsSymmetric, matrixIsHermitian, matrixIsOrthogonal, ..."])
p("C11","Matrix constructors build the matrices they name",
 "The constructors for identity, diagonal, lower and upper triangular part at any diagonal offset, Hilbert and inverse Hilbert matrices produce exactly the entries of their definition for every size, offset and representation. The Hilbert matrix times its inverse constructor's result is the identity, and representation conversion keeps every entry.",
 ["inputs","configurations"],"every size and diagonal offset (also negative and beyond the matrix), every input content",
 T+"sizes 2 to 4 with few offsets; negative offsets mix signed and unsigned arithmetic.",
 [M+"MatrixConstructor.h",M+"MatrixConstructor.inl",M+"MatrixConverter.h",M+"MatrixConverter.inl"],
 [("eye/diag/tril/triu/hilbert/inv_hilbert, conversion",M+"MatrixConstructor.inl; MatrixConverter.inl")],["entries of the result"])
p("C12","Bandwidth reordering always returns a permutation",
 "For every square sparse matrix pattern, the Cuthill-McKee orderings (plain and reverse) contain each index exactly once, the reverse ordering is the plain one read backwards, and the plain one numbers the connected parts of a symmetric pattern one after the other, each from a vertex of least degree breadth first, neighbours of the same predecessor by increasing degree (number of entries in the row). The input matrix is not modified.",
 ["inputs"],"all fill patterns of square sparse matrices in range, including empty rows and disconnected graphs",
 T+"two connected example graphs.",
 [M+"MatrixOrder.h",M+"MatrixOrder.inl"],
 [("cuthill_mckee and r_cuthill_mckee",M+"MatrixOrder.inl")],["returned index vector"])
p("C13","Permutations are applied consistently",
 "The permutation matrix of an ordering has exactly one one per row and column placed as documented, the inverse ordering undoes the ordering, permuting a matrix by an ordering equals conjugating it with the permutation matrix, and permuting a vector uses the same convention so that a linear system and its permuted counterpart have corresponding solutions. Permuting with an ordering and then with its inverse gives back the original.",
 ["inputs"],"all permutations and contents in range",
 T+"one permutation, a self-inverse one.",
 [M+"MatrixOrder.h",M+"MatrixOrder.inl"],
 [("permutation_matrix, inverse_permutation, permutate",M+"MatrixOrder.inl")],["permuted matrices and vectors"])
p("C14","LU decomposition factors every regular matrix, or reports singularity",
 "For every square matrix, dense, fixed or sparse, the pivoting LU decomposition either yields a permutation P with counted row exchanges, a unit lower triangular L and an upper triangular U with P A = L U in exact arithmetic, independent of what the output matrices held before, or reports a singular matrix exactly when a column has no pivot above the absolute tolerance (the number type's epsilon). The input matrix is not modified and the pivot chosen in each step has the largest magnitude in its column.",
 ["inputs"],"all entry values for sizes in range; all fill patterns",
 T+"a few integer matrices; the pivot branches taken depend on the values.",
 [L+"LU.h",L+"LU.inl"],
 [("partial pivoting elimination, dense and sparse",L+"LU.inl: doolittle")],["L, U, P, pivot count, SingularException"])
p("C15","Determinant and inverse are exact",
 "The determinant equals the signed permutation expansion for every square matrix whatever row exchanges the computation makes, and is zero for singular ones. The inverse multiplies with the matrix to the identity from both sides, for every representation that offers it, and singular input (no pivot above the absolute tolerance) is reported instead of answered.",
 ["inputs"],"all entry values for sizes in range",
 T+"fixed examples with two or three pivot patterns; dense inverse is not effectively tested.",
 [M+"MatrixOperations.h",M+"MatrixOperations.inl",L+"LU.inl"],
 [("determinant and inverse through LU",M+"MatrixOperations.inl")],["determinant, inverse"])
p("C16","Triangular and factored solves satisfy the linear system",
 "Solving with a lower and an upper factor returns x with L (U x) = b for every unit lower and regular upper factor, and solving through a pivoted decomposition with the permuted right-hand side solves the original system in exact arithmetic. Right-hand side and factors are unchanged.",
 ["inputs"],"all factor entries, fill patterns and right-hand sides in range",
 T+"one 3x3 example per representation.",
 [L+"LU.h",L+"LU.inl",M+"MatrixOperations.inl"],
 [("forward and backward substitution",L+"LU.inl: solve_lu")],["solution vector"])
p("C17","Cholesky factorisation reproduces the matrix or rejects it",
 "For every hermitian positive definite matrix the Cholesky factor is lower triangular with positive diagonal and its product with its own adjoint is the matrix. Input that is not square or not positive definite, and with checks enabled (NS_ALLOW_CHECKS) also input that is not hermitian, is rejected with the documented exception and never yields a factor.",
 ["inputs"],"all entry values for sizes in range",
 T+"one positive definite example.",
 [L+"LU.h",L+"LU.inl"],
 [("square root recursion with positivity check",L+"LU.inl: cholesky")],["factor, NotPositiveDefinite/NotHermitian exceptions"])
p("C18","Incomplete factorisation is exact on the matrix pattern",
 "The zero fill-in incomplete LU of a sparse matrix with usable pivots has factors confined to the lower (unit diagonal) and upper part of the matrix pattern, and their product agrees with the matrix on every position of that pattern. The inverse built from exact triangular factors is the inverse of their product, and a missing pivot is reported.",
 ["inputs"],"all fill patterns and values in range",
 T+"one 3x3 and one 4x4 example.",
 [L+"LU.h",L+"LU.inl"],
 [("ilu0 on the sparsity pattern; ainv_lu",L+"LU.inl")],["L, U, inverse factors"])
p("C19","Stationary iterations follow their scheme and honour their stop rule",
 "Jacobi and successive over-relaxation compute in each sweep the textbook update from the given start vector with the given weight, so a solution of the system is a fixed point that is returned unchanged, and they stop at the first sweep whose change is within the tolerance or at the iteration limit, reporting the number of sweeps done. A zero on the diagonal is reported, and the matrix, right-hand side and start vector are unchanged.",
 ["inputs","configurations"],"all matrices with non-zero diagonal, right-hand sides, start vectors, weights, tolerances and limits in range",
 T+"one well conditioned system from the zero start vector.",
 [L+"Iterative.h",L+"Iterative.inl"],
 [("sweep loops and stop rule",L+"Iterative.inl: jacobi, sor")],["returned vector, iteration statistic"])
p("C20","Conjugate gradient methods are exact within n steps",
 "For every symmetric positive definite system the conjugate gradient method, plain or preconditioned, reaches the exact solution in at most as many steps as there are unknowns in exact arithmetic, from any start vector including the solution itself. It performs the requested number of steps at most, stops earlier only within the tolerance, and reports how many it made.",
 ["inputs","configurations"],"all symmetric positive definite matrices, right-hand sides and start vectors in range",
 T+"one system with a loose tolerance, which also a non-conjugate descent passes.",
 [L+"CG.h",L+"CG.inl"],
 [("search direction recursion",L+"CG.inl: cg, pcg")],["solution, iteration statistic"])
p("C21","Simplex coordinate maps are mutually inverse and volumes exact",
 "For every non-degenerate simplex the map from local to global coordinates sends the reference corners to the given vertices and the inverse map undoes it, the reported volume is the determinant volume, and the gradients are those of the barycentric coordinate functions. Degenerate simplices have volume and determinant zero, by which they are recognised.",
 ["inputs"],"all vertex coordinates (two-dimensional simplices)",
 T+"one or two axis-aligned triangles.",
 [L+"Simplex.h",L+"Simplex.inl"],
 [("prepare, toLocal, toGlobal, gradient, volume",L+"Simplex.inl")],["volume, toLocal, toGlobal, gradient"])
p("C22","Simplex circumcircle, diameter, faces and normals are geometric facts",
 "The reported centre of a simplex is equidistant from all its vertices with the reported outer radius as distance, and the diameter is the corresponding largest extent. Face centres lie in the middle of the face opposite to the vertex, and face normals have unit length, are orthogonal to the face and point away from the opposite vertex.",
 ["inputs"],"all vertex coordinates (two-dimensional simplices)",
 T+"the unit triangle only, where scaling and offset errors vanish.",
 [L+"Simplex.h",L+"Simplex.inl",L+"Normal.h"],
 [("center, outerRadius, diameter, faceCenter, faceNormal",L+"Simplex.inl; Normal.h")],["centre, radius, diameter, face centre, face normal"])
p("C23","Normals are orthogonal to the spanning vectors",
 "The generalised cross product of one vector in the plane or two vectors in space is orthogonal to each of them, has unit length and completes them to a consistently oriented basis.",
 ["inputs"],"all linearly independent spanning vectors in two and three dimensions",
 T+"axis-aligned vectors only.",
 [L+"Normal.h"],[("determinant expansion",L+"Normal.h")],["normal vector"])
p("C24","Mesh topology is consistent for every element set",
 "After setting up neighbours and boundaries of any two-dimensional triangle mesh, two elements are neighbours across a face exactly when they share that face's vertices, the relation is symmetric, faces know the elements on both sides, so boundary faces are those with a single element, vertices are marked as boundary exactly when they lie on such a face, and faces shared by more than two elements are rejected. Validation accepts exactly the meshes that satisfy the documented consistency conditions and names the violated one.",
 ["inputs","histories"],"all ways to build up to the bounded number of triangles on a bounded number of vertices",
 T+"one two-triangle mesh and generated square grids.",
 [L+"mesh/Mesh.h",L+"mesh/Mesh.inl"],
 [("setupNeighbors, setupBoundaries, validate",L+"mesh/Mesh.inl")],["Neighbors, boundary flags, validate exceptions"])
p("C25","Mesh objects own their parts exactly once",
 "Under any sequence of constructing, filling, copying, moving, assigning, clearing and destroying mesh objects, every vertex, element and edge is released exactly once when the last sharing mesh goes away, and no live mesh ever refers to released parts. Copies share one set of parts, so filling or clearing shows through all of them; clearing empties the mesh completely, assignment (also to itself) leaves both sides usable, and a moved-from mesh may be destroyed, assigned to and copied.",
 ["histories"],"all bounded operation sequences on up to three mesh objects",
 T+"single life cycles without self-assignment, shared clear or leak detection.",
 [L+"mesh/Mesh.h",L+"mesh/Mesh.inl"],
 [("reference counted shared data",L+"mesh/Mesh.inl")],["memory accesses and releases; counts after each step"])
p("C26","Generated box grids tile the whole box",
 "For every extent and every number of subdivisions per axis, the generated two-dimensional grid has the expected number of vertices and triangles, its triangles have positive area that adds up to the box area, and its vertices lie on the regular grid from the origin corner to the far corner. Shared grid points are shared vertices, so interior faces have two elements, and exactly the rim is marked as boundary.",
 ["inputs","configurations"],"all extents and offsets, all subdivision counts in range, non-square included",
 T+"square grids with equal subdivisions only.",
 [L+"mesh/HyperCube.h",L+"mesh/HyperCube.inl",L+"mesh/Mesh.inl"],
 [("grid loops",L+"mesh/HyperCube.inl")],["vertices, elements, boundary flags"])
p("C27","Shape functions form a nodal basis with exact derivatives",
 "For every supported dimension and order, shape function i is one at node i and zero at all other nodes, the functions add up to one at every point, and the reported first and second derivatives are the derivatives of the reported value at every point, with and without node values. Interpolating the nodal values of any polynomial of at most that order reproduces it.",
 ["inputs"],"all evaluation points; all components, dimensions and orders offered",
 T+"values at a few points; coefficient tables are data a sample rarely hits.",
 [L+"sf/PolyShapeFunction.h",L+"sf/PolyShapeFunction.inl"],
 [("coefficient tables and evaluation",L+"sf/PolyShapeFunction.inl")],["value, gradient, gradient2"])
p("C28","Degrees of freedom are numbered without gaps or clashes",
 "Preparing a mesh for a shape function order gives every element as many nodes as the shape function has components, numbers the nodes so that a node shared by several elements has one number everywhere and different nodes have different numbers without gaps, and places implicit nodes on their faces with the right coordinates and boundary flag. Existing vertices keep their numbers.",
 ["inputs","configurations"],"all small meshes, all supported orders",
 T+"only the counts on one mesh are compared.",
 [L+"sf/PolyShapeFunction.inl",L+"mesh/Mesh.h"],
 [("prepareMesh",L+"sf/PolyShapeFunction.inl")],["DOFVertices, DOF count"])
p("C29","Quadrature rules integrate polynomials of their degree exactly",
 "Each offered Gauss-Legendre rule of given order integrates every polynomial up to its degree over the reference simplex or interval exactly up to the accuracy of its tabulated constants, adds the integral to the given start value, and evaluates the integrand exactly once per quadrature point, inside the reference domain. Both evaluation forms agree.",
 ["inputs","configurations"],"all polynomials up to the rule's degree (all coefficients), all start values",
 T+"single monomials.",
 [L+"quadrature/Quadrature.h",L+"quadrature/Quadrature.inl",L+"quadrature/GaussLegendreQuadratureFactory.inl"],
 [("weights and points",L+"quadrature/GaussLegendreQuadratureFactory.inl")],["eval, eval_index"])
p("C30","The triangle mesh loader is total and faithful",
 "For every byte sequence the triangle node/element loader either returns a consistent mesh (every triangle refers to vertices of the mesh) or throws one of its documented exceptions (the node or element loader exception, or the mesh exception for a face shared by more than two triangles), without touching memory out of range, looping for ever or leaving anything allocated. Well-formed files (comments, blank lines, extra columns, any white space, with or without final line end) yield exactly the listed vertices in order with the listed coordinates, and exactly the listed triangles with their corners in order, for zero- and one-based numbering. A missing or unreadable number, an index out of sequence, a wrong dimension or an unknown vertex is rejected with the exception of the file at fault. Loading files equals loading their content.",
 ["inputs"],"all file contents up to the bounded length; all well-formed files within bounds",
 T+"two well-formed files and no malformed one.",
 [L+"loader/MeshTriangleLoader.h",L+"loader/MeshTriangleLoader.inl"],
 [("line parser and index checks",L+"loader/MeshTriangleLoader.inl")],["returned mesh or exception"])
p("C31","The object file loader maps faces to mesh elements faithfully",
 "For every parsed object description (vertex positions and index lists of any length, also empty) the loader returns a mesh whose vertices and triangles are exactly those of the first description, taking the two coordinates selected by its parameters, or throws its documented exception when an index does not denote a vertex or the parser reports failure (and the mesh exception when more than two triangles share a face). It never reads outside the parsed data and leaves nothing allocated. Well-formed object text (absolute or relative indices, texture and normal references, polygons, groups, comments) yields the triangles with the coordinates it lists, triangles sharing the vertices they name.",
 ["inputs"],"all parsed descriptions (vertex counts and index lists) within bounds; well-formed texts within bounds",
 T+"one valid object file.",
 ["src/objloader/loader/MeshObjLoader.h","src/objloader/loader/MeshObjLoader.inl"],
 [("index checks while building elements","src/objloader/loader/MeshObjLoader.inl")],["returned mesh or exception"])
p("C32","Exported VTK files describe exactly the given mesh and data",
 "For 2D meshes (prepared for first or second order shape functions, or not prepared; the quadratic option given exactly for second order) the exported file is a well-formed document that lists every vertex with its coordinates, every element with the indices of its own nodes in the order of the format, running offsets and the right cell type, every given point and cell data array with one value per point or cell, and the requested labels, determinants, matrices and gradients, with counts and component numbers in the headers matching the lists. This holds for meshes of any bounded size and with any (also no) data arrays, and the mesh is unchanged.",
 ["inputs"],"all small meshes and data arrays",
 T+"the output is never parsed back.",
 [L+"export/VTKExporter.h",L+"export/VTKExporter.inl"],
 [("XML writing loops",L+"export/VTKExporter.inl")],["sequence of written tokens"])
p("C33","Combinatorial helpers equal their definitions",
 "Factorial, binomial coefficient and alternating sign equal their mathematical values whenever the result fits the type, for signed, unsigned and floating argument types, and minimum and maximum helpers return the true extreme of two values. Choosing more elements than available gives zero ways and never runs away.",
 ["inputs"],"all arguments whose result fits the type",
 T+"a few table values.",
 [L+"Utils.h"],[("integer recurrences",L+"Utils.h")],["return values"])
p("C34","Printed vectors and matrices list exactly their entries",
 "Writing a vector to a stream yields an opening bracket, every entry once in order, and a closing bracket; writing a dense or fixed matrix yields the entries row by row with a bar between rows; writing a sparse matrix yields one group of row, column and value per stored entry in row order, whatever edits or operations produced it. This holds for every size including empty vectors and sparse matrices without entries, for real, complex and whole number entries and temporaries. The stream is handed on so that objects can be written one after another, and the object is unchanged.",
 ["inputs","configurations"],"all entry values and sparsity patterns within the bounds",
 T+"nothing is printed in the tests.",
 [L+"OutputStream.h"],
 [("output operators",L+"OutputStream.h")],["text written to the stream"])
p("C35","Row extremum norms and the condition figure follow their definition",
 "For every real matrix the row maximum norm is the square root of the sum over all rows of the square of the largest magnitude in the row, the row minimum norm is the same with the smallest magnitude (for a sparse matrix over rows whose entries are all stored), and the condition figure is the quotient of the two. So both norms scale with the magnitude of a factor, the figure does not depend on factors or on the order of rows and columns, and it is at least one. Signs and the position of the extreme entry in its row do not matter. The matrix is unchanged.",
 ["inputs"],"all matrices of bounded size with entries up to 1000 in magnitude",
 T+"no test calls these functions.",
 [L+"matrix/MatrixOperations.h",L+"matrix/MatrixOperations.inl"],
 [("row scans",L+"matrix/MatrixOperations.inl")],["max_norm2, min_norm2, cond"])
p("C36","Finite element systems built from the parts reproduce polynomials",
 "Stiffness, mass and load assembled on a prepared triangle mesh (a generated box grid or triangles given in any corner order) from inverse element matrices, determinants, shape functions, quadrature and node numbers are consistent: constants have no stiffness, the stiffness matrix is symmetric, loads and masses add up to the area, and every polynomial of the order of the shape functions satisfies the equations of all inner nodes. Solving the sparse or dense system with boundary values of such a polynomial, by factorisation with or without bandwidth reordering or by conjugate gradients with or without preconditioner, returns the polynomial at every node up to the stated tolerance.",
 ["inputs","configurations"],"all polynomials of degree one and two, all positions of an inner vertex, all corner orders, box grids within the bounds",
 T+"no test combines the parts.",
 [L+"sf/PolyShapeFunction.inl",L+"mesh/Mesh.inl",L+"mesh/HyperCube.inl",L+"Simplex.inl",L+"quadrature/GaussLegendreQuadratureFactory.inl",L+"matrix/SparseMatrix.inl",L+"LU.inl",L+"CG.inl",L+"matrix/MatrixOrder.inl"],
 [("numbering and positions of nodes",L+"sf/PolyShapeFunction.inl"),("element maps",L+"Simplex.inl"),("factorisation and solution",L+"LU.inl")],["assembled rows, solution vectors"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
