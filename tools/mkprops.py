"""Writes /verif/properties.jsonl (the text lives here because JSON lines are hard to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               observe_at=observe, hook_needed=None)))

prop('P01', 'Sparse matrix objects behave as exact matrices under any operation history',
 'Whatever sequence of additions, subtractions, scalings, divisions, negations, copies, in-place updates, diagonal edits, products with other matrices and format conversions produced a sparse (banded) matrix, its dense form, every sparse storage form and its matrix-vector product in every storage format, along any axis of a real or complex array, are those of the matrix that exact matrix algebra gives for the same sequence. '
 'Operands that are not the target of an in-place operation keep their value, and a system solved with the matrix is solved with its value at that moment.',
 ['histories', 'inputs'], 'all sequences of operations on any number of matrices (shared, copied, aliased), all shapes (square or not), all sets of diagonals, scalar or per-diagonal content, all scale factors, axes, formats and array types',
 'tests/test_matrices.py performs one operation at a time on assembled Galerkin matrices; sequences of operations (in particular solve / update / solve again, or scale carried through sums) and rectangular or oddly banded operands are not sampled.',
 ['shenfun/matrixbase.py', 'shenfun/la.py'],
 [('scale kept apart from diagonals', 'shenfun/matrixbase.py: SparseMatrix.__imul__/__add__/incorporate_scale'),
  ('dictionary of diagonals', 'shenfun/matrixbase.py: SparseMatrix.__getitem__/__setitem__/diags'),
  ('cached scipy matrix and solver', 'shenfun/matrixbase.py: SparseMatrix.matvec/solve')],
 ['SparseMatrix operators, diags(), matvec(), solve()'],
 [('storage', 'map from diagonal offset to its entries', 'SparseMatrix._storage'), ('scale', 'factor multiplying all diagonals', 'SparseMatrix.scale')])

prop('P02', 'Direct solvers solve the system they were built for',
 'Every banded, generic and tensor-product linear solver returns, for every right hand side (real or complex, any number of dimensions, any axis, solved in place or into another array, any number of times with the same solver), the array that satisfies the linear system of the matrix it was built from. '
 'Requested constraints are met exactly, rows that are not part of the system keep their boundary values, and the right hand side is left untouched when the result goes to another array.',
 ['inputs', 'configurations', 'histories'], 'all nonsingular matrices having the band structure a solver accepts, all sizes (including the smallest ones), right hand sides, axes, array ranks and element types, in every optimization mode',
 'The tests solve with the handful of matrices that assembled problems produce, mainly in the default mode and for default sizes; off-by-one errors at small sizes, other axes, complex data or repeated solves are not reached.',
 ['shenfun/la.py', 'shenfun/chebyshev/la.py', 'shenfun/legendre/la.py', 'shenfun/optimization/cython/la.pyx', 'shenfun/optimization/numba'],
 [('LU without pivoting per band structure', 'shenfun/la.py: TDMA/TDMA_O/PDMA/FDMA/TwoDMA/ThreeDMA/HeptaDMA'),
  ('generic sparse LU', 'shenfun/la.py: Solve, SparseMatrixSolver.perform_lu'),
  ('solver selection', 'shenfun/la.py: Solver')],
 ['solver objects called with a right hand side', 'SparseMatrix.solve'])

prop('P03', 'Assembled one-dimensional matrices equal the exact weighted integrals',
 'For every pair of one-dimensional function spaces of the same family (or of families with a documented coupling), every pair of derivative orders and every polynomial or constant weight, the assembled matrix equals the exact weighted inner products of the derivatives of the test and trial functions over the physical domain, for every size, parity, domain and boundary condition, and for every way the library can assemble it. '
 'The recursion matrices of the Jacobi polynomials (multiplication by powers of x, differentiation) satisfy their defining identities exactly.',
 ['inputs', 'configurations'], 'all families, all boundary condition combinations, all N, derivative orders, finite domains, weights and assembly methods',
 'test_matrices.py compares assembled and quadrature-based matrices for fixed N on the reference domain, with the same stencils on both sides; other domains, sizes and pairs, and errors common to both sides, are not seen.',
 ['shenfun/matrixbase.py', 'shenfun/spectralbase.py', 'shenfun/chebyshev/matrices.py', 'shenfun/chebyshevu/matrices.py', 'shenfun/legendre/matrices.py', 'shenfun/ultraspherical/matrices.py', 'shenfun/jacobi/recursions.py', 'shenfun/fourier/matrices.py', 'shenfun/laguerre/matrices.py', 'shenfun/hermite/matrices.py', 'shenfun/utilities/__init__.py', 'shenfun/forms/inner.py'],
 [('closed form diagonals', 'shenfun/*/matrices.py: assemble methods'), ('stencil products', 'shenfun/matrixbase.py: assemble_sympy / stencil assembly'), ('quadrature', 'shenfun/matrixbase.py: SpectralMatrix assembly by vandermonde')],
 ['inner_product / inner / SpectralMatrix'])

prop('P04', 'Boundary conditions are satisfied by every basis and every solution function',
 'Every basis function of a space created with boundary conditions satisfies the homogeneous form of exactly those conditions, the basis functions are linearly independent members of the polynomial space and there are as many of them as the degrees of freedom left by the conditions. '
 'Every function of the space, after its boundary values have been set or a transform or solve has completed, satisfies the prescribed inhomogeneous values (constants, functions of the other coordinates, or of time after an update) on the physical domain, however the conditions were written down.',
 ['inputs', 'configurations', 'histories'], 'all families, all conditions on values, derivatives up to fourth order, weighted combinations, one- or two-sided, all domains, all N, and all equivalent ways to specify conditions',
 'Tests check a fixed list of named spaces on the reference domain mostly with homogeneous values; physical-domain scaling of derivative values, mixed forms of specification, and re-setting after time updates are not exercised.',
 ['shenfun/spectralbase.py', 'shenfun/utilities/findbasis.py', 'shenfun/chebyshev/bases.py', 'shenfun/legendre/bases.py', 'shenfun/ultraspherical/bases.py', 'shenfun/chebyshevu/bases.py', 'shenfun/jacobi/bases.py', 'shenfun/forms/arguments.py', 'shenfun/tensorproductspace.py'],
 [('stencil matrices', 'shenfun/*/bases.py: sympy_stencil/stencil_matrix; utilities/findbasis.py'), ('boundary lifting space', 'shenfun/spectralbase.py: getBCGeneric, utilities/findbasis.py: get_bc_basis'), ('boundary values', 'shenfun/spectralbase.py: BoundaryConditions; tensorproductspace.py: BoundaryValues')],
 ['basis evaluation, Function.eval/backward, stencil_matrix'])

prop('P05', 'Transforms evaluate the expansion and invert each other on every space',
 'For every one-dimensional space, quadrature rule, size, domain and element type, the inverse transform gives the values of the expansion at the quadrature points, the forward transform recovers the coefficients of every function in the space, applying it to any array gives the discrete weighted projection (so doing it twice changes nothing), and the scalar product gives the quadrature of the array against each test function. '
 'All available evaluation methods give the same result, along any axis of a multidimensional array, the quadrature integrates polynomials exactly up to its design degree, and no call changes its input or depends on earlier calls.',
 ['inputs', 'configurations', 'histories'], 'all families, quadrature types, N (odd and even), domains, transform methods, axes, real and complex data, and histories of interleaved calls',
 'test_transforms.py round-trips random data for fixed N per family; a matching error in forward and backward cancels in a round trip, and interleavings, unusual N and domains are not covered.',
 ['shenfun/spectralbase.py', 'shenfun/fourier/bases.py', 'shenfun/chebyshev/bases.py', 'shenfun/chebyshevu/bases.py', 'shenfun/legendre/bases.py', 'shenfun/legendre/lobatto.py', 'shenfun/legendre/fastgl', 'shenfun/ultraspherical/bases.py', 'shenfun/jacobi/bases.py', 'shenfun/gegenbauer/bases.py', 'shenfun/laguerre/bases.py', 'shenfun/hermite/bases.py', 'shenfun/optimization'],
 [('fast transforms', 'shenfun/*/bases.py: plan, _evaluate_expansion_all, _evaluate_scalar_product'), ('recursive and vandermonde evaluation', 'shenfun/spectralbase.py'), ('mass matrix inverse', 'shenfun/spectralbase.py: apply_inverse_mass')],
 ['forward, backward, scalar_product, points_and_weights'])

prop('P06', 'Calculus on tensor product functions is exact for functions in the space',
 'On every Cartesian tensor product space of periodic and bounded axes, in any order and number, functions that belong to the space are represented exactly: sums, scalings, derivatives of any order, projections onto any space that contains the result, point evaluation anywhere in the domain, evaluation on quadrature or uniform meshes and integrals all agree with the exact calculus of the represented function. '
 'This holds after any sequence of such operations, and operations do not change their operands.',
 ['inputs', 'histories', 'configurations'], 'all sequences of operations, all combinations and orders of axes, families, boundary conditions, domains, sizes, real and complex data',
 'Tests evaluate single operations for a few fixed manufactured functions; combinations of axis order, domain scaling, derivative orders and multi-step histories are not sampled.',
 ['shenfun/tensorproductspace.py', 'shenfun/forms/arguments.py', 'shenfun/forms/project.py', 'shenfun/forms/operators.py', 'shenfun/spectralbase.py', 'shenfun/fourier/bases.py', 'shenfun/optimization/cython/evaluate.pyx'],
 [('tensor product transforms', 'shenfun/tensorproductspace.py'), ('projection', 'shenfun/forms/project.py'), ('point evaluation', 'shenfun/tensorproductspace.py: eval; Expr.eval')],
 ['Function, Array, project, Dx, inner, eval, mesh'],
 [('coefficients', 'expansion coefficients of every live function', 'Function')])

prop('P07', 'Results do not depend on the number of processes or the data distribution',
 'For every number of processes and every admissible distribution, the local parts of each distributed array are disjoint and together form exactly the global array, in physical and in spectral space, with local meshes, wavenumbers and index ranges that agree with it. '
 'Every collective operation (transforms, padded transforms, scalar products, point evaluation, matrix-vector products, solves with constraints, projections, resizing, file output and input) gives the same global result as with one process.',
 ['configurations', 'schedules'], 'any number of processes (also more than some dimensions can share evenly), slab or pencil distribution, any axis order, all collective operations and histories of them',
 'The test suite is only ever run on one process here; every branch that depends on rank, local slices or communicators is executed with the trivial value.',
 ['shenfun/tensorproductspace.py', 'shenfun/spectralbase.py', 'shenfun/forms/arguments.py', 'shenfun/la.py', 'shenfun/matrixbase.py', 'shenfun/forms/inner.py', 'shenfun/io/__init__.py', 'shenfun/utilities/__init__.py'],
 [('pencil decomposition and transfers', 'shenfun/tensorproductspace.py: TensorProductSpace.__init__/configure_backwards'), ('local index ranges', 'shenfun/tensorproductspace.py: local_slice, local_mesh, local_wavenumbers'), ('rank dependent constraints and reductions', 'shenfun/la.py; shenfun/tensorproductspace.py: eval')],
 ['local_slice, local arrays on every rank'],
 [('decomposition', 'block of the global index space owned by each rank', 'subcomm/pencil objects')])

prop('P08', 'Differential operators agree with coordinate-free vector calculus',
 'Gradient, divergence, curl, Laplacian and partial derivatives, applied to scalar, vector and tensor expressions built with sums, differences, scalings and component selection, denote the field that coordinate-free vector calculus gives, in Cartesian and in any orthogonal or non-orthogonal curvilinear coordinates and with either choice of basis vectors. '
 'The vector identities (curl of a gradient and divergence of a curl vanish, divergence of a gradient is the Laplacian) hold identically, the metric quantities of a coordinate system are those of its position vector, and building or evaluating an expression never changes its operands.',
 ['inputs', 'programs', 'configurations'], 'all expressions, all admissible coordinate maps in one to three dimensions, normal or covariant basis vectors, all points',
 'Tests compare a few operator results for the standard polar, cylindrical and spherical maps; non-orthogonal maps, composition of operators on sums and scaled expressions are hardly touched.',
 ['shenfun/forms/operators.py', 'shenfun/forms/arguments.py', 'shenfun/coordinates.py'],
 [('terms, scales and indices of an expression', 'shenfun/forms/arguments.py: Expr'), ('operators', 'shenfun/forms/operators.py'), ('metric and Christoffel symbols', 'shenfun/coordinates.py')],
 ['Expr.terms/scales/indices, Expr.eval, project, Coordinates methods'])

prop('P09', 'Weak forms assemble and solve to the exact solution of the stated problem',
 'For every linear problem whose exact solution lies in the trial space (Poisson, Helmholtz, biharmonic, first order and coupled problems; any mix of periodic and bounded axes; homogeneous or inhomogeneous boundary values), the assembled matrices applied to the coefficients of any function equal the assembled linear form of the operator applied to that function, and the matching solver returns the exact solution, satisfying boundary values and constraints. '
 'Assembling or solving changes neither the forms, the right hand side that was passed for another output, nor later assemblies.',
 ['inputs', 'configurations', 'histories'], 'all such operators with constant or separable coefficients, test and trial spaces, domains, axis orders, boundary values, and sequences of assemblies and solves',
 'The tests and demos solve each equation for one manufactured solution with fixed sizes and domains; sums of forms with scales, boundary contributions, mixed spaces and re-use of assembled objects are sampled only once each.',
 ['shenfun/forms/inner.py', 'shenfun/matrixbase.py', 'shenfun/la.py', 'shenfun/forms/arguments.py', 'shenfun/tensorproductspace.py', 'shenfun/chebyshev/la.py', 'shenfun/legendre/la.py', 'shenfun/utilities/__init__.py'],
 [('bilinear and linear forms', 'shenfun/forms/inner.py'), ('tensor product and block matrices', 'shenfun/matrixbase.py: TPMatrix, BlockMatrix'), ('multidimensional solvers', 'shenfun/la.py: SolverGeneric1ND/2ND, Solver2D/3D/ND, BlockMatrixSolver')],
 ['inner, matvec, solvers'])

prop('P10', 'Dealiased products, truncation and masks act on exactly the right modes',
 'With enough padding the padded inverse transform, pointwise product and padded forward transform give exactly the product of two functions truncated to the modes of the space, and the 2/3-rule removes exactly the documented modes while leaving all others untouched. '
 'Convolutions computed in spectral space equal the exact convolution of the wavenumbers kept, and masking the Nyquist frequency clears the Nyquist coefficients and nothing else.',
 ['inputs', 'configurations'], 'all sizes (odd and even), padding factors, families and mixes of axes, real and complex data, and any pair of functions',
 'Tests check one or two sizes and that results are close to a reference computed by the same padding code; which exact set of modes is kept at odd or even sizes and along which axis is not settled.',
 ['shenfun/fourier/bases.py', 'shenfun/spectralbase.py', 'shenfun/tensorproductspace.py', 'shenfun/utilities/__init__.py', 'shenfun/optimization/cython/convolve.pyx', 'shenfun/optimization/cython/applymask.pyx'],
 [('padding and truncation', 'shenfun/fourier/bases.py: _padding_backward/_truncation_forward; spectralbase.py'), ('convolution', 'shenfun/tensorproductspace.py: Convolve'), ('masks', 'shenfun/fourier/bases.py and tensorproductspace.py: get_mask_nyquist/mask_nyquist')],
 ['get_dealiased, backward(padding_factor), Convolve, mask_nyquist'])

prop('P11', 'Derived and cached spaces keep everything that was not asked to change',
 'A space derived from another (dealiased, refined, unplanned, homogeneous, orthogonal, test space, adaptive copy, or with another element type) has the family, boundary conditions, quadrature, domain, coordinates, axis order and distribution of its parent except for what was asked to change, and deriving it changes nothing in the parent. '
 'Results of any operation are the same whether or not derived or padded spaces, plans, masks or work arrays were created or used earlier.',
 ['histories', 'configurations'], 'all spaces, all derivation calls with any arguments, and all histories of calls that create internal caches',
 'Tests derive spaces once from default-constructed parents; dropped attributes and stale caches only show when non-default attributes and several differing calls meet.',
 ['shenfun/spectralbase.py', 'shenfun/tensorproductspace.py', 'shenfun/fourier/bases.py', 'shenfun/forms/arguments.py', 'shenfun/utilities/__init__.py'],
 [('derivation methods', 'get_dealiased/get_refined/get_unplanned/get_homogeneous/get_orthogonal/get_testspace'), ('caches', 'shenfun/tensorproductspace.py: _padded_space; CachedArrayDict')],
 ['attributes and transforms of derived spaces'])

prop('P12', 'Time integrators advance exactly by their scheme and call back once per step',
 'Each time integrator applied to a problem in its class produces, after any number of steps of any size, exactly the iterates of the published scheme it implements, with as many steps as the interval holds, and splitting the interval, stopping and resuming, or changing the step size (with a new set-up) gives the same iterates as the scheme prescribes. '
 'The user call-back is invoked exactly once per completed step with the matching time and step count and the current solution, and parameters are passed through unchanged.',
 ['inputs', 'histories', 'configurations'], 'all linear and nonlinear right hand sides, step sizes, end times, numbers of solve calls on the same integrator, and all integrators',
 'Only some integrators are run in the tests, on one equation each, comparing a final error with a loose bound that a wrong coefficient of higher order, an extra or missing step or a wrong call-back time would pass.',
 ['shenfun/utilities/integrators.py'],
 [('stage recurrences', 'shenfun/utilities/integrators.py: solve methods'), ('set-up per step size', 'shenfun/utilities/integrators.py: setup'), ('call-back protocol', 'shenfun/utilities/integrators.py: update')],
 ['solve, update call-back'],
 [('t, tstep', 'time and number of the current step', 'IntegratorBase.solve')])

prop('P13', 'What is written to file is what is read back',
 'Every array or function written to file, for scalar, vector and tensor spaces, physical or spectral data, any sequence of time steps, names, slices and reopened files, is read back bit for bit into a matching array under its name and step, with the mesh of the space stored alongside. '
 'Slices written of a field equal the slices of the global field, and writing one field or step never disturbs another.',
 ['histories', 'configurations'], 'all sequences of writes and reads with reopening, all spaces and ranks, real and complex data, global and local slices, any number of processes',
 'test_io.py writes and reads two fields in fixed order on one process.',
 ['shenfun/io/__init__.py', 'shenfun/io/generate_xdmf.py', 'shenfun/forms/arguments.py', 'shenfun/tensorproductspace.py'],
 [('file handler', 'shenfun/io/__init__.py: ShenfunFile'), ('global shape and local slice', 'shenfun/forms/arguments.py: global_shape/local_slice')],
 ['ShenfunFile.write/read, HDF5 contents'])

prop('P14', 'A checkpointed run restarts without loss',
 'At every checkpoint step and on a requested stop, the complete current data, time and step count are stored; a run restarted from the stored data continues exactly as the uninterrupted run would have. '
 'Steps that are not checkpoint steps leave the stored state as it was, the previous checkpoint survives as a copy, and if the process dies at any moment during an update at least one stored file holds a complete, mutually consistent earlier or current checkpoint once one has been completed.',
 ['histories', 'crash_points'], 'all sequences of steps, checkpoint intervals, stop requests, crashes and restarts, any number of fields and stored time levels',
 'The single test writes one checkpoint and reads it; no interruption, stop request, restart or history of several updates is tested.',
 ['shenfun/io/__init__.py'],
 [('update every checkevery steps', 'shenfun/io/__init__.py: Checkpoint.update'), ('copy before overwrite', 'shenfun/io/__init__.py: Checkpoint.update'), ('stop request file', 'shenfun/io/__init__.py: Checkpoint.check_if_kill')],
 ['Checkpoint.update/read, contents of the two files'],
 [('stored checkpoint', 'fields, time and step in the file', 'file contents')])

prop('P15', 'Components of composite functions and block systems address just their own data',
 'Selecting a component (at any nesting level) of a function or array on a composite, vector or tensor space gives a view of exactly the data of that component: writes through it are seen in the whole and nowhere else, and operations on the whole act on each component as on a separate function. '
 'Block matrices built from any set of blocks act, multiply, flatten and solve as the matrix that has each block at the position of its test and trial component.',
 ['inputs', 'histories', 'configurations'], 'all compositions of spaces (nested, of different sizes), all component paths, and all histories of writes, copies, transforms and block operations',
 'Tests use a few two- or three-component spaces of equal shape and read-only access.',
 ['shenfun/forms/arguments.py', 'shenfun/tensorproductspace.py', 'shenfun/matrixbase.py', 'shenfun/la.py'],
 [('component views and offsets', 'shenfun/forms/arguments.py: ShenfunBaseArray.__getitem__/__array_finalize__, BasisFunction offsets'), ('flattening', 'shenfun/tensorproductspace.py: CompositeSpace/VectorSpace, la.py: BlockMatrixSolver'), ('block structure', 'shenfun/matrixbase.py: BlockMatrix')],
 ['indexing, Function/Array views, BlockMatrix'])

prop('P16', 'Optimized and plain implementations give the same results',
 'Every operation that has an optimized implementation gives, up to round-off, the same result in every optimization mode as the plain one, for every array rank, axis, element type, memory layout and size, also when the mode is switched while the program runs.',
 ['inputs', 'configurations', 'histories'], 'all optimized operations, modes, array shapes, axes, element types, layouts and switches of the mode',
 'The tests run almost entirely in the default mode and only with the shapes that the other tests happen to need.',
 ['shenfun/optimization/__init__.py', 'shenfun/optimization/cython', 'shenfun/optimization/numba', 'shenfun/utilities/__init__.py', 'shenfun/la.py', 'shenfun/chebyshev/la.py', 'shenfun/legendre/dlt.py'],
 [('run time dispatch by name', 'shenfun/optimization/__init__.py'), ('kernels per rank and type', 'shenfun/optimization/cython/*.pyx, shenfun/optimization/numba/*.py')],
 ['public functions and solvers under each mode'])

prop('P17', 'Conversions between Legendre and Chebyshev expansions are exact',
 'Converting coefficients between Legendre and Chebyshev series, by any of the available direct or fast algorithms, transposed or not, along any axis, for real or complex data and any size, gives the coefficients of the same polynomial, and converting back recovers the original. '
 'The fast Legendre transform therefore agrees with the direct one for every size.',
 ['inputs', 'configurations'], 'all sizes below and above the switch to the hierarchical algorithm, any parameters of the algorithm, axis, element type and direction',
 'Tests compare at a few sizes against the same library; the hierarchical block structure depends on size and parameters in many branches.',
 ['shenfun/legendre/dlt.py', 'shenfun/optimization/cython/transforms.pyx', 'shenfun/optimization/cython/leg2chebm.pyx', 'shenfun/legendre/bases.py'],
 [('hierarchical multipole algorithm', 'shenfun/legendre/dlt.py: Leg2Cheb/Cheb2Leg, FMMLevel'), ('direct algorithms', 'shenfun/legendre/dlt.py: leg2cheb/cheb2leg')],
 ['leg2cheb, cheb2leg, Leg2Cheb, Cheb2Leg, DLT'])

prop('P18', 'Resizing a function preserves it, or truncates it to the smaller space',
 'Refining a function or assigning it to a space with more modes gives the same function (the same value at every point), and going to fewer modes gives exactly the coefficients of the modes that both have; going up and back down returns the original. '
 'This holds on every axis, for scalar, vector and tensor spaces, real or complex, odd or even sizes, and with boundary conditions.',
 ['inputs', 'histories', 'configurations'], 'all pairs of sizes per axis, all families and boundary conditions, all orders of axes and ranks of fields, any history of resizings',
 'One or two refinements with even sizes are tested.',
 ['shenfun/forms/arguments.py', 'shenfun/tensorproductspace.py', 'shenfun/spectralbase.py', 'shenfun/fourier/bases.py'],
 [('assign/refine', 'shenfun/forms/arguments.py: Function.assign/refine'), ('padding of coefficients', 'shenfun/fourier/bases.py, shenfun/spectralbase.py: _padding_backward/_truncation_forward')],
 ['Function.refine, Function.assign, get_refined'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2
        f.write(json.dumps(p) + '\n')
print(len(P))
