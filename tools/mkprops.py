#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so ids, anchors and wording stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=mech, observe_at=list(observe), hook_needed=hook)))
M = lambda name, where: dict(name=name, where=where)

prop("C01", "Transforms evaluate and interpolate exactly",
 "For every base and every space, the backward transform of a coefficient array is the value, at the reported grid points, of the function those coefficients denote (Chebyshev sums, composite sums, Fourier sums with the 1/n factor on the backward side). The forward transform returns the coefficients of the function through the given grid values (for a composite base: of its least-squares member), so forward after backward is the identity on coefficients and backward after forward is the identity on grid values an orthogonal base can represent.",
 ["inputs","configurations"], "every base kind, every size (even/odd, small/large), every coefficient or value array, f32 and f64, 1-D/2-D/3-D, any axis",
 "Unit tests compare one hard-coded vector at sizes 4, 6 and 14; the identity is over all sizes, parities, axes and inputs.",
 ["src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/fourier/r2c.rs","src/fourier/c2c.rs","src/traits.rs","src/internal_macros.rs","src/space/space1.rs","src/space/space2.rs","src/space/space3.rs"],
 [M("DCT-I with endpoint weights and reversed grid","Chebyshev::forward_slice / backward_slice"),M("FFT with 1/n on the way back","FourierR2c/FourierC2c::forward_slice / backward_slice"),M("axis loop order forward last-to-first, backward first-to-last","impl_space1!/impl_space2!/impl_space3!")],
 observe=["BaseTransform::forward/backward and variants","BaseSpaceTransform::forward/backward and variants"])

prop("C02", "Grids, sizes and kinds describe the base",
 "A base of size n reports exactly n physical points, the documented number of spectral and orthogonal coefficients, its own kind and transform kind, and a coordinate vector with exactly one entry per physical point: -cos(pi k/(n-1)) for Chebyshev bases and 2 pi k/n for Fourier bases, strictly increasing. Spaces report, per axis, the sizes, coordinates and kinds of the base on that axis, and the arrays they create have those shapes and are zero.",
 ["inputs","configurations"], "every base kind, every size n, every axis of every space combination, f32 and f64",
 "No unit test looks at coords, len_* or kinds at all; a rounding-dependent off-by-one only shows at particular sizes.",
 ["src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/fourier/r2c.rs","src/fourier/c2c.rs","src/enums.rs","src/space/space1.rs","src/space/space2.rs","src/space/space3.rs","src/space/traits.rs"],
 [M("node formulas","Chebyshev::nodes, FourierR2c::nodes, FourierC2c::nodes"),M("BaseSize/BaseElements delegation","impl_funspace_elemental_for_base!, impl_space*!")],
 observe=["BaseSize","BaseElements","BaseSpaceSize","BaseSpaceElements","ndarray_physical/ndarray_spectral"])

prop("C03", "Composite bases satisfy their boundary conditions",
 "Every function representable in a composite base satisfies the base's boundary conditions, whatever its coefficients: u=0 at both ends (Dirichlet), u'=0 at both ends (Neumann), u(-1)=0 and u'(1)=0 (Dirichlet-Neumann), u=u'=0 at both ends (biharmonic A), u=u''=0 at both ends (biharmonic B). This holds for the orthogonal coefficients, for the columns of the stencil matrix, for the grid values, and for whatever comes back from transforming arbitrary grid data.",
 ["inputs"], "every coefficient vector, every size, all five composite bases, real and complex coefficients, along any axis",
 "Tests fix one coefficient vector at one size for one base (Dirichlet); the biharmonic conversion to orthogonal coefficients is not exercised at all.",
 ["src/chebyshev/stencils.rs","src/chebyshev/stencils/helpers.rs","src/chebyshev/compo.rs"],
 [M("stencil diagonals","Dirichlet/Neumann/DirichletNeumann/BiHarmonicA/BiHarmonicB::new"),M("banded product","HelperStencil2Diag/3Diag/3Diag2::dot_inplace")],
 observe=["to_ortho","stencil","backward","gradient"])

prop("C04", "Composite and orthogonal coefficients convert consistently",
 "Converting composite to orthogonal coefficients equals multiplying by the reported stencil matrix, and converting back undoes it for every composite coefficient array. For arbitrary orthogonal coefficients the back conversion is the least-squares projection onto the composite space, the reported inverse stencil times the stencil is the identity, and for orthogonal bases both conversions are the identity.",
 ["inputs"], "every coefficient array, every size the base supports, all bases, any axis, real and complex coefficients",
 "The existing tests check stencil_inv x stencil at three sizes and one to_ortho product for Dirichlet; banded solvers with special-cased first and last rows fail at particular sizes or rows only.",
 ["src/chebyshev/stencils.rs","src/chebyshev/stencils/helpers.rs","src/chebyshev/linalg/tdma.rs","src/chebyshev/linalg/pdma.rs","src/chebyshev/linalg/pdma2.rs","src/chebyshev/compo.rs"],
 [M("normal equations solved by banded LU","solve_inplace -> tdma / pdma / pdma2"),M("stencil matrices","to_array / pinv")],
 observe=["to_ortho","from_ortho","stencil","stencil_inv"])

prop("C05", "Gradients are exact derivatives",
 "Differentiating an array of coefficients d times along an axis returns the orthogonal coefficients of the exact d-th derivative of the function (Chebyshev recurrence; multiplication by (ik)^d with the base's signed wavenumbers for Fourier), for every d including 0, so that repeated differentiation adds up. A space gradient applies the requested order on each axis and divides by the product of scale^order when a scale is given.",
 ["inputs","configurations"], "every coefficient array, every size, every derivative order and scale, all bases and spaces, any axis",
 "Doc tests differentiate one polynomial; the signs of negative wavenumbers, mixed 3-D derivatives and high orders are not observed.",
 ["src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/fourier/r2c.rs","src/fourier/c2c.rs","src/traits.rs","src/space/space1.rs","src/space/space2.rs","src/space/space3.rs"],
 [M("derivative recurrence","Chebyshev::gradient_slice"),M("wavenumber products","FourierR2c/FourierC2c::gradient_slice"),M("per-axis composition and rescale","impl_space*!::gradient")],
 observe=["BaseGradient::gradient*","BaseSpaceGradient::gradient*"])

prop("C06", "Operator matrices match the operators",
 "The differentiation matrix of order d (1 to 4 for Chebyshev bases, any d for Fourier) times an orthogonal coefficient vector equals differentiating it d times, and the Laplacian matrix equals the second derivative. Each reported pseudo-inverse times its operator equals the reported truncated identity, i.e. recovers every coefficient except those in the operator's kernel.",
 ["inputs","configurations"], "every base, every order, every size from 2d up to sizes where entries exceed machine integers",
 "One test compares the order-4 pseudo-inverse with the square of the order-2 one at n=27; orders 3 and 4 of the differentiation matrix and all Laplacians are untested.",
 ["src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/fourier/r2c.rs","src/fourier/c2c.rs"],
 [M("closed-form entries","Chebyshev::_dmat / _pinv / _pinv_eye"),M("diagonal operators","FourierR2c/FourierC2c::diffmat / diffmat_pinv / laplacian / laplacian_pinv")],
 observe=["diffmat","diffmat_pinv","laplacian","laplacian_pinv"])

prop("C07", "Multi-dimensional spaces act axis by axis",
 "Every operation of a 1-, 2- or 3-dimensional space (transforms, conversions, gradients) equals applying, to each axis in turn, the one-dimensional operation of the base assigned to that axis, each line being treated independently of the others. Per-axis queries (stencils and Laplacians with their inverses) answer for the base on the requested axis.",
 ["inputs","configurations"], "every supported combination of bases on up to three axes, unequal sizes, every operation, every axis",
 "Tests build one 1-D, one 2-D and one 3-D space and never mix unequal bases with a gradient or matrix query on the last axis.",
 ["src/space/space1.rs","src/space/space2.rs","src/space/space3.rs","src/space/traits.rs","src/traits.rs","src/internal_macros.rs"],
 [M("axis delegation","impl_space1!/impl_space2!/impl_space3!"),M("lane iteration","apply_along_axis!, BaseGradient::gradient_inplace")],
 observe=["BaseSpaceTransform","BaseSpaceFromOrtho","BaseSpaceGradient","BaseSpaceMatOpStencil","BaseSpaceMatOpLaplacian"])

prop("C08", "Parallel variants give the serial result",
 "Every parallel variant of an operation (transforms, conversions, gradients, on bases and spaces) returns what its serial counterpart returns for the same input, whatever the number of worker threads, the number of lines and the order in which lines are processed. Each line of the array is processed exactly once and no two lines share working storage at the same time.",
 ["schedules","inputs"], "every interleaving of workers over the lines, every thread count, every array shape and axis",
 "No unit test calls a parallel variant; schedules are not controlled.",
 ["src/internal_macros.rs","src/traits.rs","src/space/space1.rs","src/space/space2.rs","src/space/space3.rs","src/space/traits.rs"],
 [M("par_for_each over lanes with per-lane scratch","par_apply_along_axis!, BaseGradient::gradient_inplace_par"),M("space *_par chain","impl_space*! *_par")],
 observe=["*_par methods","per-line callbacks of a user-defined base"])

prop("C09", "Calls are pure: no dependence on buffers or history",
 "The allocating, in-place and slice forms of an operation give the same result, inputs are never modified, every element of an output buffer is overwritten whatever it held before, and the result depends only on the input values. Bases and spaces can be reused, cloned and shared between threads: no call changes what a later or concurrent call returns.",
 ["histories","inputs"], "every sequence of operations on shared bases, spaces and reused output buffers, including buffers full of NaN",
 "Tests use fresh zeroed buffers and call each operation once.",
 ["src/traits.rs","src/internal_macros.rs","src/space/traits.rs","src/space/space1.rs","src/space/space2.rs","src/space/space3.rs","src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/fourier/r2c.rs","src/fourier/c2c.rs"],
 [M("default methods allocate then call the in-place form","BaseFromOrtho/BaseTransform/BaseGradient/BaseSpace* defaults"),M("scratch copy back","apply_along_axis!")],
 observe=["all operation variants"])

prop("C10", "Mismatched arguments are rejected, never misread",
 "An operation given an input or output whose extent does not match the base or space (wrong length along the axis, other axes disagreeing, too short or too long slices) fails with a panic before producing a result. It never reads or writes outside the given data and never returns a silently truncated or partial result; matching arguments are accepted.",
 ["inputs"], "every operation, every combination of too short / too long / matching input and output, every axis and dimension",
 "No test passes a wrong length; unchecked indexing makes a missing check invisible on matching inputs.",
 ["src/utils.rs","src/internal_macros.rs","src/traits.rs","src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/chebyshev/stencils/helpers.rs","src/fourier/r2c.rs","src/fourier/c2c.rs"],
 [M("length assertions","check_array_axis, *_slice asserts"),M("unchecked kernels relying on them","dot_inplace, solve_inplace, gradient_slice, tdma, pdma, pdma2")],
 observe=["panic / abort / return of each call"])

prop("C11", "Scalar types agree",
 "Conversions and gradients of real bases applied to complex coefficients act on real and imaginary parts independently, exactly as on two real arrays. Single-precision bases and spaces compute the same results as double-precision ones to single-precision accuracy, for every operation.",
 ["inputs","configurations"], "every operation, base and size, f32/f64, real/complex coefficients",
 "Tests use f64 only and complex coefficients only with Fourier bases.",
 ["src/types.rs","src/traits.rs","src/chebyshev/ortho.rs","src/chebyshev/compo.rs","src/chebyshev/stencils.rs","src/chebyshev/stencils/helpers.rs","src/chebyshev/linalg/tdma.rs","src/chebyshev/linalg/pdma.rs","src/chebyshev/linalg/pdma2.rs"],
 [M("generic kernels over FloatNum / ScalarNum","*_slice, solvers")],
 observe=["all operations with T = f32, f64, Complex<f32>, Complex<f64>"])

MPI=["src/space_mpi/decomp2d/distribute.rs","src/space_mpi/decomp2d/mod.rs"]
prop("C12", "MPI pencils partition the domain",
 "For every global shape and every number of processes not exceeding the points on the split axis, the x-pencils (and likewise the y-pencils) of all processes tile the global array: full extent along the contiguous axis, consecutive disjoint non-empty ranges along the split axis covering it completely, sizes differing by at most one. All processes report the same partition, own entry and shapes consistently, and cutting a global array yields exactly the process's part.",
 ["inputs","configurations"], "every global shape, every process count, every rank",
 "The MPI code has no test at all; the examples run one size.",
 MPI+["src/space_mpi/decomp_handler.rs","src/space_mpi/space2.rs"],
 [M("distribution of remainder points","Distribution::distribute / new"),M("shape queries","Decomp2d::get_*_shape, shape_*_pen")],
 observe=["Distribution fields","split_array_x_pencil/split_array_y_pencil","shape_*_x_pen/_y_pen"])

prop("C13", "MPI transposes move every element to its place",
 "A transpose from x-pencils to y-pencils or back leaves each process with exactly its part of the same global array; going there and back restores the data, for every shape, process count, element type and order in which processes reach the exchange. No process blocks forever when all of them call the operations in the same order.",
 ["schedules","inputs","configurations"], "every interleaving of ranks, every process count and shape (evenly divisible or not)",
 "Never executed by the tests; wrong counts or displacements appear only for uneven distributions.",
 MPI+["src/space_mpi/space2.rs"],
 [M("all-to-all with per-rank counts and displacements","transpose_x_to_y / transpose_y_to_x, get_counts_all_to_all"),M("pack/unpack","split_xy, merge_xy, split_yx, merge_yx")],
 observe=["transpose_x_to_y*, transpose_y_to_x* results on every rank"])

prop("C14", "MPI gather, all-gather and scatter are exact",
 "Gathering pencils assembles exactly the global array on the root, all-gathering does so on every process, and scattering a global array from the root gives each process exactly its pencil, for both pencil orientations, in allocating and in-place form, through the decomposition and through the space (physical and spectral shapes). Scatter followed by gather is the identity.",
 ["schedules","inputs","configurations"], "every interleaving of ranks, every process count, shape and element type",
 "Never executed by the tests.",
 MPI+["src/space_mpi/space2.rs","src/space_mpi/traits.rs"],
 [M("varcount collectives","gather_x/gather_y(_root,_inplace_root), all_gather_x/y, scatter_x/y(_root,_inplace)"),M("count tables","get_counts_all_gather")],
 observe=["gather_*, all_gather_*, scatter_* results on every rank"])

prop("C15", "MPI space operations equal the serial ones",
 "Transforms, conversions and gradients of a distributed two-dimensional space return, on every process, exactly its pencil of what the serial space returns for the global array, for every process count, base combination and size, in allocating and in-place form. The serial operations, sizes and per-axis queries of a distributed space equal those of the serial space built from the same bases.",
 ["schedules","inputs","configurations"], "every base pair supported, every process count, shape, derivative order and scale",
 "Never executed by the tests; needs several ranks and shapes that differ between physical, spectral and orthogonal space.",
 ["src/space_mpi/space2.rs","src/space_mpi/decomp_handler.rs"]+MPI,
 [M("local axis operation - transpose - local axis operation","impl_space2_mpi!"),M("lookup of the decomposition by intermediate shape","DecompHandler::get_decomp_from_global_shape")],
 observe=["forward_mpi, backward_mpi, to_ortho_mpi, from_ortho_mpi, gradient_mpi and in-place forms on every rank","serial trait methods of Space2Mpi"])

prop("C16", "MPI scalar collectives and bookkeeping are consistent",
 "Broadcast leaves every process with the root's value, a gathered sum is the sum of all contributions on the root and leaves the others' results untouched, and an all-gathered sum is that sum on every process. Rank and process count match the MPI world, and looking up a decomposition by global shape returns the one for that shape.",
 ["schedules","inputs"], "every process count, contribution vector and interleaving of ranks",
 "Never executed by the tests.",
 ["src/space_mpi/decomp2d/functions.rs","src/space_mpi/decomp_handler.rs","src/space_mpi/space2.rs"],
 [M("collectives","broadcast_scalar, gather_sum, all_gather_sum"),M("shape map","DecompHandler::insert / get_decomp_from_global_shape")],
 observe=["values on every rank after the call"])

prop("C17", "Comparison and resize helpers do what they claim",
 "The approximate-equality helpers accept two arrays exactly when every pair of entries differs by less than the tolerance in each component (real and imaginary), and fail otherwise. The resize helper returns a zero array with only the requested axis changed, and the axis check fails exactly when the extent along that axis differs from the requested size.",
 ["inputs"], "every pair of arrays, component, position and axis",
 "These helpers are themselves the oracle of the existing tests, so a helper that accepts too much cannot be noticed by them.",
 ["src/utils.rs"],
 [M("tolerance comparison","approx_eq, approx_eq_complex, approx_eq_ndarray, approx_eq_complex_ndarray"),M("axis helpers","array_resized_axis, check_array_axis")],
 observe=["panic / return of each helper"])

prop("C18", "Misused distributed operations are refused",
 "A distributed operation (transpose, gather, all-gather, scatter; forward, backward, to_ortho, from_ortho, gradient of a distributed space; shape check and lookup of a decomposition) handed on every process an array that is not of the shape the operation takes there - a pencil of the other orientation or of another representation, the global array, an array off by one or reshaped - panics on that process instead of returning or delivering anything, and so does a root variant called off the root and a non-root variant called on the root. Calls whose arrays and roles fit are never refused, and exchanges after a refused call are unaffected by it.",
 ["inputs","histories"], "every operation, orientation, representation, wrong shape and role, process count, and every later operation",
 "Never executed by the tests; a missing check shows only with a wrong argument, and often only on some processes.",
 ["src/space_mpi/decomp2d/mod.rs","src/space_mpi/decomp2d/distribute.rs","src/space_mpi/space2.rs","src/space_mpi/decomp_handler.rs","src/internal_macros.rs"],
 [M("shape checks before communication","check_shape, check_array_axis"),M("role checks","gather_*/scatter_* root and non-root variants")],
 observe=["panic or return of every distributed call on every rank","results of the calls that follow"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
