#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=["src/sparse_ir/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)


I, H, C, S = 'inputs', 'histories', 'configurations', 'schedules'

prop('C01', "Kernel values equal the documented closed forms without overflow",
     "For every cutoff Lambda > 0 and every x, y in [-1, 1], the logistic kernel evaluates to "
     "exp(-Lambda*y*(x+1)/2)/(1+exp(-Lambda*y)) and the regularized bosonic kernel to "
     "y*exp(-Lambda*y*(x+1)/2)/(1-exp(-Lambda*y)) (continuously extended by 1/Lambda at y=0): always "
     "a finite, non-negative number, with the shape of the broadcast arguments, for scalars and "
     "arrays alike. Supplying 1+x and 1-x separately may only improve accuracy near the end points, "
     "never change the function. Points outside [-1, 1] (or NaN) are rejected, and the weight "
     "function of each kernel turns it into the analytic-continuation kernel of the requested "
     "statistics.",
     [I, C], "all x, y in the square, all Lambda, scalar and array arguments, with and without the "
     "separately supplied distances from the end points",
     "The tests sample a few Lambda and Gauss grids; overflow, sign and cancellation branches depend "
     "on the sign of y and on Lambda*y, over a continuum of points.",
     ['kernel.py', '_util.py'],
     [("LogisticKernel.__call__/_compute", "kernel.py"),
      ("RegularizedBoseKernel.__call__/_compute", "kernel.py"),
      ("weight_func", "kernel.py"), ("check_range", "_util.py")],
     ["kernel(x, y, x_plus, x_minus)", "kernel.weight_func(statistics)"])

prop('C02', "Even and odd reduced kernels are K(x,y) + K(x,-y) and K(x,y) - K(x,-y)",
     "Every kernel that declares itself centrosymmetric satisfies K(x,y) = K(-x,-y), and the kernel "
     "returned for the symmetrised (even, odd) ansatz equals K(x,y) + sign*K(x,-y) at every point of "
     "the quadrant x, y in [0, 1], including x=0, y=0 and values of Lambda*y*x beyond the overflow "
     "threshold. Asking for any other sign, or for the reduction of a reduced kernel, is rejected.",
     [I, C], "all x, y in [0,1], both signs, all Lambda, scalar and array arguments, both kernels "
     "and the generic fallback",
     "Tests compare on a Gauss grid to a tolerance relative to the maximum; the formulas switch branch "
     "on y and on the magnitude of the exponents.",
     ['kernel.py'],
     [("get_symmetrized", "kernel.py"), ("ReducedKernel.__call__", "kernel.py"),
      ("_LogisticKernelOdd.__call__", "kernel.py"), ("_RegularizedBoseKernelOdd.__call__", "kernel.py")],
     ["kernel.get_symmetrized(sign)(x, y)"])

prop('C03', "Discretisation segments form a valid symmetric grid of the kernel domain",
     "For every Lambda (up to 1e9) and accuracy target, the segments a kernel suggests for x and y start and end "
     "exactly at the ends of its domain, are strictly increasing and are mirror-symmetric about zero "
     "with zero included. For reduced kernels they are exactly the part at and above zero, and the "
     "suggested numbers of Gauss points and singular values are positive and do not decrease when a "
     "tighter accuracy is requested.",
     [C], "all 0 < Lambda <= 1e9 and accuracy targets",
     "Tests use three cutoffs; the number of segments grows with Lambda, and any ordering or symmetry "
     "flaw makes quadrature and SVE silently wrong.",
     ['kernel.py'],
     [("segments_x/segments_y/ngauss/nsvals", "kernel.py"), ("_SVEHintsReduced", "kernel.py")],
     ["kernel.sve_hints(eps).segments_x / segments_y / ngauss / nsvals"])

prop('C04', "Quadrature rule transformations preserve the rule they transform",
     "Rescaling, moving, splitting into pieces, joining and casting a quadrature rule gives, for "
     "every number of points and every set of edges, the affinely mapped nodes and weights: integrals "
     "over the union of pieces are the sum of those over the pieces, and nodes and pieces stay in "
     "ascending order. The stored distances of each node from the left and right end are those of the "
     "rule's own interval, also for nodes close to the ends. Unsorted edges, and joining pieces that do "
     "not touch, are rejected.",
     [I], "all rules (any n), all target intervals, all sequences of edges",
     "Tests use one or two orders and a handful of edges; the correctness of every SVE matrix rests on "
     "the affine bookkeeping for every piece.",
     ['_gauss.py'],
     [("Rule.reseat/scale/piecewise/join/astype", "_gauss.py"), ("NestedRule.reseat", "_gauss.py")],
     ["Rule.x, Rule.w, Rule.x_forward, Rule.x_backward, Rule.a, Rule.b"])

prop('C05', "Gauss-Legendre rules and Legendre collocation are exact",
     "For every number of points n the generated rule has n strictly increasing nodes inside (-1, 1), "
     "positive weights, and integrates every polynomial of degree below 2n exactly (to working "
     "precision), with the symmetry x -> -x. The Legendre collocation matrix turns values at the nodes "
     "into Legendre coefficients exactly, that is, it is the inverse of evaluation for polynomials of "
     "degree below n.",
     [I, C], "all n >= 1, all polynomials of degree < 2n (rule) and < n (collocation), both working "
     "precisions",
     "Tests try a few n with monomials; the three-term recurrence and Newton refinement run over "
     "all orders.",
     ['_gauss.py'],
     [("rule_from_recurrence/_recurrence/_polyvalderiv", "_gauss.py"), ("legendre", "_gauss.py"),
      ("legendre_collocation", "_gauss.py"), ("gauss_legendre recurrence coefficients", "_gauss.py")],
     ["_gauss.legendre(n)", "_gauss.legendre_collocation(rule)"])

prop('C06', "Piecewise polynomials evaluate the right segment for every argument",
     "Evaluating a piecewise Legendre polynomial at any x of its interval (scalar, array of any shape, "
     "integer or float) gives the expansion of the segment that contains x, normalised by "
     "sqrt(2/width), with function axes first and argument axes last, and the same value whether "
     "one function or all are evaluated. Knots belong to the segment on their right, except the last "
     "knot. Arguments outside the interval or NaN, data with NaN, and inconsistent knots are rejected.",
     [I], "all data, knots, argument shapes and values (knots, end points, interior)",
     "Tests evaluate one fixed random polynomial and basis functions at a few points; segment "
     "choice at knots and broadcasting hold for all sizes only by argument.",
     ['poly.py', '_util.py'],
     [("PiecewiseLegendrePoly.__call__/value/_split", "poly.py"),
      ("PiecewiseLegendrePoly.__init__", "poly.py"), ("check_range", "_util.py")],
     ["poly(x)", "poly.value(l, x)"])

prop('C07', "Derivatives and sub-selection of piecewise polynomials are consistent",
     "The n-th derivative object evaluates, at every interior point, to the n-th derivative of the "
     "piecewise polynomial, keeps the knots and flips the recorded parity for odd n. Selecting functions "
     "by integer, slice, list or mask (of a vector or an array of functions) gives exactly the selected "
     "functions with their own parity, and commutes with evaluation, differentiation and Fourier "
     "transformation; the original object is never changed.",
     [I, H], "all orders n, data, selections and chains of selection/differentiation",
     "Tests check first derivatives of one example and integer/slice indexing; composition over "
     "arbitrary chains and shapes is not sampled.",
     ['poly.py'],
     [("PiecewiseLegendrePoly.deriv/__getitem__", "poly.py"),
      ("PiecewiseLegendreFT.__getitem__", "poly.py")],
     ["poly.deriv(n)(x)", "poly[l](x)", "poly[l].symm"])

prop('C08', "Root search returns one accurate root per sign change of the grid",
     "Given any function and ascending grid, the root search returns, in ascending order, the grid "
     "points where the function vanishes and exactly one point inside each grid cell over which it "
     "changes sign; that point is bracketed by a sign change to within working precision (or is the last "
     "integer before the sign change for integer grids), and nothing else. Roots of a piecewise "
     "polynomial with declared parity are mirror-symmetric and include the midpoint when it is odd.",
     [I], "all functions, grids (float and integer), and piecewise polynomials with or without parity",
     "Tests check a cosine-like example and two basis functions; termination and bracketing of the "
     "bisection hold for all functions only through its invariant.",
     ['_roots.py', 'poly.py'],
     [("find_all/_bisect/_bisect_discr", "_roots.py"), ("roots", "poly.py")],
     ["_roots.find_all", "poly.roots()"])

prop('C09', "Discrete extrema search finds exactly the local extrema on the grid",
     "For any real function on an ascending integer grid, the extrema search returns, for every change of "
     "direction of the sampled function and in the order of the grid, one integer strictly inside the two grid "
     "cells around that change; if the magnitude of the function rises and then falls across those two cells, "
     "the magnitude there is not below that of either neighbouring integer. It further returns an end point of "
     "the grid exactly when the magnitude falls (or the sign changes) inward from it, and nothing else. The "
     "extrema of a Fourier-transformed basis function are reported at frequencies of the right parity and "
     "mirror-symmetric, or only the non-negative ones when asked.",
     [I], "all functions, all ascending integer grids",
     "Tests use one Bessel-like example; the bisection's slope convention and end-point rule apply to "
     "every grid.",
     ['_roots.py', 'poly.py'],
     [("discrete_extrema/_bisect_discrete_extremum", "_roots.py"),
      ("extrema/sign_changes/_symmetrize_matsubara", "poly.py")],
     ["_roots.discrete_extrema", "uhat.extrema()", "uhat.sign_changes()"])

prop('C10', "Fourier basis functions are the Fourier integrals of the time functions",
     "For every frequency index n of the statistics' parity, uhat(n) equals the integral over "
     "[0, beta] of exp(i*pi*n*tau/beta)*u(tau), for positive and negative n, up to the point where "
     "the asymptotic model takes over; uhat(-n) is its complex conjugate, and functions of definite "
     "parity give purely real or purely imaginary values. Wrong parity and non-integer frequencies "
     "are rejected, and scalars, vectors and arrays of frequencies give correspondingly shaped results.",
     [I, C], "all n, all piecewise polynomials (data, knots), both statistics, all argument shapes",
     "Tests compare a few frequencies at fixed tolerance; phases combine rounding to a nearest node "
     "with cyclic powers of i for every segment.",
     ['poly.py', '_util.py', 'basis.py'],
     [("PiecewiseLegendreFT.__call__", "poly.py"), ("_compute_unl_inner/_phase_stable/_shift_xmid",
                                                    "poly.py"),
      ("_get_tnl/_imag_power", "poly.py"), ("check_reduced_matsubara", "_util.py")],
     ["basis.uhat(n)"])

prop('C11', "High-frequency model is the asymptotic expansion from the end-point jumps",
     "The model used beyond the asymptotic cutoff equals, for every polynomial of definite parity and every "
     "number of moments, the finite sum over m of (-1)^(m+1) times the m-th derivative's jump across the period, "
     "over (i*pi*n/2)^(m+1) - the exact integration-by-parts series of the Fourier integral - with the "
     "zero frequency giving zero. The model is used exactly for |n| at or beyond the cutoff, and it joins "
     "the direct transform there to within the model's accuracy.",
     [I, C], "all polynomials with parity (-1)^l, all n != 0, all statistics",
     "Tests check three moments for two cutoffs; sign factors alternate with l, m and statistics.",
     ['poly.py'],
     [("_power_moments/_power_model/_derivs", "poly.py"), ("_PowerModel.giw", "poly.py"),
      ("PiecewiseLegendreFT.__call__ cutoff", "poly.py")],
     ["uhat(n) for |n| >= cutoff"])

prop('C12', "Overlap integrals equal the integral of function times basis function",
     "For any function and break points, the overlap of a piecewise polynomial with the function equals the sum over "
     "all segments of their integral, to the requested relative accuracy whenever the adaptive refinement "
     "converges, with a result of shape (function axes of the polynomial, axes of f). When refinement "
     "stops early a warning is issued and the result still contains the contribution of every segment.",
     [I], "all integrands (scalar or array valued), polynomials, tolerances and break points",
     "Tests integrate three smooth functions; which segments are accumulated, refined or given up "
     "depends on the integrand.",
     ['poly.py', '_gauss.py'],
     [("_compute_overlap", "poly.py"), ("overlap", "poly.py"), ("NestedRule", "_gauss.py")],
     ["poly.overlap(f, rtol=..., points=...)"])

prop('C13', "SVE truncation keeps exactly the leading singular triplets above the cutoff",
     "Truncating a set of singular value blocks keeps precisely the triplets whose value exceeds the "
     "relative cutoff times the overall largest value (strictly, but never the ones at or below), further "
     "limited to the requested number of largest ones overall (triplets tied with the first one left out are left out too), and keeps left and right vectors and values of "
     "each block aligned and in order. Selecting part of an SVE result by accuracy or size returns the leading "
     "functions with significance at or above the accuracy, at most that many. Invalid cutoffs or "
     "sizes are rejected.",
     [I], "all block counts and sizes, values in descending order (ties included), cutoffs and limits",
     "Tests use one kernel; ties, several blocks and limits interplay combinatorially.",
     ['sve.py'],
     [("_truncate", "sve.py"), ("SVEResult.part", "sve.py")],
     ["sve.compute(...)", "SVEResult.part(eps, max_size)"])

prop('C14', "SVE pre- and post-processing represents the kernel's singular functions",
     "The matrix handed to the SVD is the kernel sampled on the Gauss nodes weighted by square roots of "
     "the weights, and the functions rebuilt from its singular vectors are, on each segment, the "
     "polynomials that take the singular-vector values divided by square-root weights at the nodes; left and "
     "right functions stay paired. For symmetric kernels the merged result is in descending order, each "
     "function is the even or odd continuation of its half-interval part scaled by 1/sqrt(2), and each left "
     "function is positive at the right end point.",
     [I, C], "all kernels, rules (numbers of points and segments), singular vectors and block sizes",
     "Tests only compare the final basis against stored data for a few cutoffs.",
     ['sve.py', '_gauss.py', 'svd.py'],
     [("SamplingSVE.matrices/postprocess", "sve.py"), ("CentrosymmSVE.postprocess", "sve.py"),
      ("_canonicalize", "sve.py"), ("safe_epsilon", "sve.py")],
     ["sve.compute(kernel) -> u, s, v"])

prop('C15', "Basis functions are the kernel's singular functions scaled to beta and wmax",
     "For every beta, wmax and statistics, the basis functions satisfy u_l(tau) = sqrt(2/beta)*U_l(2*tau/beta - 1), "
     "v_l(w) = V_l(w/wmax)/sqrt(wmax) and s_l = sqrt(beta*wmax/2)*wmax^(-ypower)*S_l for one dimensionless expansion U, S, V, so that "
     "they are orthonormal on [0, beta] and [-wmax, wmax] and sum to wmax^(-ypower) times the dimensionless kernel. Significance is s_l/s_0, accuracy is its "
     "first omitted (or last) value, and beta, wmax, Lambda and statistics are reported consistently; invalid "
     "parameters (non-positive beta, negative wmax, unknown statistics, a kernel with another Lambda) are "
     "rejected.",
     [I, C], "all beta, wmax, statistics, kernels and requested accuracies",
     "Tests use a few (beta, wmax) pairs; the scaling powers are exercised only at a couple of values.",
     ['basis.py', 'kernel.py'],
     [("FiniteTempBasis.__init__", "basis.py"), ("significance/accuracy/properties", "basis.py")],
     ["basis.u, basis.v, basis.s, basis.uhat"])

prop('C16', "Truncated, sliced, rescaled and paired bases share the same functions",
     "A basis cut to its first k >= 1 functions has exactly min(k, size) functions, which coincide with the first ones "
     "of the original on u, v, uhat and s; a rescaled basis has the given beta with the same Lambda and the same "
     "dimensionless functions and size. Paired fermionic and bosonic bases, and basis sets, are equivalent to "
     "constructing each member separately with the same parameters. Non-leading or strided selections are rejected.",
     [I, H, C], "all sizes, slices, chains of truncation and rescaling, all statistics",
     "Tests slice one basis once; chains of selection and rescaling are histories no test walks.",
     ['basis.py', 'basis_set.py'],
     [("FiniteTempBasis.__getitem__/rescale", "basis.py"), ("finite_temp_bases", "basis.py"),
      ("FiniteTempBasisSet", "basis_set.py")],
     ["basis[:k]", "basis.rescale(beta)", "FiniteTempBasisSet attributes"])

prop('C17', "Default sampling points are valid, symmetric and sufficient",
     "For every basis the default time points are sorted, lie strictly inside (0, beta) (or within the basis interval) and are at "
     "least as many as the basis functions or a warning is issued; the default frequencies are sorted, distinct, of the right "
     "parity and mirror-symmetric (or non-negative only when asked), with zero included for bosons. Real-frequency "
     "points lie within [-wmax, wmax]; with the default settings the resulting sampling problems are well conditioned.",
     [C], "all statistics, Lambda, beta, basis sizes, requested numbers of points",
     "Tests check conditioning for two cutoffs; symmetry and parity are required for all.",
     ['basis.py'],
     [("default_tau_sampling_points/default_matsubara_sampling_points/default_omega_sampling_points",
       "basis.py"), ("_default_sampling_points/_default_matsubara_sampling_points/_fence_matsubara_sampling",
                     "basis.py")],
     ["basis.default_tau_sampling_points()", "basis.default_matsubara_sampling_points()"])

prop('C18', "Sampling evaluates the expansion at the sampling points along the given axis",
     "Evaluating coefficients through a sampling object gives, along the chosen axis and for every other axis unchanged, "
     "the sum over l of coefficient l times basis function l at each sampling point, in the order in which the points "
     "were given, for arrays of any rank, real or complex, and positive or negative axis. The object reports those "
     "points; a wrong axis length is rejected.",
     [I], "all coefficient arrays (rank, shape, dtype), axes, sampling points, both domains",
     "Tests use ranks up to four with one size; the index bookkeeping is for any rank.",
     ['sampling.py'],
     [("AbstractSampling.evaluate", "sampling.py"), ("TauSampling/MatsubaraSampling.__init__",
                                                     "sampling.py"),
      ("DecomposedMatrix.matmul/_matop_along_axis", "sampling.py")],
     ["sampling.evaluate(al, axis)", "sampling.sampling_points", "sampling.matrix"])

prop('C19', "Sampling fit is the least-squares solution along the given axis",
     "Fitting values at the sampling points returns, along the chosen axis, the coefficients minimising the "
     "sum of squared deviations at the points, hence recovers any coefficients exactly from their own evaluation, for "
     "arrays of any rank and any axis. With only non-negative frequencies stored the fit returns real coefficients that minimise the "
     "summed squared deviations there (real and imaginary parts; at zero only the real part). Condition number and "
     "matrix describe the same problem, and a badly conditioned problem triggers a warning.",
     [I], "all value arrays, axes, full-rank and rank-deficient matrices, complex and split problems",
     "Tests round-trip random data at one size; the optimality (normal equations) holds for all right-hand sides.",
     ['sampling.py'],
     [("AbstractSampling.fit", "sampling.py"), ("DecomposedMatrix.lstsq", "sampling.py"),
      ("SplitDecomposedMatrix.lstsq/_split_complex", "sampling.py")],
     ["sampling.fit(ax, axis)", "sampling.cond"])

prop('C20', "Discrete Lehmann representation is a sum over its poles in both domains",
     "DLR basis functions are, for every set of real poles, the single-pole Green's functions of the basis' statistics and kernel: "
     "in time, minus the kernel at the pole with the bosonic weight, in frequency, weight over (i*wn - pole), each the Fourier transform "
     "of the other. Converting IR coefficients to DLR and back, and evaluating either representation, "
     "agree to basis accuracy; scalar, array and sign/parity of arguments behave as for other bases.",
     [I, C], "all poles (including exactly zero), statistics, beta, wmax, arguments",
     "Tests use random poles at one temperature; a pole at zero and n=0 need the limit.",
     ['dlr.py'],
     [("DiscreteLehmannRepresentation", "dlr.py"), ("TauPoles.__call__/MatsubaraPoles.__call__",
                                                    "dlr.py"),
      ("from_IR/to_IR", "dlr.py")],
     ["dlr.u(tau)", "dlr.uhat(n)", "dlr.from_IR / to_IR"])

prop('C21', "Augmented basis prepends exact augmentation functions to the IR basis",
     "An augmented basis evaluates, in time and frequency, to the augmentation functions in order followed by the unchanged IR "
     "functions; each augmentation's frequency function is the Fourier transform of its time function "
     "(constant, linear) or the constant one, with the documented normalisation, for scalars and arrays, positive, "
     "negative and zero frequencies. Derivatives, selection of the leading functions, sizes, statistics and limits are "
     "those of the combined set, and bosonic-only terms are rejected for fermionic bases.",
     [I, C], "all beta, sets of augmentations, argument shapes and values, selections",
     "Tests evaluate a fit with two augmentations; derivative, frequency transform and slicing are barely run.",
     ['augment.py'],
     [("AugmentedBasis", "augment.py"), ("AugmentedTauFunction/AugmentedMatsubaraFunction",
                                         "augment.py"),
      ("TauConst/TauLinear/MatsubaraConst", "augment.py")],
     ["augmented.u(tau)", "augmented.uhat(n)", "augmented[:k]"])

prop('C22', "The irbasis adapter reproduces the same singular functions and transforms",
     "Through the irbasis-compatible interface, u_l(x), v_l(y), s_l and d_u_l/d_v_l are those of the dimensionless "
     "expansion for every index and point (scalars and arrays), and the frequency transform for fermions and bosons is the "
     "integral over x in [-1, 1] of u_l(x) exp(i*pi*(n+zeta/2)*(x+1))/sqrt(2). Sampling points are consistent: sorted, "
     "one sign-alternation interval per point, and conversions between Matsubara conventions agree.",
     [I, C], "all l, x, y, n, derivative orders, both statistics",
     "Tests compare with stored irbasis data for one Lambda.",
     ['adapter.py'],
     [("Basis.ulx/vly/sl/d_ulx/d_vly/compute_unl", "adapter.py"),
      ("sampling_points_x/y/matsubara", "adapter.py")],
     ["adapter.Basis methods"])

prop('C23', "Function objects are pure: results do not depend on other calls or objects",
     "Evaluating basis functions, Fourier transforms, kernels, sampling objects or models gives the same result "
     "whatever other objects were used before, concurrently, or through stored bound methods, and never changes its "
     "arguments or the object. In particular a stored bound method keeps evaluating the object it was taken from.",
     [H, S, I], "all interleavings of calls on several objects, stored bound methods, threads",
     "Tests never interleave two objects through stored methods; shared descriptor or cache state shows only in "
     "particular histories.",
     ['_util.py', 'poly.py', 'sampling.py', 'kernel.py'],
     [("RavelArgumentDecorator", "_util.py"), ("in-place arithmetic on arguments", "poly.py")],
     ["f = basis.uhat.__call__; f(n)"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
