#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, pathlib
P, A, G, C, S = ("src/PythonicDISORT/pydisort.py", "src/PythonicDISORT/_assemble_intensity_and_fluxes.py",
                 "src/PythonicDISORT/_solve_for_gen_and_part_sols.py", "src/PythonicDISORT/_solve_for_coeffs.py",
                 "src/PythonicDISORT/subroutines.py")
out = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


prop("C01", "Outputs solve the discrete-ordinate radiative transfer problem",
     "For every accepted atmosphere the returned intensity, its azimuthal mean, and the upward, downward-diffuse and direct fluxes equal, at every depth and azimuth, the solution of the (delta-M scaled) discretised radiative transfer equation for the given layers, beam, boundary sources, reflecting surface and internal source. This holds for every combination of those ingredients, including layers that do not scatter, scatter isotropically, are very thin or very thick, and for any number of layers, streams, phase-function moments and azimuthal modes.",
     ["inputs", "configurations"],
     "All combinations of the input features (layer count, streams, moments, modes, optical profiles, beam, boundary sources, surface, internal source, delta-M), all depths and azimuths.",
     "The tests compare about 40 fixed problems with stored DISORT output at 1e-2..1e-3; combinations of features (e.g. non-scattering layer + beam + surface + internal source + truncated moments + banded solver) are not reached, nor are errors below their tolerance.",
     [P, G, C, A, S], [("delta-M scaling and source rescaling", P), ("eigen-decomposition and particular solutions", G), ("coefficient matching (dense and banded)", C), ("assembly of intensity and fluxes", A), ("particular solution of internal source", S)],
     ["return values of pydisort: mu_arr, Fp, Fm, u0, u"])
prop("C02", "Boundary sources, surface reflection and interface continuity",
     "In every azimuthal mode the downward diffuse intensity at the top equals the prescribed top source, and the upward intensity at the bottom equals the prescribed bottom source plus the reflection, by the given surface reflectance mode, of the downward diffuse intensity and of the attenuated direct beam. Intensity, its azimuthal mean and the fluxes are continuous across every layer interface.",
     ["inputs", "configurations"], "All boundary source shapes (scalar, per-direction, per-direction-and-mode), all reflectance lists (constant, functions, mixed, fewer or more modes than used, cached), all layer counts and solver choices.",
     "Tests use scalar boundary sources and a few reflectances and never look at the boundary equations themselves; per-mode boundary sources are not tested at all.",
     [C, P], [("assembly of right- and left-hand sides at top, interfaces, bottom", C), ("classification of boundary source shapes", P)], ["u, u0, Fp, Fm at tau = 0, interfaces and the bottom"])
prop("C03", "Fluxes are moments of the intensity and energy balances everywhere",
     "At every depth the diffuse fluxes are the cosine-weighted hemispheric moments of the azimuthally averaged intensity (plus, downward, the reclassified delta-M peak), the azimuthal mean of the uncorrected intensity is the zeroth mode, and the direct flux is the unscaled beam attenuated exponentially. Over any depth interval the drop of total net flux equals the radiation absorbed minus the radiation emitted there.",
     ["inputs", "configurations"], "All accepted configurations and all depth intervals inside the atmosphere.",
     "Tests compare each output with stored values; no test relates outputs to each other or evaluates an energy budget.",
     [A, P], [("flux functions", A), ("reclassification of the delta peak", A), ("Kirchhoff factor on the internal source", P)], ["Fp, Fm, u0, u"])
prop("C04", "Antiderivative outputs integrate their functions over depth",
     "For every output that offers an antiderivative (intensity with or without corrections, its azimuthal mean, upward, downward-diffuse and direct flux, actinic fluxes, interpolated intensities), the difference of the antiderivative between any two depths inside one layer equals the integral of the function between them. It holds in every layer, for arrays of depths spanning several layers, with any mix of sources and delta-M scaling.",
     ["inputs", "configurations"], "All outputs x all configurations x all pairs of depths within a layer, scalar and vector calls.",
     "The only antiderivative test uses one single-layer problem and scalar depths.",
     [A, P, S], [("antiderivative branches of u, u0 and the fluxes", A), ("antiderivatives of TMS and IMS corrections", P), ("antiderivative of the internal-source solution", S)], ["f(tau, is_antiderivative_wrt_tau=True)"])
prop("C05", "Splitting a layer into identical sublayers changes nothing",
     "Replacing any layer by several consecutive layers with the same optical properties and the same total optical depth leaves the intensity (with or without Nakajima-Tanaka corrections), azimuthal mean, fluxes and actinic fluxes unchanged at every depth. The number of sublayers, the split points and the linear solver they imply do not matter.",
     ["inputs", "configurations"], "All layers of all configurations, all split positions from a finite menu, splits that cross the banded-solver threshold.",
     "One test compares one homogeneous atmosphere against identical layers; heterogeneous atmospheres, internal sources, corrections and the solver threshold are not covered.",
     [C, A, P], [("interface conditions", C), ("layer lookup and per-layer scaling", A), ("layer sums in the TMS correction and layer averages in the IMS correction", P)], ["u, u0, Fp, Fm, actinic fluxes"])
prop("C06", "Solver options and input representation do not change the answer",
     "The dense and the banded solver, flux-only and full mode, and automatic-differentiation mode on or off give the same results. Equivalent ways to write an input (scalar or constant vector or single-mode matrix boundary source, number or constant function or cached reflectance, scalars, lists, integer or non-contiguous arrays, defaults given explicitly, trailing zero coefficients) give the same results.",
     ["configurations", "inputs"], "All configurations x all option and representation pairs.",
     "Each test fixes one set of options; results of two option settings on the same problem are almost never compared.",
     [P, C, A, S], [("banded threshold", C), ("only_flux / autograd_compatible branches", A), ("input normalisation", P), ("BDRF caching", S)], ["all returned functions"])
prop("C07", "Outputs are linear in the sources",
     "For a fixed atmosphere the diffuse outputs are the sum of those obtained from the beam, the top source, the bottom source and the internal source separately. Multiplying all sources by a positive factor, however small or large, multiplies every output by it, and without sources every output is zero.",
     ["inputs", "configurations"], "All configurations, all subsets of sources, scale factors over many orders of magnitude.",
     "Tests never combine runs; the internal rescaling of sources depends on which source is largest and is only sampled.",
     [P, A], [("rescaling of sources", P), ("rescale factor on outputs", A)], ["Fp, Fm, u0, u, actinic fluxes"])
prop("C08", "Solving and evaluating are pure and history-independent",
     "The result of any solve, evaluation or helper call depends only on its arguments: whatever sequence of calls came before, in any order, including failed calls and reused or modified argument arrays, the same call gives the same result. No call modifies its arguments or global numerical state, and a returned solution is unaffected by later changes to the input arrays, to arrays it returned, or by other solves.",
     ["histories"], "All call sequences up to a bounded length over an alphabet of solves, evaluations, helper calls, argument mutations and failing calls.",
     "Tests call each function once in a fixed order; they do not look at arguments afterwards and cannot see state that leaks between calls.",
     [P, A, S, C, G], [("closures over solver results", A), ("copies of inputs", P), ("module-level state: none intended", S)], ["all public functions; argument arrays; numpy error state, warnings, RNG"])
prop("C09", "Concurrent use from several threads equals sequential use",
     "When threads solve problems concurrently or evaluate the output, interpolation and actinic-flux functions of one shared solution concurrently, every call returns what it would return alone, for every interleaving. No interleaving deadlocks or raises.",
     ["schedules"], "All interleavings of two threads up to a preemption bound, at source-line granularity.",
     "The test suite is single-threaded.",
     [A, S, P], [("no shared mutable state between calls", A), ("interpolation objects created per call", S)], ["all functions returned by pydisort, interpolate, generate_diff_act_flux_funcs"])
prop("C10", "Array evaluation equals pointwise evaluation, with documented shapes",
     "Evaluating any output on arrays of depths and azimuths gives, at each position, the value of evaluating it at that depth and azimuth alone, in any order, with repeats, at interfaces and both ends, for arrays of any length. Result axes follow direction, depth, azimuth in that order with length-one axes dropped, and depth-only outputs have the size of the depth argument.",
     ["inputs", "configurations"], "All depth/azimuth argument shapes and orders from a finite menu x all output functions x all configurations.",
     "Tests evaluate on one sorted grid per problem.",
     [A, P, S], [("layer lookup by depth", A), ("unique-layer indexing", A), ("squeeze of outputs", P)], ["u, u0, Fp, Fm, interpolated and actinic functions"])
prop("C11", "Invalid inputs are rejected and boundary-valid inputs are accepted",
     "Every call whose arguments break a documented requirement (non-positive depths or thicknesses, albedo outside [0,1), moments outside (-1,1), wrong numbers of streams, moments or modes, mismatched lengths or shapes, invalid beam, fractions outside [0,1), beam on a node with corrections, depths outside the atmosphere, bad quadrature or spline or interpolation arguments) raises a value error rather than returning numbers. Calls at the edge of the allowed ranges are accepted.",
     ["inputs"], "Every requirement x every position at which it can be violated x every base configuration; every boundary-valid value.",
     "No test passes an invalid argument.",
     [P, A, S], [("input checks", P), ("depth range checks", A), ("helper input checks", S)], ["exceptions of pydisort, of the returned functions and helpers"])
prop("C12", "Nakajima-Tanaka corrections equal their definition and touch only intensity",
     "With corrections on, the intensity equals the delta-M solution plus the single-scattering (TMS) correction, accumulated layer by layer with each layer's own phase function, plus the secondary (IMS) correction in downward directions from thickness-weighted layer averages. The fluxes and azimuthal mean are unaffected, and the corrections vanish when there is no beam, no delta-M peak, no scattering or no extra phase-function moments.",
     ["inputs", "configurations"], "All configurations with corrections on, all depths and azimuths.",
     "Tests with corrections compare a few problems with stored values at 1e-2 relative; heterogeneous multi-layer corrections are effectively unchecked.",
     [P], [("TMS correction", P), ("IMS correction", P), ("activation condition", P)], ["u with NT_cor, Fp, Fm, u0"])
prop("C13", "Interpolation in direction reproduces and extends the intensity",
     "The interpolated function agrees with the intensity (or its azimuthal mean) at every quadrature direction and, in each hemisphere separately, is the polynomial in the direction cosine through the node values, for all depths and azimuths, with directions in any order and of either sign. Flags for antiderivative, Fourier error and layer depths are passed through unchanged, and directions outside [-1,1] are rejected.",
     ["inputs", "configurations", "histories"], "All configurations x direction argument shapes x flags x call sequences on one interpolant.",
     "Interpolation is used once in the tests, on one problem, without flags.",
     [S], [("interpolate", S)], ["interpolate(u), interpolate(u0)"])
prop("C14", "Automatic differentiation gives the true depth derivative",
     "In automatic-differentiation mode, differentiating any output with respect to depth gives, inside every layer, the derivative of that output, for scalar and array depths, with any sources, delta-M scaling and corrections. The derivative of an antiderivative output is the output itself.",
     ["inputs", "configurations"], "All outputs x configurations x interior depths.",
     "No test differentiates more than one problem's outputs, and none against an independent derivative for all outputs.",
     [A, P, S], [("autograd_compatible branches", A), ("autograd branches in corrections", P), ("autograd branch of the internal-source solution", S)], ["autograd.jacobian of u, u0, Fp, Fm"])
prop("C15", "Fourier error is the largest relative size of the last azimuthal term",
     "The optional convergence measure equals the maximum, over directions, depths and azimuths asked for, of the magnitude of the last azimuthal term divided by the magnitude of the uncorrected intensity. It is returned in the documented position next to unchanged values, for scalar and array arguments, all layers, with or without a beam, and in antiderivative mode.",
     ["inputs", "configurations"], "All configurations x depth/azimuth arguments x flag combinations.",
     "No test requests the measure.",
     [A, P], [("return_Fourier_error branch", A), ("pass-through with corrections", P)], ["u(..., return_Fourier_error=True, return_tau_arr=...)"])
prop("C16", "Thermal helpers are correct and thermal equilibrium is exact",
     "The thermal helper functions give the Planck radiance, its band integral at boundaries, and per-layer linear source coefficients that take the band-integrated value at both edges of each layer. An atmosphere whose internal source, surface emission (by Kirchhoff's law) and boundary illumination all correspond to one temperature has that blackbody intensity in every direction at every depth, whatever the scattering, delta-M scaling, layering and surface reflectance.",
     ["inputs", "configurations"], "All temperatures/bands of a finite menu, all optical configurations and surfaces.",
     "Thermal tests compare stored DISORT values for a few profiles; the equilibrium state is never checked.",
     [S, P, C], [("Planck, blackbody_contrib_to_BCs, generate_s_poly_coeffs", S), ("Kirchhoff factor and internal source solution", P), ("emissivity from reflectance", S)], ["helpers; u, Fp, Fm"])
prop("C17", "Quadrature and differentiation helpers are exact to their order",
     "Gauss-Legendre and Clenshaw-Curtis rules of every size on every interval have nodes inside the interval in order, positive weights summing to its length, and integrate every polynomial up to their degree exactly. The finite-difference matrix differentiates quadratics exactly at every grid point including the ends.",
     ["inputs"], "All sizes up to a bound x all monomials up to the degree x a menu of intervals.",
     "No test calls these helpers on their own.",
     [S], [("Gauss_Legendre_quad, Clenshaw_Curtis_quad, generate_FD_mat", S)], ["helper return values; mu_arr returned by pydisort"])
prop("C18", "Azimuthal and vertical symmetries hold",
     "Rotating the beam azimuth rotates the intensity by the same angle, the intensity is even and 2*pi-periodic in azimuth relative to the beam (and axisymmetric when no source depends on azimuth), and fluxes and azimuthal mean do not depend on azimuth. Without beam and surface, turning the atmosphere upside down (reversed layers, swapped boundary sources, reflected internal source) exchanges upward and downward intensity and flux.",
     ["inputs", "configurations"], "All configurations x a menu of rotations; all beam-free configurations.",
     "Tests check values of single problems and never transform a problem.",
     [G, C, A], [("Fourier synthesis in azimuth", A), ("block structure of the eigenproblem", G), ("top/bottom conditions", C)], ["u, u0, Fp, Fm"])
prop("C19", "Actinic fluxes are the hemispheric sums of the mean intensity",
     "The upward and downward diffuse actinic fluxes equal 2*pi times the quadrature sum of the azimuthal-mean intensity over the hemisphere, the downward one plus the part of the beam that delta-M scaling moved into the direct beam. This holds for every source magnitude, layer, depth argument and for the antiderivative, and layer depths are returned on request.",
     ["inputs", "configurations"], "All configurations x depth arguments x flags.",
     "No test exercises actinic fluxes with delta-M scaling, several layers or other than unit beams.",
     [S, A], [("generate_diff_act_flux_funcs", S), ("actinic reclassification in u0", A)], ["generate_diff_act_flux_funcs(u0)"])
prop("C20", "Reflectance utilities: caching is transparent, emissivity obeys Kirchhoff",
     "Caching reflectance modes, with or without a fixed beam angle, gives the same solutions as the uncached modes for every mix of constants and functions and every number of streams; with a fixed beam angle, repeated solves never call the original functions again. The emissivity derived from a reflectance is one minus the hemispheric reflectance of each outgoing direction.",
     ["inputs", "configurations", "histories"], "All lists of up to three constant/function modes, all stream counts of the menu, with and without beam, repeated solves.",
     "Tests never use cached reflectances with beams of several kinds, nor two streams, nor reuse a cache.",
     [S, C], [("cache_BDRF_Fourier_modes, generate_emissivity_from_BDRF", S), ("BDRF terms", C)], ["pydisort outputs with cached modes; emissivity values"])
prop("C21", "Small algebra helpers do exactly what they document",
     "Prepending, interval and weight transforms, scattering-angle cosines, appended-dimension views, linear splines, affine substitution in polynomials, and conversion to diagonal-ordered form give the documented values and shapes for every argument size, including single elements and empty bands. The diagonal-ordered form solves to the same answer as the dense matrix.",
     ["inputs"], "All argument sizes up to a bound over a small value alphabet.",
     "No test calls these helpers directly.",
     [S], [("prepend, transform_interval, transform_weights, calculate_nu, atleast_2d_append, linear_spline_coefficients, affine_transform_poly_coeffs, to_diag_ordered_form", S)], ["helper return values"])
prop("C22", "Accepted inputs never produce NaN, infinity or negative fluxes",
     "For every accepted input, however thin or thick the layers, close to conservative the scattering, strong the forward peak, weak or partial the sources, all outputs at all depths are finite. With non-negative sources and phase functions that stay non-negative after truncation, the fluxes are non-negative and, without internal emission, no more flux leaves the atmosphere than enters it.",
     ["inputs", "configurations"], "All extreme-value combinations of a finite menu over layers and sources.",
     "Tests contain no extreme values in multi-layer mode and never look for non-finite output.",
     [P, C, A, G], [("exponentials with non-positive arguments only", C), ("rescaling of sources", P), ("shortcuts for non-scattering layers", G)], ["all outputs"])
prop("C23", "Inputs that cannot matter do not matter",
     "Parameters without physical effect do not influence the result: beam angles when there is no beam (the azimuth still being the origin of azimuth-dependent boundary sources), moments beyond those used (without corrections), phase function and peak fraction of a layer that does not scatter, beam azimuth and number of azimuthal modes for the fluxes and azimuthal mean, reflectance modes beyond those solved, and, for the fluxes, higher reflectance and boundary modes. Truncating the azimuthal series leaves each retained mode unchanged.",
     ["inputs", "configurations"], "All configurations x all irrelevant-parameter changes.",
     "Tests never vary one parameter of a problem to check that nothing changes.",
     [P, G, C, A], [("feature guards", P), ("mode-by-mode solution", G), ("layer-wise treatment", C)], ["u, u0, Fp, Fm"])
prop("C24", "Any slab solved on its own reproduces the whole atmosphere",
     "Cutting a slab out of an atmosphere between any two depths and solving it as a problem of its own (the azimuthal modes of the intensity at its faces as boundary sources, the beam attenuated down to it, the same internal source, the surface only if it contains the bottom) gives the intensity, mean intensity, upward and total downward flux of the whole atmosphere at every depth of the slab. The position of the cuts relative to the layers does not matter.",
     ["inputs", "configurations"], "All configurations x a menu of cuts at interfaces and inside layers.",
     "No test feeds outputs of one solve into another; it must hold for all inputs and cuts.",
     [P, C, A, G], [("boundary sources of every shape, per mode", C), ("beam and internal source referred to the top", P), ("solution between interfaces", A), ("particular solutions", G)], ["u, u0, Fp, Fm"])
prop("C25", "Reciprocity, and a beam along a stream equals light sent in along it",
     "For every atmosphere (over a surface that is symmetric in its directions) the weighted response at the top in direction i to light entering in direction j equals the response in j to light entering in i, in every azimuthal mode; likewise for reflection at the bottom and between the two transmissions without surface. A beam along a quadrature direction gives the same diffuse light as the equivalent boundary source in that direction, apart from the beam itself, and the same total fluxes.",
     ["inputs", "configurations"], "All configurations x all directions x both faces x all azimuthal modes.",
     "Tests never compare responses to different sources.",
     [G, C, A], [("eigenproblem symmetric in its directions", G), ("boundary and surface matrices", C), ("azimuthal modes and beam", A)], ["u, Fp, Fm"])
prop("C26", "Delta-M scaling is a change of variables",
     "Declaring a forward-peak fraction gives the same intensity, mean intensity, upward flux and total downward flux as transforming thickness, albedo, moments and internal source beforehand and declaring none, at the transformed depths. Adding a further peak to the phase functions of any layers and declaring it changes nothing either.",
     ["inputs", "configurations"], "All configurations x a menu of fractions in all, first, last or alternating layers.",
     "Tests use single problems with one fraction and stored output.",
     [P, A], [("delta-M scaling of thickness, albedo, moments, source", P), ("depth scaling of the outputs", A)], ["u, u0, Fp, Fm"])
prop("C27", "Delicate inputs are warned about, ordinary ones are not",
     "A solve issues a user warning for each documented delicate input that is present (a zeroth moment other than one, an albedo or a used moment very close to one after scaling, more than 64 azimuthal modes of intensity, more than ten source coefficients, caching without a valid beam angle) in whatever layer or combination, and none otherwise. The results with a warning are those of the (corrected) problem.",
     ["inputs", "configurations"], "All configurations x all subsets of delicate inputs x first/last layer x both sides of each threshold.",
     "Tests never look at warnings.",
     [P, S, A], [("value checks and warnings", P), ("cache_BDRF_Fourier_modes, _mathscr_v warnings", S), ("evaluation of the outputs", A)], ["warnings issued by pydisort, the outputs and cache_BDRF_Fourier_modes"])
prop("C28", "Light is bounded by its sources and grows with scattering and reflection",
     "For phase functions that stay non-negative after truncation, adding light (beam, top, bottom or internal source), raising a layer's albedo (without internal source), raising the surface reflectance by a constant, or appending a scattering layer below a black surface never lowers the mean intensity, the upward, the total downward or the actinic fluxes at any depth. Without a beam the mean intensity is non-negative and never exceeds the largest of the top source, the internal source and the bottom source divided by one minus the reflectance.",
     ["inputs", "configurations"], "All configurations x all single increases of light, scattering and reflection.",
     "Tests compare single problems with stored output and never relate two atmospheres.",
     [G, C, A], [("eigenproblem and particular solutions", G), ("boundary conditions", C), ("flux and mean intensity functions", A)], ["u0, Fp, Fm, actinic fluxes"])
prop("C29", "The comparison helper reports every deviation where it is",
     "Comparing results with stored reference results returns, for each flux and (when the intensity is given) for each selected direction, depth and azimuth, the absolute difference and its ratio to the reference (zero where the reference is zero), with directions reordered and selected as asked. A deviation in any single entry is reported in that entry and in no other, the printed maxima are those of the returned arrays, and the stored results are left as they were.",
     ["inputs"], "All single positions of a deviation x sizes x zero patterns x direction orders and selections.",
     "The tests rely on this helper and cannot notice if it overlooks a deviation.",
     [S], [("_compare", S)], ["_compare return values and printed maxima"])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(o) + "\n" for o in out))
print(len(out))
