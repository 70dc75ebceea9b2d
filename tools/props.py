"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/microjax/"
PS, MP, PO, CO = S + "point_source.py", S + "multipole.py", S + "poly_solver.py", S + "coeffs.py"
IR, CA, FL = S + "inverse_ray/", S + "caustics/", S + "fastlens/"
P = []


def add(id, title, statement, over, text, why, files, mech, tech, note, obs=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs or [], hook_needed=None),
                  tech=tech, note=note))


add("P01", "Image positions are complete, sound and correctly signed",
    "For every one-, two- or three-lens system and every source position, the images reported as real are exactly the solutions of the lens equation, each once, with no spurious and no missing one. The lens map and the Jacobian determinant evaluated at any image-plane point equal the analytic expressions of the documented lens configuration.",
    ["inputs", "configurations"], "all lens systems (masses, separations, azimuth) and all source positions away from the caustic by more than the documented root-acceptance tolerance",
    "The tests evaluate a few fixed systems and compare magnifications; image count and completeness must hold over a continuum of configurations and source positions.",
    [PS, CO, PO], [("polynomial coefficients", CO), ("root acceptance by lens-equation residual", PS + ": _images_point_source"), ("lens map and Jacobian", PS + ": lens_eq, lens_eq_det_jac")],
    "runtime monitor: online oracle (independent image solver, parity theorem)", "Exploration of thousands of lens systems; every image set judged by an independent solver with ambiguity detection.")
add("P02", "Point-source magnification equals the true magnification",
    "The point-source magnification of one, two or three lenses equals the sum of inverse Jacobian determinants over all true images, for every configuration and source position, in the centre-of-mass frame the documentation promises. It is never below one and tends to one far from the lenses.",
    ["inputs", "configurations"], "all lens systems and sources not within the root-acceptance tolerance of a caustic",
    "Tests compare one trajectory for one or two systems; the guarantee is over all parameters including equal masses, heavy companions, unit separation and any azimuth.",
    [PS, CO, PO], [("sum over accepted images", PS + ": mag_point_source"), ("frame shift to the centre of mass", PS + ": mag_point_source")],
    "runtime monitor: differential oracle (independent solver, VBBinaryLensing, VBMicrolensing)", "Exploration; strict pointwise verdicts in the documented-accuracy domain, quantile verdicts outside.")
add("P03", "Point-source magnification respects the symmetries of lensing",
    "Reflecting the configuration, relabelling the lenses, turning the third lens by full turns, or flipping the sign of its radius with half a turn never changes the magnification. A third (or second) lens of vanishing mass leaves the magnification of the remaining lenses.",
    ["inputs", "configurations"], "all systems, all relabellings/reflections and source positions",
    "Metamorphic relations relate pairs of executions over a continuum; no test compares relabelled or reflected systems.",
    [PS, CO], [("coefficients symmetric in the lenses", CO), ("frame shift", PS + ": mag_point_source")],
    "runtime monitor: metamorphic relations between executions", "Exploration; no reference code needed, only the code against itself.")
add("P04", "Critical curves and caustics are complete and exact",
    "Every returned critical point has vanishing Jacobian determinant, every caustic point is the lens-map image of its critical point, and together they cover every branch of the critical curve in the documented frame. This holds for all topologies and any sampling density.",
    ["inputs", "configurations"], "all 1-3 lens systems in close, resonant and wide topologies, all sampling densities",
    "Tests look at one system; branch completeness depends on topology and on root tracking for every phase.",
    [PS, CO, PO], [("critical polynomial", CO), ("phase sweep", PS + ": critical_and_caustic_curves")],
    "runtime monitor: pointwise residual oracle + coverage against dense independent sampling", "Exploration over random and corner systems.")
add("P05", "Warm-started image tracking agrees with solving each point alone",
    "Along any trajectory, the images obtained by continuing from the previous point are the same set as those obtained by solving each point independently: none are lost or invented when images are created or destroyed. The history of visited points never influences the result.",
    ["histories", "inputs"], "all trajectories (lines, axes, jumps, reversals, single points) through any system",
    "A history property: an error appears only after particular sequences of source positions, such as entering a caustic along a symmetry axis.",
    [PS, PO], [("scan carrying roots as initial guesses", PS + ": _images_point_source_sequential")],
    "runtime monitor: trace oracle judging each epoch of a recorded trajectory", "Exploration of trajectories; every epoch judged against an independent solver.")
add("P06", "Polynomial roots are complete with multiplicity",
    "The root finder returns all roots of any polynomial with nonzero leading coefficient, each with its multiplicity, to backward-stable accuracy. The result does not depend on batching, on scaling by a constant or on the initial guess.",
    ["inputs"], "all coefficient vectors up to degree ten with roots below 1e7, any batch shape and initial guess",
    "Tests try random complex polynomials; structured ones (real, conjugate, clustered, circular, zero roots) break simultaneous iterations in ways random ones do not.",
    [PO], [("simultaneous iteration", PO + ": poly_roots"), ("Cauchy bound start", PO)],
    "runtime monitor: backward-error oracle over structured generators", "Exploration over eleven families of polynomials and all degrees 1-10.")
add("P07", "Derivatives of point-source magnification and roots are exact",
    "Forward- and reverse-mode derivatives of the point-source magnification with respect to every source coordinate and lens parameter equal the true derivatives, are finite wherever the magnification is smooth, and agree with each other. Derivatives of polynomial roots equal the implicit-function derivatives.",
    ["inputs", "configurations"], "all parameters, all smooth points, both differentiation modes",
    "Tests check a single gradient; custom derivative rules can be wrong for particular parameters or degenerate inputs only.",
    [PS, PO], [("implicit derivative rule of the roots", PO + ": custom_jvp"), ("magnification", PS)],
    "runtime monitor: Richardson finite differences of an independent solver", "Exploration; difference quotients only count when self-consistent.")
add("P08", "Multipole expansion equals the disc average of the magnification",
    "For a source of small enough radius the quadrupole/hexadecapole approximation equals the (linearly limb-darkened) disc average of the true point-source magnification up to sixth order in the radius, for one, two or three lenses. Its reported error indicator bounds are finite and the zero-radius limit is the point-source magnification.",
    ["inputs", "configurations"], "all systems, source positions outside caustics, radii, limb-darkening coefficients 0..1",
    "The tests use single parameter sets; derivative terms of each lens are exercised only when its mass and azimuth matter.",
    [MP, PS], [("derivatives of the potential and expansion", MP + ": mag_hexadecapole")],
    "runtime monitor: quadrature oracle with order-of-convergence arbitration", "Exploration; differences must shrink with the sixth power of the radius.")
add("P09", "Image-centred ray shooting gives the uniform-source magnification",
    "The finite-source magnification of a uniform disc lensed by a binary agrees with the true value for every separation, mass ratio, source radius and position, including sources on caustics, on the lenses and covering several images. The error vanishes as the resolution grows.",
    ["inputs", "configurations"], "all binaries (including mass ratios above one), radii 1e-3..0.5, all source positions; resolution and limb sampling as configured",
    "Tests run two trajectories; failures occur at isolated geometries (images touching the polar origin, rings closing on themselves, merged angular intervals).",
    [IR + "extended_source.py", IR + "merge_area.py", IR + "boundary.py"], [("polar integration with cubic crossing", IR + "extended_source.py: mag_uniform"), ("region construction", IR + "merge_area.py")],
    "runtime monitor: differential oracle (contour-integration code) with convergence arbitration", "Exploration; a deviation counts only when it persists at higher resolution and denser limb.")
add("P10", "Image-centred ray shooting gives the limb-darkened magnification",
    "The finite-source magnification of a linearly limb-darkened disc lensed by a binary equals the brightness-weighted true value for all coefficients between zero and one, and reduces to the uniform magnification at zero.",
    ["inputs", "configurations"], "all binaries, radii, positions and limb-darkening coefficients in [0,1]",
    "One coefficient and one trajectory are tested; the boundary smoothing and brightness profile must be right for all of them.",
    [IR + "extended_source.py", IR + "limb_darkening.py", IR + "boundary.py"], [("limb-darkened integrand", IR + "extended_source.py: mag_limb_dark"), ("boundary factor", IR + "boundary.py: calc_facB")],
    "runtime monitor: differential oracle (annulus quadrature of contour code) with convergence arbitration", "Exploration.")
add("P11", "Triple-lens finite-source magnification is right in every engine",
    "For three lenses of arbitrary azimuth both finite-source engines give the true magnification of uniform and limb-darkened discs, in the same documented frame.",
    ["inputs", "configurations"], "all well-separated triple systems, radii and positions; uniform and limb-darkened",
    "Tests only check that the triple path runs or agrees on one system; parameters of the third lens enter many places separately.",
    [IR + "extended_source.py", IR + "lightcurve.py", CA + "lightcurve.py", CA + "extended_source"], [("triple parameter conversion", IR + "extended_source.py"), ("contour solver", CA + "extended_source")],
    "runtime monitor: differential oracle (VBMicrolensing) with convergence arbitration", "Exploration.")
add("P12", "Refinement budget, batching and ordering never change a value",
    "In a finite-source light curve each point's value is either its full finite-source magnification or its multipole value, returned at its own index: the points failing the accuracy test are refined in order up to the stated budget and never more. The number of points, their order, the budget and the chunk size change nothing else.",
    ["inputs", "configurations", "schedules"], "all light curves, budgets 0..>N, chunk sizes dividing N or not, permutations of the points",
    "An accounting property over combinations of budget, chunk, length and ordering; the tests use one combination.",
    [IR + "lightcurve.py", CA + "lightcurve.py"], [("reordering and scatter of refined points", IR + "lightcurve.py: mag_binary"), ("padding to chunks", IR + "lightcurve.py")],
    "runtime monitor: exactly-once / conservation accounting of refined indices", "Exploration of schedules; each value matched to the only two admissible values.")
add("P13", "Accepted multipole values are accurate",
    "Whenever the light-curve routines decide that the multipole approximation suffices for a point, it agrees with the true finite-source magnification at that point. In particular no source touching or close to a caustic, central or planetary, is ever accepted with a wrong value.",
    ["inputs", "configurations"], "all binaries with mass ratio from 1e-5 to 1e5, radii 1e-4..0.3 and all source positions",
    "False acceptances occupy tiny regions near cusps and planetary caustics that sampled light curves never visit.",
    [IR + "cond_extended.py", IR + "lightcurve.py", CA + "lightcurve.py"], [("caustic proximity, cusp and ghost-image tests", IR + "cond_extended.py: _caustics_proximity_test"), ("planetary caustic test", IR + "cond_extended.py: _planetary_caustic_test")],
    "runtime monitor: differential oracle on every accepted point, adversarial sampling near caustics", "Exploration of ~1e5 stress points per run.")
add("P14", "Contour integration gives the uniform-source magnification",
    "The contour-integration engine gives the true uniform-source magnification for binaries of any mass ratio, outside, crossing and inside caustics.",
    ["inputs", "configurations"], "all binaries, radii and source positions in the moderate-magnification regime",
    "Segment stitching has combinatorially many cases (open, closed, cusp crossings); tests reach a few.",
    [CA + "extended_source", CA + "integrate.py", CA + "lightcurve.py"], [("segment construction and merging", CA + "extended_source"), ("line integral", CA + "integrate.py")],
    "runtime monitor: differential oracle (VBBinaryLensing)", "Exploration; restricted to the regime where the documented method applies, failures outside are pinned.")
add("P15", "Contour integration gives the limb-darkened magnification",
    "The contour engine's limb-darkened magnification, and every branch its light curves take (multipole or contour), equals the brightness-weighted true magnification for any coefficient; with coefficient zero it equals the uniform one.",
    ["inputs", "configurations"], "all coefficients in [0,1], radii, positions, one to two lenses",
    "Only one coefficient is tested; branch selection depends on position.",
    [CA + "lightcurve.py", CA + "integrate.py"], [("limb-darkening quadrature", CA + "integrate.py"), ("branch selection", CA + "lightcurve.py: magnifications")],
    "runtime monitor: differential oracle (annulus quadrature of VBBinaryLensing)", "Exploration.")
add("P16", "Derivatives of finite-source magnifications match finite differences",
    "Automatic derivatives of finite-source light curves with respect to every source and lens parameter exist, are finite, are the same in forward and reverse mode, and match the slope of the true magnification to the accuracy of the documented smoothing of the source limb (exactly, for contour integration, while the source touches no caustic). Evaluating under differentiation changes the value by no more than that smoothing.",
    ["inputs", "configurations"], "all parameters (trajectory, radius, separation, mass ratio, third lens), caustic crossings included",
    "Tests check finiteness at most; custom derivative rules of the boundary handling are only right if all inputs are covered.",
    [IR + "boundary.py", IR + "extended_source.py", IR + "lightcurve.py"], [("custom derivative of the in-source indicator", IR + "boundary.py: in_source"), ("boundary factor", IR + "boundary.py")],
    "runtime monitor: finite differences of an independent code", "Exploration.")
add("P17", "Image-plane regions cover every image of the source exactly once",
    "The integration regions built from the images of the source limb contain every image of every source point and do not overlap, for any topology: separate images, rings, images around the origin or across the angular cut.",
    ["inputs", "configurations"], "all lens systems, radii, source positions, bin counts and margins",
    "Clustering in radius and angle has many branches; tests feed hand-made histograms.",
    [IR + "merge_area.py"], [("radial and angular clustering", IR + "merge_area.py: define_regions"), ("interval merging", IR + "merge_area.py: _merge_final")],
    "runtime monitor: coverage/overlap oracle on constructed regions", "Exploration with independent image positions.")
add("P18", "Finite-source engines agree with each other and with their limits",
    "Ray-shooting and contour engines agree on the same configuration in the same frame, tend to the point-source magnification as the source shrinks, are unchanged by reflection and by relabelling the lenses, and approach the single-lens result when the companion vanishes.",
    ["inputs", "configurations"], "all configurations reachable by both engines",
    "Relational: needs pairs of executions in different engines or mirrored configurations.",
    [IR + "lightcurve.py", CA + "lightcurve.py", MP], [("frame conventions", IR + "lightcurve.py"), ("frame conventions", CA + "lightcurve.py")],
    "runtime monitor: metamorphic and cross-engine relations", "Exploration.")
add("P19", "Fast single-lens extended-source magnification is accurate",
    "The Fourier-based single-lens magnification equals the true brightness-weighted magnification for uniform, linear and square-root-like profiles at any impact parameter and radius in range, is at least one, and its JAX and reference implementations agree.",
    ["inputs", "configurations"], "all impact parameters (zero, inside, at, outside the limb, far), radii and limb-darkening coefficients",
    "Tests look at one radius; the small-source extrapolation and the limb region are separate regimes.",
    [FL + "mag_fft.py", FL + "mag_fft_jax.py"], [("Hankel convolution", FL + "mag_fft.py"), ("small-source branch", FL + "mag_fft_jax.py")],
    "runtime monitor: direct quadrature oracle + implementation parity", "Exploration.")
add("P20", "Discrete Hankel transforms are faithful",
    "The logarithmic Hankel transform reproduces analytic transform pairs for every order and every bias for which the biased function and its transform vanish at the ends of the grid, is linear, inverts itself, and its JAX and reference implementations agree for every length, padding and window option.",
    ["inputs", "configurations"], "all supported orders, biases, lengths, paddings, windows",
    "Option combinations multiply; tests run one.",
    [FL + "fftlog.py", FL + "fftlog_jax.py"], [("kernel and FFT", FL + "fftlog.py"), ("JAX port", FL + "fftlog_jax.py")],
    "runtime monitor: analytic-pair oracle, inversion and parity relations", "Exploration.")
add("P21", "Special functions and their derivatives are accurate",
    "Bessel, complete elliptic and complex gamma functions agree with reference implementations over their documented domain for scalars and arrays, and their derivatives are the analytic ones and finite, including at the removable singular points.",
    ["inputs"], "all arguments in the documented domains, scalar and array inputs",
    "Tests sample a few arguments; series boundaries and m=0 need dense coverage.",
    [FL + "special.py"], [("elliptic integrals with custom derivatives", FL + "special.py"), ("Bessel and gamma series", FL + "special.py")],
    "runtime monitor: reference-library oracle on dense and boundary samples", "Exploration.")
add("P22", "Marginalised likelihood equals the analytic marginal",
    "The negative log-likelihood marginalised over source and blend flux equals, up to the documented constant, the exact Gaussian marginal for any data, uncertainties and priors; it is invariant to reordering of the data and finite for degenerate magnifications.",
    ["inputs"], "all data vectors, uncertainties, prior widths and magnification curves",
    "Tests use one data set; the constant, priors and degenerate cases matter for every data set.",
    [S + "likelihood.py"], [("closed-form marginalisation", S + "likelihood.py: nll_ulens")],
    "runtime monitor: dense Gaussian-covariance oracle", "Exploration.")
add("P23", "Linear flux fit is the least-squares optimum",
    "The flux fit returns the weighted least-squares source and blend fluxes, their chi-square and uncertainties for any data; no other flux pair has smaller chi-square, and rescaling flux or errors rescales the answers accordingly.",
    ["inputs"], "all data vectors, scalar or per-point errors, nearly degenerate designs",
    "Optimality is a universally quantified statement; tests check one data set.",
    [S + "likelihood.py"], [("normal equations", S + "likelihood.py: linear_chi2")],
    "runtime monitor: optimality and least-squares oracle", "Exploration.")
add("P24", "Parallax vanishes at the reference time and is geometrically consistent",
    "The annual-parallax displacement of a trajectory and its rate vanish at the reference time for every sky position, is linear in the parallax vector, rotates consistently, and turning parallax off gives the rectilinear trajectory.",
    ["inputs", "configurations"], "all sky positions (poles and ecliptic included), reference times, event times and parallax vectors",
    "Tests use one target and time.",
    [S + "trajectory/parallax.py"], [("Earth orbit and projection", S + "trajectory/parallax.py")],
    "runtime monitor: structural relations between executions", "Exploration.")
add("P25", "Parallax displacement matches independent ephemerides",
    "The parallax displacement agrees with independent computations of the Earth's heliocentric motion projected on the sky (another code and an astronomical ephemeris) for any date and any target, to the accuracy of a Kepler orbit anchored on tabulated perihelion and equinox epochs (better than one per cent of the displacement). With user-supplied orbital elements it is exact two-body motion.",
    ["inputs", "configurations"], "all targets and dates within decades of the present",
    "A sign or axis error can vanish for a particular target or season; tests check one.",
    [S + "trajectory/parallax.py"], [("orbital elements and Kepler equation", S + "trajectory/parallax.py")],
    "runtime monitor: differential oracle (Kepler integration, astropy, VBMicrolensing)", "Exploration.")
add("P26", "Masked-array helpers ignore padding and match points one-to-one",
    "First/last non-zero lookups, trapezoidal integration with zero padding, minimum over non-zero entries and greedy closest-point matching return what a direct scalar computation over the non-padded entries returns, for every shape (vectorised, multi-dimensional), and a matching never uses a point twice.",
    ["inputs"], "all input shapes and values",
    "Not covered by tests.", [S + "utils.py"], [("helpers", S + "utils.py")],
    "runtime monitor: contract oracle", "Exploration.")
add("P27", "Results are independent of batching, compilation and neighbours",
    "The value computed for a source point does not depend on the other points in the batch, on array shape, on compilation or vectorisation, on process history or on repeating the call; inputs are never modified.",
    ["inputs", "schedules", "histories"], "all batch shapes and permutations, compiled or interpreted or vectorised, in any call order",
    "A relation between executions under different schedules; tests call each function once.",
    [PS, MP, IR + "lightcurve.py", CA + "lightcurve.py", FL + "mag_fft_jax.py"], [("vectorised masks instead of branches", PS), ("map and chunked map", IR + "lightcurve.py")],
    "runtime monitor: differential replays of the same call under different schedules", "Exploration.")
add("P28", "No out-of-range read reaches a result; outputs are always finite",
    "No element read outside an array ever influences the result of any engine, and the outputs and point-source and ray-shooting derivatives of every engine are finite for all valid inputs, on axes, caustics and cusps, at the origin and at any radius.",
    ["inputs", "configurations"], "all engines, systems, radii and positions",
    "JAX silently clamps out-of-range indices and propagates NaN; tests cannot see either.",
    [PS, IR + "merge_area.py", IR + "extended_source.py", CA + "extended_source"], [("fixed-size buffers with masks", CA + "extended_source"), ("fixed number of regions", IR + "merge_area.py")],
    "runtime sanitizer: primitive-level re-execution with poisoned out-of-range reads, index counters and NaN checks", "Exploration under sanitizer instrumentation.")

NOT_APPLICABLE = []

if __name__ == "__main__":
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: p[k] for k in keys}) + "\n")
    man = dict(version=1, setup_cmd="true",
               checks=[dict(property=p["id"], quick_cmd="./run.sh %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % p["id"],
                            technique=p["tech"], level="exploration", level_note=p["note"]) for p in have],
               not_applicable=NOT_APPLICABLE,
               notes="No hooks in /repo: the monitors observe through the Python API. Shared runner: vlib/core.py. Repairs are the fix: commits in /repo.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(have), "properties")
