"""Writes properties.jsonl and MANIFEST.json for the checks that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
I = "src/ripplegw/__init__.py"
W = "src/ripplegw/waveforms/"
D, DU, QNM = W + "IMRPhenomD.py", W + "IMRPhenomD_utils.py", W + "IMRPhenomD_QNMdata.py"
X, XU = W + "IMRPhenomXAS.py", W + "IMRPhenomX_utils.py"
T, N, NU = W + "TaylorF2.py", W + "IMRPhenomD_NRTidalv2.py", W + "IMRPhenom_tidal_utils.py"
P, PU, SG = W + "IMRPhenomPv2.py", W + "IMRPhenomPv2_utils.py", W + "SineGaussian.py"
F, NS, CO = "src/ripplegw/FD_waveform.py", "src/ripplegw/noise.py", "src/ripplegw/constants.py"
NB = "the existing tests are notebooks that run without looking at the numbers in detail, at a handful of parameter values"

# id, title, statement, quantifier text, why, files, mechanisms, level note, [over]
PROPS = [
 ("C01", "Mass conversions invert each other and order the masses",
  "Converting component masses to chirp mass and symmetric mass ratio and back returns the same masses, the larger first; the chirp mass and symmetric mass ratio are (m1 m2)^(3/5)/(m1+m2)^(1/5) and m1 m2/(m1+m2)^2. The symmetric mass ratio never exceeds 1/4 and the returned masses are positive and sum to the total mass.",
  "all positive component masses up to ratio 1:20000", "real-valued inputs; " + NB, [I],
  [("Mc_eta_to_ms", I), ("ms_to_Mc_eta", I)]),
 ("C02", "Tidal parameter conversions are published formulae and mutual inverses",
  "The conversion of individual deformabilities to the two combined tidal parameters follows the published formulae, and converting back returns the individual deformabilities. The variants taking component masses and taking the mass ratio agree, and equal-mass equal-deformability binaries have combined parameters (lambda, 0).",
  "all deformabilities in [0, 1e4] and mass ratios from 1:9 to 1", "real-valued inputs; " + NB, [I],
  [("lambdas_to_lambda_tildes", I), ("lambda_tildes_to_lambdas", I), ("the two *_from_q variants", I)]),
 ("C03", "Effective spin, ISCO frequency and constants are the physical ones",
  "The effective spin is the mass-weighted mean of the spins, lies between them, and is unchanged by exchanging the bodies or scaling the masses. The ISCO frequency is c^3/(6^(3/2) pi G m), and every physical constant has its CODATA/IAU value and is consistent with the others.",
  "all masses, spins and scale factors", "real-valued inputs; " + NB, [I, CO], [("get_chi_eff", I), ("get_f_isco", I), ("constants", CO)]),
 ("C04", "Samplers respect ranges and ordering for every random draw",
  "Every sampled pair lies within the requested ranges, and for the mass sampler the first entry is never smaller than the second and the pair consists of one value of each range. Both ends of every range can be approached, rows are independent draws, and the key matters.",
  "all ranges and all random bits", "the draws are sampled by tests, if at all; the guarantee is about every draw", [I],
  [("get_m1_m2_sampler", I), ("get_M_eta_sampler", I)]),
 ("C05", "FFT padding has the documented lengths on every uniform grid",
  "For a uniform grid of frequencies k0*df, ..., k1*df the two padding arrays are zeros of lengths k0 and k1-2, whatever the rounding of the grid values. A grid that is unevenly spaced or whose ends are not multiples of the spacing causes a warning.",
  "all integers k0, spacings df and rounding errors", "rounding makes the lengths wrong only on some spacings, e.g. 0.1 Hz", [I], [("get_eff_pads", I)]),
 ("C06", "Phase-maximised inner product: definition, bound, symmetries",
  "The phase-maximised inner product is the modulus of the noise-weighted overlap over the norms; it is at most 1, is 1 for a waveform with itself (also when a time shift is undone by the time argument), is symmetric, and does not change when a waveform is rescaled or rephased or the PSD is rescaled. The interface taking amplitude and phase functions gives the value of the interface taking arrays, the first waveform's functions serving as default for the second.",
  "all complex strains, positive PSDs, frequencies and time shifts at up to 4 grid points", "an inequality over all complex vectors; " + NB, [I],
  [("get_phase_maximized_inner_product_arr", I), ("get_phase_maximized_inner_product", I)]),
 ("C07", "FFT match is the maximum over all discrete time shifts",
  "The match of two strains is the maximum, over the N discrete time shifts of the padded grid, of the modulus of the noise-weighted overlap over the norms, which is the phase-maximised inner product at those shifts. It is symmetric, 1 for a waveform with itself, and unchanged by rescaling and rephasing; the interface taking functions agrees with the one taking arrays.",
  "all complex strains and positive PSDs at up to 4 padded grid points", "holds for all vectors and shifts; " + NB, [I], [("get_match_arr", I), ("get_match", I)]),
 ("C08", "Tabulated noise curves interpolate their data files",
  "Each tabulated noise PSD is, at every frequency of its file's range, the linear interpolation of the file's (squared, where the file holds amplitudes) values, and +inf outside the range and where the file says the noise is infinite, never nan. The advertised frequency range is the range of the file.",
  "all frequencies, for the six curves", "tests evaluate no PSD off its grid", [NS, "src/ripplegw/noise_resources"], [("_load_noise", NS)]),
 ("C09", "LIGO-I noise curve is the published formula above 40 Hz, infinite below",
  "The LIGO-I PSD is 9e-46 ((4.49 x)^-56 + 0.16 x^-4.52 + 0.52 + 0.32 x^2) with x = f/150 Hz above 40 Hz and +inf at and below 40 Hz.",
  "all frequencies up to 20 kHz", "no test evaluates it", [NS], [("Sn_LIGOI", NS)]),
 ("C10", "Polarizations depend on inclination as the dominant mode does",
  "For every aligned-spin model the plus polarization is (1+cos^2 iota)/2 times and the cross polarization -i cos(iota) times the model's strain at the same remaining parameters. In particular face-on the two have equal modulus and edge-on the cross polarization vanishes.",
  "all masses, spins, tidal parameters, distances, times, phases, inclinations and frequencies, in every region of the models", "a relation over a continuous parameter space with many regions; " + NB, [D, X, T, N], [("gen_*_hphc", W)]),
 ("C11", "Strain is inversely proportional to distance",
  "Multiplying the distance by k divides every polarization of every model by k and changes nothing else.",
  "all parameters and frequencies, all k in [1e-3, 1e3]", "a relation over a continuous parameter space; " + NB, [D, X, T, N, P], [("distance scaling of the amplitude", W)]),
 ("C12", "Coalescence time acts as a pure time shift",
  "Adding a to the coalescence time multiplies every polarization of every model by exp(-2 pi i f a), the same convention for all models. The modulus of the strain does not depend on it.",
  "all parameters, frequencies and shifts, in every region of the models", "a relation over a continuous parameter space; " + NB, [D, X, T, N, P], [("ext phase contribution", W)]),
 ("C13", "Coalescence phase acts as a constant phase factor",
  "Adding a to the coalescence phase multiplies every polarization of every aligned-spin model by exp(2 i a), the same convention for all models.",
  "all parameters, frequencies and phases, in every region of the models", "a relation over a continuous parameter space; " + NB, [D, X, T, N], [("ext phase contribution", W)]),
 ("C14", "Reference frequency only sets the overall phase",
  "Changing the reference frequency multiplies the strain by a unit-modulus factor that is the same at every frequency. At the reference frequency the phase of the strain is the coalescence phase, up to the model's constant and the time term.",
  "all parameters and pairs of frequencies and reference frequencies", "a relation over a continuous parameter space; " + NB, [D, X, T, N], [("reference phase subtraction", W)]),
 ("C15", "Total mass only sets the scale of time and amplitude",
  "Multiplying the masses by s, the times by s and dividing the frequencies by s multiplies the strain of every model by s^2 and changes nothing else.",
  "all parameters, frequencies and scale factors, in every region of the models", "a relation over a continuous parameter space; " + NB, [D, X, T, N, P], [("geometric units", W)]),
 ("C16", "TaylorF2 is the published post-Newtonian expansion",
  "The TaylorF2 strain equals the published 3.5PN stationary-phase expansion with spin and tidal terms, with its overall amplitude, phase offset and both forms of tidal parameters.",
  "all masses, spins, tidal parameters and frequencies", "agreement with the formula at every input; " + NB, [T], [("gen_TaylorF2, get_3_5PN_phase, get_6PN tidal terms", T)]),
 ("C17", "IMRPhenomD is the published model",
  "The IMRPhenomD strain, its phase and amplitude in every region and their transitions, equals the reference model (inspiral, intermediate and merger-ringdown ansatz with the calibrated coefficients, ringdown fits) for every input.",
  "all masses, spins and frequencies, in every region", "agreement with the model at every input and region; " + NB, [D, DU, QNM], [("phase and amplitude ansatz", D), ("coefficients and connections", DU)]),
 ("C18", "IMRPhenomXAS is the published model",
  "The IMRPhenomXAS strain equals the reference model (inspiral, intermediate and ringdown ansatz with the calibrated coefficients) for every input.",
  "all masses, spins and frequencies, in every region", "agreement with the model at every input and region; " + NB, [X, XU], [("phase and amplitude ansatz", X), ("fits", XU)]),
 ("C19", "IMRPhenomD_NRTidalv2 is the published tidal extension of IMRPhenomD",
  "The NRTidalv2 strain equals the reference model: IMRPhenomD amplitude plus tidal amplitude, IMRPhenomD phase plus tidal and spin-induced terms, and the Planck taper from the merger frequency, for every input and both forms of tidal parameters.",
  "all masses, spins, tidal parameters and frequencies, in every region", "agreement with the model at every input and region; " + NB, [N, NU], [("tidal amplitude, phase, taper", N), ("universal relations", NU)]),
 ("C20", "IMRPhenomPv2 is the published twisted-up model",
  "The IMRPhenomPv2 polarizations equal the reference model: IMRPhenomD in the co-precessing frame with the modified final spin, twisted up by the precession angles and Wigner elements, for every input.",
  "all masses, spin vectors, inclinations and frequencies", "agreement with the model at every input; " + NB, [P, PU], [("twist-up", P), ("angles, parameters, final spin", PU)]),
 ("C21", "Phase and its slope are continuous across the model regions",
  "The phase of IMRPhenomD and IMRPhenomXAS and its derivative with respect to frequency are continuous at every border between the inspiral, intermediate and merger-ringdown phase regions, for all masses and spins.",
  "all masses and spins", "the border frequencies depend on the parameters, so that a grid never hits them", [D, X], [("connection coefficients", D), ("connection coefficients", X)]),
 ("C22", "Planck taper is smooth, monotone and bounded",
  "The taper is 1 up to and including the merger frequency, exactly 0 from 1.2 times it on, and in between decreases from 1 to 0 by the published window, which depends on the ratio of the frequencies only. Its custom derivatives are the derivatives of its value and zero outside the window.",
  "all frequencies and merger frequencies", "extreme arguments overflow the naive formula only close to the ends", [N], [("get_planck_taper", N)]),
 ("C23", "Universal relations and kappa follow the published fits and limits",
  "The spin-induced quadrupole and octupole of a body follow the published universal relations for every deformability; they take the black-hole value at zero deformability, are never below 1, and are continuous at the junction of the two fits. The tidal constant kappa is the published combination of masses and deformabilities, 3/16 of the combined tidal parameter, and symmetric in the bodies.",
  "all deformabilities in [0, 1e4]", "a fit evaluated at every input; " + NB, [NU], [("get_quadparam_octparam", NU), ("get_kappa", NU)]),
 ("C24", "Precession geometry of IMRPhenomPv2 is consistent",
  "The conversion of masses and spin vectors to the source-frame parameters preserves the aligned components and moduli, is equivariant under a rotation of the spins about the orbital axis by shifting the azimuth only, and the precession parameter is non-negative, bounded and zero exactly without in-plane spins. The spherical harmonics and Wigner elements are normalised.",
  "all masses, spin vectors, inclinations and phases", "a relation over a continuous parameter space; " + NB, [PU], [("convert_spins, WignerdCoefficients, SpinWeightedY", PU)]),
 ("C25", "SineGaussian waveform is the published burst",
  "The SineGaussian polarizations are Gaussian-windowed cosine and sine pieces with the requested quality factor, frequency, phase, eccentricity and root-sum-square strain, for every input.",
  "all amplitudes, quality factors, frequencies, phases, eccentricities and times", "no test evaluates it", [SG], [("gen_SineGaussian_hphc", SG)]),
 ("C26", "Dispatcher gives the waveform of the named model",
  "The waveform looked up by name is the waveform generator of that model, with the same arguments and results, and an unknown name is an error.",
  "all names and all arguments", "a relation over all inputs; no test calls the dispatcher with every name", [F], [("generate_waveform", F)]),
 ("C27", "Limits and equivalent parametrisations of the models agree",
  "With zero tidal deformabilities IMRPhenomD_NRTidalv2 has the modulus of IMRPhenomD (without taper, and with taper below merger), and for non-spinning bodies it is the same complex strain. Tidal parameters given as the combined pair or as the equivalent individual pair give the same IMRPhenomD_NRTidalv2 and TaylorF2 strain. IMRPhenomPv2 called by chirp mass and mass ratio equals IMRPhenomPv2 called by the component masses.",
  "all masses, spins, deformabilities and frequencies", "a relation over a continuous parameter space; " + NB, [N, T, D, P], [("tidal corrections", N), ("tidal corrections", T), ("gen_IMRPhenomPv2_hphc", P)]),
 ("C28", "The value at a frequency does not depend on the rest of the grid",
  "For every model the strain at a frequency is the same whichever grid of frequencies it belongs to, in whichever order, spacing and size, with or without repetitions, and under vectorisation (vmap) over parameters: every output entry is a function of its own frequency and parameters only.",
  "all parameters and grids of up to three frequencies", "grid-dependent behaviour only shows on grids crossing particular frequencies", [D, X, T, N, P], [("element-wise evaluation", W)]),
 ("C29", "The strain is finite for every physical input",
  "For every model, every division, root and logarithm is defined and the strain is a finite number for every physical input, including equal masses, zero and aligned spins, and zero deformabilities; beyond its cutoff the strain is exactly zero.",
  "all physical parameters and frequencies", "the undefined points are isolated: equal masses after rounding, exactly aligned spins, region boundaries", [D, X, T, N, P], [("guards", W)]),
 ("C30", "Derivatives of the strain are finite and are the derivatives",
  "The derivative of the strain with respect to each parameter computed by automatic differentiation is finite and equals the derivative of the strain inside every region of the models.",
  "all parameters and frequencies inside the regions", "derivatives fail at isolated points of branches not taken", [D, X, T, N, P], [("differentiability of the implementation", W)]),
 ("C31", "Exchanging the bodies of an equal-mass binary changes nothing",
  "For equal masses, exchanging the spins (and the tidal deformabilities; with the combined tidal parameters, the sign of the difference parameter) of the two bodies leaves the strain and both polarizations of every aligned-spin model unchanged.",
  "all spins, deformabilities and frequencies", "a relation over a continuous parameter space; " + NB, [D, X, T, N], [("combinations of the spins of the two bodies", D), ("combinations of the spins of the two bodies", X), ("sums over the bodies", N), ("sums over the bodies", T)]),
]

TECH = "symbolic execution of the real functions' jaxpr; canonicalisation with SMT (z3) decisions over the whole input box; counterexamples replayed on the real code"
TECHS = {"C05": "symbolic execution with symbolic rounding errors; SMT (z3) over all integers and errors; counterexamples replayed"}
NOTES = {}
NA = []


def meta(pid):
    from vf.run import meta as f
    return f(pid)


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, "checks", p[0].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            pid, title, st, q, why, files, mech = p[:7]
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": q},
                                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    checks = []
    for p in have:
        pid = p[0]
        m = meta(pid)
        note = m["EXPLAIN"] + ". Values are reals (equality up to 1e-9 in the decision, 1e-6 in replays, unless stated); the jaxpr interpreter is validated against the real code at drawn points on every run. Outside: " + \
            m.get("OUTSIDE", "inputs outside the listed boxes; floating-point rounding")
        checks.append({"property": pid, "quick_cmd": f"./run {pid}", "thorough_cmd": f"./run {pid} --thorough",
                       "technique": TECHS.get(pid, TECH), "level": m["LEVEL"], "level_note": note})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, \".\"); import vf.smt, jax, z3; print(z3.get_version_string())'",
           "checks": checks, "not_applicable": NA,
           "notes": "Checks trace the functions of /repo/src on every run; nothing is cached between runs. See DESIGN.md and KNOWN_FINDINGS.txt."}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(have), "properties")


main()
