"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
U = "src/lamberthub/"
SOLV = [U+"ecc_solvers/avanzini.py", U+"ecc_solvers/utils.py", U+"p_solvers/battin.py", U+"p_solvers/gauss.py", U+"p_solvers/jiang.py", U+"p_solvers/pan.py", U+"regularization/delatorre.py", U+"series_solvers/thorne.py", U+"universal_solvers/arora.py", U+"universal_solvers/der.py", U+"universal_solvers/gooding.py", U+"universal_solvers/izzo.py", U+"universal_solvers/mcelreath.py", U+"universal_solvers/negrete.py", U+"universal_solvers/vallado.py"]
ANG, ASS, ELE, KEP, STU, LIN = (U+"utils/"+x for x in ("angles.py", "assertions.py", "elements.py", "kepler.py", "stumpff.py", "../linalg.py"))
LIN = U+"linalg.py"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["(v1, v2) returned by a solver"], "hook_needed": None}})

p("C01", "Both terminal velocities lie on one Kepler orbit through r1 and r2",
  "Whenever any of the fourteen solvers returns (v1, v2), the states (r1, v1) and (r2, v2) belong to one and the same two-body orbit about mu: same angular momentum vector, same energy, same eccentricity vector (up to rounding and the requested tolerance). In particular both velocities lie in the plane of r1 and r2, and the orbit that starts at r1 with v1 passes through r2.",
  ["inputs"], "every valid mu, r1, r2, tof, M, direction, path, maxiter, atol and rtol, and every orbit type (elliptic, near-parabolic, hyperbolic), for every solver",
  "The suite compares each solver with a handful of published cases at a loose tolerance; it never sees most branches (hyperbolic gauss, retrograde or long-way transfers of most solvers, multi-revolution high paths).",
  SOLV+[ANG, LIN], [("velocity reconstruction of each solver", "the last statements of every solver function and its reconstruct helpers"), ("get_transfer_angle", ANG)])
p("C02", "The returned orbit takes the requested time of flight",
  "With tight tolerances, and for geometries that are not nearly collinear, a trajectory returned by any solver for M revolutions needs the requested time of flight to go from r1 to r2 in the requested direction, including exactly M complete revolutions (relative error below 1e-6 for atol=1e-10, rtol=1e-12). An answer with a different number of revolutions, or a flight time that is off by a period, is never returned.",
  ["inputs"], "every valid mu, r1, r2, tof, M, direction and path, over elliptic, near-parabolic and hyperbolic transfers, for every solver",
  "Each test fixes one tof per geometry; the time equation has several branches per solver (orbit type, near-parabolic series, sign of the transfer angle, number of revolutions) that fixed cases do not reach.",
  SOLV+[STU, KEP], [("time-of-flight equation of each solver", "e.g. _tof_equation_y (izzo), tlamb (gooding), _tof_elliptic/_tof_hyperbolic (der), _compute_tof (arora), kepler_tof_at_S (thorne)")])
p("C03", "The transfer turns in the requested direction",
  "When is_prograde is True the angular momentum of the returned trajectory has a positive Z component, and when it is False a negative one, for every solver and every pair of position vectors whose plane is not polar. The direction never depends on M, on the path requested, on the tolerances or on the time of flight.",
  ["inputs"], "every non-collinear r1, r2 whose orbital plane does not contain the Z axis, both directions, short and long way, every tof and M, for every solver",
  "Nearly every published case is prograde and short way; the retrograde and long-way branches of most solvers are not sampled.",
  SOLV+[ANG], [("get_transfer_angle, get_orbit_normal_vector", ANG), ("sign choices in each solver", "e.g. it1/it2 in izzo, sigma in der, the two sign constants in jiang and arora")])
p("C04", "Invalid input is refused with ValueError by every solver",
  "Every solver raises ValueError, before doing any computation with them, when mu or tof is zero or negative, when M is negative, when r1 or r2 is not a three-component vector or is the null vector, or when r1 equals r2. Inputs that satisfy these conditions are never refused by the validation.",
  ["inputs"], "every combination of arguments violating exactly one or several of the conditions, in any position, for every solver",
  "The tests call the validation helpers directly with one bad value each; they do not establish that every solver applies every check to every argument (one used to validate r1 twice, one none at all).",
  SOLV+[ASS], [("assert_parameters_are_valid and its helpers", ASS), ("first statement of each solver", "every solver function")])
p("C05", "A revolution count is honoured or refused",
  "A solver that only handles direct transfers (gauss, battin, jiang, pan, thorne, avanzini, vallado) raises ValueError for every M > 0, and never answers with a direct transfer instead. A multi-revolution solver (gooding, der, arora, izzo, negrete, mcelreath, delatorre) raises ValueError when the time of flight is shorter than the fastest M-revolution transfer, and never reports a clearly feasible request as infeasible.",
  ["inputs"], "every M >= 0 and every tof, below and above the minimum time of the M-revolution transfer, for every solver",
  "Tests use M=0 and M=1 at one or two geometries, and never approach the boundary of feasibility.",
  SOLV, [("refusal of M > 0", "start of the single-revolution solvers"), ("minimum-time computation", "e.g. _compute_T_min (izzo), tlamb/vlamb (gooding), _compute_minimum_time (der)")])
p("C06", "Collinear geometry is refused, never answered with NaN",
  "When r1 and r2 are parallel or opposite, so that the orbital plane is undefined, every solver raises an exception (ValueError or RuntimeError). No solver returns a velocity with a NaN or infinite component for any valid input.",
  ["inputs"], "every pair of exactly parallel or antiparallel vectors at any scale, and every valid input",
  "The tests check single geometries on the coordinate axes; the refusal has to hold for every vector and its multiples, and NaN freedom for every input.",
  SOLV+[ANG, ASS], [("assert_transfer_angle_not_zero, assert_transfer_angle_not_pi", ASS), ("collinear branch of get_transfer_angle", ANG)])
p("C07", "An unconverged iteration is never returned as an answer",
  "If a solver's stopping criterion (atol, rtol) is not met within maxiter iterations, the solver raises an exception; it never returns the last iterate silently. Every solver stops after a number of iterations bounded by maxiter, whatever the input, instead of looping forever.",
  ["inputs"], "every input, every maxiter >= 1 and every tolerance, including budgets far too small and problems where the method diverges, for every solver",
  "Tests only provoke exhaustion with one geometry per solver, if at all; loops without an exhaustion check return the last iterate silently on the inputs nobody tried.",
  SOLV, [("for/else and while/raise at the end of each iteration", "every root finder: _householder (izzo), _xlamb_iter (gooding), _solve_*_jit (der), secant (avanzini), the loops in gauss, battin, vallado, jiang, arora, delatorre, mcelreath")], observe=["exception or (v1, v2) of a solver called with a small maxiter"])
p("C08", "Solvers are pure: arguments untouched, results repeatable",
  "No solver or utility function modifies its arguments, and none keeps state between calls: the same arguments give bit-for-bit the same velocities, whatever was computed before. Read-only input arrays are accepted.",
  ["inputs", "histories"], "every input and every sequence of calls",
  "A test would have to compare every array before and after each call, over all branches, and interleave calls; the suite does neither.",
  SOLV+[ANG, ASS, ELE, KEP, STU, LIN], [("no in-place operations on parameters, no module-level mutable state", "all modules")], observe=["argument arrays after a call", "result of a repeated call"])
p("C09", "One calling convention, and full_output only adds information",
  "Every solver accepts the same arguments (mu, r1, r2, tof, M=0, is_prograde=True, is_low_path=True, maxiter, atol, rtol, full_output=False) and returns (v1, v2), or (v1, v2, numiter, tpi) with full_output=True, where v1 and v2 are three-component arrays, numiter is a non-negative integer and tpi a non-negative finite time. Asking for the full output changes neither the velocities nor the exceptions raised.",
  ["inputs", "configurations"], "every input and every solver, with full_output on and off",
  "Tests run full_output on one case per solver, and not for all solvers.",
  SOLV+[U+"__init__.py"], [("return statement of each solver", "every solver function")])
p("C10", "Transfer angle and orbit normal follow their definition for all vectors",
  "For non-collinear r1, r2 the transfer angle is the angle in (0, 2 pi) swept from r1 to r2 about the normal of the motion: its cosine is r1.r2/(|r1||r2|) and it is below pi exactly when r1 x r2 points along that normal, whose Z component is positive for prograde and negative for retrograde motion. For parallel vectors it is 0 and for opposite ones pi, it is never NaN, and the orbit normal, inclination and ascending node returned for (r1, r2) describe that same unit normal.",
  ["inputs"], "every pair of non-null vectors, including collinear, equatorial and polar ones, both directions",
  "Tests cover the coordinate axes and a few angles; rounding at the edges of arccos and the combinations of sign and direction are not sampled.",
  [ANG, LIN], [("get_transfer_angle, get_orbit_normal_vector, get_orbit_inc_and_raan_from_position_vectors", ANG), ("dot, cross, norm", LIN)], observe=["value returned by the angle helpers"])
p("C11", "Orbital elements and state vectors convert into each other",
  "Converting classical elements (p, ecc, inc, raan, argp, nu) into position and velocity gives the state of that orbit: its angular momentum, energy, eccentricity vector and position on the conic are the ones the elements define. Converting a state into elements and back reproduces the state, for circular, elliptic and hyperbolic orbits and for inclined, prograde-equatorial and retrograde-equatorial planes, and the elementary rotation matrices are proper orthogonal rotations by the given angle about the given axis.",
  ["inputs"], "every mu > 0, every eccentricity except exactly 1, every orientation and every true anomaly on the orbit",
  "Tests convert two textbook orbits; the equatorial and circular special cases and the hyperbolic branch are separate code paths.",
  [ELE, ANG, LIN], [("coe2rv, rv2coe, rv_pqw, coe_rotation_matrix, rotation_matrix", ELE)], observe=["rv2coe(coe2rv(x)), coe2rv(rv2coe(s))"])
p("C12", "Anomaly conversions and Kepler's equation are exact and consistent",
  "True, eccentric, parabolic and hyperbolic anomalies convert into each other by the geometry of the conic (cos E = (e + cos nu)/(1 + e cos nu) with sin E of the sign of sin nu, B = tan(nu/2), cosh H = (e + cos nu)/(1 + e cos nu) with H of the sign of nu) and back. The mean anomaly returned for (nu, ecc) is Kepler's equation of the matching orbit type, increases with nu, and a negative eccentricity is refused with ValueError.",
  ["inputs"], "every true anomaly in (-pi, pi) on the orbit and every ecc >= 0: circular, elliptic, parabolic and hyperbolic",
  "Tests use one value per conversion; the orbit type is chosen by comparisons whose boundaries are not sampled.",
  [ANG, KEP], [("nu_to_E, E_to_nu, nu_to_B, B_to_nu, nu_to_H, H_to_nu", ANG), ("kepler_from_nu, kepler_elliptic, kepler_parabolic, kepler_hyperbolic", KEP)], observe=["value returned by the conversions"])
p("C13", "Stumpff functions equal their series for every argument",
  "c2 and c3 return the sums of (-psi)^k/(2k+2)! and (-psi)^k/(2k+3)! over k >= 0 for every real psi, positive, negative or near zero, to near machine precision relative to the function value. They satisfy 1 - psi c2(psi) = cos(sqrt(psi)) and 1 - psi c3(psi) = sin(sqrt(psi))/sqrt(psi), with the hyperbolic counterparts for negative psi, and evaluation always terminates.",
  ["inputs"], "every finite psi for which the value is representable",
  "Tests compare a few values of psi, one per branch; the join of the closed forms with the series and the number of terms taken are not sampled.",
  [STU], [("c2, c3", STU)], observe=["c2(psi), c3(psi)"])
p("C14", "is_low_path selects the low or the high path, consistently in all solvers",
  "For a feasible multi-revolution request the two solutions are different orbits, is_low_path=True gives the one with the larger transfer parameter x (the root on the fast-periapsis side of the minimum-time solution) and False the other one, and all multi-revolution solvers agree which is which. For direct transfers (M = 0) the flag changes nothing.",
  ["inputs"], "every feasible request with M >= 1 away from the minimum time, and every request with M = 0, for every multi-revolution solver",
  "Tests check the low or high path for one geometry per solver; an iteration that crosses the minimum converges to the other path on other inputs (one solver did, in seven to ten percent of random problems).",
  [U+"universal_solvers/arora.py", U+"universal_solvers/der.py", U+"universal_solvers/gooding.py", U+"universal_solvers/izzo.py", U+"universal_solvers/mcelreath.py", U+"universal_solvers/negrete.py", U+"regularization/delatorre.py"],
  [("initial guess and bracket of each multi-revolution solver", "e.g. _initial_guess (izzo), xlamb (gooding), _find_path_parameter (der)")])
p("C15", "Robust solvers converge on every feasible problem",
  "The solvers advertised as robust return a solution for every valid, non-collinear, feasible request with the default iteration budget and tolerances.",
  ["inputs"], "every feasible input for the solvers of ROBUST_SOLVERS",
  "Convergence from every starting point cannot be sampled.",
  [U+"__init__.py"]+SOLV, [("initial guesses and iterations", "every robust solver")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
