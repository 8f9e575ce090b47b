"""Level, technique and note of every claimed property (for mkmanifest.py)."""
T = ("contract-based deductive verification: pre/postconditions on the functions of /repo, obligations generated from the current source by "
     "symbolic execution (callees by contract, loops havocked) and discharged by %s; run-time contracts on the real code as a labelled bounded stand-in")
ALG = "exact identity tests over GF(2^61-1), ordered-field sign rules and z3"
NOTES = {
    "C01": ("exploration", T % ALG,
            "Proved for 11 of 14 solvers (and gooding1990 at M=0), every geometry and path, with no bound on iterations: equal angular momentum, energy and "
            "eccentricity vector of the two states as identities in the final iterate. battin1984, der2011, mcelreath2025 and gooding1990 at M>0: bounded run-time contracts only."),
    "C02": ("exploration", T % ALG,
            "Bounded run-time contracts on the real code against an mpmath oracle of the flight time (see DESIGN.md for what an obligation needs here)."),
    "C03": ("exploration", T % ALG,
            "Proved for the same solvers as C01: the normal component of r1 x v1 has the sign of the requested direction on every returning path. The rest bounded."),
    "C04": ("proof", T % ALG,
            "All fourteen solvers: every returning path is infeasible under each invalid-input case and ValueError comes before any use; valid input passes the validation (its raising "
            "paths are infeasible)."),
    "C05": ("exploration", T % "path enumeration and z3",
            "Refusal of M > 0 proved for the seven direct solvers; feasibility against the minimum time of the multi-revolution solvers is bounded run-time contracts."),
    "C06": ("exploration", T % ALG,
            "Refusal of exactly parallel and opposite vectors proved for all fourteen solvers; finiteness of every component on valid input is bounded (real arithmetic has no NaN)."),
    "C07": ("exploration", T % "dependence of the returned terms on tested iterates and loop variants",
            "Proved for 12 of 14 solvers: on every returning path each loop whose iterate is in the velocities has met a test |difference| <= tolerance; loops bounded for those whose "
            "loops are for-ranges or have a decreasing condition. The rest bounded."),
    "C08": ("proof", T % "an inferred assigns clause per function, checked modularly",
            "Frame conditions of every function of the package: assigns nothing reachable from its arguments, the module or its defaults, and reads no written module state."),
    "C09": ("exploration", T % ALG,
            "The signature (names, order, defaults) proved for all fourteen; full_output only adds information: bounded run-time contracts."),
    "C10": ("proof", T % ALG, "All statements of the property for both senses, both directions and the collinear cases."),
    "C11": ("proof", T % ALG,
            "coe2rv, rv2coe (nine shapes and planes) and the rotation matrices; one known finding (rotation_matrix about axis 1)."),
    "C12": ("proof", T % ALG, "Each conversion and Kepler's equation for each conic, monotone in nu; negative eccentricity refused."),
    "C13": ("proof", T % "series identities with remainder bounds in rational arithmetic",
            "Closed forms and truncated series with their remainder bound for psi > 0, = 0, < 0; loops over the series terminate."),
    "C14": ("exploration", T % "an information-flow contract per function and equality of the outcomes of all paths",
            "M = 0: proved for all fourteen solvers that is_low_path changes nothing. M > 0: bounded run-time contracts, the path of each answer from the sign of "
            "dT/dx at its x (mpmath oracle)."),
}
