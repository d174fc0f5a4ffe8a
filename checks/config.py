ELLRULE = ("a case draws a dimension (2..8), a starting ball or diagonal ellipsoid and a history of cuts "
           "(coordinate, sparse, isotropic and badly scaled directions; single cuts and slabs over all classes); ")
CHECKS = {
    "C01": dict(cpp="c01.cpp", srcs=["ell"],
                rule=ELLRULE + "non-trivial: at least two accepted cuts, one of them with a non-zero offset, and a slab where slabs are drawn",
                assumptions=["shapes with a condition number above 1e6 end a history; tolerance 1e-7 on (x-xc)'P^-1(x-xc) <= 1"]),
    "C02": dict(cpp="c02.cpp", srcs=["ell"],
                rule=ELLRULE + "non-trivial: at least two accepted cuts (one for the single-step property) whose planes meet the ellipsoid",
                assumptions=["minimum volume found numerically over the pencil of ellipsoids through the cut, tolerance 1e-7 on the log volume"]),
    "C03": dict(cpp="c03.cpp", srcs=["ell"],
                rule=ELLRULE + "non-trivial: an accepted cut after a rejected one; for the exact cases: an offset exactly on a class boundary",
                assumptions=["within 1e-8 (relative) of a class boundary either neighbour is accepted, except where all quantities are exact"]),
    "C04": dict(cpp="c04.cpp", srcs=["ell"],
                rule=ELLRULE + "two descriptions run in lockstep; non-trivial: at least one accepted cut for which the descriptions differ",
                assumptions=["condition number below 1e5, tolerance 1e-6 relative to the ellipsoid"]),
}
CHECKS["C05"] = dict(cpp="c05.cpp", srcs=["ell", "ell_stable"],
    rule=ELLRULE + "non-trivial: an accepted cut whose centre and shape are compared (in histories together with at least one more cut)",
    assumptions=["condition number below 1e6, tolerance 1e-7 relative to the ellipsoid",
                 "the recorded defect is accepted only where centre and shape equal its exact model"])
CHECKS["C06"] = dict(cpp="c06.cpp", srcs=["ell1d"],
    rule="a case draws an interval and a history of cuts of both signs with offsets zero, inside, exactly on and beyond both ends; "
         "non-trivial: at least two accepted cuts, one with negative gradient, one with a non-zero offset",
    assumptions=["exact on dyadic numbers of up to 36 fractional bits; 1e-11 relative otherwise", "zero gradients are excluded"],
    fuzz=["exact_histories", "real_histories"])
SCRIPT = "a case draws options (limit 1..40 or the default 2000, tolerance) and, call by call, every answer of the oracle and the space; "
CHECKS["C07"] = dict(cpp="c07.cpp", srcs=["ell"],
    rule=SCRIPT + "non-trivial: at least two queries, or an end other than the limit; with the real ellipsoid: at least two iterations",
    assumptions=["on reaching the limit M, M or M-1 queries are accepted (the code makes M-1)", "max_it = 0 is excluded"],
    fuzz=["scripted"])
CHECKS["C08"] = dict(cpp="c08.cpp", srcs=["ell"],
    rule=SCRIPT + "non-trivial: at least two queries and an improvement",
    assumptions=["the best point is only looked at when there was an improvement (it has no value otherwise)", "max_it = 0 is excluded"],
    fuzz=["scripted_real", "scripted_integer"])
CHECKS["C09"] = dict(cpp="c09.cpp", srcs=["ell"],
    rule=SCRIPT + "non-trivial: a retry and an improvement",
    assumptions=["the status after running out of alternatives or iterations is only required not to claim 'small enough'", "max_it = 0 is excluded"],
    fuzz=["scripted_real", "scripted_integer"])
CHECKS["C10"] = dict(cpp="c10.cpp", srcs=["ell"],
    rule="a case draws a bracket, a threshold (inside, at, next to and beyond the ends), a tolerance and a limit; for the adaptor a sequence of parameters with every answer scripted; "
         "non-trivial: at least two queries (adaptor: at least three parameters, one successful, one not)",
    assumptions=["bracket widths are representable in the type (the code computes upper - lower)",
                 "tolerances for fractions are integers (the code compares a fraction with the tolerance converted to the integer type)",
                 "real tolerances are above the rounding of the bracket ends"],
    fuzz=["int32", "int64", "int8", "reals", "adaptor_scripted"])
CHECKS["C11"] = dict(cpp="c11.cpp", srcs=["ell", "ell1d"],
    rule="a case draws a problem from a known minimiser and an inner ball (active rows, inactive rows, slabs; linear or quadratic objective) or from a certificate of infeasibility, and an enclosing ellipsoid; "
         "non-trivial: at least three cuts (five for optimisation with at least one row, two for infeasible problems, four in one dimension)",
    assumptions=["the gap allowed at tolerance tol follows from the inner ball: no set of that width fits a slab of half-width sqrt(tol)",
                 "runs that reach 20000 iterations are only checked for feasibility of the result"])
CHECKS["C12"] = dict(cpp="c12.cpp", srcs=["ldlt_ext"],
    rule="a case runs a sequence of matrices of one size (1..10) through one object: integer L D L' with chosen pivots (exact in double), random, Gram, nearly singular and badly scaled ones; "
         "non-trivial: size at least two and at least two matrices (real: one that is not too close to call; semidefinite: an exactly zero pivot)",
    assumptions=["for real matrices pivots below 1e-6 of their row's size are too close to call",
                 "the semidefinite mode is only required to accept semidefinite matrices and to justify rejections: it skips the rows before an exactly zero pivot, so it accepts some indefinite matrices (see DESIGN.md)"],
    fuzz=["exact", "semidefinite"])
CHECKS["C13"] = dict(cpp="c13.cpp", srcs=["lmi_oracle", "lmi_old_oracle", "lmi0_oracle", "ldlt_ext"],
    rule="a case draws a family of symmetric matrices (size 1..6, 1..5 variables) feasible at a drawn point and a sequence of queries, some repeated; every cut is attacked by feasible points pushed to the boundary; "
         "non-trivial: size at least two and a cut that was attacked (singular: an exactly singular matrix of size at least two)",
    assumptions=["eigenvalues within 1e-8 (relative) of zero and pivots within 1e-6 of their row are too close to call", "tolerance 1e-8 relative for the validity of cuts"])
CHECKS["C14"] = dict(cpp="c14.cpp", srcs=["qmi_oracle", "ldlt_ext"],
    rule="a case draws an affine matrix function (1..5 by 1..5, 1..4 variables) and a sequence of t updates and queries; every cut is attacked by feasible points pushed to the boundary; "
         "non-trivial: at least two columns (one column: two rows) and a cut that was attacked",
    assumptions=["as C13; in the one-column case, where the cut is determined up to a factor, it is compared with the analytic one"])
CHECKS["C15"] = dict(cpp="c15.cpp", srcs=["lowpass_oracle"],
    rule="a case draws a specification around a known design (2..6 coefficients, up to 6 rows per band, real or integer) and up to 25 queries; every cut is attacked by designs that meet the current level; "
         "non-trivial: an improvement, a cut, and an attack by a design that meets the level",
    assumptions=["integer specifications are compared exactly; real ones up to 1e-12 at the constraint boundaries"])
PR = "a case draws the model's parameters and up to 12 queries with the best value carried over; every cut is attacked by admissible points with a higher profit; "
CHECKS["C16"] = dict(cpp="c16.cpp", srcs=["profit_oracle"],
    rule=PR + "non-trivial: an improvement and an attack by a better point",
    assumptions=["the best value starts at 0 or above (the code takes its logarithm with the cost added)", "worst case over the box by trying all corners",
                 "within 1e-10 of the current best value either verdict is accepted"])
CHECKS["C17"] = dict(cpp="c17.cpp", srcs=["profit_oracle"],
    rule=PR + "non-trivial: an improvement and an attack by a better point",
    assumptions=["as C16; the first query is never a retry", "the recorded defect (shift with the wrong sign) is accepted only where the offset is exactly the faulty one"])
GR = "a case draws a digraph (rings with chords, two parts, mostly acyclic, any; parallel arcs, self-loops) "
CHECKS["C19"] = dict(cpp="c19.cpp", srcs=[],
    rule=GR + "and up to 6 searches with changing weights and node values on one finder; non-trivial: at least three arcs and two searches",
    assumptions=["weights are exact in the number type: integers, dyadic doubles, fractions with a common denominator 27720",
                 "node values and weights are small enough not to overflow"],
    fuzz=["ints_small", "ints_listed_dict", "fractions"])
CHECKS["C20"] = dict(cpp="c20.cpp", srcs=[],
    rule=GR + "of up to 8 nodes and 24 arcs with costs, positive times, start value, iteration limit (often 0..6) and node values, all rational; "
         "the reference enumerates every simple cycle; non-trivial: at least two distinct ratios below the start and an improvement",
    assumptions=["the sizes are chosen so that the fractions fit their integer type (int, long long; unbounded integers for larger costs and times)",
                 "arc times are positive"],
    fuzz=["ratio_long", "parametric_long", "ratio_big"])
CHECKS["C18"] = dict(cpp="c18.cpp", srcs=["ell", "ell1d"],
    rule=GR + "of up to 6 nodes with dyadic affine arc functions and a sequence of queries with carried-over potentials; the reference is an own Bellman-Ford and, for the optima, an enumeration of all cycles; "
         "non-trivial: a cut attacked by feasible parameters (ratio, scaling: an improvement and a cut; optima: more than four iterations)",
    assumptions=["arc functions are exact in double (sums of dyadics)", "cycles whose weight is within rounding of zero are avoided: with rounded weights the finder's own assertion can fail there", "scaling optimum: every entry appears in both directions, as in a matrix",
                 "optima within 2e-4 (ratio, tolerance 1e-8 of the interval) and 0.03 (scaling: tolerance 1e-5, costs up to 4)"],
    fuzz=["network_scalar", "network_vector", "cycle_ratio", "scaling"])
CHECKS["C21"] = dict(cpp="c21.cpp", srcs=[],
    rule="a case draws fractions of all magnitudes up to the bound of the type (also smooth parts, both signs) and up to 14 operations, every result compared with unbounded rationals; "
         "non-trivial: at least three operations and a result that is no integer (parts, gcd: a common factor or a proper denominator)",
    assumptions=["operands are below 2^14 (int), 2^30 (long): then no intermediate product of the usual formulas overflows", "denominators and divisors are not zero",
                 "the most negative integer is excluded (it has no negative)"],
    fuzz=["expr_int", "expr_long", "expr_unbounded"])
CHECKS["C22"] = dict(cpp="c22.cpp", srcs=["csd"],
    rule="a case draws a double of any sign with up to 53 significant bits and magnitudes 2^-850..2^850 (also next to the thresholds 2^n/3, runs of equal bits, powers of two) and a number of places or non-zero digits; "
         "the reference is the non-adjacent form by integer arithmetic; non-trivial: at least two non-zero digits",
    assumptions=["places is not negative", "zero is \"0\" whatever the number of places"],
    fuzz=["places", "nonzeros", "reading"])
CHECKS["C23"] = dict(cpp="c23.cpp", srcs=[],
    rule="a case runs up to 40 operations on up to four dictionaries or sets beside std::map/std::set models, draws range bounds of six integer types over their whole width, or wraps and extends a digraph of one of five container kinds; "
         "non-trivial: at least four kinds of operation including a copy or a defaulted get (containers), more than one element (ranges, enumerations), at least three arcs one of them added through the adaptor (graphs)",
    assumptions=["the width of a range is representable in the promoted type (the code computes stop - start)", "initialiser lists of dictionaries have distinct keys"],
    fuzz=["dict_int", "set_string", "graph_vec_directed", "range_int"])
CHECKS["C24"] = dict(cpp="c24.cpp", srcs=["lsq_corr_ell", "ldlt_ext", "lmi_oracle", "lmi0_oracle", "qmi_oracle", "ell"], build="plain",
    rule="a case draws sites (2..6), a number of basis terms, a fit p0 and data = the fit plus noise (none in 30%); non-trivial: more than ten iterations",
    assumptions=["a better admissible point counts only if a ball around it in the set of better points is larger than the search's tolerance allows to miss (see DESIGN.md)",
                 "runs that reach 2000 iterations are only checked for admissibility"])
CHECKS["C25"] = dict(cpp="c25.cpp", srcs=["lowpass_oracle", "ell"], build="plain",
    rule="a case draws a specification (2..9 coefficients, band edges, ripple, gain), a start level (none, reachable, out of reach), a tolerance and an initial ball, and designs with and without parallel cuts; "
         "non-trivial: more than two coefficients and more than five iterations",
    assumptions=["optimal means: no ball of better designs with a radius above 1.5 sqrt(tol) (largest inscribed ball by a certified linear program)",
                 "runs that reach 20000 iterations are only checked for feasibility"])
CHECKS["C26"] = dict(cpp="c26.cpp", srcs=[],
    rule="a case builds up to 15 expressions over up to four monomials and posynomials of up to four variables, all constructors and operators, and compares every live value with a direct evaluation after each; "
         "non-trivial: at least four kinds of operation and a posynomial of three terms (convexity: two terms)",
    assumptions=["beyond logarithms of 600 only the recorded defect (exp over- or underflows) is accepted, and only as a result that is not finite"],
    fuzz=["expressions"])
CHECKS["C27"] = dict(cpp="c27.cpp", srcs=[], build="plain", libs=["-lboost_coroutine", "-lboost_context"],
    rule="a case adds arcs (new, repeated, loops; with and without data) to a graph of 1..9 nodes, moves it now and then, and compares every query with a map after each step, clears and names it; "
         "non-trivial: at least three arcs, one added again or the graph moved or cleared",
    assumptions=["nodes are a range of integers (the only node container the classes accept)", "arc data are written through [] only in digraphs (an undirected graph keeps them twice)"])
CHECKS["C28"] = dict(cpp="c28.cpp", tsan=["threads"], tsan_scale=2, srcs=["ell", "ell_stable", "ell1d", "ldlt_ext", "lmi_oracle", "lmi_old_oracle", "lmi0_oracle", "qmi_oracle", "lowpass_oracle", "profit_oracle", "csd", "lsq_corr_ell"],
    rule="a case draws two to four objects (mostly of one kind and one size) with 2..30 calls each and an order in which the calls take turns, also creation and destruction in between; "
         "their answers must equal, bit for bit, those given alone; non-trivial: more turns than objects + 1 (copies: made after the first and before the last call; threads: all)",
    assumptions=["oracles that refer to the caller's arrays or node values get their own", "create_2d_isotropic uses xtensor's global random engine and is left out",
                 "threads are compared by their answers, and run once more under clang's ThreadSanitizer (OpenBLAS itself is not instrumented)"])
CHECKS["C29"] = dict(cpp="c29.cpp", srcs=["ell", "ell_stable", "ldlt_ext", "lmi_oracle", "lmi_old_oracle", "lmi0_oracle", "qmi_oracle", "profit_oracle"],
    rule="a case draws a semidefinite program with a known optimum (complementary slackness) and inner ball, or an infeasible one with its certificate, a spectral-norm problem with a known minimiser, or a profit model, and solves it with the library's oracle and solver; "
         "non-trivial: at least three cuts by the oracle (points: two; profit: four cuts and an end near the optimum)",
    assumptions=["the gap allowed at tolerance tol follows from the inner ball and the length of the last gradient: no ball of that size fits a slab of half-width sqrt(tol)/|g|",
                 "profit models with decreasing returns to scale (others need not have an optimum)", "the discrete profit problem is only checked for the soundness of its answer (see the recorded defect)",
                 "runs that reach the iteration limit are only checked for soundness"])

# how many times the counts given with the properties the quick tier runs
for _id, _f in dict(C02=2, C03=1.5, C05=5, C06=3, C07=3, C08=3, C09=3, C10=3, C11=3, C12=2, C13=3, C14=3, C15=2, C16=2, C17=2,
                    C20=2, C22=3, C23=5, C24=2, C25=6, C26=40, C27=8, C28=2).items():
    CHECKS[_id]["quick_scale"] = _f
