#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
ELL = ["lib/include/ellcpp/ell.hpp", "lib/src/ell.cpp"]
prop("C01", "A cut never removes a point of the ellipsoid that satisfies it",
 "After any history of accepted cuts, every point of the previous search ellipsoid that satisfies the cut (g'(x-xc)+beta <= 0, and for a parallel cut also g'(x-xc)+beta1 >= 0) lies in the new ellipsoid, up to rounding. The centre and the shape stay finite and the shape stays symmetric positive definite.",
 ["inputs", "histories"], "every dimension n >= 2, every starting ball or axis-aligned ellipsoid, every sequence of deep, central, shallow and parallel cuts (including slabs symmetric about the centre and slabs whose near plane misses the ellipsoid)",
 "The tests only look at final results of a dozen fixed optimisation runs; none looks at the ellipsoid itself, and a cut that loses the optimum only in rare geometry does not show there.",
 ELL, [("ell::update", "lib/src/ell.cpp"), ("_calc_dc/_calc_cc/_calc_ll_core/_calc_ll_cc", "lib/src/ell.cpp")],
 ["ell::xc()", "second component of ell::update() (tsq) under probing cuts on a copy"],
 [{"name": "Q, kappa, xc", "meaning": "the ellipsoid", "where": "lib/include/ellcpp/ell.hpp"}])
prop("C02", "An accepted cut yields the minimum-volume enclosing ellipsoid",
 "When a cut is accepted, the new ellipsoid is the smallest-volume ellipsoid that contains the part of the old one left by the cut: the half-space for a single (deep, central, shallow) cut, the slab for a parallel cut whose planes both meet the ellipsoid. In particular the volume never grows and shrinks by at least the classical factor for central and deep cuts, in both storage modes (with and without the deferred scaling).",
 ["inputs", "histories"], "every dimension n >= 2, every current ellipsoid reached by cuts, every cut offset at which the cut is accepted",
 "Volume progress is the termination argument of the method; the tests pin iteration counts of a few runs, which catches gross loss of progress for those cut kinds only (parallel cuts with a far plane, central parallel cuts and shallow cuts are barely reached).",
 ELL, [("closed-form update parameters", "lib/src/ell.cpp"), ("deferred scaling no_defer_trick", "lib/src/ell.cpp")],
 ["log-determinant of the shape recovered by probing cuts"])
prop("C03", "Cut classification is right and rejected cuts change nothing",
 "A search space reports 'no solution' only for a cut that leaves no point of the ellipsoid, 'no effect' only when the current ellipsoid is already the smallest one containing what the cut leaves, and otherwise accepts; a single cut beyond the ellipsoid and a slab with swapped offsets are always reported as 'no solution'. A rejected cut leaves centre, shape and all later behaviour bit-for-bit unchanged. The reported tsq is always kappa*g'Qg of the ellipsoid before the cut, whatever the outcome.",
 ["inputs", "histories"], "every state reachable by cuts, every single and parallel cut around all class boundaries, interleaved rejected and accepted cuts",
 "The classification feeds the solver's verdict 'infeasible'; the tests check it for one infeasible instance of each problem.",
 ELL + ["lib/include/ellcpp/cut_config.hpp"], [("status returned by _update_cut", "lib/src/ell.cpp"), ("early return in ell::update", "lib/src/ell.cpp")],
 ["return value of ell::update()", "xc() and probes before and after"])
prop("C04", "Equivalent descriptions of a space or a cut give the same ellipsoid",
 "The same history gives the same statuses, centre and ellipsoid (up to rounding) when: a ball is described by a radius or by an equal diagonal; deferred scaling is on or off; a single cut is passed as a number or as a one-element array; a cut is multiplied by a positive number; the slab is written from its other side (-g, -beta1, -beta0); parallel cuts are switched off or the far plane lies outside, so that only the first plane counts; coordinates are scaled, permuted or translated. Copies share nothing with their origin, and replacing the centre leaves the shape alone.",
 ["inputs", "histories", "configurations"], "every history of cuts, every one of the alternative representations, applied in lockstep",
 "No test runs two representations against each other; each option is used in at most one run.",
 ELL, [("constructors, no_defer_trick, use_parallel_cut", "lib/include/ellcpp/ell.hpp"), ("_update_cut overloads", "lib/include/ellcpp/ell.hpp")],
 ["update() results, xc(), probes on copies"])
prop("C05", "The numerically stable ellipsoid agrees with the plain one",
 "Driven by the same cuts, the stable (LDLT-stored) ellipsoid reports the same statuses and the same tsq as an exact ellipsoid with its current shape, and its new centre and shape equal those of the plain ellipsoid, up to rounding. A rejected cut leaves it unchanged, copies are independent, and one-element and scalar cuts agree.",
 ["inputs", "histories"], "every dimension n >= 2, every history of single and parallel cuts",
 "The tests compare only final solver outcomes, which differ in iteration count between the two classes anyway.",
 ["lib/include/ellcpp/ell_stable.hpp", "lib/src/ell_stable.cpp"], [("forward/back substitution and rank-one LDLT update", "lib/src/ell_stable.cpp")],
 ["update() results, xc(), probes on copies"])
prop("C06", "The one-dimensional space is exact interval arithmetic",
 "The 1-D space is always the interval left by intersecting the initial interval with the half-lines of the accepted cuts: its centre is the midpoint and its half-width is half the length of exactly that intersection. A cut that misses the interval entirely is reported as 'no solution', one that contains it as 'no effect', both without changing the interval, and tsq is (half-width * g)^2 before the cut.",
 ["inputs", "histories"], "every interval, every sequence of cuts with positive and negative gradient, offset zero, inside, on and beyond both ends",
 "Only used by one cycle-ratio test; negative gradients, shallow cuts and rejected cuts are never looked at.",
 ["lib/include/ellcpp/ell1d.hpp", "lib/src/ell1d.cpp"], [("ell1d::update", "lib/src/ell1d.cpp")], ["ell1d::xc()", "ell1d::update() on copies"])
CP = ["lib/include/ellcpp/cutting_plane.hpp", "lib/include/ellcpp/cut_config.hpp"]
prop("C07", "Feasibility search reports exactly what happened",
 "For every oracle and search space, the feasibility search queries the oracle at the space's current centre, applies each returned cut exactly once and in order, and stops at the first of: the oracle accepts the point (feasible, and the space still has that point as its centre), the space rejects a cut (its status is reported, not feasible), tsq falls below the tolerance (small enough), or the iteration limit. The iteration count equals the number of oracle queries made, or the limit if that was reached.",
 ["histories", "inputs", "configurations"], "every sequence of oracle answers and space statuses, every tolerance and iteration limit >= 1",
 "The tests run it with two real oracles whose runs end in two of the ways; the order and number of calls are never observed.",
 CP, [("cutting_plane_feas", "lib/include/ellcpp/cutting_plane.hpp")], ["calls received by the oracle and the space", "CInfo"])
prop("C08", "Optimisation keeps the best point and reports exactly what happened",
 "For every oracle and search space, the convex optimisation loop passes the current centre and best value to the oracle, returns as best point the centre of the last query the oracle marked as an improvement, and leaves the best value as the oracle last set it; feasible is reported if and only if the best value changed. Cuts are applied once each and in order until the space rejects one, tsq falls below the tolerance or the iteration limit is reached, and status and count tell which.",
 ["histories", "inputs", "configurations"], "every sequence of oracle answers (cut, improvement or not, new best value) and space statuses, every tolerance and limit",
 "The tests run it with well-behaved oracles only; a stale best point or a lost improvement at the last iteration does not show.",
 CP, [("cutting_plane_dc", "lib/include/ellcpp/cutting_plane.hpp")], ["calls received by oracle and space", "returned x_best, CInfo, t"])
prop("C09", "Discrete optimisation follows the retry protocol",
 "For every oracle and search space, the discrete optimisation loop asks for an alternative cut (retry) exactly when the previous cut had no effect on the space, stops when such a cut has no alternative left, and never treats a no-effect cut as progress. The best point is the discrete point of the last improvement the oracle reported, and 'no solution', the tolerance and the iteration limit end the run as reported.",
 ["histories", "inputs", "configurations"], "every sequence of oracle answers (cut, point, improvement, more alternatives) and space statuses, every tolerance and limit",
 "One oracle, three fixed instances; none of them observes the retry flag (before the repair of this task it was never set).",
 CP, [("cutting_plane_q", "lib/include/ellcpp/cutting_plane.hpp")], ["calls received by oracle and space", "returned x_best, CInfo, t"])
prop("C10", "Bisection finds the threshold of a monotone predicate",
 "For a monotone predicate, bisection keeps the lower end on the infeasible and the upper end on the feasible side (or at its initial value), ends with an interval no wider than the tolerance allows - adjacent integers for integral bounds - and reports feasible if and only if the upper end moved. The adaptor that turns a parametric feasibility problem into such a predicate sets the parameter before it searches, always starts from the caller's ellipsoid, searches within its own options, keeps the best point only when the search succeeded, and never alters the caller's shape.",
 ["inputs", "histories", "configurations"], "every bracket and threshold (integers of several widths, reals, fractions), every tolerance and limit; every sequence of parameters given to the adaptor",
 "The tests use one bisection problem with doubles.",
 CP + ["lib/include/ellcpp/half_nonnegative.hpp"], [("bsearch, bsearch_adaptor", "lib/include/ellcpp/cutting_plane.hpp"), ("algo::half_nonnegative", "lib/include/ellcpp/half_nonnegative.hpp")],
 ["final bracket, CInfo, queries made, x_best()"])
prop("C11", "The solvers solve convex problems whose answer is known",
 "On a convex problem inside the initial ellipsoid, a reported solution satisfies every constraint and its objective is the returned value; a problem with an interior is never reported infeasible, an infeasible one never feasible, and on normal termination the returned value is optimal within the tolerance. This holds for the plain ellipsoid with single and parallel cuts and in one dimension.",
 ["inputs", "configurations"], "every linear, quadratic or slab-constrained problem with a known optimum or a known certificate of infeasibility, in every dimension 2..8, from every enclosing initial ellipsoid",
 "The tests use four fixed two-variable toy problems.",
 CP + ELL, [("cutting_plane_feas/dc with ell and ell1d", "lib/include/ellcpp/cutting_plane.hpp")], ["CInfo, x_best, t"])
LD = ["lib/include/ellcpp/oracles/ldlt_ext.hpp", "lib/src/ldlt_ext.cpp"]
prop("C12", "LDLT decides positive definiteness and certifies its verdict",
 "Factorisation succeeds if and only if the symmetric matrix is positive definite; otherwise it stops at the first non-positive leading minor, and the witness vector v on that block satisfies v'Av = -(returned value) <= 0, with the quadratic-form helper computing v'Bv for any symmetric B. On success the square root R is upper triangular with R'R = A. Lazy factorisation gives the same as dense, asks only for entries on or below the diagonal of the block it needs, and an object can be reused for any sequence of matrices; the semidefinite mode accepts every positive semidefinite matrix.",
 ["inputs", "histories"], "every symmetric matrix of every size, including exactly singular, indefinite and badly scaled ones, in every order of reuse",
 "Six fixed matrices are tested, three of them indefinite, and only the verdict and one witness value.",
 LD, [("ldlt_ext::factor, witness, sym_quad, sqrt", "lib/include/ellcpp/oracles/ldlt_ext.hpp")], ["return values, p, v, entries requested"])
prop("C13", "LMI oracles accept exactly the feasible points and cut validly",
 "A linear-matrix-inequality oracle returns no cut if and only if the matrix F0 - sum x_k F_k (sum x_k F_k for the homogeneous one) is positive definite at the queried point. A returned cut has a non-negative offset and is satisfied by every point at which the inequality holds. The lazy, dense and homogeneous oracles agree with each other and give the same answer however often and in whatever order they are queried.",
 ["inputs", "histories"], "every family of symmetric matrices of every size and number of variables, every query sequence",
 "Two fixed LMIs are solved; whether each single cut is valid is never checked.",
 ["lib/src/lmi_oracle.cpp", "lib/src/lmi_old_oracle.cpp", "lib/src/lmi0_oracle.cpp", "lib/include/ellcpp/oracles/lmi_oracle.hpp"] + LD,
 [("operator() of the three oracles", "lib/src/lmi_oracle.cpp")], ["returned optional cut"])
prop("C14", "The quadratic matrix inequality oracle cuts validly",
 "The quadratic-matrix-inequality oracle returns no cut if and only if t*I - F(x)'F(x) is positive definite at the queried point, for square and rectangular, symmetric and non-symmetric F. A returned cut has a non-negative offset and is satisfied by every x that satisfies the inequality for the current t. Changing t between queries takes effect at once and queries do not influence each other.",
 ["inputs", "histories"], "every affine matrix function F, every shape, every sequence of queries and t updates",
 "Only used inside the least-squares example with symmetric square matrices.",
 ["lib/src/qmi_oracle.cpp", "lib/include/ellcpp/oracles/qmi_oracle.hpp"], [("qmi_oracle::operator()", "lib/src/qmi_oracle.cpp")], ["returned optional cut"])
prop("C15", "The lowpass-filter oracle never cuts off a design that meets the spec",
 "For any sequence of queries, every cut (single or parallel) the lowpass oracle returns is satisfied by every coefficient vector that meets the pass-band limits, the non-negativity constraints and the best stop-band level known so far. It reports an improvement if and only if the queried vector meets all of them, the new level is then the vector's true maximum over the stop band, and otherwise the returned cut excludes the queried vector and comes from a constraint it violates.",
 ["inputs", "histories"], "every set of frequency responses and limits, every history of queries (the round-robin position carries over)",
 "Two fixed designs are run and only the final iteration count is compared.",
 ["lib/src/lowpass_oracle.cpp", "lib/include/ellcpp/oracles/lowpass_oracle.hpp"], [("round-robin scan and parallel cuts", "lib/src/lowpass_oracle.cpp")], ["returned cut, improvement flag, Spsq"],
 [{"name": "_i_Ap, _i_As, _i_Anr", "meaning": "round-robin positions", "where": "lib/include/ellcpp/oracles/lowpass_oracle.hpp"}])
PR = ["lib/src/profit_oracle.cpp", "lib/include/ellcpp/oracles/profit_oracle.hpp"]
prop("C16", "Profit oracles, nominal and robust, cut validly and track the profit",
 "The profit oracle reports an improvement exactly when the point is within the input limit and its profit exceeds the best value, which then becomes that profit; every cut it returns is satisfied by all admissible points with a higher profit than the best value. The robust oracle does the same for the worst-case profit over the box of elasticities, price, cost and limit perturbations.",
 ["inputs", "histories"], "every choice of model parameters and uncertainties, every query point in every orthant, every sequence of queries with a carried-over best value",
 "Three fixed instances; the robust variant is compared by iteration count only.",
 PR, [("profit_oracle::operator()", "lib/src/profit_oracle.cpp"), ("profit_rb_oracle::operator()", "lib/include/ellcpp/oracles/profit_oracle.hpp")], ["returned cut, flag, t"])
prop("C17", "The discrete profit oracle evaluates integer points and cuts validly",
 "The discrete profit oracle evaluates the integer point nearest to the query (at least 1 in each input), improves the best value only to the profit of an admissible integer point, and returns that point; asked to retry, it answers for the same integer point and announces no further alternative. Every cut it returns, expressed at the query point, is satisfied by all admissible points with a higher profit than the best value.",
 ["inputs", "histories"], "every choice of model parameters, every query sequence with and without retry",
 "One fixed instance by iteration count.",
 PR, [("profit_q_oracle::operator()", "lib/src/profit_oracle.cpp")], ["returned cut, point, flags, t"])
NET = ["lib/include/ellcpp/oracles/network_oracle.hpp", "lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp", "lib/include/ellcpp/oracles/optscaling_oracle.hpp"]
prop("C18", "Network oracles cut exactly when a constraint cycle is violated",
 "The parametric network oracle returns no cut if and only if potentials exist for the queried parameters, in which case the caller's potentials satisfy every arc constraint; a returned cut is violated at the query and satisfied by all parameters for which potentials exist. The cycle-ratio and matrix-scaling oracles built on it improve the best value exactly when the query is feasible and better, and driven by the cutting-plane method they find the true optimum.",
 ["inputs", "histories"], "every digraph, arc cost and time, every sequence of queries with carried-over potentials",
 "One five-node and one three-node graph.",
 NET, [("network_oracle::operator()", "lib/include/ellcpp/oracles/network_oracle.hpp"), ("Ratio::eval/grad", "lib/include/ellcpp/oracles/optscaling_oracle.hpp")], ["returned cut, flag, t, potentials"])
NC = ["lib/include/netoptim/neg_cycle.hpp"]
prop("C19", "Negative cycle detection is sound and complete",
 "The finder returns a non-empty list if and only if the digraph has a cycle of negative total weight, whatever the initial node values; the returned arcs form one closed simple cycle whose total weight is negative. When it returns none, the node values are feasible potentials for all arcs and none has increased. Results do not depend on earlier searches with the same finder.",
 ["inputs", "histories"], "every digraph (parallel arcs, self-loops, disconnected parts), every integral or rational weight, every initial node value, every sequence of weight changes",
 "Three fixed graphs with zero initial values.",
 NC, [("_relax, _find_cycle, _cycle_list", "lib/include/netoptim/neg_cycle.hpp")], ["returned arcs", "the caller's node values"])
prop("C20", "The minimum cycle ratio is optimal and attained",
 "The parametric cycle search ends with the minimum of the starting value and the smallest cost-to-time ratio over all cycles, exactly in rational arithmetic; the returned cycle is non-empty if and only if the value improved, is a cycle of the graph and has exactly the final ratio. On normal termination no arc violates the node potentials at the final value, and the iteration limit bounds the number of improvements.",
 ["inputs", "histories", "configurations"], "every digraph with positive arc times, every integral cost, every starting value and iteration limit, integer and rational node values",
 "Two fixed graphs.",
 ["lib/include/netoptim/min_cycle_ratio.hpp", "lib/include/netoptim/parametric.hpp"] + NC, [("max_parametric, min_cycle_ratio", "lib/include/netoptim/parametric.hpp")], ["r_opt, returned cycle, node values"])
prop("C21", "Fractions are exact rational numbers in lowest terms",
 "As long as intermediate products fit the integer type, every arithmetic operation and comparison of fractions, also mixed with integers and in compound-assignment form, gives exactly the rational result. Every fraction with a non-zero denominator is kept in lowest terms with a positive denominator, so that equal numbers have equal parts and ordering is the order of the rationals; gcd and lcm are exact for every width of integer.",
 ["inputs", "histories"], "every numerator and denominator of either sign, every expression, every integer type",
 "Used indirectly in two graph tests with small positive values.",
 ["lib/include/py2cpp/fractions.hpp"], [("Fraction::normalize and operators", "lib/include/py2cpp/fractions.hpp"), ("gcd, lcm", "lib/include/py2cpp/fractions.hpp")], ["numerator(), denominator(), operators"])
prop("C22", "Canonical signed digits: canonical, accurate and invertible",
 "The CSD string of a number never has two adjacent non-zero digits, has the requested number of fractional digits, and reads back to a number within two thirds of a unit of the last place (exactly, if the number needs no more places). The string with a limited number of non-zero digits never exceeds that number, is canonical, equals the leading digits of the full expansion, and always ends. Reading back is the exact value of the digit string, and negating a number swaps the signs of its digits.",
 ["inputs"], "every number of either sign and any magnitude, every number of places and non-zero digits",
 "Four fixed conversions.",
 ["lib/src/csd.cpp"], [("to_csd, to_csdfixed, to_decimal", "lib/src/csd.cpp")], ["returned strings and numbers"])
prop("C23", "Graph views and Python-like containers behave as documented",
 "The graph adaptor enumerates exactly the vertices, arcs, out-arcs and end points of the wrapped graph, also after arcs are added. Dictionaries and sets behave as Python's do: membership, default lookup, length, insertion, deletion and iteration over keys; copies are independent. Ranges enumerate start..stop-1 (nothing when stop <= start), with size, indexing and membership consistent with that, and enumerate pairs every element with its position.",
 ["inputs", "histories"], "every graph, every sequence of container operations, every pair of range bounds of every integer type",
 "The container tests of the project are not compiled; the graph tests look at a handful of nodes.",
 ["lib/include/py2cpp/py2cpp.hpp", "lib/include/py2cpp/nx2bgl.hpp"], [("py::dict, py::set, py::range, py::enumerate", "lib/include/py2cpp/py2cpp.hpp"), ("xn::grAdaptor", "lib/include/py2cpp/nx2bgl.hpp")], ["iteration order-free contents, lookups"])
prop("C24", "Correlation fitting returns a valid and optimal fit",
 "The least-squares fits return coefficients whose matrix-polynomial correlation is as close to the data as any admissible one, within the solver's tolerance (the data themselves when they are of that form), with a positive definite fit where the method demands it. The maximum-likelihood fit returns an admissible point whose objective no other admissible point beats by more than the tolerance. The basis matrices are the element-wise powers of the site distances, the sites form the requested grid, and the sample covariance is symmetric positive semidefinite and close to the model's.",
 ["inputs"], "every set of sites, every positive definite data matrix, every number of basis terms",
 "One fixed random data set, by iteration count.",
 ["lib/src/lsq_corr_ell.cpp"], [("lsq_corr_poly, lsq_corr_poly2, mle_corr_poly, construct_poly_matrix", "lib/src/lsq_corr_ell.cpp")], ["returned coefficients and flags"])
prop("C25", "Filter design by cutting planes meets its spec and is optimal",
 "For any feasible lowpass specification, the design loop ends with coefficients that satisfy every pass-band, stop-band and non-negativity constraint at the reported level, and with parallel cuts or without it reaches the same level within tolerance. An infeasible specification is never reported as solved.",
 ["inputs", "configurations"], "every small filter order, band layout and ripple; parallel cuts on and off; infeasible specifications",
 "Two fixed designs, compared by a bound on iterations.",
 ["lib/src/lowpass_oracle.cpp"] + ELL + CP, [("lowpass_oracle with cutting_plane_dc and ell", "lib/src/lowpass_oracle.cpp")], ["x_best, Spsq, CInfo"])
prop("C26", "Monomials and posynomials compute their log-convex form",
 "For any monomials and posynomials built with the provided constructors and operators (product, quotient, scaling, square root, sum), the logarithmic form evaluated at y equals log f(exp(y)) of the function the expression denotes, and the gradient is its derivative. Operators do not modify their operands.",
 ["inputs", "histories"], "every expression over monomials and posynomials, every point",
 "No test touches these classes.",
 ["lib/include/ellip/monomial.hpp", "lib/include/ellip/posynomial.hpp"], [("operators, lse, lse_gradient", "lib/include/ellip/posynomial.hpp")], ["lse(), lse_gradient()"])
prop("C27", "Light-weight graphs hold exactly the arcs that were added",
 "A graph or digraph of the light-weight classes answers every query - nodes, arcs, membership, neighbours or successors, degree, data, iteration, counts - from exactly the arcs added since it was made or last cleared: an arc added again is the same arc, keeps its data unless given new data, an undirected arc shows at both ends, clearing leaves the nodes without arcs and the graph without a name, and a moved graph is the same graph.",
 ["inputs", "histories"], "every sequence of additions, clearings and moves, every number of nodes, with and without arc data",
 "No test touches these classes.",
 ["lib/include/xnetwork/classes/graph.hpp", "lib/include/xnetwork/classes/digraphs.hpp"], [("Graph, DiGraphS", "lib/include/xnetwork/classes/digraphs.hpp")], ["every query of the classes"])
prop("C28", "Objects do not influence one another; copies go their own way",
 "What an object of the library answers depends only on how it was constructed and on the calls made to it, bit for bit, whatever other objects of the same or other classes are created, used or destroyed in between, or at the same time in other threads. A copied or moved object continues from the state of its origin at that moment, and later calls on either do not affect the other.",
 ["histories", "schedules"], "every interleaving of calls on any number of objects, every point at which an object is copied, moved or destroyed, concurrent use of distinct objects",
 "The tests use one object at a time.",
 ELL + ["lib/src/ldlt_ext.cpp", "lib/src/lmi_oracle.cpp", "lib/src/lowpass_oracle.cpp", "lib/src/profit_oracle.cpp", "lib/include/netoptim/neg_cycle.hpp", "lib/include/py2cpp/py2cpp.hpp"],
 [("ell and its copies", "lib/include/ellcpp/ell.hpp"), ("negCycleFinder", "lib/include/netoptim/neg_cycle.hpp"), ("lowpass_oracle", "lib/src/lowpass_oracle.cpp")], ["every answer of every class, compared with the same object used alone"])
prop("C29", "Optimisation problems are solved to their true optimum within tolerance",
 "Driven by the library's solvers, its matrix-inequality, matrix-norm and profit oracles solve the problems they stand for: a semidefinite program or a (robust) profit problem ends with an admissible point whose value is the one returned and which no ball of better points that the tolerance could resolve contradicts; the binary search over levels ends within its tolerances of the true minimum with a point of that level; a feasible inequality with an inner ball is solved within the number of cuts its volume allows, an infeasible one is never reported as solved. The discrete profit search returns an admissible grid point with the returned profit.",
 ["inputs", "configurations"], "every problem data, every enclosing start, every tolerance, both matrix oracles, central and deep objective cuts",
 "Three fixed problems, by their iteration count.",
 ["lib/src/lmi_oracle.cpp", "lib/src/lmi_old_oracle.cpp", "lib/src/lmi0_oracle.cpp", "lib/src/qmi_oracle.cpp", "lib/src/ldlt_ext.cpp", "lib/src/profit_oracle.cpp"] + ELL + CP,
 [("cutting_plane_feas/dc/q, bsearch_adaptor", "lib/include/ellcpp/cutting_plane.hpp"), ("lmi_oracle::operator()", "lib/src/lmi_oracle.cpp"), ("qmi_oracle::operator()", "lib/src/qmi_oracle.cpp"), ("profit_oracle::operator()", "lib/src/profit_oracle.cpp")], ["returned point, value, CInfo"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
