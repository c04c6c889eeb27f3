#!/usr/bin/env python3
"""writes properties.jsonl (the statements live here, once)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})
G, B = "src/GSpline.cpp", "src/Basis/"
prop("C01", "A spline evaluates to its defining piecewise sum",
     "At every instant, inside or outside its domain, a spline equals, component by component, the sum over its basis functions of the coefficient of the interval containing that instant times the basis function at the instant's position in that interval. Instants before the domain use the first interval, instants after it the last, and an instant on a breakpoint uses one of the two adjacent intervals (the earlier). Evaluating at a list of instants gives the list of the values at each.",
     ["inputs"], "all numbers of intervals, codomain dimensions, basis kinds and dimensions, interval lengths, coefficients and instants",
     "Tests compare a few random splines at sampled points of the domain's interior with loose tolerances; breakpoints, points outside the domain and unequal intervals are not sampled.",
     [G, "include/gsplines/GSpline.hpp", "src/Functions/FunctionBase.cpp"],
     [("GSplineBase::value_impl", G), ("GSplineBase::get_interval, interval_to_window, coefficient_segment", G)], ["GSpline::operator()", "GSpline::value"],
     [("coefficients_", "interval-major, then component, then basis index", "include/gsplines/GSpline.hpp")])
prop("C02", "Breakpoints, way-points and sizes agree with the interval lengths",
     "The breakpoints of a spline are its left end plus the partial sums of its interval lengths, its way-points are its values at the breakpoints, and the getters return the sizes and data it was built from. Construction with a number of coefficients or of lengths that does not fit the stated sizes is rejected.",
     ["inputs"], "all sizes, lengths and coefficients; all wrong sizes", "Tests only use consistent sizes and compare way-points of interpolants.",
     [G, "include/gsplines/GSpline.hpp"], [("GSplineBase constructors", G), ("get_domain_breakpoints, get_waypoints", G)], ["GSpline getters", "GSpline constructors"])
prop("C03", "The Legendre basis is the Legendre polynomials and their exact derivatives",
     "For every dimension, the Legendre basis returns the Legendre polynomials at the given position, their time derivatives of every order on an interval of the given length, and the derivatives of those with respect to the length; orders not below the dimension give zero. Its derivative matrix maps coefficients of a function to coefficients of its derivative.",
     ["inputs"], "all dimensions, positions, interval lengths and derivative orders", "Tests check low orders for a few dimensions at random positions.",
     [B + "BasisLegendre.cpp", "include/gsplines/Basis/BasisLegendre.hpp"], [("three-term recurrences", B + "BasisLegendre.cpp"), ("gsplines_legendre_dmat", B + "BasisLegendre.cpp")], ["Basis::eval_on_window", "eval_derivative_on_window", "eval_derivative_wrt_tau_on_window", "get_derivative_matrix_block"])
prop("C04", "The Lagrange basis is the cardinal polynomials of its nodes",
     "For any set of distinct nodes, the Lagrange basis returns the polynomials that are one at their own node and zero at the others, with exact derivatives of every order in time and with respect to the interval length, at any position including the nodes. Barycentric weights, the derivative matrices and the change of interpolation points are exact for the polynomials the nodes can represent.",
     ["inputs"], "all node sets, positions (exactly at a node, or farther than 1e-9 from every node), lengths and orders", "Tests use Gauss-Lobatto nodes and random positions, which never hit a node.",
     [B + "BasisLagrange.cpp", "include/gsplines/Basis/BasisLagrange.hpp"], [("barycentric formula", B + "BasisLagrange.cpp"), ("derivative_matrix, change_interpolation_points", B + "BasisLagrange.cpp")], ["Basis::eval_on_window", "BasisLagrange static functions"])
prop("C05", "The exponential basis has the stated functions, derivatives and inner products",
     "For every parameter in (0,1), the six functions of the exponential basis (exponentials times sine and cosine, linear, constant) are returned with exact time derivatives of every order and exact derivatives with respect to the interval length; its derivative matrix and its inner-product matrices of the derivatives, with their sensitivity to the length, agree with them.",
     ["inputs"], "all parameters, positions, interval lengths and supported orders", "The upstream test of this basis does not build here; it samples one parameter.",
     [B + "Basis0101.cpp", "include/gsplines/Basis/Basis0101.hpp"], [("closed forms", B + "Basis0101.cpp")], ["Basis0101"])
prop("C06", "The derivative of a spline is its time derivative, of every order",
     "Differentiating a spline any number of times gives a spline on the same domain, intervals and basis whose value at every instant is the exact derivative of the original there; differentiating twice equals asking for the second derivative, and order zero returns the spline itself.",
     ["inputs"], "all sizes, bases, lengths, coefficients, orders and instants (from the interval containing them)", "Tests compare first derivatives of random splines against finite differences.",
     ["include/gsplines/GSpline.hpp", G, B + "Basis.cpp", "include/gsplines/Basis/Basis.hpp"], [("GSplineInheritanceHelper::deriv_impl", "include/gsplines/GSpline.hpp"), ("derivative matrix blocks", "include/gsplines/Basis/Basis.hpp")], ["GSpline::derivate"])
prop("C07", "Interpolation passes through the way-points with the promised smoothness",
     "For any way-points and positive interval lengths, the interpolating spline starts at time zero, takes each way-point at its breakpoint from both sides, has continuous derivatives up to the basis dimension minus two at interior breakpoints, and zero derivatives up to half the dimension minus one at both ends. The result depends only on the arguments, not on what the interpolator computed before.",
     ["inputs", "histories"], "all way-points, lengths, sizes, bases of even dimension, and sequences of calls on one interpolator", "Tests interpolate a few random way-point sets with a fresh interpolator and check way-points only.",
     ["src/Interpolator.cpp", "include/gsplines/Interpolator.hpp"], [("Interpolator::fill_*", "src/Interpolator.cpp"), ("sparse LU solve", "src/Interpolator.cpp")], ["Interpolator::interpolate", "interpolate()", "solve_interpolation"],
     [("interpolating_matrix_, interpolating_vector_", "refilled on each call", "include/gsplines/Interpolator.hpp")])
prop("C08", "Coefficient sensitivities differentiate the interpolation system",
     "For any interval index, the returned derivative of the interpolating coefficients with respect to that interval's length satisfies the differentiated way-point, continuity and boundary conditions exactly, whatever was computed before with the same interpolator.",
     ["inputs", "histories"], "all lengths, coefficients, interval indices, bases and call sequences", "Tests compare against finite differences for one basis and size.",
     ["src/Interpolator.cpp"], [("get_coeff_derivative_wrt_tau", "src/Interpolator.cpp")], ["Interpolator::get_coeff_derivative_wrt_tau"])
prop("C09", "Norms and inner products are the integrals they are named after",
     "The derivative inner-product matrices of every basis equal the integrals of the products of the basis functions' derivatives over an interval of the given length, and their stated derivative with respect to the length. The Sobolev norm of way-points is the weighted sum of the integrals of the squared derivatives of their interpolant and its gradient is the exact derivative with respect to each length; the L2, Sobolev and semi norms and inner products of functions are the quadratures of their definitions.",
     ["inputs", "histories"], "all bases, orders, lengths, weights, way-points and call sequences", "Tests compare the norm with numeric quadrature for one basis and equal weights.",
     ["src/FunctionalAnalysis/Sobolev.cpp", "src/FunctionalAnalysis/Integral.cpp", B + "BasisLegendre.cpp", B + "BasisLagrange.cpp", B + "Basis0101.cpp"], [("SobolevNorm::inner_prod, deriv_wrt_interval_len", "src/FunctionalAnalysis/Sobolev.cpp"), ("add_derivative_matrix(_deriv_wrt_tau)", B)], ["SobolevNorm", "functional_analysis::*", "Basis::add_derivative_matrix"])
prop("C10", "The algebra of functions is the pointwise algebra",
     "Sums, differences, products, negation, multiplication by a number, composition, concatenation and dot products of functions, built in any nesting and from named objects or temporaries, evaluate at every point to the corresponding operation on the values of their operands, have the operands' domain and the expected codomain, and leave named operands unchanged. A concatenation takes the left function before the junction and the right function from it on, clamped to the joint domain.",
     ["inputs", "programs"], "all expression trees over all function kinds, operand values, points and value categories", "Tests evaluate a handful of fixed expressions.",
     ["src/Functions/FunctionExpression.cpp", "src/Functions/FunctionSum.cpp", "src/Functions/FunctionMul.cpp", "src/Functions/FunctionsComp.cpp", "src/Functions/FunctionsConcat.cpp", "src/Functions/FunctionGenericOperations.cpp", "src/Functions/FunctionBase.cpp", "src/Functions/ElementalFunctions.cpp"],
     [("operators with flattening of nested sums/products", "src/Functions/FunctionExpression.cpp"), ("eval_sum, eval_mul, eval_compose, eval_concat, eval_negative", "src/Functions/")], ["FunctionBase / FunctionExpression operators", "operator()"])
prop("C11", "Derivatives of functions follow the rules of calculus",
     "The derivative of any function built from elementary functions, splines and the algebra, of any order, evaluates at every point to the exact derivative of the function there (sum, product, chain and piecewise rules, away from junctions), keeps the domain and codomain, and does not change the function it was taken from.",
     ["inputs", "programs"], "all expression trees, derivative orders and points", "Tests take first derivatives of a few expressions.",
     ["src/Functions/FunctionExpression.cpp", "src/Functions/FunctionSum.cpp", "src/Functions/FunctionMul.cpp", "src/Functions/FunctionsComp.cpp", "src/Functions/FunctionsConcat.cpp", "src/Functions/ElementalFunctions.cpp"], [("deriv_sum, deriv_mul, deriv_compose, deriv_concat, first_deriv_*", "src/Functions/"), ("elemental deriv_impl", "src/Functions/ElementalFunctions.cpp")], ["FunctionBase::derivate"])
prop("C12", "Operands that do not fit together are rejected and left untouched",
     "Combining functions or splines whose domains, codomains, spaces or discretizations do not fit the operation (sum, difference, product, composition, concatenation, dot product, compound assignment, assignment, evaluation into a buffer of the wrong size) is rejected with an error in every value category, and no operand is changed.",
     ["inputs", "programs"], "all operations, function kinds, value categories and mismatches beyond the comparison tolerance", "Tests never combine incompatible operands.",
     ["src/Functions/FunctionExpression.cpp", "src/Functions/FunctionBase.cpp", "include/gsplines/GSpline.hpp", "src/Collocation/GaussLobattoLagrange.cpp"], [("sum_throw, mul_throw, compose_throw, concat_throw", "src/Functions/"), ("same_vector_space, same_discretization", G)], ["operators of functions and splines"])
prop("C13", "Splines of one space form a vector space",
     "Sum, difference, opposite, multiples by numbers and compound assignments of splines of the same space act on the coefficients and therefore pointwise, in every value category, give a spline of the same space, and leave named operands unchanged.",
     ["inputs"], "all sizes, bases, coefficients, factors and value categories", "Tests do not cover the rvalue overloads.",
     ["include/gsplines/GSpline.hpp", G, "src/Collocation/GaussLobattoLagrange.cpp"], [("GSplineInheritanceHelper operators", "include/gsplines/GSpline.hpp")], ["GSpline and GLLSpline operators"])
prop("C14", "Time scaling keeps the path and meets the speed limits",
     "Scaling a spline to a new execution time keeps its start instant, way-points and path and multiplies the k-th derivative by the k-th power of the time ratio, for every basis; a non-positive time is rejected. Scaling to velocity and/or acceleration bounds chooses the time for which, over the sampled instants, the tightest given bound is reached and none is exceeded, with one bound for all or one per component; missing or wrongly sized bounds are rejected.",
     ["inputs"], "all splines, times, bounds (either or both) and sampling periods", "Tests check one spline with both bounds given.",
     ["include/gsplines/GSpline.hpp", G], [("linear_scaling_new_execution_time*", "include/gsplines/GSpline.hpp"), ("random_gspline", G)], ["GSpline::linear_scaling_new_execution_time*"])
prop("C15", "Gauss-Lobatto rules are exact quadratures on any partition",
     "For every number of points from two on, the nodes are increasing and symmetric, include both end points, and with the positive symmetric weights integrate exactly all polynomials up to degree 2n-3. Nodes and weights laid over equal or given intervals are the affine images of the rule on each interval, and the integral of a function is the weighted sum of its values at them.",
     ["inputs"], "all rule sizes, domains, partitions and integrands", "Tests check one rule size against a table and equal intervals.",
     ["src/Collocation/GaussLobattoPointsWeights.cpp", "src/FunctionalAnalysis/Integral.cpp"], [("q_and_evaluation, Newton iteration", "src/Collocation/GaussLobattoPointsWeights.cpp"), ("tiling overloads", "src/Collocation/GaussLobattoPointsWeights.cpp"), ("integral", "src/FunctionalAnalysis/Integral.cpp")], ["legendre_gauss_lobatto_*", "functional_analysis::integral"])
prop("C16", "Collocation splines are the nodal algebra on their grid",
     "A collocation spline's coefficients are its values at the Gauss-Lobatto nodes of its intervals, whatever their lengths; products, sums with vectors, multiples, reciprocals, powers and norms act node by node in every value category, and approximating or assigning a function samples it at the nodes. Domain, intervals and codomain of the result are those of the operands, and assignments copy all of them.",
     ["inputs"], "all grids with unequal intervals, codomains, nodal values, functions and value categories", "The upstream collocation test does not build here; it uses equal intervals.",
     ["src/Collocation/GaussLobattoLagrange.cpp", "include/gsplines/Collocation/GaussLobattoLagrange.hpp"], [("get_value_block, value_at, operator*, norm, pow", "src/Collocation/GaussLobattoLagrange.cpp"), ("approximate, operator=", "src/Collocation/GaussLobattoLagrange.cpp")], ["GLLSpline"])
prop("C17", "Continuity and derivative matrices are right after any history of requests",
     "Applied to the coefficients of any spline, the continuity matrix gives the jumps of its derivatives at the interior breakpoints, and the derivative matrix the coefficients of its derivative, for the interval lengths of the current request; previous requests with other lengths, sizes or orders, and copies of the basis, do not matter.",
     ["inputs", "histories"], "all bases, sizes, orders, lengths and sequences of requests on one basis object", "Tests ask once per basis object or with equal lengths.",
     [B + "Basis.cpp", "include/gsplines/Basis/Basis.hpp"], [("continuity_matrix, gspline_derivative_matrix", B + "Basis.cpp"), ("get_derivative_matrix_block", "include/gsplines/Basis/Basis.hpp")], ["Basis::continuity_matrix", "Basis::gspline_derivative_matrix"],
     [("continuity_matrix_buff_, derivative_matrix_buff_ (static and dynamic)", "caches keyed by sizes, rescaled in place", "include/gsplines/Basis/Basis.hpp")])
prop("C18", "A basis or spline rebuilt from its description is the same",
     "Name, dimension and parameters of a basis rebuild an equal basis with the same functions, also through clones and after other bases were handed out; bases that differ in kind, dimension or parameters compare different, and unknown names or wrong parameter counts are rejected. A spline rebuilt from its domain, sizes, basis description, coefficients and lengths, in C++ or through the Python dictionaries, is equal and has the same values; incomplete dictionaries are refused.",
     ["inputs", "histories"], "all bases and splines, and all dictionaries with one entry missing or mistyped", "Tests round-trip one Legendre basis.",
     [B + "Basis.cpp", "python/gsplines/serialization.py", "bindings/bindings.cpp", "include/gsplines/Basis/Basis.hpp"], [("get_basis, Basis::operator==", B + "Basis.cpp"), ("serialization.py", "python/gsplines/serialization.py")], ["basis::get_basis", "gsplines.serialization"])
prop("C19", "Objects are values: copies are independent and evaluation has no memory",
     "Copies, clones, moved objects and expressions made from splines keep their value when the object they came from, the basis or the data handed in is changed or destroyed, and vice versa. Evaluating splines, bases, expressions, interpolators and norms gives the same result for the same arguments whatever was evaluated before, in any order, and writes nothing but its result.",
     ["inputs", "histories"], "all objects, and sequences of copies, changes and evaluations", "Tests evaluate each object once.",
     [G, "include/gsplines/GSpline.hpp", "include/gsplines/Functions/FunctionInheritanceHelper.hpp", "src/Functions/FunctionExpression.cpp", B], [("copy/move constructors, clone_impl", "include/gsplines/Functions/FunctionInheritanceHelper.hpp"), ("mutable buffers basis_buffer_, buff_next", "include/gsplines/GSpline.hpp")], ["all public classes"],
     [("basis_buffer_, deriv_buff_*", "scratch reused between evaluations", "include/gsplines/GSpline.hpp")])
prop("C20", "Approximate equality means what its tolerance says",
     "Two numbers compare equal exactly when they differ by less than the tolerance relative to both (absolutely, when one is smaller than the tolerance); matrices likewise by largest entry and only when the sizes agree; a quantity is approximately zero exactly when its largest entry is below the tolerance. Splines are equal, or of the same space, only if lengths, domain, basis and codomain (and, for equality, coefficients) are; the comparisons are reflexive and symmetric.",
     ["inputs"], "all numbers, matrices, splines and tolerances", "Tests use approx_equal as their oracle and never test it.",
     ["src/Tools.cpp", G, B + "Basis.cpp", "src/Functions/FunctionBase.cpp"], [("tools::approx_equal, approx_zero", "src/Tools.cpp"), ("GSplineBase::operator==, same_vector_space", G)], ["tools::approx_equal", "GSpline::operator=="])
prop("C21", "Optimal interval lengths found by the solver are feasible and optimal",
     "The path builders that minimise a Sobolev norm over the interval lengths return a spline through the way-points whose lengths are positive, sum to the requested execution time, and are a local minimum of the norm.",
     ["inputs"], "all way-points, norms and execution times", "Needs the external solver.",
     ["src/Optimization/ipopt_interface.cpp", "src/Optimization/ipopt_solver.cpp"], [("ifopt problem set-up", "src/Optimization/ipopt_interface.cpp")], ["optimization::*"])
prop("C22", "Collocation functionals compute the stated integrals and derivatives",
     "The integral, derivative and matrix-product functionals on nodal values return, for every grid, the matrices that map nodal values to the integral, to the derivative's nodal values, and to the product's nodal values.",
     ["inputs", "histories"], "all grids and update sequences", "Needs ifopt headers.",
     ["src/Collocation/GaussLobattoLagrangeFunctionals.cpp", "include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp"], [("Integral, Derivative, TransposeLeftMultiplication, ...", "src/Collocation/GaussLobattoLagrangeFunctionals.cpp")], ["collocation functionals"])
prop("C23", "Const evaluation of one object from several threads is race free",
     "Evaluating the same spline or basis from several threads at once gives each thread the value it would get alone.",
     ["schedules"], "all schedules", "Tests are single threaded.",
     ["include/gsplines/GSpline.hpp", "include/gsplines/Basis/Basis.hpp"], [("mutable scratch buffers without locks", "include/gsplines/GSpline.hpp")], ["operator() const"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
