#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os

LIN = "pytimize/programs/_linear.py"
INT = "pytimize/programs/_integer.py"
UNC = "pytimize/programs/_unconstrained.py"
UG = "pytimize/graphs/_undirected.py"
DG = "pytimize/graphs/_directed.py"
EQ = "pytimize/formulations/linear/_equation.py"
VAR = "pytimize/formulations/linear/_variable.py"
OBJ = "pytimize/formulations/linear/_objective.py"
ABS = "pytimize/formulations/linear/_abstract.py"
CON = "pytimize/formulations/linear/_constraint.py"
UTL = "pytimize/formulations/linear/_utilities.py"
CMP = "pytimize/utilities/_comparator.py"
DSJ = "pytimize/utilities/_disjoint.py"
GP = "pytimize/parsers/_graph.py"
LP = "pytimize/parsers/_linear.py"
DSC = "pytimize/parsers/_description.py"
SYM = "pytimize/parsers/_symbol.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


prop("L01", "Solving a linear program returns a true optimum, or nothing when none exists",
     "For every linear program, whatever its mix of max/min objective, <=, >= and = rows, and non-negative, non-positive and free variables, solving it returns a point of the original variables that satisfies every row and sign restriction and attains the exact optimal objective value. When the program is infeasible or unbounded, solving returns no solution instead of a point. The reported optimal value is the objective (constant included) at such a point, and likewise absent when there is no optimum.",
     ["inputs"], "all linear programs of moderate size and scale: 1..6 rows, 1..8 variables, degenerate, redundant, infeasible and unbounded ones included",
     "The tests solve about ten fixed programs, none infeasible or unbounded through solve() and none with non-positive variables; correctness has to hold for every program.",
     [LIN], [("solve / optimal_value", LIN), ("to_sef and its reverse mapping", LIN), ("two_phase_simplex", LIN)],
     ["LinearProgram.solve()", "LinearProgram.optimal_value()"])

prop("L02", "Two-phase simplex classifies every program and returns a valid certificate",
     "For every program in standard equality form with independent rows, two-phase simplex reports exactly the true outcome: optimal, unbounded or infeasible. An optimal outcome comes with a feasible basis, its basic solution attaining the optimum, and a dual vector that is dual feasible and attains the same value; an infeasible outcome comes with a Farkas vector; an unbounded outcome comes with a feasible point and an improving recession direction. The program's own certificate verifiers accept each returned certificate.",
     ["inputs"], "all SEF programs, including negative right-hand sides, degenerate vertices, square systems and all three outcomes",
     "Existing tests fix a handful of optimal and infeasible programs, and the unbounded test is an empty TODO; certificates must be valid on every input.",
     [LIN], [("two_phase_simplex", LIN), ("auxiliary", LIN), ("simplex certificates", LIN)],
     ["LinearProgram.two_phase_simplex()", "verify_optimality/infeasibility/unboundedness"])

prop("L03", "Simplex pivots keep feasibility, never lose value, and always terminate",
     "Started from any feasible basis, each simplex iteration either reports the optimum, reports unboundedness, or moves to another feasible basis that differs by one exchange chosen by Bland's rule (lowest-index improving variable enters; among minimum-ratio rows the lowest-index variable leaves) and whose objective value is no worse, and it returns the program rewritten for the basis it was given. No basis ever repeats, so the run terminates even on degenerate programs known to cycle. The complete simplex run agrees with the iterations on outcome, basis and value.",
     ["inputs", "histories"], "all SEF programs and all their feasible starting bases, in any index order, including classical cycling and Klee-Minty instances",
     "Tests step through one two-iteration example; monotonicity, Bland's choice and non-cycling are statements about every pivot of every run.",
     [LIN], [("simplex_iteration (Bland's rule, ratio test)", LIN), ("simplex loop", LIN)],
     ["LinearProgram.simplex_iteration()", "LinearProgram.simplex()"],
     [("basis", "current basis in 1-based indices", LIN)])

prop("L04", "Certificate checks accept exactly the valid certificates",
     "For a program in standard equality form, the infeasibility check accepts a vector y exactly when yA >= 0 and yb < 0; the unboundedness check accepts a pair (x, d) exactly when x is feasible, Ad = 0, d >= 0 and cd > 0; the optimality check accepts y exactly when c - yA <= 0. Vectors that meet the conditions are accepted and vectors that break one by more than rounding error are rejected. Programs not in standard equality form are refused with an arithmetic error.",
     ["inputs"], "all SEF programs and all candidate vectors: valid, invalid in exactly one condition or coordinate, slightly or grossly, given as lists or arrays",
     "Tests exercise only the infeasibility check on three fixed programs; the other two checks have no test at all.",
     [LIN], [("verify_infeasibility", LIN), ("verify_unboundedness", LIN), ("verify_optimality", LIN)],
     ["return values of the three verify_* methods"])

prop("L05", "Conversion to standard equality form preserves the program",
     "Converting any program to standard equality form yields a maximization with only equality rows and only non-negative variables whose feasible points correspond exactly to those of the original: non-positive variables are negated, each free variable becomes an adjacent difference of two, and each inequality row gets its own slack or surplus in row order. Objective coefficients are preserved for a maximization and negated for a minimization, the constant term is carried over unchanged, and feasibility, boundedness and the optimal point are the same. A program already in that form is unchanged by the conversion.",
     ["inputs"], "all programs over every combination of objective, row types and sign restrictions, with several free and non-positive variables at any position",
     "Tests compare a few fixed matrices; equivalence has to hold for every combination of signs, rows and positions.",
     [LIN], [("to_sef", LIN)], ["LinearProgram.to_sef()", "A, b, c, z, inequalities, free/negative/positive_variables, is_sef"])

prop("L06", "Canonical form is an equivalent program for its basis",
     "For any program in standard equality form and any valid basis, in any order, the canonical form has identity columns and zero objective coefficients on the basis, has exactly the same solutions, and gives every solution of the rows the same objective value as the original. Testing whether a program is in canonical form for a basis answers true exactly when those two conditions hold. A set of columns that is not a basis is rejected with an error, as is a program that is not in standard equality form.",
     ["inputs"], "all SEF programs with all their bases and non-bases, in every index order",
     "Tests check two bases of one matrix in sorted order and never test the recognition query.",
     [LIN], [("to_canonical_form", LIN), ("is_canonical_form_for", LIN)],
     ["LinearProgram.to_canonical_form()", "LinearProgram.is_canonical_form_for()"])

prop("L07", "The dual program obeys linear programming duality",
     "For every program, the value of any feasible point and the value of any feasible dual point bound each other in the right direction once the primal's constant term is set aside (the dual carries no constant). When the primal has an optimum so does the dual, with equal values, and when the primal is unbounded the dual is infeasible. The dual of the dual is the original program apart from the constant.",
     ["inputs"], "all programs over every combination of objective, row types and sign restrictions",
     "There is no test of dual construction at all; weak and strong duality quantify over all programs and all point pairs.",
     [LIN], [("dual", LIN)], ["LinearProgram.dual()"])

prop("L08", "Basis and basic-solution queries agree with linear algebra",
     "A list of column indices is recognised as a basis exactly when it has one distinct valid index per row and the chosen columns are linearly independent, in whatever order they are listed and whether given as a list or an array. The basic solution computed for a basis satisfies all equality rows and is zero outside the basis regardless of the order the basis is listed in, and asking for one on a non-basis is an error. The feasible-basis, basic-solution and feasible-basic-solution queries answer exactly according to those definitions.",
     ["inputs"], "all constraint matrices, all index lists (permuted, duplicated, out of range, wrong length) and all candidate vectors",
     "Tests use one matrix, sorted bases and never call three of the queries; order-independence and exact independence are universal statements.",
     [LIN], [("is_basis", LIN), ("compute_basic_solution", LIN), ("is_basis_feasible / is_basic_solution / is_feasible_basic_solution", LIN)],
     ["return values of the basis queries"])

prop("L09", "Feasibility, evaluation and optimality queries agree with the definitions",
     "A vector is reported feasible exactly when it satisfies every row in its stated direction and every variable's sign restriction, up to rounding error, so every solution the library computes is reported feasible, in any form of program. Evaluating a vector returns the objective with its constant; the checked evaluation returns that value for feasible vectors and is refused for infeasible ones; a vector is reported optimal exactly when it is feasible and attains the optimum. Vectors of the wrong length or type are refused with an error.",
     ["inputs"], "all programs and all vectors, including ones on the boundary, computed by the solver, or violating a single row or sign",
     "Tests probe a few hand-picked points on three programs; agreement is needed on all points, notably boundary ones and solver output with rounding noise.",
     [LIN, CMP], [("is_feasible", LIN), ("evaluate / value_of", LIN), ("is_solution_optimal", LIN)],
     ["is_feasible()", "evaluate()", "value_of()", "is_solution_optimal()"])

prop("L10", "Operations never disturb the program, its relatives or the caller's data",
     "No query, solve or conversion changes the mathematical content of the program it is called on unless the in-place option was requested, even when the call ends in an error, and repeating a call gives the same answer. Programs, their copies, duals, relaxations and converted forms, and the arrays and lists the caller passed in are all independent: changing one never changes another. The in-place option returns the program itself holding exactly the result the out-of-place call would have returned.",
     ["inputs", "histories"], "all sequences of operations over a program and the objects derived from it, including calls that raise",
     "Tests assert only that A is unchanged after a few successful simplex calls on integer matrices, which hides aliasing of float arrays and error paths.",
     [LIN, INT], [("copy and in_place handling", LIN), ("constructor array handling", LIN), ("sign normalisation in simplex", LIN)],
     ["public attributes before and after every public call", "caller-side arrays and lists"])

prop("L11", "Adding constraints and variables edits exactly what was asked",
     "After any sequence of added constraints and variables, the program's matrix, right-hand side, objective, row types, sign restrictions and standard-form flag are exactly those of the program built from scratch with those rows and columns, and it solves to the same outcome. An invalid addition (wrong length, unknown row type, both free and non-positive) is rejected and leaves the program unchanged.",
     ["inputs", "histories"], "all interleavings of valid and invalid additions, in place or not, on all programs",
     "No existing test calls either operation.",
     [LIN], [("add_constraint", LIN), ("add_variable", LIN)],
     ["LinearProgram.add_constraint()", "LinearProgram.add_variable()", "public attributes"])

prop("L12", "Program construction accepts exactly the well-formed programs",
     "Constructing a program succeeds exactly when the matrix is rectangular and numeric, the vectors match its dimensions, row types are among the three allowed and one per row, the objective is max or min, and the free and non-positive index lists hold distinct valid 1-based indices with nothing in both. A constructed program reports back exactly the data it was given (as floats, lists or arrays alike), reports every variable in exactly one sign class, and reports standard equality form exactly when it is a maximization with only equalities and only non-negative variables. Malformed input is refused with a value error.",
     ["inputs"], "all well-formed argument combinations and all single-fault corruptions of them",
     "Tests hold about twenty fixed argument sets; acceptance is a statement about every combination and fault position.",
     [LIN], [("__init__ validation", LIN), ("attribute accessors", LIN)], ["LinearProgram()", "public attributes"])

prop("L13", "The printed program shows exactly the program",
     "The text form of any program lists the objective direction, every objective coefficient, the constant when nonzero, every matrix entry with the right sign and row type, every right-hand side, and the exact set of non-negative and non-positive variables by 1-based index. Each number shown is the stored value to the displayed precision (at least three significant digits and, from one upward, three decimals; scientific notation only for tiny or huge values; zero for values under 1e-10). Decimal points line up within each column.",
     ["inputs"], "all programs with entries of any magnitude from 1e-12 to 1e30, either sign, integral or not, at any position",
     "Tests compare nine fixed renderings; faithfulness of every digit and alignment is a claim over all magnitudes and shapes.",
     [LIN, SYM], [("__repr__ / _format_number", LIN), ("SymbolParser.subscript", SYM)], ["str(program)"])

prop("L14", "Row reduction yields the reduced row echelon form",
     "Row-reducing any matrix returns its unique reduced row echelon form, so the result has the same row space and rank, and leaves the given matrix untouched. The query whether a program's matrix is in reduced row echelon form answers true exactly when it is: zero rows last, leading ones strictly moving right, and zeros elsewhere in their columns.",
     ["inputs"], "all small matrices: tall, wide, rank-deficient, with zero rows and columns, integer or fractional",
     "There is no test of either operation.",
     [LIN], [("to_rref", LIN), ("is_in_rref", LIN)], ["LinearProgram.to_rref()", "LinearProgram.is_in_rref"])

prop("L15", "Complementary slackness conditions are the right ones",
     "The complementary slackness conditions listed for a program contain one entry for each inequality row (its dual variable is zero or the row is tight) and one for each sign-restricted variable (the variable is zero or its dual row is tight), with the exact coefficients and right-hand sides of those rows. Any optimal primal and dual pair satisfies every listed condition.",
     ["inputs"], "all programs with an optimum and all their optimal primal-dual pairs",
     "There is no test of this operation.",
     [LIN], [("cs_conditions", LIN), ("dual", LIN)], ["LinearProgram.cs_conditions()"])

prop("L16", "Program equality means identical content",
     "Comparing two linear programs answers a plain true or false: true exactly when matrix, right-hand side, objective, constant, direction, row types and sign restrictions are all identical. A program equals its copy, and changing any single ingredient, or the dimensions, makes the two unequal in both comparison orders.",
     ["inputs"], "all pairs of programs, in particular pairs that differ in a single ingredient or in shape",
     "There is no test of equality.",
     [LIN], [("__eq__", LIN), ("copy", LIN)], ["program == other"])

prop("L17", "Recording steps never influences results",
     "Every operation returns the same result whether or not step recording is requested, and when it is declined no step is added to the program. Recorded steps only accumulate in order, the text view is exactly their texts joined line by line, and clearing leaves the steps empty on the chosen target (the program itself in place, otherwise a copy) and nothing else changed.",
     ["inputs", "histories"], "all sequences of operations with recording on or off, on all programs",
     "Tests look for four step keys after one conversion; non-interference compares two runs of every operation.",
     [LIN, DSC], [("__append_to_steps", LIN), ("clear_steps / steps / steps_string", LIN), ("render_descriptor", DSC)],
     ["steps", "steps_string", "clear_steps()"])

prop("L18", "The plotted polyhedron is the feasible region",
     "For a two-variable program whose rows are all <= or all >=, the plotted polygon is exactly the feasible region, sign restrictions included, clipped to the stated square: its corners are the corners of that region, in order around it. Plotting an empty region is refused with an error instead of ending the process, and plotting never changes the program.",
     ["inputs"], "all two-variable inequality systems: parallel or redundant lines, fractional coefficients, unbounded, degenerate and empty regions, any limit",
     "There is no test of plotting.",
     [LIN], [("graph_polyhedron", LIN)], ["current matplotlib figure after the call"])

prop("I01", "Branch and bound returns an optimal integer solution",
     "For every integer program with a bounded feasible region, max or min, with any row types and sign restrictions, branch and bound returns a feasible point whose integral variables (all of them, or those listed by 1-based index) are whole and whose objective value is the best over all such points. It returns nothing exactly when no such point exists.",
     ["inputs"], "all bounded pure and mixed integer programs with up to 4 variables, max and min, including infeasible ones and ones with free or non-positive variables",
     "One test solves one maximization with two non-negative variables; optimality is over all programs.",
     [INT], [("branch_and_bound", INT), ("recursive branching", INT)], ["IntegerProgram.branch_and_bound()"])

prop("I02", "Relaxing an integer program drops integrality and nothing else",
     "The relaxation of any integer program is a linear program with the same rows, objective, constant, direction and sign restrictions, and its optimal value is never worse than that of the integer program. Relaxing or solving an integer program, and changing the relaxation afterwards, leaves the integer program unchanged; copies, and copies with an added row or column, are still integer programs with the same integral variables.",
     ["inputs", "histories"], "all integer programs, and all edits of their relaxations and copies",
     "One fixed example compares attributes; independence and bound ordering need all programs.",
     [INT, LIN], [("relax", INT), ("copy", LIN)], ["IntegerProgram.relax()", "copy()", "add_constraint()", "add_variable()"])

prop("F01", "Formulation arithmetic denotes the linear expression that was written",
     "Any expression built from decision variables and numbers with +, -, unary signs, multiplication by a number, sum and augmented assignment denotes exactly the linear function written: every coefficient and the constant follow ordinary algebra. Comparing two such expressions, variables or numbers with <=, >= or == yields the constraint with all terms on one side and the constant on the other, in the same direction. Building an expression or constraint never changes the meaning of any expression or variable used in it, so subexpressions can be reused.",
     ["inputs", "programs"], "all expression trees over x[i] and named variables with shared subexpressions and nonzero constants anywhere",
     "Tests add a few variables and one constant; algebraic correctness and freedom from side effects range over all expression trees.",
     [EQ, VAR, CON, UTL], [("LinearEquation operators", EQ), ("Variable operators", VAR), ("constraint generation and padding", EQ)],
     ["terms/coefficients/constant of objectives and constraints"])

prop("F02", "A formulated model compiles to exactly the model that was stated",
     "A model stated as an objective, constraints and sign conditions compiles to the program with exactly that objective and constant, one row per constraint in order and direction, variables numbered by their index even if some appear only in the objective or only in constraints, and exactly the stated non-negative and non-positive variables with every unmentioned variable free. Sign conditions given in several steps accumulate, also after the model was already used, and duplicated or contradictory sign conditions are refused. Solving the model gives the optimum of the stated model.",
     ["inputs", "programs"], "all models over up to 6 variables, any order of statements",
     "One test compiles one model; faithfulness is over all models.",
     [OBJ, ABS, UTL, CON], [("subject_to", OBJ), ("where / whereAll*", ABS), ("program compilation and caching", ABS)],
     ["program attributes", "solve()"])

prop("F03", "Integer formulations produce integer programs",
     "A model stated with the integer formulation functions compiles to an integer program with the same rows, objective and sign conditions as the same model stated with the linear formulation functions, and its branch and bound returns the best whole-number solution. Linear formulations keep producing linear programs.",
     ["inputs", "programs"], "all bounded integer models over up to 3 variables",
     "No test touches the integer formulation functions beyond importing them.",
     ["pytimize/formulations/integer/_objective.py", "pytimize/formulations/integer/_abstract.py", ABS],
     [("integer maximize/minimize", "pytimize/formulations/integer/_objective.py")], ["program", "branch_and_bound()"])

prop("G01", "An undirected graph always equals the history of edits applied to it",
     "After any sequence of construction, edge and vertex additions, removals and weight changes, the graph reports exactly the vertices, edges (in either endpoint order), weights and adjacency that the sequence implies, and adjacency, edges and vertices always agree with each other. Edits that are not allowed (duplicates, loops, negative weights, unknown edges or vertices, empty names) are refused and change nothing. Copies equal the original until one is edited, and neither editing a copy nor the containers returned by accessors affects the graph.",
     ["inputs", "histories"], "all edit sequences over small name sets, including multi-character and unusual names",
     "Tests cover single operations on fixed graphs and never remove an edge; consistency is over all histories.",
     [UG], [("add/remove/set operations", UG), ("copy and accessors", UG), ("__eq__", UG)],
     ["edges, vertices, graph, has_*, get_*, =="], [("_graph/_edges/_vertices", "three views of one graph", UG)])

prop("G02", "Graph traversals visit exactly what they should, in a valid order",
     "Breadth-first traversal yields every vertex reachable from the start exactly once, in queue order with neighbours taken in lexical order or by the given key; depth-first traversal yields the same vertices exactly once in a genuine depth-first preorder; random traversal yields every vertex of the graph exactly once. An unknown start is refused, and traversing never changes the graph.",
     ["inputs"], "all graphs (trees, cycles, disconnected, isolated vertices), all starts and orders",
     "There is no test of traversal.",
     [UG], [("traverse / bfs / dfs", UG)], ["traverse()", "bfs()", "dfs()"])

prop("G03", "Connectivity, tree, cycle and partition answers agree with graph theory",
     "A graph is reported connected (and as having a spanning tree) exactly when it is non-empty and every two vertices are joined by a path, a tree exactly when it is connected without cycles, and cyclic exactly when some cycle exists. Its partition is exactly its connected components, each a consistent graph carrying the original edges, edge weights and vertex weights. None of these queries changes the graph.",
     ["inputs"], "all graphs up to 8 vertices sampled across densities, including empty, edgeless and disconnected ones",
     "Only the tree query is tested, on a dozen graphs.",
     [UG], [("is_connected / has_spanning_tree", UG), ("is_tree", UG), ("is_cyclic", UG), ("partition", UG)],
     ["the query results"])

prop("G04", "Shortest paths are shortest",
     "For every graph with non-negative edge weights and every pair of connected vertices, the shortest path returned is a chain of existing edges leading from the start to the end whose total weight is the minimum over all paths; from a vertex to itself it is empty. Asking for a path between unconnected or unknown vertices is refused with a value error, and the graph is unchanged.",
     ["inputs"], "all weighted graphs, all vertex pairs, zero and tied weights, unusual vertex names",
     "The only test is skipped in the repository, so nothing is checked.",
     [UG], [("shortest_path (primal-dual)", UG)], ["UndirectedGraph.shortest_path()"])

prop("G05", "The shortest-path linear program has the shortest distance as its optimum",
     "For every graph with non-negative weights and every pair of distinct connected vertices, the shortest-path program is a minimization with one non-negative variable per edge, and its optimal value equals the length of a shortest path. The indicator vector of every path between the two vertices satisfies all its rows.",
     ["inputs"], "all weighted graphs up to 6 vertices and all vertex pairs",
     "There is no test of this formulation.",
     [UG], [("formulate_shortest_path", UG)], ["UndirectedGraph.formulate_shortest_path()"])

prop("G06", "The stable-set program describes exactly the stable sets",
     "For every non-empty graph, with or without edges, the maximum stable set formulation returns an integer program and a one-to-one mapping from vertices to columns such that the 0/1 points satisfying its rows are exactly the stable sets, and no other whole non-negative point does; the objective of such a point is the total vertex weight. Its branch-and-bound optimum equals the maximum weight of a stable set.",
     ["inputs"], "all vertex-weighted graphs up to 6 vertices",
     "One test checks one small graph.",
     [UG, INT], [("formulate_max_stable_set", UG)], ["returned program and mapping"])

prop("G07", "Undirected cuts and degrees count exactly the crossing edges",
     "The cut of any set of vertices, or of a single vertex given by its name, however long that name is, is exactly the set of edges with one endpoint inside and one outside, and the degree is its size. Names not in the graph contribute nothing, a set and its complement have the same cut, and the query leaves the graph and the given collection unchanged.",
     ["inputs"], "all graphs with one- and multi-character names, all vertex subsets as sets, lists, tuples or single names",
     "Tests use one graph with single-letter names.",
     [UG], [("cut / degree", UG)], ["UndirectedGraph.cut()", "UndirectedGraph.degree()"])

prop("D01", "A directed graph always equals the history of edits applied to it",
     "After any sequence of construction, arc and node additions, arc removals (with or without removing nodes left unconnected) and weight changes, the directed graph reports exactly the nodes and arcs the sequence implies, direction included, with the weights that were set. A float demand is accepted for the one new endpoint of an arc, and a pair with one entry for each end when there are new endpoints. Edits that are not allowed (duplicates, loops, unknown arcs or nodes, a malformed demand) are refused and change nothing.",
     ["inputs", "histories"], "all edit sequences over small name sets, antiparallel arcs and multi-character names included",
     "No test covers directed graph editing beyond adding arcs for flow examples.",
     [DG], [("add_arc / add_node / remove_arc / set_*", DG)], ["arcs", "nodes", "has_arc", "has_node", "weights through residual capacities"],
     [("_graph/_arcs/_nodes", "three views of one digraph", DG)])

prop("D02", "Both maximum-flow algorithms return a feasible flow of maximum value",
     "For every directed graph with non-negative arc capacities and every two distinct nodes, each of the two maximum-flow algorithms terminates and returns a value and a flow that assigns every arc an amount between zero and its capacity, conserves flow at every other node, and has net outflow from the source equal to the value, which equals the minimum cut capacity. The graph is unchanged, and unknown or equal end nodes are refused with a value error.",
     ["inputs"], "all capacitated digraphs: antiparallel arcs, arcs into the source and out of the sink, zero capacities, disconnected parts, two-node graphs, multi-character names, integer and fractional capacities",
     "Four fixed networks with single-letter names are tested per algorithm, without antiparallel arcs.",
     [DG], [("ford_fulkerson", DG), ("preflow_push", DG), ("_compute_residual", DG)],
     ["returned value and flow"], [("flow/residual/excess/height", "algorithm state", DG)])

prop("D03", "The residual graph reflects capacities and flow exactly",
     "For every graph and every flow within capacities, the residual graph has an arc between two nodes exactly when the unused capacity in that direction plus the flow in the opposite direction is positive, with that total as its weight. Arcs missing from the flow count as zero; flows that exceed a capacity, are negative, or name unknown arcs are refused with an error.",
     ["inputs"], "all capacitated digraphs, antiparallel arcs included, and all partial or complete flow assignments",
     "There is no test of residual graphs.",
     [DG], [("create_residual", DG)], ["DirectedGraph.create_residual()"])

prop("D04", "Directed cuts and degrees count exactly the crossing arcs",
     "For any set of nodes, or a single node given by its name, however long that name is, the outgoing cut is exactly the arcs that leave the set, the incoming cut exactly the arcs that enter it, the out- and in-degree are their sizes and the connection count their sum. Names not in the graph contribute nothing and the query changes nothing.",
     ["inputs"], "all digraphs with one- and multi-character names, all node subsets as sets, lists, tuples or single names",
     "There is no test of directed cuts or degrees.",
     [DG], [("cut / ncut / indegree / outdegree / connections", DG)], ["the query results"])

prop("U01", "Disjoint sets track exactly the equivalence generated by the unions",
     "After any sequence of unions, two items have the same representative exactly when a chain of unions links them, the representative is itself a member of their class, and asking for it never changes the classes. Duplicate initial items and unknown items are refused and change nothing, also for long union sequences over large collections.",
     ["inputs", "histories"], "all union/find sequences, from tiny to thousands of items",
     "There is no test of this structure.",
     [DSJ], [("find with path compression", DSJ), ("union by rank", DSJ)], ["DisjointSet.find()", "DisjointSet.union()"])

prop("U02", "Tolerant comparisons agree with exact ones beyond rounding error",
     "The tolerant zero, sign, integrality and ordering tests give the exact mathematical answer whenever the value differs from the boundary by clearly more than the tolerance (1e-9 around zero and around integers, one part in ten thousand of a nonzero threshold), and treat values within rounding error (a few 1e-11 around zero or an integer) as equal to it. For a single number exactly one of 'less', 'greater' and 'close' holds and the non-strict tests are their unions; on an array the answer is true exactly when it is for every entry. An unknown comparison operator is refused.",
     ["inputs"], "all numbers and arrays across magnitudes and around the boundaries 0, integers and arbitrary thresholds",
     "Tests hold fixed points away from the tolerance edge; trichotomy and elementwise agreement are universal.",
     [CMP], [("is_close_to_zero / is_close_compare", CMP), ("is_integer / is_negative / is_positive", CMP)], ["Comparator results"])

prop("T01", "Graph expressions parse to exactly the edges written",
     "Every well-formed edge list in one of the four notations (two letters or hyphenated names, with or without weights) parses to exactly the written edges in order, with the exact names and weights, unweighted edges having weight zero. Text that mixes notations or is otherwise malformed is refused with a value error.",
     ["inputs"], "all edge lists over word characters in the four notations, and all single-character corruptions that leave the grammar",
     "Fixed strings only; the round trip must hold for every edge list.",
     [GP], [("GraphParser.parse", GP), ("expression type detection", GP)], ["GraphParser.parse()"])

prop("T02", "Linear expressions parse to exactly the coefficients written",
     "Every well-formed linear expression parses to a row with exactly the written coefficient, sign included, at each written 1-based variable index and zero elsewhere, with the length of the highest index or the requested size. Malformed expressions, a variable index of zero and repeated variables are refused with an error.",
     ["inputs"], "all sums of signed decimal terms with distinct indices in any order, and corrupted versions",
     "One fixed string is tested.",
     [LP], [("LinearParser.parse", LP), ("validate_expression", LP)], ["LinearParser.parse()"])

prop("N01", "Steepest descent reaches the optimizer of well-behaved functions",
     "For a smooth strictly convex function to minimize, or strictly concave function to maximize, and its gradient, steepest descent from any start returns a point whose gradient norm is within the tolerance when iterations suffice, that is never worse than the start, and that matches the unique optimizer accordingly; the optimizer itself is returned, not a reflected point. The caller's starting point, a list or an array of integers or floats, is left unchanged, and the iteration limit is respected.",
     ["inputs"], "all strictly convex quadratics and separable convex functions in 1..4 dimensions, min and max, any start",
     "One test checks one function with a one-sided comparison that almost any output passes.",
     [UNC], [("steepest_descent", UNC), ("objective handling", UNC)], ["UnconstrainedProgram.steepest_descent()"])

prop("N02", "Newton's method reaches the optimizer of well-behaved functions",
     "For a smooth strictly convex function to minimize, or strictly concave function to maximize, with its gradient and Hessian, Newton's method returns a point whose gradient norm is within the tolerance, reaching the optimizer of any quadratic in one step; the optimizer itself is returned, not a reflected point. The caller's starting point, a list or an array of integers or floats, is left unchanged, and the iteration limit is respected.",
     ["inputs"], "all strictly convex or concave quadratics and mildly non-quadratic functions in 1..4 dimensions, min and max, any start",
     "One test checks one function with a one-sided comparison that almost any output passes.",
     [UNC], [("newton_method", UNC)], ["UnconstrainedProgram.newton_method()"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
