"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files, state=list(state),
      mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Every matrix the solver yields is a strongly regular graph",
  "For feasible parameters (v,k,l,u), every matrix yielded by solving from the seed rows is a v x v symmetric 0/1 matrix with zero diagonal that starts with the seed rows and whose every vertex has degree k, every two adjacent vertices exactly l and every two non-adjacent vertices exactly u common neighbours. "
  "The columns right of the diagonal are in the canonical order: among columns that agree in all earlier rows, a row's ones come first.",
  ["inputs", "configurations"], "all parameter sets with 0<k<v-1, 0<=l<k, 0<=u<=k and (v-k-1)u = k(k-l-1), and every matrix yielded for them",
  "test_solve compares with a stored list for 13 parameter sets only, and zip() stops at the shorter list, so surplus wrong matrices behind the stored ones pass.",
  ["srg/solver.py", "srg/srg.py", "srg/gauss_elim.py", "srg/bounds.py", "srg/fork.py", "srg/unique.py"],
  [("solve / advance loop", "srg/solver.py solve, advance"), ("row system", "srg/srg.py Question.from_matrix"), ("row solver", "srg/solver.py solve_question")],
  observe=["solver.solve(SRG(solver._seed(v,k,l,u)))"])

p("C02", "The enumeration is complete",
  "For feasible parameters (v,k,l,u), every strongly regular graph with these parameters has a relabelling among the matrices the solver yields; precisely, every adjacency matrix of such a graph that starts with the seed rows and is in the canonical column order (among columns that agree in all earlier rows, a row's ones come first, right of the diagonal) is yielded. "
  "In particular the solver yields nothing only when no such graph exists.",
  ["inputs", "configurations"], "all parameter sets with 0<k<v-1, 0<=l<k, 0<=u<=k and (v-k-1)u = k(k-l-1), and every canonical adjacency matrix for them",
  "A missing matrix cannot be seen by testing outputs; test_solve even passes when the solver yields nothing at all, because it zips the output with the stored list.",
  ["srg/solver.py", "srg/srg.py", "srg/gauss_elim.py", "srg/bounds.py", "srg/fork.py", "srg/unique.py"],
  [("solve / advance loop", "srg/solver.py solve, advance"), ("pruning by NoSolution", "srg/solver.py raiseExceptionIfNotSolvableAfterwards"), ("fork over the smallest bound", "srg/solver.py fork_enum")],
  observe=["solver.solve(SRG(solver._seed(v,k,l,u)))"])

p("C03", "Enumeration ends, never repeats a matrix and leaves its input alone",
  "For feasible parameters the enumeration finishes without an error, yields no matrix twice, and a second run from the same starting object yields the same matrices in the same order. "
  "The starting matrix, and every matrix already yielded, is never modified by running the enumeration further.",
  ["inputs", "configurations", "histories"], "all parameter sets with 0<k<v-1, 0<=l<k, 0<=u<=k and (v-k-1)u = k(k-l-1); all interleavings of consuming and re-running the generator",
  "The tests run the solver once per stored parameter set, never twice, and never look at the input afterwards or at extra matrices.",
  ["srg/solver.py", "srg/srg.py"],
  [("generator", "srg/solver.py solve"), ("one matrix per accepted row", "srg/srg.py SRG.append_and_return_new")],
  observe=["solver.solve", "SRG.current_matrix"])

p("C04", "Extending a partial matrix yields exactly its legal next rows",
  "Given the first R>=2 rows of a symmetric 0/1 matrix with the right degrees and common-neighbour counts and in canonical column order, one extension step returns exactly one new matrix for each legal next row: the row continues the symmetry, has a zero on the diagonal, has degree k and has exactly l (adjacent) or u (non-adjacent) ones in common with each earlier row, with its free ones placed first among columns that agree in all earlier rows. "
  "Nothing is missing, added or repeated, the old rows are unchanged, and a partial matrix with no legal next row gives an empty result.",
  ["inputs", "histories"], "all valid canonical partial matrices (R rows of v columns), whatever search history led to them",
  "The tests only exercise the second-to-third-row step of 13 stored problems and ask that one candidate matches.",
  ["srg/solver.py", "srg/srg.py"],
  [("advance", "srg/solver.py advance"), ("from_matrix", "srg/srg.py Question.from_matrix"), ("append", "srg/srg.py SRG.append_and_return_new")],
  observe=["solver.advance"])

p("C05", "The row system says exactly what the next row has to satisfy",
  "The linear system built from a valid partial matrix of R rows (coefficients, right-hand side, total) is satisfied by a 0/1 vector x exactly when the row made of the known symmetric part, a zero and x has degree k and shares exactly l or u ones with each earlier row. "
  "It is rejected as unsolvable only when no such x exists, and the partial matrix, which may be an array of any integer or boolean type, is not modified.",
  ["inputs"], "all valid partial matrices with R>=2 rows and all candidate vectors x",
  "test_matrix_property checks the mathematics on stored matrices without calling the code that builds the system; no test evaluates the built system on wrong rows.",
  ["srg/srg.py"], [("from_matrix", "srg/srg.py Question.from_matrix"), ("parameters from the first rows", "srg/srg.py vklu")],
  observe=["Question.from_matrix"])

p("C06", "Solving a row system is exact",
  "For a 0/1 system A x = b that contains the all-ones row with the total as its right-hand side and whose equal columns stand side by side, solving returns exactly the 0/1 vectors x with A x = b whose ones come first within each group of equal columns, each exactly once. "
  "An unsolvable system gives no vector; no input gives an error.",
  ["inputs"], "all such 0/1 matrices A and non-negative right-hand sides b, consistent or not",
  "test_solve_question asks only that some candidate equals a stored row for 13 systems; spurious, repeated or missing vectors pass.",
  ["srg/solver.py", "srg/gauss_elim.py", "srg/bounds.py", "srg/fork.py", "srg/srg.py"],
  [("simplify-then-fork loop", "srg/solver.py solve_question"), ("independent copies per branch", "srg/solver.py fork_enum")],
  observe=["solver.solve_question"])

p("C07", "Each simplification step keeps the set of row solutions",
  "Merging equal columns, eliminating rows, fixing zero-bounded unknowns and fixing unknowns that stand alone in a row each turn a row question into one with the same set of solutions (assignments within bounds that satisfy the equations and the total, together with the values already fixed); they report no solution only if there is none. "
  "Branching on one unknown splits the solutions of the question into the solutions of the branches, each solution in exactly one branch, and branches share no mutable data with each other or with the parent.",
  ["inputs", "histories"], "all well-formed questions (0/1 matrix, non-negative right-hand side, bounds and total, some unknowns already fixed)",
  "One test calls one of the steps on one question and checks only sizes and signs afterwards.",
  ["srg/solver.py", "srg/bounds.py", "srg/gauss_elim.py", "srg/unique.py", "srg/fork.py"],
  [("reduce_col, eliminate, zero_in_b, only_1_element_in_row, fork_enum", "srg/solver.py")],
  observe=["solver.reduce_col", "solver.eliminate", "solver.zero_in_b", "solver.only_1_element_in_row", "solver.fork_enum"])

p("C08", "Elimination gives an equivalent smaller system",
  "For a 0/1 matrix A in which every column occurs in some row and non-negative b, elimination returns a 0/1 matrix with the same number of columns and no more rows and a non-negative b such that a non-negative integer vector solves the new system exactly when it solves the old one, and it reports a contradiction only if there is no such vector. "
  "Sorting a system by right-hand side only reorders its (row, value) pairs, into non-decreasing value. Later calls do not change what earlier ones returned.",
  ["inputs"], "all 0/1 matrices without an all-zero column, all non-negative right-hand sides, all non-negative integer vectors",
  "No test calls elimination directly; the module's demo checks a single 5x5 example.",
  ["srg/gauss_elim.py"], [("encode rows as integers, subtract sub-masks, decode", "srg/gauss_elim.py _encode, _gauss_elim, _elim, _decode, elim"), ("sort", "srg/gauss_elim.py sort")],
  observe=["gauss_elim.elim", "gauss_elim.sort"])

p("C09", "Reducing and expanding column runs is lossless",
  "Reducing a 0/1 matrix to one column per run of equal neighbouring columns and expanding with the returned multiplicities gives back the original matrix; neighbouring columns of the reduced matrix differ, the multiplicities are positive and add up to the number of columns, and the returned positions are where each run starts. "
  "The matrix passed in is not modified. Later calls do not change what earlier ones returned.",
  ["inputs"], "all 0/1 matrices with at least one row and column ",
  "No test touches these functions; the module's demo checks one 3x7 matrix.",
  ["srg/unique.py"], [("column codes", "srg/unique.py _encode"), ("reduce / expand", "srg/unique.py reduce, expand")],
  observe=["unique.reduce", "unique.expand"])

p("C10", "Bound tightening removes only impossible values",
  "Tightening upper bounds from a 0/1 system gives every unknown the minimum of its old bound and the right-hand sides of the rows it occurs in - never less and never more; the zero-bound query lists exactly the unknowns whose bound is zero, in order. "
  "The single-entry query returns pairs (row, column) in which the column is the only non-zero one of that row, exactly one pair for each column that is alone in some row; matrix and right-hand side stay unmodified.",
  ["inputs"], "all 0/1 matrices, non-negative right-hand sides and non-negative bounds",
  "No test calls these functions directly; the module's demo checks two matrices.",
  ["srg/bounds.py"], [("lower_upper_bound, zero_bound_loc, one_element_row_locs", "srg/bounds.py")],
  observe=["bounds.lower_upper_bound", "bounds.zero_bound_loc", "bounds.one_element_row_locs"])

p("C11", "Quota splitting and bounded partitions enumerate exactly",
  "Splitting a quota at one position yields, in increasing order and once each, exactly the pairs (used, rest) with used+rest = quota, 0 <= used <= the bound there and 0 <= rest <= the sum of the other bounds. "
  "Enumerating bounded partitions of s yields, in lexicographic order and once each, exactly the tuples of non-negative integers within the given bounds that sum to s.",
  ["inputs"], "all non-negative quotas, sums, bounds and positions",
  "No test calls either enumerator; the demos check single calls, and only the first two items of them.",
  ["srg/fork.py", "srg/partition.py"], [("enum", "srg/fork.py enum"), ("enum", "srg/partition.py enum")],
  observe=["fork.enum", "partition.enum"])

p("C12", "Maximising relabels the graph and never lowers its encoding",
  "Maximising a symmetric 0/1 matrix with zero diagonal returns the adjacency matrix of the same graph under a relabelling that keeps the first vertex first; the first row has its ones in front, if the first vertex has a neighbour, the second row has its ones in front among the first vertex's other neighbours and among its non-neighbours; the row-by-row upper-triangle encoding is lexicographically at least that of the input. "
  "Swapping two vertices is the corresponding relabelling, undone by swapping again; the verifying variant refuses exactly the 0/1 matrices that are not symmetric or have a one on the diagonal. Inputs, which may be arrays of any integer or boolean type, are not modified.",
  ["inputs"], "all symmetric 0/1 matrices with zero diagonal, and all vertex pairs",
  "Two tests check one matrix each against a stored result.",
  ["srg/sorter.py"], [("partition refinement", "srg/sorter.py AdjMat.sort, _div_sort, _sort, maximize"), ("swap", "srg/sorter.py swap, swap_and_verify")],
  observe=["sorter.maximize", "sorter.swap", "sorter.swap_and_verify"])

p("C13", "Sorting matrices is a permutation into ascending order",
  "Sorting any list (or iterator) of equally sized adjacency matrices (of any integer or boolean type) returns a list with exactly the same matrices, repeated ones included, in ascending lexicographic order of their row-by-row upper triangles. "
  "The result does not depend on the order in which the matrices were given, and neither the matrices nor the list passed in are modified.",
  ["inputs"], "all lists of symmetric 0/1 matrices of one size, in any order, with repetitions",
  "The tests sort only solver output, of at most 13 matrices, already nearly in order, and compare with a prefix.",
  ["srg/sorter.py"], [("comparison of encodings", "srg/sorter.py _encode, _cmp_1d_bin_array, _cmp_srg_matrix, sort")],
  observe=["sorter.sort"])

p("C14", "The complement is exact, self-inverse, and has the stated parameters",
  "Complementing an adjacency matrix flips every off-diagonal entry, keeps the diagonal zero and leaves the input alone; doing it twice gives back the original. "
  "The complement of a strongly regular graph with parameters (v,k,l,u) is strongly regular with the parameters the parameter formula returns; the formula is its own inverse and maps feasible parameters to parameters that pass the feasibility test.",
  ["inputs"], "all 0/1 adjacency matrices, all strongly regular graphs and all integer parameter sets",
  "The tests complement only stored matrices, and check neither the involution nor any other parameters.",
  ["srg/utils.py"], [("complement, _invert", "srg/utils.py"), ("complement_vklu", "srg/utils.py")],
  observe=["utils.complement", "utils.complement_vklu"])

p("C15", "Parameter arithmetic agrees with the theory",
  "The feasibility test accepts exactly the parameter sets with (v-k-1)u = k(k-l-1). "
  "The conference value is 2k+(v-1)(l-u); for parameters with integral spectrum the reported eigenvalues are k once and the two roots of x^2-(l-u)x-(k-u) = 0, larger first, with non-negative multiplicities that add up to v and make the trace zero. "
  "The determinant is the exact integer product of the eigenvalues with their multiplicities, for conference parameters as well.",
  ["inputs"], "all integer parameter sets (spectrum and determinant: those of graphs, i.e. with integral spectrum or conference parameters)",
  "The tests evaluate the determinant for the 21 stored problems only, and never the feasibility test on a rejected set.",
  ["srg/utils.py"], [("eig, conference, determinant, assert_srg", "srg/utils.py")],
  observe=["utils.assert_srg", "utils.conference", "utils.eig", "utils.determinant"])

p("C16", "Seed rows are canonical and carry the parameters",
  "The two seed rows for parameters (v,k,l,u) are the neighbourhoods of two adjacent vertices in canonical order: row one is 0, k ones, zeros; row two is 1, 0, l ones, zeros up to column k, then k-l-1 ones, then zeros. "
  "Reading the parameters back from the seed, or from any partial or complete matrix that starts with it, whatever its integer or boolean type, gives (v,k,l,u). Later calls do not change what earlier ones returned.",
  ["inputs", "configurations"], "all feasible parameter sets with 0<k<v-1 and k-l-1 <= v-k-1",
  "Tests only use seeds of 13 stored problems, and only indirectly.",
  ["srg/solver.py", "srg/srg.py"], [("_seed", "srg/solver.py _seed"), ("vklu", "srg/srg.py vklu")],
  observe=["solver._seed", "srg.vklu"])

p("C17", "An answer expands to the row it stands for",
  "An answer made of buckets (start positions, row length) and a count per bucket expands to the 0/1 row in which each bucket has its count of ones first and then zeros; bucket sizes are the gaps between starts and add up to the row length. "
  "Unknown counts are exactly the ones listed as unknown, and expanding an answer with an unknown or oversized count is refused; expansion does not modify the answer. Later calls do not change what earlier ones returned.",
  ["inputs"], "all bucket layouts and all counts, unknown and oversized ones included",
  "No test expands an answer except through whole solver runs.",
  ["srg/srg.py"], [("Answer.quota, unknown_loc, unknown, binarize", "srg/srg.py Answer")],
  observe=["Answer.binarize", "Answer.quota", "Answer.unknown_loc", "Answer.unknown"])

p("C18", "Copies are independent and equality is exact",
  "A copied question or answer equals its original, and no later change to either one is visible in the other. "
  "Two questions are equal exactly when matrix, right-hand side, total, bounds and answer (counts, bucket starts, length) all agree.",
  ["inputs", "histories"], "all pairs of well-formed questions and answers, and all later changes to either",
  "No test copies or compares questions; the solver's fixed-point loop and its branches depend on both.",
  ["srg/srg.py"], [("Question.copy, __eq__; Answer.copy, __eq__", "srg/srg.py")],
  observe=["Question.copy", "Question.__eq__", "Answer.copy", "Answer.__eq__"])

p("C19", "The catalogue holds valid, distinct graphs, all of them where solved",
  "Every catalogue entry is named after its parameters, is found by listing and by looking up these parameters, and all its matrices are symmetric 0/1 with zero diagonal, strongly regular with exactly these parameters, canonical (seed rows first; among columns that agree in all earlier rows, ones first), pairwise different and, up to 27 vertices, sorted ascending. "
  "Every entry except (25,12,5,6), (26,10,3,4) and (29,14,6,7), which the authors left unfinished, is complete: every canonical matrix with these parameters is in it.",
  ["inputs", "configurations"], "all catalogue entries and, for completeness, all canonical adjacency matrices of their parameters",
  "Tests check the identity and determinant of each stored matrix, but not that none is missing, repeated, out of order or mislabelled; test_solve stops at the shorter list.",
  ["srg/database/__init__.py", "srg/database/"], [("list_problems, extract_vklu, get_solutions", "srg/database/__init__.py"), ("data", "srg/database/problem_*.py")],
  observe=["database.list_problems", "database.extract_vklu", "database.get_solutions"])

p("C20", "The command line answers exactly the question asked",
  "'python -m srg v k l u' refuses parameters with (v-k-1)u != k(k-l-1) before solving anything, and otherwise prints exactly the solver's matrices for these parameters, each once, in ascending order. "
  "'python -m srg.database' lists the catalogue when no parameters are given, refuses infeasible parameters and unknown commands, and with 'list v k l u' prints exactly the stored matrices of these parameters; 'draw v k l u' draws one picture per stored matrix, with exactly its edges, each into a file of its own that is named after the parameters and whose name is printed. Matrices are printed in full whatever their size.",
  ["inputs", "configurations"], "all integer arguments v k l u",
  "No test runs either command (the second one did not even start).",
  ["srg/__main__.py", "srg/database/__main__.py"], [("main", "srg/__main__.py"), ("main", "srg/database/__main__.py")],
  observe=["standard output and exit of python -m srg, python -m srg.database"])

p("C21", "Malformed systems, answers and rows are refused",
  "A question accepts exactly a matrix with one right-hand side per row and one bound per column, none of them negative, and a non-negative total; assigning a negative right-hand side, bound or total later, or an answer whose number of unknowns differs from the number of columns, is refused and changes nothing. "
  "An answer accepts exactly bucket starts that begin at 0, ascend and lie inside the row, with one count each. A partial matrix of R rows accepts as its next row exactly v-R-1 free entries, keeps its own rows, and is solved exactly when it has v rows.",
  ["inputs"], "all shapes, right-hand sides, bounds, totals, bucket starts and counts, well-formed or not",
  "No test builds a malformed question or answer; a lost check would show up as wrong graphs far from its cause.",
  ["srg/srg.py"], [("constructors and setters", "srg/srg.py Question, Answer"), ("append", "srg/srg.py SRG.append_and_return_new, solved")],
  observe=["Question", "Answer", "SRG.append_and_return_new", "SRG.solved"])

p("C22", "The self-check of a question is exact and tracing a step changes nothing",
  "The self-check of a question fails exactly if a right-hand side or bound is negative, the number of right-hand sides differs from the number of rows, the number of bounds or of unknowns from the number of columns, a known count exceeds its bucket, or there is no column left and some right-hand side is not zero; it modifies nothing. "
  "A step wrapped for tracing runs exactly once on the question it is given, has the same effect, result and error as the step alone, and fails afterwards exactly if the self-check fails.",
  ["inputs"], "all questions, well-formed or not, and all steps",
  "No test runs a traced step; a tracer that changes the question hides or creates the bug one is looking for.",
  ["srg/utils.py", "srg/srg.py"], [("debug", "srg/utils.py debug"), ("self-check", "srg/srg.py Question._invariant_check")],
  observe=["utils.debug", "Question._invariant_check"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
