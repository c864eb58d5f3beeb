INTRA = LS + "intra_route_operators.py"
INTER = LS + "inter_route_operators.py"

prop("I01", "Single-route improvement moves are valid and report exact gains",
     "Every move that improves one route returns a route over exactly the same customers starting and ending at the depot, whose length differs from the old one by exactly the reported change, and that change is strictly improving (or better than the level asked for). A search that finds nothing says so and the given route is never modified.",
     "all symmetric non-negative distance matrices, all five operators, both accept strategies, optional required level; routes up to the stated number of customers",
     "tests use a handful of fixed geometric instances; wrong index or sign errors show only for particular distance patterns",
     [INTRA], "the five do_*_move functions of the intra-route operators",
     "exhaustive path exploration up to 5 customers (3-opt: 4) for quick; numbers are dyadic rationals")
prop("I02", "Single-route moves find an improving neighbour whenever one exists",
     "If any neighbour of the route under the move's neighbourhood is shorter, the search returns an improvement; with best-accept it returns the shortest neighbour. Only a route that is locally optimal may be reported as having no improvement.",
     "all symmetric non-negative matrices, all single-route operators; routes up to the stated number of customers",
     "local optimality is a statement about all neighbours of all inputs; tests check a few known improvable tours",
     [INTRA], "loop ranges and acceptance conditions of the five intra-route operators",
     "exhaustive within sizes; the neighbourhoods are re-enumerated independently by the harness")
prop("X01", "Moves between routes keep the solution complete and feasible",
     "A move between two or three feasible routes returns routes that serve exactly the same customers, each within the vehicle capacity and the maximum route length. The given routes are never modified, and a search that finds no move says so in every component of its answer.",
     "all symmetric non-negative matrices, demands, capacities and length limits for which the given routes are feasible; all four exchange operators, both strategies",
     "feasibility must hold for every combination of slack in capacity and length, including distances without the triangle inequality, which no test samples",
     [INTER], "do_2optstar_move, do_1point_move, do_2point_move, do_chain_move",
     "path exploration over all values for routes of 0-3 customers; a few largest configurations may stay partial in quick")
prop("X02", "Moves between routes report exact costs, demands and gains",
     "The reported gain of a move equals the true change of the total length and is strictly improving, and the cost and demand stored with every returned route are the true ones.",
     "all matrices, demands and limits, all four exchange operators, both strategies, optional required level",
     "stale or swapped bookkeeping shows only several moves later and only for some distance patterns",
     [INTER, "verypy/routedata.py"], "the tuple assembly at the end of each inter-route operator",
     "path exploration over all values for routes of 0-3 customers")
prop("X03", "Moves between routes miss no feasible improvement",
     "If any neighbour of the routes under the move is feasible and shorter, the search returns an improving move, and with best-accept the best one.",
     "all matrices, demands and limits, all four exchange operators, both strategies",
     "completeness is a statement over all neighbours and all slack patterns; too strict feasibility checks pass every test",
     [INTER], "loop ranges and feasibility tests of the inter-route operators",
     "path exploration over all values for routes of 0-3 customers; neighbourhoods re-enumerated independently")
prop("X04", "Inserting customers and dissolving a route is safe and exact",
     "Inserting unrouted customers into a route, or redistributing a whole route over others, either fails without side effects or serves every customer exactly once within capacity and length limit, with the exact added cost and bookkeeping, respecting the required level. A single customer is refused only if it really does not fit, and best-accept picks its cheapest feasible position.",
     "all matrices, demands, limits and levels; customer, list and route forms of the argument; four recombination levels",
     "partial failures in the middle of a redistribution need particular slack combinations",
     [INTER], "do_insert_move and do_redistribute_move",
     "exhaustive for up to 3+2 inserted customers and three routes within the stated sizes")
prop("T01", "The built-in tour improver returns a valid, no longer tour",
     "Ordering a set of customers with the built-in tour routine returns a depot-rooted round trip over exactly those customers, its exact length, and never a longer tour than the given order.",
     "all symmetric non-negative matrices; every subset and start order within the size bound",
     "the multi-phase heuristics rely on it for every cluster; tests use it on a few instances only",
     ["verypy/tsp_solvers/tsp_solver_ropt.py"], "solve_tsp_ropt and the operators it iterates",
     "exhaustive within sizes")
SV = [CH + x for x in ("parallel_savings.py", "sequential_savings.py", "gaskell_savings.py",
                       "paessens_savings.py", "suppression_savings.py", "cawlip_savings.py")]
prop("F01", "Savings heuristics return complete feasible solutions",
     "For every solvable problem each savings heuristic terminates and returns a solution that serves every customer exactly once from the depot within capacity and route length limit. The parallel variant is never longer than serving every customer alone and, unless route length is limited, leaves no pair of route ends whose merge is feasible and saves distance.",
     "all instances: matrices without triangle inequality, optional capacity and length limit, all option combinations; sizes up to the stated bound",
     "feasibility and merge maximality are statements about every combination of distances, demands and limits; tests compare total lengths on fixed benchmark files",
     SV, "the *_savings_init functions", "exhaustive for all matrices up to 3 customers, and on fixed matrices with all demands, capacities and limits for 4-6 customers")
prop("F02", "Insertion heuristics return complete feasible solutions",
     "For every solvable problem the cheapest insertion and the Mole and Jameson heuristics, sequential and parallel, terminate and return a solution that serves every customer exactly once from the depot within capacity and route length limit.",
     "all instances with optional capacity and length limit, all seeding and criterion options; sizes up to the stated bound",
     "the heuristics re-open and re-queue insertions depending on slack; the failing slack patterns are not in any test",
     [CH + "cheapest_insertion.py", CH + "mole_jameson_insertion.py"], "cheapest_insertion_init, mole_jameson_insertion_init",
     "exhaustive for all matrices up to 3 customers, fixed matrices with all demands, capacities and limits for 4-5 customers")
prop("F03", "Nearest neighbour heuristics return complete feasible solutions",
     "For every solvable problem the nearest neighbour heuristics (sequential, parallel, grouped) terminate and return a solution that serves every customer exactly once from the depot within capacity and route length limit, also when customers share a location.",
     "all instances with optional capacity and length limit, all seeding and growing options; sizes up to the stated bound",
     "the heuristics keep sorted neighbour queues that are mutated in place; losing a customer needs ties or tight slack",
     [CH + "nearest_neighbor.py", CH + "tyagi_nearest_neighbor.py"], "nearest_neighbor_init, tyagi_init",
     "exhaustive for all matrices up to 3 customers, fixed matrices with all demands, capacities and limits for 4-6 customers")
prop("F04", "Sweep heuristics return complete feasible solutions",
     "For every solvable problem the sweep, Gillett and Miller, and Wren and Holliday heuristics terminate and return a solution that serves every customer exactly once from the depot within capacity and route length limit, whatever the start angle, direction and intra-route improvement.",
     "customer locations sampled per configuration, every demand vector, capacity and route length limit; all option combinations; sizes up to the stated bound",
     "the sweep wraps around the circle and closes routes on exact capacity and length equality; tests use a few instances",
     [CH + "sweep.py", CH + "gillet_miller_sweep.py", CH + "wren_holliday_sweep.py"], "sweep_init, gillet_miller_init, wren_holliday_init",
     "locations are concrete (polar angles are transcendental); demands, capacity and limit are symbolic and exhaustive within sizes")
prop("F05", "Multi-phase heuristics return complete feasible solutions",
     "For every solvable problem the two-phase parallel heuristic, the route-first-cluster-second heuristic and the Lagrangian 3-opt heuristic terminate and return a solution that serves every customer exactly once from the depot within capacity and route length limit.",
     "all instances with optional capacity and length limit, all seed selection and repetition options; sizes up to the stated bound",
     "each phase hands partial solutions to the next; a lost customer or an unchecked limit needs a specific slack pattern",
     [CH + "cmt_2phase.py", CH + "rfcs.py", CH + "lr3opt.py"], "cmt_2phase_init, route_first_cluster_second_init, lr3opt_init",
     "exhaustive for all matrices up to 3 customers and fixed matrices with all demands, capacities and limits up to 6 customers")
prop("G01", "Splitting a giant tour into routes is optimal",
     "When a giant tour is split into vehicle routes, the result is the cheapest split of that tour that respects capacity and route length limit, or the one with the fewest routes if the number of vehicles is minimised first.",
     "all distance matrices, demands, capacities and limits; tours up to the stated number of customers",
     "optimality is a statement against every other split of every tour; tests check a total length on a few files",
     [CH + "rfcs.py"], "_partition_to_routes_with_cost_matrix and the split decoding",
     "all 2^n cyclic splits are compared by the solver on every path")
prop("S01", "Three-edge exchanges on a whole solution are safe, exact and complete",
     "An exchange of up to three edges of the giant tour, also across routes, returns a complete feasible solution whose length differs by exactly the reported, strictly improving change. It reports no improvement only if no such exchange is feasible and shorter, and best-accept returns the best one.",
     "all distance matrices, demands, capacities and limits for which the given solution is feasible; both accept strategies; solutions up to the stated size",
     "the seven reconnection cases times the depot positions times slack patterns; tests use a few geometric instances",
     [LS + "solution_operators.py"], "do_3optstar_move, _check_3opt_move",
     "neighbourhood re-enumerated independently as all reconnections of four pieces with depots interchangeable")
prop("S02", "Reference implementations of moves are safe, exact and complete",
     "A reference (plain, unoptimised) move on a feasible solution leaves it as it was and returns a complete feasible solution and exactly its change in length, or nothing only if no move of its kind is feasible and improves by more than the required level; best-accept returns the best one. The search that repeats such moves ends in a feasible solution that is no longer than the given one and that none of the moves can improve, or after the stated number of rounds.",
     "all distance matrices, demands, capacities, limits and required levels for which the given solution is feasible; both accept strategies; solutions up to the stated size",
     "they are the yardstick the optimised moves are tested against, yet no test judges the yardstick; some of them only run on inputs no test has",
     [LS + "naive_implementations.py"], "do_naive_2opt/2optstar/1point/2point/relocate/exchange_move, do_naive_local_search",
     "judged against independently enumerated neighbourhoods of the whole solution")
prop("L01", "Local search ends in a feasible, no longer, locally optimal solution",
     "Improving a feasible solution with any set of moves and any acceptance strategy terminates with a complete feasible solution that is not longer than the given one. Unless it was stopped by an iteration limit, none of the given moves can improve any combination of its routes any further.",
     "all matrices, demands, capacities and limits for which the given solution is feasible; all combinations of move sets and acceptance strategies",
     "the driver skips route combinations it believes to be exhausted; a stale mark leaves improvements behind only after particular move sequences",
     [LS + "__init__.py"], "do_local_search and its bookkeeping of searched route combinations",
     "exhaustive within sizes; the local optimum is judged against independently enumerated neighbourhoods")
prop("V01", "Solution validation reports exactly the violated constraints",
     "For any sequence of nodes that visits the depot, the validator's three verdicts (every customer served exactly once, capacity respected, route length respected) are each true exactly when the constraint holds, also when the sequence starts in the middle of a route.",
     "all node sequences, asymmetric matrices, demands, capacities and limits within the stated lengths",
     "both wrong acceptance and wrong rejection must be excluded for every sequence; tests check a few solutions",
     ["verypy/cvrp_ops.py"], "validate_solution_feasibility: head and tail accumulation around the first depot visit",
     "node sequence symbolic (integer variables), exhaustive within sizes")
prop("V02", "Solution length and demand are computed correctly",
     "The recalculated length of a solution equals the sum of its travelled distances, given either as one tour or as a list of routes with or without their depot visits, and the total demand equals the sum over its nodes.",
     "all node sequences and all cuts into routes within the stated length, all (asymmetric) matrices and demands",
     "the equality must hold for every encoding; tests use two or three encodings",
     ["verypy/cvrp_ops.py", "verypy/util.py"], "recalculate_objective, objf, totald",
     "exhaustive within sizes")
prop("E01", "Solution encodings convert without loss and normal forms are canonical",
     "Converting a tour to routes, to route records or to edges and back preserves the routes; empty routes disappear. The normal form of a solution serves the same routes and is the same for every order and direction of its routes, for every encoding of them, and when applied twice.",
     "all tours with distinct customers and any number of depot visits within the stated length",
     "equivalence over all encodings of a solution; tests check single examples",
     ["verypy/util.py", "verypy/cvrp_ops.py", "verypy/routedata.py"], "sol2routes, routes2sol, without_empty_routes, sol2edgeset, normalize_solution, RouteData.from_solution/to_solution",
     "node sequence symbolic, exhaustive within sizes")
prop("R01", "Route records hold exact cumulative lengths and demands",
     "A route record built from a route carries its true length, demand and customer set, and its cumulative data give at every position the exact length and demand before and after it. Normalising only reverses the route.",
     "all routes within the size bound, all symmetric matrices and demands",
     "all later feasibility checks rely on these sums at every position; off-by-one errors cancel on symmetric examples",
     ["verypy/routedata.py"], "RouteData.update_auxiliary_data, from_routes, normalize",
     "exhaustive within sizes")
prop("T02", "Service time built into distances charges each customer exactly once",
     "With the service time built into the distance matrix every route costs its length plus the service time once per customer, for integer and real distances and service times alike. The given matrix is unchanged and the new one stays symmetric with a zero diagonal.",
     "all symmetric integer and real matrices, all positive service times, all routes within the size bound",
     "odd service times and mixed number types each round differently; tests use even service times",
     ["verypy/cvrp_ops.py"], "D2D_c",
     "exhaustive within sizes; integer service times up to 9 when rounding is involved")
prop("B01", "Comparing solutions follows the chosen primary objective",
     "A solution replaces the best one exactly when it is strictly better under the primary objective (total length, or number of vehicles and then length), and any solution is better than none.",
     "all costs and vehicle counts",
     "a strict order must hold for all ties and equal counts; tests do not compare ties",
     ["verypy/util.py"], "is_better_sol",
     "exhaustive: no bound on the numbers beyond the three compared solutions")
prop("D01", "Helper containers behave like their sequential model under any history",
     "The ordered set and the two-ended peeking queue give after every history of operations the same answers as a plain list with the same operations applied.",
     "all operation histories within the stated length",
     "stale caches show only after particular interleavings of reads and writes",
     ["verypy/util.py", CH + "nearest_neighbor.py"], "OrderedDictSet key cache, _PeekQueue positions",
     "operation codes and elements symbolic; histories of 3-5 operations", over="histories")

prop("D02", "List helpers sort, search and rank as documented for every input",
     "Natural sorting of any names never fails, keeps every name, compares runs of the digits 0-9 as numbers and other text without regard to case. The list of nearest neighbours of every node of a distance matrix holds each node once with its distance, nearest first, and leaves the matrix as it was. The sortedness test and the search for the first valid item of a list give the answer their definition gives.",
     "all names built from the stated fragments, matrices, lists of numbers and missing values up to the stated sizes",
     "file names with unusual digits, ties and zero distances do not occur in the tests",
     ["verypy/util.py"], "natural_sort, produce_nn_list, is_sorted, first_valid",
     "fragment choices, matrix entries and list items symbolic")

prop("W01", "Refinement steps of the two-ended sweep keep solutions complete and feasible",
     "Each refinement step of the Wren and Holliday heuristic, applied to feasible routes, keeps every customer either on exactly one route or known as not yet served, keeps every route within capacity and route length limit, and keeps the recorded lengths and demands exact. Steps that rearrange customers never make the solution longer, and a removed route lowers the number of routes by one.",
     "all matrices, demands, capacities and limits for which the given routes are feasible; sets of routes up to the stated size",
     "the steps cut and rejoin routes depending on slack; tests see only their combined result on fixed files",
     [CH + "wren_holliday_sweep.py"], "inspect, single, pair, delete, complain, disentangle heuristics",
     "exhaustive for the route sets listed per harness")
prop("A01", "An interrupted run passes the interrupt on and leaves a usable solution",
     "If the user interrupts an algorithm while it solves a problem, the interrupt reaches the caller. A solution that comes with it serves every customer exactly once within capacity and route length limit.",
     "every moment of interruption at which the algorithm looks up a distance; all capacities and limits, and matrices and demands within the stated modes; 1-4 customers",
     "a test cannot interrupt at every moment of every run; only some moments leave the partial solution inconsistent",
     [CH + x + ".py" for x in ("cheapest_insertion", "mole_jameson_insertion", "nearest_neighbor", "parallel_savings", "sequential_savings", "gaskell_savings", "sweep", "rfcs", "cmt_2phase", "gillet_miller_sweep")],
     "the KeyboardInterrupt handlers", "the moment is a symbolic variable; interrupts between distance look-ups only",
     over=["inputs", "fault_sequences"])

prop("F06", "Every registered algorithm solves every solvable problem through one interface",
     "Looked up by its name and called through the common interface with any combination of optional constraints and the single-run and fewest-vehicles options, each algorithm returns a solution that serves every customer exactly once from the depot within capacity and route length limit. An algorithm refuses an option only where its documentation says so.",
     "18 algorithms, all option combinations; for each all capacities and limits, and all matrices and demands where linear; 1-4 customers",
     "the common interface maps options to algorithm parameters; an option combination with a tight or missing constraint is in no test",
     ["verypy/__init__.py", "verypy/shared_cli.py"] + [CH + x + ".py" for x in ("cheapest_insertion", "nearest_neighbor", "sweep", "gillet_miller_sweep", "wren_holliday_sweep", "lr3opt", "rfcs", "cmt_2phase")],
     "the get_*_algorithm call_init wrappers and get_algorithms",
     "exhaustive within sizes; lr3o and (for more than one sweep) wh with constant demands because their coefficients are products of inputs; gap, mbsa, ptl cannot be imported here")
prop("N01", "Solving a problem has no side effects and can be repeated",
     "An algorithm leaves the given distance matrix, demands and locations as they were, and solving the same problem again in the same process gives the same solution.",
     "18 algorithms, all option combinations; for each all capacities and limits, and matrices and demands within the stated modes; 1-4 customers",
     "a temporarily modified matrix or an order that depends on memory addresses is invisible in the total length the tests compare",
     [CH + x + ".py" for x in ("gillet_miller_sweep", "cheapest_insertion", "mole_jameson_insertion", "nearest_neighbor", "tyagi_nearest_neighbor")],
     "in-place work on D, d and points; ordering of ties", "exhaustive within sizes", over=["inputs", "histories"])
IO = "verypy/cvrp_io.py"
prop("P01", "Problem files are read as they are written down",
     "Reading a problem file gives the locations, distances, demands, capacity, number of vehicles, route length limit and service time that the file states, for every supported matrix layout and line wrapping. A depot that is not the first node is moved to the first place together with all of its distances, location and demand, and constraints the file does not state are absent.",
     "all numbers in the file; sizes, matrix layouts, line wrappings, depot positions and optional fields within the stated sets",
     "each of the many layouts and optional sections maps a number to another place; tests read a few complete files",
     [IO], "read_TSPLIB_CVRP, read_TSBLIB_additional_constraints, _convert_* helpers",
     "numbers in the text are symbolic tokens (float()/int() return proxies), layouts are enumerated")
prop("P02", "A problem written to a file and read back is the same problem",
     "Writing a problem, or a selected part of its nodes in a given order, to a file and reading that file gives the same distances, demands, capacity and route length limit for those nodes, scaled to integers if so asked. A problem without demands reads back as one that a single vehicle can serve, and nothing else is added.",
     "all symmetric distances, integer demands, capacities and limits; sizes and node selections within the stated set",
     "round trip equality is a statement about all problems; tests write one",
     [IO], "write_TSPLIB_file and the readers", "exhaustive within sizes; decimal formatting is modelled as an exact token")
prop("P03", "Solution files round trip and state the right cost",
     "A solution written to a solution file and read back has the same routes, the same number of routes and, to the two decimals written, the same cost. The compact signed encoding of a solution marks exactly the first customer of every route.",
     "all costs and node sequences within the stated length", "tests read one file",
     [IO], "as_OPT_solution, read_OPT_CVRP, as_VRPH_solution", "exhaustive within sizes")
prop("P04", "Distances computed from locations follow the problem's metric",
     "The distance computed between two locations follows the definition of the problem's distance type, including its rounding up, down or to the nearest integer, and is zero from a location to itself. The same holds for distances from one set of locations to another.",
     "all integer coordinates within the stated ranges, from two origins, seven distance types",
     "rounding boundaries are hit by few coordinate pairs", [IO], "calculate_D and the distance functions",
     "square roots are characterised by integer bounds and decided exactly; geographical distances are excluded (transcendental)")
prop("P07", "Drawings show every node in its place and exactly the travelled edges",
     "The drawing file of a set of routes holds every node exactly once with its own number and place, and exactly one edge per step of every route, in the colour of its group and with its distance if distances are given. Points scaled to a drawing area lie inside that area, keep their order in both directions and, if asked for, the aspect ratio; this never fails, also for points on one line or one spot.",
     "all coordinates; all routes, colours and highlighted nodes up to the stated size",
     "no test draws anything",
     ["verypy/visualizers/export_dot.py", "verypy/visualizers/shared_visualize.py"],
     "output_dot, print_solution_edges, get_normalization_params, normalize_to_rect",
     "coordinates, visits, colours and highlights symbolic; the written file is parsed back")

prop("M01", "Repeated solving keeps the best solution under the chosen objective",
     "When a problem is solved repeatedly, the solution that is returned and printed, with its exact length and cost, is the best one found under the chosen objective (cost, or vehicles and then cost), whatever the order and representation of the candidates. A user interrupt stops the runs and still prints the best solution so far, and every run is given the distances with service times built in and the constraints of the file. When no run finds a solution none is returned, without an error.",
     "all sequences of candidate solutions, costs and interruption points within the stated length",
     "the order of candidates and the interrupt point vary per run; tests run once", ["verypy/shared_cli.py", "verypy/cvrp_ops.py"],
     "read_and_solve_a_problem", "exhaustive within sizes", over=["inputs", "fault_sequences"])
prop("M02", "The command line reports the solution it found and whether it is valid",
     "For every outcome of every algorithm, the report states the true cost or length, number of vehicles and per-route figures of the solution, and calls it feasible exactly when it serves every customer once within capacity and route length limit of that problem. Failed, empty and interrupted runs are reported as such and do not affect the figures of others.",
     "all distances, demands, limits and outcomes (solution, failure, nothing, interrupt) within the stated sizes; eleven option combinations",
     "the report combines optional constraints and output options; tests do not run the report", ["verypy/VeRyPy.py", "verypy/shared_cli.py"],
     "print_solution_statistics, print_problem_information, main", "exhaustive within sizes; output options enumerated")
prop("M03", "The command line finds every requested problem file exactly once",
     "Every problem file in a given folder, or with the recursive option in any folder below it, is listed exactly once and in natural order, and nothing that is not a problem file is. Files that are named directly or in a list file are taken as given; names that do not exist are left out.",
     "all folder trees and all kinds and places of files within the stated numbers",
     "nesting and overlap of arguments are combinations", ["verypy/shared_cli.py"], "get_a_problem_file_list",
     "exhaustive within sizes; trees are built in scratch folders", over="configurations")
prop("M04", "A single algorithm's command line solves every file with the asked options",
     "Every algorithm can be run by itself on a file, a folder of files or a random problem of a given size: each problem is solved as many times as asked with exactly the given options, in whatever order these are written, and the best solution under the chosen objective is printed. A user interrupt ends the runs, and random problems have the asked size and demands that a vehicle can carry.",
     "all combinations and orders of the options, all outcomes of the runs, all distances and demands of the files, all random demands; up to 3 runs",
     "option combinations and run outcomes multiply; tests do not start the command line",
     ["verypy/shared_cli.py", "verypy/cvrp_io.py"], "cli, read_and_solve_a_problem, generate_CVRP",
     "exhaustive for files with two customers and up to three runs", over=["inputs", "configurations"])
prop("K01", "Savings methods make the best feasible merges first",
     "The savings of every customer pair are those of the published criterion and listed best first. The parallel method joins route ends in that order whenever the joined route is feasible, the sequential method always extends the current route by its best feasible saving, and variants that try several settings return the best of their results.",
     "all matrices for 1-3 customers and, with a given order of the savings, for 4-5; all demands, capacities and limits; each method's default criteria",
     "a skipped or mis-ordered merge still gives a feasible solution, and the few benchmark totals the tests compare rarely change",
     SV, "clarke_wright_savings_function and variants, the merge loops",
     "the rule is executed as a reference procedure on the same symbolic instance; equal only up to the order of exactly tied candidates; with a length limit the triangle inequality is assumed")
prop("K02", "Nearest neighbour routes grow by the nearest unserved customer",
     "A route starts with the unserved customer nearest to the depot and is extended, at the end that makes it shorter unless only the end is allowed, with the unserved customer nearest to the last added one, until that customer does not fit. The parallel variant returns the best of its attempts.",
     "all matrices for 1-3 customers and, with a given order of the entries, for 4-5; all demands, capacities and limits",
     "taking the second nearest customer still gives a feasible solution and matching totals on most files",
     [CH + "nearest_neighbor.py"], "nearest_neighbor_init, get_pnn_algorithm",
     "reference procedure on the same symbolic instance; ties left open")
prop("K03", "A sweep visits customers by angle and closes a route only when full",
     "A sweep from a given start and in a given direction serves the customers in exactly the order of their angles around the depot, and a new route is started only if the next customer would exceed the capacity or the route length limit. Sweeping from all starts in both directions returns the best of these sweeps under the chosen objective.",
     "all demands, capacities and limits, all matrices for few customers; every start and direction; fixed sets of locations with distinct angles",
     "a wrong wrap-around or stepping back still serves everyone; it shows only for limits that bind at the end of the circle",
     [CH + "sweep.py"], "do_one_sweep, _ensure_L_feasible, sweep_init", "exhaustive for 2-5 customers on three layouts")
prop("K04", "Cheapest insertion always makes the best feasible insertion",
     "The sequential insertion heuristic starts each route with the farthest (or closest) unserved customer and then repeatedly makes the feasible insertion that is best under its criterion over all unserved customers and all positions. It starts a new route only when no insertion is feasible and, unless vehicles are minimised first, cheaper than a separate route.",
     "all matrices for 1-2 customers (3 with capacity), with a given order of the savings for 3-4, and fixed matrices with all demands, capacities and limits for 5",
     "the insertion queue holds outdated candidates; a missed candidate gives a feasible but different solution",
     [CH + "cheapest_insertion.py"], "cheapest_insertion_init, _new_potential_insertions, _seems_valid_insertion",
     "reference procedure on the same symbolic instance; ties left open; with a length limit the triangle inequality is assumed")
MP = [CH + x for x in ("matchingvrp.py", "gapvrp.py", "petalvrp.py")]
prop("F07", "Heuristics that use a MIP solver return complete feasible solutions",
     "Given an exact 0/1 programming solver, the matching based savings, petal set covering and generalised assignment heuristics terminate and return a solution that serves every customer exactly once from the depot within capacity and route length limit; only the assignment heuristic may report that it found none when route length is limited. A user interrupt at any moment always reaches the caller and carries a complete feasible solution or none, and a solver that runs out of time gives an error or a feasible solution, never an infeasible one.",
     "all matrices for 1-2 customers, fixed matrices with all capacities and route limits for 3-5; every moment of one interrupt, every solver run stopped or timed out",
     "the tests solve two published instances with these heuristics; feasibility depends on every combination of limits, relaxations and failed solver runs",
     MP, "mbsa_init, petal_init, gap_init and their interrupt handlers",
     "the commercial solver is replaced by an exact enumeration of the 0/1 models the real code builds; exhaustive within sizes",
     over=["inputs", "fault_sequences"])
prop("K05", "MIP based heuristics find the best of what they consider",
     "The matching based savings heuristic (unless vehicles are minimised) is never worse than serving every customer alone and leaves no two routes whose join is feasible and shorter. A full run of the petal heuristic, when cost is minimised, is never worse than a single sweep in its direction from any customer, and the matching and assignment heuristics' routes are shortest round trips over their customers.",
     "all matrices for 1-2 customers, fixed matrices with all capacities and route limits for 3-4",
     "a missed merge, a wrong forbidden combination or a petal left out gives a feasible but worse solution and the tests only compare two published instances",
     MP, "the main loops of mbsa_init and petal_init, _solve_set_covering, _mmp_solve",
     "exact 0/1 stand-in as in F07; joins, round trips and sweeps enumerated by the harness")
prop("T03", "The MIP tour solver returns a shortest round trip",
     "Given an exact 0/1 programming solver, the integer programming tour solver returns, for every list of at least two locations, open or closed, a shortest round trip over exactly these locations that starts and ends at the first one, together with its exact length. A solver run that was interrupted or ran out of time is reported as such.",
     "all symmetric non-negative matrices for 2-4 locations, fixed and one-parameter families of matrices for 5-7",
     "optimality is a statement about all tours; the tests compare a few instances",
     ["verypy/tsp_solvers/tsp_solver_gurobi.py"], "solve_tsp_gurobi, _subtour, _subtourelim",
     "exact 0/1 stand-in with lazy constraints; all round trips enumerated by the harness")
NA = dict(claim=False)
prop("P05", "Geographical distances are computed on the sphere",
     "For problem files with geographical coordinates the distance between two points is the great circle distance in whole kilometres as defined by the TSPLIB format.",
     "all coordinates", "rounding boundaries are hit by particular coordinates only",
     ["verypy/cvrp_io.py"], "calculate_D for GEO", "not claimed",
     reason="the distance is a composition of cos and acos of symbolic coordinates, which no available SMT theory decides; bounding it by polynomials would judge an approximation and not the code", **NA)
prop("T04", "External tour solvers are asked for the right tour and their answer is kept",
     "Whatever round trip an external tour program answers for the problem file it was given, the tour solver returns a round trip that visits exactly the asked locations with exactly the connections of the answer, and its length to the precision of whole or scaled distances. The problem given to the program states the distances between the asked locations in their order, and no files are left behind; the combined tour solver gives the same guarantees.",
     "every answer and all whole or real distances for 2-4 locations (whole: 5), every answer on fixed distances for 5-6, one answer for 20-23",
     "the external programs are absent when the tests run, so no test calls these solvers",
     ["verypy/tsp_solvers/tsp_solver_lkh.py", "verypy/tsp_solvers/tsp_solver_acotsp.py", "verypy/tsp_solvers/tsp_solver_fast.py", "verypy/cvrp_io.py"], "solve_tsp_lkh, solve_tsp_acotsp, solve_tsp_fast, write_TSPLIB_file",
     "the started process is replaced by a stand-in that reads the written files and answers any round trip")
prop("P06", "Missing coordinates reproduce the given distances",
     "Coordinates generated for a problem that only states distances keep the relative distances of its locations.",
     "all distance matrices", "the quality of an embedding depends on every distance",
     ["verypy/cvrp_io.py"], "generate_missing_coordinates", "not claimed",
     reason="multidimensional scaling is an iterative floating point eigenvalue computation in a compiled library; neither its code nor a specification of its result can be encoded", **NA)
