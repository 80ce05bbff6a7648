#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

SOLV = "include/solvers/"
T = "The tests run 22 solvers on one fixed solvable maze per size and only look for a non-empty path: "

# ---------------------------------------------------------------- solve facade
p("S01", "A search only runs between two valid, traversable endpoints",
  "A solve runs its search only if both the start and the end are cells of the maze and both are traversable; otherwise it returns an empty path. If start and end are the same cell it returns just that cell without searching.",
  ["inputs", "configurations"], "every solver, maze type and start/end pair, including out-of-range and blocked cells",
  T + "both endpoints are always valid and distinct, so neither refusal is ever taken.",
  [SOLV + "base/solver.hpp", SOLV + "flood.hpp"], [("endpoint guard", "solver::solve(const params_t&)"), ("endpoint guard", "flood::invoke")])
p("S02", "Every solve hands its memory resources back reset, however it ends",
  "Unless cleanup is disabled in the parameters, every call that solves resets each of the three memory resources it was given before it returns or throws - whether the search found a path, found none, was refused, or failed with an exception, and also if resetting another resource throws. With cleanup disabled it leaves all three as the search left them.",
  ["inputs", "fault_sequences", "configurations"], "every solver, every outcome of the search, every subset of null resources, every exception",
  "The tests set no_cleanup and reset the resources themselves, and no test makes a search throw.",
  [SOLV + "base/solver.hpp"], [("reset after the search", "solver::solve(const params_t&)"), ("reset of each resource in its own handler", "solver_utils::reset_resources")])
p("S03", "A failure inside a solve reaches the caller as an exception",
  "If an exception is raised during a search or while resources are reset, the solve call ends by throwing the first such exception: it is never dropped and never turned into an ordinary result. The only exceptions a solver may absorb are those of optional capacity reservations.",
  ["fault_sequences", "inputs"], "every solver, every point at which an allocation, the maze or a resource can throw",
  "No test injects an allocation failure; a swallowed exception looks like an unsolvable maze.",
  [SOLV + "base/solver.hpp", SOLV], [("exception_ptr kept and rethrown", "solver::solve, reset_resources, release_resources"), ("reserve() hints wrapped in try/catch", "every solver's invoke")])
p("S04", "Running out of memory during a solve never terminates the process",
  "If a memory resource refuses an allocation at any point of a solve, the exception propagates to the caller; no function on the way promises not to throw and thereby turns it into termination of the process.",
  ["fault_sequences", "configurations"], "every solver and configuration, every allocation site reachable from a solve",
  "No test makes an allocation fail, so a wrong noexcept is never exercised.",
  [SOLV, "include/types/"], [("noexcept specifications", "all functions reachable from solver::solve")])
# ---------------------------------------------------------------- search core
p("S05", "Only traversable, in-range neighbours ever enter the frontier",
  "A search puts a neighbouring cell into its frontier only after the maze reported that very neighbour as traversable. Blocked or out-of-range neighbours are never expanded and never appear on a path.",
  ["inputs", "configurations"], "every solver, maze, rank and neighbourhood (axis or diagonal)",
  T + "a path through a wall would be reported as solved too.",
  [SOLV], [("n.active test before emplace", "every solver's solve_internal"), ("node_data::active", "solver::get_data")])
p("S06", "A search with a visited set puts each cell into the frontier at most once",
  "In the solvers that keep a visited set, a cell enters the frontier only after it was looked up in that set and found absent, and on that same path it is recorded in the set; the start is recorded too. The depth-limited solvers apply the same rule to the current path or their table of best known values, and may come back to a cell only on a cheaper or shallower route; the memory-bounded ones may forget cells to save memory.",
  ["inputs", "histories"], "every solver with a visited set, path check or transposition table; every maze, including ones full of cycles",
  T + "perfect mazes have no cycles, so a missing visited check changes nothing that the tests look at.",
  [SOLV], [("contains / emplace on the closed set", "solve_internal of astar, best_first, bfs, dfs, flood, fringe, g*, eiddfs"), ("path check, transposition table", "solve_internal of id* and eid*")])
p("S07", "A non-empty path is only returned once the goal itself was reached",
  "A search returns a non-empty path only on finding that the cell it just took from the frontier, or just appended to the current path, is the goal. A search that exhausts its frontier returns an empty path.",
  ["inputs", "configurations"], "every solver and maze, solvable or not",
  T + "unsolvable mazes are never tried and the path's last cell is never compared with the goal.",
  [SOLV], [("comparison of the index with e", "every solver's solve_internal")])
p("S08", "The heuristic is measured towards the goal the search actually stops at",
  "Every heuristic value a search uses is the distance between the cell it is attached to and the very goal cell at which the search stops; cost-based searches scale it by the caller's weight. The search starts at the other endpoint. This holds in both search directions.",
  ["inputs", "configurations"], "every informed solver, with and without reverse equivalence, on grids and graphs",
  T + "a heuristic towards the wrong cell still finds some path.",
  [SOLV], [("start/end swap under reverse_equivalence", "solve_internal of every informed solver")])
p("S09", "Path cost is the sum of the edge distances along the path",
  "The cost a search attaches to a cell is the cost of the cell it was reached from plus the distance of the edge between them (zero at the start), and the priority of a best-first search is that cost plus the scaled heuristic. A cheaper route replaces a known one, never the reverse.",
  ["inputs", "configurations"], "every cost-based solver, scalar type, unit grids and weighted graphs",
  T + "all edges have length one and only the existence of a path is checked.",
  [SOLV], [("g + distance at each emplace", "solve_internal of the cost-based solvers"), ("node constructors", "node(index, g, h, parent)")])
p("S10", "Every stored predecessor outlives the search that follows it back",
  "The predecessor recorded for a newly discovered cell is the cell being expanded, held in memory that stays put and alive until the path has been read out - never a temporary, a moved-from object, or an element of a container that may relocate or drop it.",
  ["inputs", "histories"], "every solver that links cells to predecessors; every maze and every growth of its containers",
  T + "use of a dangling predecessor often still yields a non-empty path.",
  [SOLV], [("curr moved into pool memory before its children are emplaced", "solve_internal of the linking solvers"), ("node references kept in a node-based map", "dijkstra")])
p("S11", "The frontier is never read or popped while it is empty",
  "Solvers, the maze graph and the library's own algorithms look at or remove the first, last or top element of a container only where it provably holds one.",
  ["inputs", "histories"], "every solver, configuration and maze, in particular exhausted searches and deepening restarts",
  T + "the goal is always found before the frontier runs dry.",
  [SOLV, "include/mazes/graph.hpp"], [("empty() loop condition, size() > 1 guards", "every solver's solve_internal")])
p("S12", "A search never resets a memory resource that still backs live data",
  "Within a search no memory resource is reset or released while a container or cell that draws its storage from it is still alive and used afterwards.",
  ["inputs", "histories"], "every solver, every number of deepening iterations",
  T + "the affected solvers only reach a second iteration in runs that are excluded as unstable.",
  [SOLV], [("pool reset between iterations", "iddfs, eiddfs"), ("reset after the search", "solver::solve")])
p("S13", "Frontier ordering is a strict weak ordering that prefers the cheapest cell",
  "Every ordering a search hands to its frontier is a strict weak ordering on cells, and it ranks the cell with the smallest estimated total (smallest heuristic in greedy searches, smallest cost in uniform-cost search) first; among equal estimates it prefers the cell with the larger known cost, or the smaller one, consistently.",
  ["inputs"], "every solver with an ordered frontier; all pairs and triples of cells",
  T + "any order finds some path on a perfect maze.",
  [SOLV], [("operator< of each node", "astar, best_first, dijkstra, fringe, g*, id*, jps, *smastar")])
p("S14", "A pooled predecessor is freed exactly when its last successor is gone",
  "In the reference-counted solvers, creating a cell with a predecessor adds one to the predecessor's count, and discarding a cell subtracts one and frees the chain of predecessors whose count has dropped to zero, stopping at the first that is still in use. The count can hold as many successors as there can be cells. Only cells without surviving successors are discarded. The memory-bounded solver sets predecessors whose count dropped to zero aside and frees them, once each, when memory runs short.",
  ["inputs", "histories"], "gstar, gbfs, gdfs, gbest_first, gjps, mgstar; every maze",
  T + "a prematurely freed predecessor yields a wrong path, a leaked one only costs memory; neither is looked at.",
  [SOLV + "base/managed_node.hpp", SOLV], [("m_successors", "managed_node constructor, expunge, forget_one"), ("expunge only if not stored", "solve_internal of the g* solvers")])
p("S15", "Pool memory for a cell fits it, and goes back with the size it came with",
  "Every object a search builds in pool memory gets a block at least as large and as aligned as the object, and blocks are returned to the same resource with the size and alignment they were requested with.",
  ["inputs", "configurations"], "every solver and node type (scalar and index types)",
  "One set of node types is instantiated by the tests; a wrong size only shows with others.",
  [SOLV], [("placement new into allocate(sizeof(node), alignof(node))", "solve_internal"), ("deallocate(d, sizeof(node_t), alignof(node_t))", "managed_node::expunge, mgstar")])
p("S16", "Iterative deepening raises its bound to the smallest value it pruned",
  "After each deepening iteration the next bound is the smallest value that exceeded the current bound in that iteration, and the search stops without a path when nothing was pruned. Cells within the bound are searched, cells beyond it are not.",
  ["inputs", "histories"], "the iterative-deepening solvers with a heuristic bound; every maze, including unsolvable ones",
  T + "unsolvable mazes, which need the stop, are never tried, and wasted iterations are invisible.",
  [SOLV + "idastar.hpp", SOLV + "eidastar.hpp", SOLV + "idbest_first.hpp", SOLV + "eidbest_first.hpp"], [("min over pruned f/h", "solve_internal"), ("bound = min; while (bound != max)", "solve_internal")])
p("S17", "Memory-bounded solvers only grow while below the caller's memory limit",
  "A memory-bounded solver adds a newly discovered cell to its working set only after establishing that its memory usage is below the limit given by the caller, and frees or forgets cells first when it is not.",
  ["inputs", "configurations"], "smastar, osmastar and mgstar; every maze and limit",
  T + "the limit is never compared with anything.",
  [SOLV + "smastar.hpp", SOLV + "osmastar.hpp", SOLV + "mgstar.hpp"], [("memory_usage() < memory_limit before emplace", "solve_internal")])
p("S18", "The returned path is exactly the chain of predecessors, one entry per cell",
  "Reading a path back visits every cell of the predecessor chain once and stores one coordinate for each, in order, in a result that has exactly as many entries: none is left at its default value, none is written out of range. Every cell that has a predecessor contributes one entry, the root none. The order is kept: root first when reverse_equivalence is set for astar, bfs, fringe, gbfs, gjps, gstar, jps and mgstar, always root first for best_first, dfs, gbest_first, gdfs, osmastar and smastar; dijkstra walks from its start cell.",
  ["inputs", "configurations"], "all path reconstructions, unit and weighted edge lengths, both orders",
  T + "entries are never looked at, and all edges have length one.",
  [SOLV + "base/solver.hpp", SOLV], [("rbacktrack, rbacktrack_noreverse, ibacktrack, ibacktrack_noreverse", "solver_utils"), ("callers' depth argument", "solve_internal")])
# ---------------------------------------------------------------- indexing, grid
p("G01", "Converting coordinate to index and back is lossless for every maze shape",
  "Converting a coordinate of a maze to its flat index uses the same row-major layout everywhere - the first dimension varies fastest and dimension k is scaled by the product of the sizes before it - and converting the index back gives the same coordinate, for every rank and every shape, cubic or not.",
  ["inputs", "configurations"], "ranks 1 to 4 and beyond, every size vector, every coordinate",
  "All test mazes have equal sizes in every dimension, so exchanged sizes change nothing.",
  ["include/utils/utils.hpp"], [("to_1d, to_nd", "utils")])
p("G02", "Asking for neighbours never reads a cell outside the grid",
  "When neighbours of a cell of the grid are enumerated, a neighbouring cell is read only after its coordinate was found to be within the grid in every dimension in which it differs; for the others the result says not traversable. This holds for both cell representations, for axis and diagonal neighbourhoods and for all ranks.",
  ["inputs", "configurations"], "every grid size and rank, every cell including all borders, bool and integral cells",
  "Only axis neighbourhoods (and 2D diagonals) are run, on one shape per rank, and an out-of-range bit read inside the last word is invisible to the sanitizers.",
  ["include/mazes/grid.hpp"], [("range tests ahead of operator[]", "compute_single_axis, compute_single_diagonal, check_neighbour")])
p("G03", "Neighbour enumeration yields each adjacent cell exactly once, and no other",
  "The neighbours reported for a cell are distinct, differ from it by at most one step in each dimension and are never the cell itself; the axis neighbourhood has all 2k unit steps and the diagonal one all 3^k-1 offsets, and each entry's flag describes the coordinate stored beside it.",
  ["inputs", "configurations"], "every cell, every rank, both neighbourhoods, both cell representations",
  T + "a maze can stay solvable with a direction missing.",
  ["include/mazes/grid.hpp"], [("direction kernel", "compute_single_axis, compute_single_diagonal")])
p("G04", "Grid membership and traversability answers agree with the stored cells",
  "An index belongs to a grid exactly if it is below the number of cells, a coordinate exactly if it is below the size in every dimension; reading a cell reads the element at its own index, and a cell is traversable exactly if it does not hold the reserved wall value.",
  ["inputs", "configurations"], "every grid, index, coordinate and cell value; bool and integral cells",
  "Tests only ask about valid cells.",
  ["include/mazes/grid.hpp", "include/mazes/nodes/weighted_node.hpp", "include/mazes/nodes/id_node.hpp"], [("contains, operator[], is_active", "grid, weighted_node")])
# ---------------------------------------------------------------- graph
p("R01", "Building a graph from a grid in parallel is free of data races",
  "While a graph is built from a grid by several threads, every access to the shared graph happens under one and the same lock, the threads share nothing else that any of them changes, and all of them have finished before construction continues, also when one of them fails.",
  ["schedules"], "every interleaving of the worker threads, every grid",
  "No test builds a graph, let alone under a race detector.",
  ["include/mazes/graph.hpp"], [("lock_guard around add", "graph(const grid&) worker"), ("future::get for every started worker", "graph(const grid&)")])
p("R02", "Pruning a graph never leaves an edge to a node it removed",
  "When a pass-through node is removed from an undirected graph, both of its neighbours lose their edge to it and gain one to each other with the sum of the two lengths; afterwards every edge still leads to a node of the graph.",
  ["inputs", "histories"], "every undirected graph, every order of removals, including cycles and parallel edges",
  "No test builds or prunes a graph.",
  ["include/mazes/graph.hpp"], [("edge replacement", "graph::prune")])
p("R03", "Parallel graph construction covers every cell exactly once",
  "The ranges of cells handed to the worker threads are consecutive, do not overlap, lie within the grid and together cover it, for every number of cells and of hardware threads.",
  ["inputs", "configurations"], "every cell count, every hardware concurrency",
  "No test builds a graph.",
  ["include/mazes/graph.hpp"], [("chunk computation", "graph(const grid&)")])
p("H01", "Distance heuristics are symmetric and never wrap around",
  "Every distance heuristic gives the same value with its two coordinates exchanged, and every dimension contributes to it. The Euclidean, squared Euclidean, octile, Manhattan and Chebyshev distances depend on the coordinates only through the magnitudes of their per-dimension differences, computed without unsigned wrap-around, and like the Canberra distance are zero for equal coordinates.",
  ["inputs", "configurations"], "all heuristics, all coordinate pairs, unsigned and signed coordinate types, all ranks",
  "The tests use a single heuristic from a corner towards the opposite one.",
  ["include/utils/heuristics.hpp"], [("abs / ordered difference", "chdr::heuristics")])
p("J01", "Jump-point search skips a step only if an equally good way around it exists",
  "When jump-point search passes a cell or expands it, it leaves out a step to a traversable neighbour only if the eight neighbours show a way around that cell: no longer than through it when the cell was entered straight, shorter when it was entered diagonally, or if the step would squeeze between two blocked cells. Every other step is taken, or tried without success, or makes the cell a jump point, in all eight directions of travel alike; a goal is never passed, and a jump keeps its direction whatever its length.",
  ["inputs", "configurations"], "both jump-point solvers, every direction of travel, every pattern of blocked neighbours, any distance between jump points",
  "The tests run the jump-point solvers on one maze of one-cell-wide corridors up to ten cells long: open space, where most of the pruning happens, and long jumps do not occur.",
  ["include/solvers/jps.hpp", "include/solvers/gjps.hpp"], [("s_lookup, get_direction, go_find_jump_points, jump", "jps, gjps")])
# ---------------------------------------------------------------- containers
p("C01", "The heap's parent and child positions are inverse, for every arity",
  "In the heap the positions scanned as children of a position are exactly those whose parent it is, for every arity and size; moving up compares with the parent and moving down considers all children that exist, so that the smallest element under the heap's order is always on top.",
  ["inputs", "histories", "configurations"], "all heap sizes, arities and operation sequences",
  "Only the default arity is instantiated and no test looks at the order in which elements come out.",
  ["include/types/containers/heap.hpp"], [("sort_up, sort_down", "heap")])
p("C02", "The heap stays usable after being emptied, wiped or moved from",
  "After any public operation of the heap - construction, push, pop, clear, wipe, release, assignment, being moved from - its size is the number of elements it holds, and further operations, including insertion, work.",
  ["histories"], "all sequences of public operations",
  "The tests never use a heap again after wiping it.",
  ["include/types/containers/heap.hpp"], [("placeholder element ahead of the first", "heap constructors, clear, wipe, size")])
p("C03", "The existence set never touches storage beyond its end",
  "Looking up, adding or removing any key, however large, reads and writes only storage the set holds; a key that was never added is reported absent, one that was added is reported present until removed.",
  ["inputs", "histories"], "all keys and sequences of operations",
  "The tests only look up keys of cells within the preallocated range.",
  ["include/types/containers/existence_set.hpp"], [("size test and growth ahead of the access", "contains, emplace, add, erase, remove, allocate")])
p("C04", "Queue and stack keep their order and ends",
  "The queue hands out elements in the order they were put in, the stack in the opposite order: looking at and removing always concern the same element, and insertion goes to the end the order demands. Emptiness and size are those of the elements held.",
  ["histories"], "all sequences of operations",
  "No test looks at the order of expansion.",
  ["include/types/containers/queue.hpp", "include/types/containers/stack.hpp"], [("front/pop/push/emplace", "queue"), ("top/pop/push/emplace", "stack")])
p("C05", "Every public member of the library's classes can be used",
  "Every public member function of the mazes, containers, memory resources and solvers compiles when it is used with the documented parameter types, under C++17 and C++20, with either compiler, without RTTI, and so does the umbrella header on its own.",
  ["programs", "configurations"], "all public members and headers, both maze cell types, all neighbourhood, direction, sorting and cleanup options",
  "Members of templates are only compiled if used, and the tests use a fraction of them, in one configuration.",
  ["include/", "chdr.hpp"], [("public interface", "all headers")])
# ---------------------------------------------------------------- memory resources
p("M01", "Memory resources hand out aligned blocks that lie within their storage",
  "Every block a memory resource hands out is aligned as requested and lies wholly within storage the resource owns, and no two live blocks overlap; a request that cannot be met raises an allocation error instead of returning a null or undersized block.",
  ["inputs", "histories"], "all sequences of allocations, deallocations and resets, all sizes and alignments",
  "The tests use one allocation pattern per solver; an overrun inside a larger block is invisible to the sanitizers.",
  ["include/types/pmr/"], [("do_allocate, expand", "monotonic_pool, homogeneous_pool, heterogeneous_pool")])
p("M02", "Memory resources release every block exactly once",
  "Each block a memory resource obtained is given back exactly once, with the alignment it was obtained with: on destruction, on release and on assignment, also if recording it fails. A resource that was moved from owns nothing and the new owner never refers into the old one's inline storage.",
  ["histories", "fault_sequences"], "all sequences of use, reset, release, move and destruction; failures while growing",
  "The tests create and destroy each resource once and never move one.",
  ["include/types/pmr/"], [("cleanup, release, move operations, expand's handler", "the three pools")])
p("M03", "Resetting a memory resource makes all of its storage available again",
  "Resetting a memory resource forgets every outstanding block, makes its inline storage available from the start, and keeps each block it owns either available for reuse or released - so that solving again and again with the same resources neither grows without bound nor hands out storage it no longer owns.",
  ["histories"], "all sequences of allocate, deallocate and reset",
  "Each test process solves once.",
  ["include/types/pmr/"], [("reset", "the three pools")])
p("M04", "Memory given back to a recycling resource becomes available again",
  "Giving a non-empty block back to a recycling memory resource makes that block available to later requests it can satisfy; giving back an empty block does nothing. A recycled block is handed out only for requests it is large enough for, to one user at a time.",
  ["histories"], "all sequences of allocations and deallocations",
  "No test observes reuse.",
  ["include/types/pmr/homogeneous_pool.hpp", "include/types/pmr/heterogeneous_pool.hpp"], [("do_deallocate, allocate_from_free", "homogeneous_pool, heterogeneous_pool")])
p("M05", "Two memory resources are interchangeable only if they are the same object",
  "A memory resource compares equal to another only if it is that very object, so that containers never return memory to a resource it did not come from.",
  ["inputs"], "all pairs of resources", "No test compares resources.",
  ["include/types/pmr/"], [("do_is_equal", "the three pools")])
# ---------------------------------------------------------------- whole library
p("X01", "Solves with separate resources do not share any hidden mutable state",
  "The library keeps no modifiable state of its own outside the objects the caller passes in, so that solves running at the same time with separate resources on the same maze cannot influence each other.",
  ["schedules"], "all interleavings of any solvers",
  "The tests are single threaded.",
  ["include/"], [("absence of mutable statics", "all headers")])
p("X02", "A solve never changes the maze it searches",
  "Solving reads the maze only: no solver writes to the maze's cells, adjacency or size, so one maze can be searched repeatedly and by several threads.",
  ["inputs", "schedules"], "every solver, maze type and configuration",
  "No test compares the maze before and after.",
  [SOLV, "include/mazes/"], [("const maze&", "params_t::maze, const members of grid and graph")])
# ---------------------------------------------------------------- beyond the technique
p("N01", "The optimal solvers return a shortest path",
  "With an admissible and consistent heuristic and weight one, A*, its reference-counted, iterative-deepening and memory-bounded relatives, uniform-cost search and (on unit grids) breadth-first search return a path of minimal total length.",
  ["inputs", "configurations"], "all mazes, endpoints, admissible heuristics", T + "length is never checked.",
  [SOLV], [("best-first expansion", "solve_internal")])
p("N02", "Every solver terminates, and finds a path exactly if there is one",
  "Every solve terminates on every finite maze; it returns a non-empty path if and only if the endpoints are connected.",
  ["inputs"], "all finite mazes, solvable and not", T + "unsolvable mazes are never tried.",
  [SOLV], [("main loops", "solve_internal")])
p("N03", "Consecutive cells of a returned path are adjacent in the maze",
  "In every returned path consecutive cells are neighbours in the maze (for the jump-point solvers: joined by a straight walkable line).",
  ["inputs", "configurations"], "all mazes and solvers", T + "the cells of the path are not inspected.",
  [SOLV], [("backtracking", "solver_utils")])
p("N04", "Jump-point pruning keeps at least one shortest path",
  "The jump-point solvers skip only cells that no shortest path needs.",
  ["inputs"], "all 2D grids", T + "length is never checked.", [SOLV + "jps.hpp", SOLV + "gjps.hpp"], [("jump, forced neighbours", "jps, gjps")])
p("N05", "Heuristics never overestimate on the neighbourhood they are meant for",
  "The Manhattan distance never exceeds the length of any axis path, and the octile and Chebyshev distances never exceed that of any diagonal path between two cells.",
  ["inputs"], "all coordinate pairs", "Optimality is never checked.", ["include/utils/heuristics.hpp"], [("closed formulas", "chdr::heuristics")])
p("N06", "Pruned graphs preserve distances between the nodes they keep",
  "For any two nodes that survive pruning, the length of a shortest path between them is the same before and after.",
  ["inputs"], "all undirected graphs", "No test prunes a graph.", ["include/mazes/graph.hpp"], [("prune, graph(const grid&)", "graph")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
