#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
H='include/pctsp/'
NOCPP="The C++ tests cannot even be built here (SCIP is absent) and, where they can, they use a few hand-made graphs; "
p('C01','Vertex renaming is a one-to-one relabelling that round-trips',
 "Renaming any list of vertices or edges gives every distinct old vertex exactly one new id, the new ids are exactly 0..k-1 in order of first appearance, and ids already assigned never change. Translating vertices or edges to new ids and back returns exactly the original sequence (same order, same orientation), and every cost and prize read through the renamed maps is the one stored for the original edge or vertex. A cost given for a pair that is not an edge of the renamed graph is rejected with an edge-not-found error.",
 ['inputs'],"all vertex/edge lists (any ids, any repetition), all maps over them",
 NOCPP+"test_rename uses one small edge list.",[H+'renaming.hh'],
 [('findOrInsertVertex','renaming.hh: lookup-or-insert with running counter'),('renameVertices/renameEdges','renaming.hh'),('getOld*/getNew*','renaming.hh'),('fillCostMapFromRenamedMap / fillRenamedVertexMap','renaming.hh')],
 ['vertex ids handed to the solver and back to Python in every binding'])
p('C02','Cost and prize of a walk are exactly the sums over its edges and vertices',
 "The cost of a walk is the sum over its consecutive vertex pairs of the cost of the graph edge joining them (counted once per traversal), and is zero for walks with fewer than two vertices; if some consecutive pair is not an edge an edge-not-found error is raised instead of a number. The prize of a walk is the sum of the prizes of its listed vertices, the prize of a tour leaves out only its repeated last vertex, and a prize-feasibility test answers yes exactly when that sum reaches the quota.",
 ['inputs'],"all graphs, walks, cost and prize functions",
 NOCPP+"test_walk has fixed grids.",[H+'walk.hh',H+'graph.hh'],
 [('getEdgesInWalk','walk.hh'),('totalCost overloads','walk.hh'),('totalPrize overloads, totalPrizeOfTour, totalPrizeOfGraph','walk.hh'),('isPrizeFeasible','graph.hh')])
p('C03','Re-rooting a tour rotates it and nothing else',
 "Given a tour whose first and last vertex are equal and that visits the root, re-rooting returns a tour that starts and ends at the root, has the same length, and is the cyclic rotation of the input: the same vertices in the same cyclic order and the same multiset of traversed edges. The input tour is left unchanged.",
 ['inputs'],"all closed vertex sequences containing the root, every root position",
 NOCPP+"the rotation must hold for every root position and length.",[H+'walk.hh'],
 [('ReorderTourFromRoot','walk.hh')])
p('C04','Unitary-gain extension keeps the tour valid and only adds vertices',
 "Starting from a simple closed tour of the graph, both unitary-gain extension heuristics end with a simple closed tour of the graph with the same start vertex that still contains every original vertex in the original relative order, each new vertex being inserted at most once and only where both new edges exist. The quota-driven variant leaves a tour that already meets the quota untouched and otherwise stops only when the collected prize reaches the quota, no remaining vertex has positive gain, or its attempt limit is exhausted.",
 ['inputs'],"all simple undirected graphs, valid tours, integer costs and prizes, quotas",
 NOCPP+"each insertion site and position matters.",[H+'heuristic.hh','src/heuristic.cpp'],
 [('unitaryGainOfVertex','heuristic.hh'),('findVertexWithBiggestGain','heuristic.hh'),('insertBiggestGainVertexIntoTour','heuristic.hh'),('extensionUnitaryGain, extensionUntilPrizeFeasible','heuristic.hh')])
p('C05','Path extension keeps the tour valid and never loses prize',
 "For non-negative prizes, a simple closed tour that starts and ends at the root, and a step size of at least one, path extension and its run-until-quota variant end with a closed tour of the graph that starts and ends at the root, repeats no other vertex, and collects at least the prize of the input tour. Each replacement swaps a section between two tour vertices for a path of the graph with the same end points whose interior uses no vertex that stays in the tour.",
 ['inputs'],"all simple undirected graphs, valid rooted tours, step sizes, depth limits",
 NOCPP+"wrap-around sections, all step sizes and depth limits interact.",[H+'heuristic.hh',H+'graph.hh','src/heuristic.cpp'],
 [('findExtensionPaths','heuristic.hh'),('swapPathsInTour','heuristic.hh'),('pathExtension, pathExtensionUntilPrizeFeasible','heuristic.hh'),('getSubpathOfCycle, breadthFirstSearch, pathInTreeFromParents','graph.hh'),('indexOfSmallestLoss','heuristic.cpp')])
p('C06','Collapse never returns a dearer or prize-infeasible tour',
 "For a simple closed tour of the graph containing the root whose prize meets the quota, collapse returns a closed tour of the graph that starts and ends at the root, collects at least the quota, repeats no vertex other than the root at its ends, and costs no more than the input tour. The input tour is left unchanged.",
 ['inputs'],"all simple undirected graphs, valid tours, positive edge costs, non-negative prizes, quotas, both collapse modes",
 NOCPP+"every starting position and every wrap-around of the scanned section matters.",[H+'heuristic.hh',H+'walk.hh'],
 [('getSubPathOverTour','heuristic.hh'),('findCollapsePaths','heuristic.hh'),('collapse','heuristic.hh'),('dijkstraShortestPathBlacklist','walk.hh')])
p('C07','The extension-and-collapse pipeline returns a feasible rooted tour or nothing',
 "Given a simple closed tour starting at the root, the full path-extension-and-collapse heuristic returns either an empty list or a closed tour of the graph that starts and ends at the root, repeats no other vertex and collects at least the quota. If the input tour already meets the quota, the result is non-empty and costs no more than the input.",
 ['inputs'],"all simple undirected graphs, rooted tours, quotas, step sizes, depth limits",
 NOCPP+"the guarantee is about every alternation of the two phases.",[H+'heuristic.hh'],
 [('pathExtensionCollapse','heuristic.hh')])
p('C08','Simple-cycle recognition accepts exactly single simple cycles',
 "Given a set of edges of a simple undirected graph, the recogniser used to accept or reject candidate solutions answers yes exactly when those edges form one simple cycle: non-empty, no self loops, every touched vertex on exactly two of the edges, and all edges connected in one cycle. The whole-graph variant answers yes exactly when the graph is one simple cycle through all its vertices.",
 ['inputs'],"all edge sets of all simple graphs, in any order and orientation",
 NOCPP+"wrong answers make the solver accept disconnected tours; only special shapes expose them.",['src/separation.cpp',H+'separation.hh','src/subtour_elimination.cpp'],
 [('isSimpleCycle','separation.cpp'),('isGraphSimpleCycle','separation.cpp'),('isSolSimpleCycle','subtour_elimination.cpp')])
p('C09','Connected-component lists partition the vertices',
 "From per-vertex component labels the component lists contain every vertex exactly once, in the list of its own label and in vertex order. Filtering out singleton components keeps exactly the components with more than one vertex, complete and in order.",
 ['inputs'],"all graphs and component labellings",
 NOCPP+"singletons placed before larger components are untested.",[H+'data_structures.hh'],
 [('getConnectedComponentsVectors','data_structures.hh'),('getNonSingularConnectedComponentVectors','data_structures.hh')])
p('C10','Subtour elimination cuts have exactly the prescribed coefficients',
 "For a vertex set and a target vertex on opposite sides from the root, the added row is exactly: each edge inside the set with coefficient +1, each vertex of the set except the target with coefficient -1, plus the target with +1 when the root is inside the set (then no vertex is left out), lower side infinite and right-hand side 0. A set containing both the root and the target, or neither, is rejected with an error, and the separation result is reported as separated or cut off exactly when the row was added.",
 ['inputs'],"all graphs with self loops, vertex sets, targets and solutions",
 NOCPP+"one wrong sign or a missing variable cuts off optimal tours only on particular instances.",['src/subtour_elimination.cpp','src/sciputils.cpp',H+'graph.hh'],
 [('addSubtourEliminationConstraint','subtour_elimination.cpp'),('fillPositiveNegativeVars, addRow','sciputils.cpp'),('getEdgesInducedByVertices, getSelfLoops, getEdgeVariables','graph.hh')])
p('C11','Disconnected supports are always separated, component by component',
 "When the support of a solution has several components, disjoint-tour separation adds one subtour cut for every vertex of every component that has at least two vertices and does not contain the root, over that component's full vertex set, and nothing for the root's component or for singletons, and reports the number added. Max-flow separation looks only at the root's component, gives every support edge its own solution value (in millionths, rounded down) as capacity, only adds subtour cuts over one whole side of a cut of capacity below two that separates the cut's target from the root, and leaves no vertex that such a cut separates from the root without a cut. The numbers of both kinds of cut are booked at the current node.",
 ['inputs'],"all support graphs and solution values",
 NOCPP+"alignment of capacities with edges shows only with several components.",['src/subtour_elimination.cpp',H+'subtour_elimination.hh','src/separation.cpp'],
 [('PCTSPseparateDisjointTour','subtour_elimination.hh'),('PCTSPseparateMaxflowMincut','subtour_elimination.cpp'),('PCTSPseparateSubtour','subtour_elimination.cpp'),('getReachableVertices/getUnreachableVertices','subtour_elimination.hh')])
p('C12','The integer program models exactly the prize-collecting tour constraints',
 "For a graph with a self loop on every vertex, the model has one binary variable per edge with the edge's cost as objective coefficient (minimised), for each vertex one equality 'sum of incident non-loop edges = 2 x vertex variable', the equality 'root variable = 1', and one inequality 'sum of prize x vertex variable >= quota' with zero weight on ordinary edges. A missing self loop is reported as an edge-not-found error.",
 ['inputs'],"all graphs, cost and prize functions, quotas and roots",
 NOCPP+"the model's rows are never inspected by tests.",[H+'constraint.hh',H+'algorithms.hh',H+'preprocessing.hh','src/preprocessing.cpp'],
 [('PCTSPaddDegreeTwoConstraint, PCTSPaddRootVertexConstraint, PCTSPaddPrizeConstraint','constraint.hh'),('PCTSPaddEdgeVariables, PCTSPmodelWithoutSECs','algorithms.hh'),('putPrizeOntoEdgeWeights, addSelfLoopsToGraph','preprocessing')])
p('C13','Cover inequalities are added for exactly the vertices they apply to',
 "For every vertex whose lower-bound cycle cost (twice its shortest-path distance from the root, or the given disjoint-path cost) strictly exceeds the cost bound, exactly one inequality 'root variable + vertex variable <= 1' is added, and none for any other vertex; the number of added inequalities is counted correctly, separately for the initial solution and later ones. A cycle-cover row 'inside edges <= inside vertices - 1' over the root's component is added exactly when that component's prize is below the quota.",
 ['inputs','histories'],"all graphs, distances, bounds, quotas, sequences of improving solutions",
 NOCPP+"boundary equality and unreachable vertices are untested.",[H+'cost_cover.hh','src/cost_cover.cpp',H+'cycle_cover.hh','src/cycle_cover.cpp'],
 [('separateCostCoverPaths','cost_cover.hh'),('addCoverInequality, separateThenAddCostCoverInequalities','cost_cover.cpp'),('includeShortestPathCostCover','cost_cover.hh'),('addCycleCover, separateCycleCover','cycle_cover.hh')])
p('C14','Solution extraction returns exactly the edges the solution uses',
 "The edges read back from a solution are exactly the non-loop edges whose variable has a positive value (zero within the solver's tolerance does not count), each once; the vertices are exactly those whose self-loop variable is positive, in vertex order. Flow capacities are aligned with those edges, scaling each value by the fixed multiplier.",
 ['inputs'],"all graphs, variable maps and solutions",
 NOCPP+"tolerance-level values are untested.",['src/solution.cpp','src/separation.cpp','src/graph.cpp'],
 [('getSolutionEdges, getSolutionVertices, isVarPositive','solution.cpp'),('getCapacityVectorFromSol','separation.cpp'),('getVertexPairVectorFromEdgeSubset','graph.cpp')])
p('C15','Tailing-off detection looks at exactly the last W gaps',
 "The rolling list of LP gaps holds at most the configured number W of most recent gaps, oldest first, and stays empty when the feature is disabled (W below one). A node is declared tailing off exactly when the list is full, holds at least two gaps, and the oldest minus the newest gap is strictly below the threshold.",
 ['inputs','histories'],"all sequences of gaps, window sizes and thresholds",
 "Tests try one window; the window must slide correctly for every history.",['src/subtour_elimination.cpp'],
 [('pushIntoRollingLpGapList','subtour_elimination.cpp'),('isNodeTailingOff','subtour_elimination.cpp')])
p('C16','Per-node statistics survive every later event and sum to the reported totals',
 "Whatever sequence of node events and cut additions occurs, each visited node keeps its own row, with its own id and the total number of cuts of each kind added while it was current; later events never reset or misattribute them. The totals in the summary are the sums over all rows of the corresponding column.",
 ['histories'],"all sequences of node focus events, repeated events and cut counts",
 "No test drives the event handler with repeated or out-of-order nodes.",['src/event_handlers.cpp',H+'event_handlers.hh','src/stats.cpp'],
 [('NodeEventhdlr::addCurrentNode, scip_exec, increment*','event_handlers.cpp'),('numDisjointTourSECs, numMaxflowMincutSECs','stats.cpp')])
p('C17','Configuration codes select the documented log level and branching priorities',
 "Each Python logging level maps to the corresponding native level (critical-fatal, error, warning, info, debug, notset-trace) and every unknown level maps to info. Selecting a branching strategy gives the chosen rule a strictly higher priority than every other rule, whatever rules and priorities exist; the tree-top strategy additionally limits only strong branching's depth, and unknown strategies change nothing.",
 ['inputs','configurations'],"all integer levels, all sets of branching rules with arbitrary priorities",
 "Tests check a few levels; branching tests only inspect that solving works.",['src/logger.cpp','src/branching.cpp'],
 [('getBoostLevelFromPyLevel','logger.cpp'),('setBranchingStrategy and the three strategies','branching.cpp')])
p('C18','Reduced costs preserve path costs and are non-negative on true distances',
 "The adjusted cost of every directed edge (u,v) is its original cost plus the source distance of u minus that of v, for every edge of the graph and no other. Hence the adjusted cost of any path from a to b is its original cost plus distance(a) minus distance(b); with correct shortest-path distances no adjusted cost is negative and edges on shortest paths get zero.",
 ['inputs'],"all directed graphs, weights and distance functions",
 "The tests check one six-vertex graph.",['pctsp/suurballe/suurballe.py'],
 [('adjust_edge_cost','suurballe.py'),('adjust_edge_cost_for_graph','suurballe.py')])
p('C19','Pre- and postorder numbering decides ancestry',
 "On any rooted tree the preorder lists every vertex once with each vertex before its descendants and subtrees contiguous, the postorder lists every vertex once after its descendants, and the stored numbers are the positions in those lists. With these numbers the ancestor test answers yes exactly when the first vertex lies on the tree path from the root to the second (a vertex is its own ancestor).",
 ['inputs'],"all rooted trees and all vertex pairs",
 "The tests check one tree.",['pctsp/suurballe/suurballe.py'],
 [('preorder, preorder_recursive','suurballe.py'),('postorder, postorder_recursive','suurballe.py'),('is_ancestor','suurballe.py')])
p('C20','Suurballe pairs are real, edge-disjoint and least-cost',
 "For every vertex other than the source of a non-negatively weighted asymmetric directed graph, a pair of edge-disjoint paths from the source is reported exactly when one exists, the two extracted paths are paths of the graph from source to target that share no edge, and their total cost equals the reported cost and is minimum among all such pairs. For the source itself the result is the trivial pair.",
 ['inputs'],"all asymmetric digraphs with non-negative integer weights, all targets",
 "The tests use a handful of graphs; skipped edges only matter on particular topologies.",['pctsp/suurballe/suurballe.py'],
 [('suurballe_shortest_vertex_disjoint_paths, process, scan, scan_parent','suurballe.py'),('extract_suurballe_edge_disjoint_paths, edge_disjoint_path_cost','suurballe.py')])
p('C21','Disjoint paths join into a closed tour and the cheapest feasible one wins',
 "Joining a pair of paths with common ends gives the first path followed by the second one reversed without its first vertex, a closed tour starting at the common start; pairs that are too short or do not share both ends raise a value error and the inputs are not modified. The Suurballe heuristic returns, among all given pairs whose tour is simple and meets the quota, one of least cost, or an empty list when there is none; the initialisation variant then falls back to a tour of maximum prize, returning an empty list only if no tour has positive prize.",
 ['inputs'],"all maps of path pairs, prizes, costs and quotas",
 "The tests that exercise it need data files and the native extension that are absent here, and sample few instances.",['pctsp/algorithms/heuristic.py'],
 [('tour_from_vertex_disjoint_paths','heuristic.py'),('suurballes_heuristic','heuristic.py'),('suurballes_tour_initialization','heuristic.py')])
p('C22','Random tours are valid for every seed',
 "For every seed, the random tour of a complete graph with non-negative prizes starts and ends at the root, repeats no other vertex, uses only graph vertices, has at least three distinct vertices and meets the quota whenever that is possible. The random tour from disjoint paths is the tour of one of the given pairs, never that of the root and never one whose two paths have fewer than five vertices in total, and a value error is raised exactly when there is no such pair.",
 ['inputs','schedules'],"all graphs, maps, quotas and all outcomes of the random choices",
 "Tests fix one seed; the guarantee is over every random choice.",['pctsp/algorithms/heuristic.py'],
 [('random_tour_complete_graph','heuristic.py'),('random_tour_from_disjoint_paths_map','heuristic.py')])
p('C23','The breadth-first cycle is a simple cycle through the root',
 "If a cycle is returned from the breadth-first traversal it starts and ends at the root, has at least three distinct vertices, repeats no other vertex and every consecutive pair is an edge of the graph. In a connected graph without self loops an empty list is returned exactly when no simple cycle passes through the root.",
 ['inputs'],"all simple undirected graphs and roots",
 "Tests use a few graphs and cannot run here.",['pctsp/algorithms/heuristic.py'],
 [('find_cycle_from_bfs','heuristic.py'),('path_to_vertex_in_tree','heuristic.py')])
p('C24','Preprocessing removes only vertices that cannot be on a tour',
 "Leaf removal returns the induced subgraph on the largest vertex set in which every vertex has at least two neighbours other than itself (so no simple cycle of the input loses a vertex or edge), with all attributes kept. Biconnected-component preprocessing keeps exactly the root and every vertex lying on a simple cycle with the root, without modifying its input, and component preprocessing keeps exactly the vertices connected to the given vertex.",
 ['inputs'],"all undirected graphs, with and without self loops, and all roots",
 "The tests check five small graphs.",['pctsp/preprocessing/preprocessing.py'],
 [('remove_leaves, degree_without_self_loops','preprocessing.py'),('remove_one_connected_components','preprocessing.py'),('remove_components_disconnected_from_vertex','preprocessing.py')])
p('C25','Experiment settings are the full cross product and flatten without loss',
 "The product of data configurations, model parameters and preprocessing settings contains every combination exactly once, in order, each with its own identifier, and each carries exactly the settings of its combination; model parameters mark an algorithm as exact, heuristic or relaxation according to its class and set the path-search fields exactly for the algorithm they apply to. Flattening an experiment unit to one row keeps the identifier and every field of its three parts with its value.",
 ['inputs','configurations'],"all lists of settings",
 "Tests only check names; none enumerates the product.",['pctsp/compare/product_of_params.py','pctsp/vial/vial.py'],
 [('product_of_model_params, product_of_preprocessing, product_of_vials','product_of_params.py'),('flat_dict_from_vial','vial.py')])
p('C26','Python wrappers pass every argument unchanged and in its native position',
 "Each Python entry point for extension, collapse, path extension and their combinations calls the native routine with the graph's edges, costs and prizes, the caller's tour, root, quota, step size, depth limit, collapse mode and log level each in the position the native routine expects, and returns its result unchanged; the native routine hands each of them to the library routine of that name and gives back the caller's vertices. The exact solver's entry point does the same for every setting, passes the heuristic edges only when they form a feasible solution and switches the disjoint-paths cover off when no path costs are given.",
 ['inputs'],"all argument values",
 "The native extension is absent, so these wrappers are never executed by the tests here; positional swaps between same-typed integers are invisible for default values.",['pctsp/algorithms/extension_collapse.py','pctsp/algorithms/path_extension_collapse.py','pctsp/pypctsp.cpp'],
 [('collapse, extension_*, extension_collapse wrappers','extension_collapse.py'),('path_extension, path_collapse, path_extension_collapse, ...','path_extension_collapse.py'),('solve_pctsp','algorithms.py'),('*Bind parameter order','pypctsp.cpp')])
p('C27','Branch and cut returns an optimal prize-feasible tour',
 "When the solver finishes without hitting a limit, the returned edges form a minimum-cost simple cycle through the root that collects at least the quota, or no edges if none exists.",
 ['inputs','schedules'],"all graphs, costs, prizes, quotas and roots, all solver settings",
 "Optimality must hold on every instance; tests solve a few.",['src/algorithms.cpp','src/subtour_elimination.cpp'],
 [('solvePrizeCollectingTSP','algorithms.cpp')])
p('C28','Results and solver summaries survive a write and read',
 "Reading back a stored result or solver summary yields the values that were written, field by field, whatever the file held before. Writing a result to, or reading one from, a missing directory raises FileNotFoundError and writes nothing; reading a missing summary raises FileDoesNotExistError. The node statistics and bounds tables hold one row per entry with each value under the column of its name.",
 ['inputs'],"all field values",
 "One example per format is tested at most.",['pctsp/vial/result.py','src/stats.cpp'],
 [('Result.write_to_json_file/read_from_json_file','result.py'),('writeSummaryStatsToYaml/readSummaryStatsFromYaml','stats.cpp')])
p('C29','The starting tour handed to the solver is exactly the given tour',
 "When a starting tour is given, exactly one candidate solution is handed to the solver, whose variables at one are exactly those of the given edges and of the self loops of the vertices these edges touch; without one, none is handed over. A vertex pair that is not an edge of the graph, a touched vertex without a self loop and a needed variable that is missing are each reported as their own error, and then no candidate is handed over.",
 ['inputs'],"all graphs, edge lists (repeated edges, loops and disconnected pieces included) and variable maps",
 NOCPP+"the candidate solution never reaches a test.",[H+'algorithms.hh','src/algorithms.cpp',H+'graph.hh'],
 [('addHeuristicVarsToSolver, addHeuristicEdgesToSolver','algorithms'),('getVerticesOfEdges, getSelfLoops, getEdgeVariables, edgesFromVertexPairs','graph.hh'),('modelPrizeCollectingTSP','algorithms.cpp')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=2,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
