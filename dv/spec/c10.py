from ..run import Unit
from .. import scip
from . import sec
N = ['getEdgesInducedByVertices', 'getSelfLoops', 'getEdgeVariables', 'fillPositiveNegativeVars', 'addRow', 'addSubtourEliminationConstraint']
nargs = lambda k: (lambda node: sum(1 for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl') == k and 'TVertexIt' not in str(node.get('type', {})))
TU = '#include "../src/subtour_elimination.cpp"\n#include "../src/sciputils.cpp"\n#include "../src/graph.cpp"\n'
UNITS = [Unit('sec_row', tu=TU, contracts=sec.C, prelude=sec.PRELUDE, roots=[('getEdgesInducedByVertices', nargs(2)), ('getSelfLoops', nargs(2)), ('getEdgeVariables', nargs(4)), ('fillPositiveNegativeVars',), ('addRow',), ('addSubtourEliminationConstraint',)], prefetch=N + ['SCIP_CUTOFF', 'SCIP_SEPARATED'])]
RUNTIME = [dict(kind='cxx', driver='c10.cpp', srcs=['subtour_elimination.cpp', 'separation.cpp', 'solution.cpp', 'graph.cpp', 'sciputils.cpp', 'event_handlers.cpp', 'data_structures.cpp', 'stats.cpp'], libs=['-lyaml-cpp'], rule='random graphs with self loops on up to 8 vertices, random vertex sets in random order, every root and target, random solutions, original or transformed variables; non-trivial: the set holds exactly one of root and target and at least two vertices')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['the vertex set holds no vertex twice, every vertex has a self loop and every edge a variable (what the callers and the problem data provide); the graph is simple', 'the name of a row is not specified']
