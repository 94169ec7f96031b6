"""The starting solution handed to the solver."""
from ..run import Unit
from .. import scip
from . import c12, start, whole
C = {**scip.BASE, '__structs__': start.STR, '__calls__': start.CALLS, **start.CON}
PRELUDE = start.PRELUDE
TU = '#include "../src/algorithms.cpp"\n' + r'''
void use(SCIP* s, PCTSPgraph& g, SCIP_HEUR* h, std::map<PCTSPedge, SCIP_VAR*>& m, std::vector<PCTSPedge>& es, std::vector<PCTSPvertex>& vs, std::vector<std::pair<PCTSPvertex, PCTSPvertex>>& ps) { auto a = es.begin(); auto b = es.end(); addHeuristicEdgesToSolver(s, g, h, m, a, b); auto c = vs.begin(); auto d = vs.end(); edgesFromVertexPairs(g, ps); }
'''
N = ['getVerticesOfEdges', 'addHeuristicVarsToSolver', 'addHeuristicEdgesToSolver', 'edgesFromVertexPairs']
UNITS = [Unit('start', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in N], prefetch=N + ['getSelfLoops', 'getEdgeVariables', 'edgesFromVertexPairs'])]
UNITS += [whole.unit('whole', whole.START)]
RUNTIME = [dict(kind='cxx', driver='c29.cpp', srcs=c12.RUNTIME[0]['srcs'], libs=['-lyaml-cpp'], rule='random graphs on up to 8 vertices with or without self loops, random edge lists (repeated edges, loops, disconnected pieces, empty) as the starting tour: edges of vertex pairs, vertices of edges, handing over with every variable present or one missing, and both overloads of modelPrizeCollectingTSP; non-trivial: more than one edge in the start')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['the graph has no parallel edges and at most one self loop per vertex', *whole.ASSUMPTIONS,
   'the overload of modelPrizeCollectingTSP that takes lists of vertex pairs is checked at run time only (bounded); its step from pairs to edges is proved']
