from ..run import Unit
from . import walk
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
void use(std::list<PCTSPvertex>& t, PCTSPvertex r) { ReorderTourFromRoot(t, r); }'''
UNITS = [Unit('reroot', tu=TU, contracts=walk.C, prelude=walk.PRELUDE, roots=[('ReorderTourFromRoot',)])]
RUNTIME = [dict(kind='cxx', driver='c03.cpp', rule='closed vertex lists up to 9 entries, every root on them; non-trivial: at least 3 entries')]
