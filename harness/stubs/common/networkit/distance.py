import numpy as np
from . import dijkstra, DBL_MAX, none
from stubgap import StubGap, module_getattr as _mg


class _Algo:
    _ran = False
    def run(self):
        self._run(); self._ran = True
        return self
    def hasFinished(self): return self._ran
    def _need(self):
        if not self._ran:
            raise RuntimeError("Error, call run() first")


class _STSP(_Algo):
    """Source-target shortest path: the path excludes both end points; unreachable -> largest double, empty path."""
    def __init__(self, G, source, target, storePred=True):
        self.G, self.s, self.t, self.sp = G, int(source), int(target), storePred
        for x in (self.s, self.t):
            if not G.hasNode(x):
                raise RuntimeError("Error: node %d not in the graph" % x)
    def _run(self):
        d, p = dijkstra(self.G, self.s)
        self.d, self.path = d.get(self.t, DBL_MAX), []
        if self.t in d:
            u = self.t
            while u != self.s:
                u = p[u]
                if u != self.s:
                    self.path.append(u)
            self.path.reverse()
    def getDistance(self): self._need(); return self.d
    def getPath(self):
        self._need()
        if not self.sp:
            raise RuntimeError("storePred is false")
        return list(self.path)
    def getPredecessors(self): raise StubGap("getPredecessors")
    def setSource(self, s): self.s = int(s); self._ran = False
    def setTarget(self, t): self.t = int(t); self._ran = False
    def setTargets(self, t): raise StubGap("STSP.setTargets")


class BidirectionalDijkstra(_STSP): pass
class AStar(_STSP):
    def __init__(self, G, heu, source, target, storePred=True):
        super().__init__(G, source, target, storePred)


class Dijkstra(_Algo):
    """Single source; getPath includes source and target."""
    def __init__(self, G, source, storePaths=True, storeNodesSortedByDistance=False, target=none):
        self.G, self.s, self.tg = G, int(source), target
        if not G.hasNode(source):
            raise RuntimeError("Error: node %d not in the graph" % source)
    def _run(self): self.dist, self.p = dijkstra(self.G, self.s)
    def distance(self, t): self._need(); return self.dist.get(int(t), DBL_MAX)
    def getDistances(self, asarray=None):
        self._need()
        v = [self.dist.get(u, DBL_MAX) for u in range(self.G.upperNodeIdBound())]
        return np.array(v) if asarray else v
    def getPath(self, t):
        self._need()
        t = int(t)
        if t not in self.dist:
            return []
        r = [t]
        while r[-1] != self.s:
            r.append(self.p[r[-1]])
        return r[::-1]
    def getReachableNodes(self): return len(self.dist)
    def setSource(self, s): self.s = int(s); self._ran = False
    def setTarget(self, t): self.tg = t


class SPSP(_Algo):
    def __init__(self, G, sources, targets=None):
        self.G = G
        self.src = [int(s) for s in sources]
        self.tgt = None if targets is None else [int(t) for t in targets]
        for x in self.src:
            if not G.hasNode(x):
                raise RuntimeError("Error: node %d not in the graph" % x)
    def setSources(self, s): self.src = [int(x) for x in s]; self._ran = False
    def setTargets(self, t): self.tgt = [int(x) for x in t]; self._ran = False
    def _run(self):
        cols = self.tgt if self.tgt is not None else list(range(self.G.upperNodeIdBound()))
        self.cols = cols
        self.tab = []
        for s in self.src:
            d, _ = dijkstra(self.G, s)
            self.tab.append([d.get(t, DBL_MAX) for t in cols])
    def getDistances(self, asarray=None):
        self._need()
        return np.array(self.tab, dtype=float).reshape(len(self.src), len(self.cols)) if asarray else [list(r) for r in self.tab]
    def getDistance(self, u, v):
        self._need()
        return self.tab[self.src.index(int(u))][self.cols.index(int(v))]


class APSP(SPSP):
    def __init__(self, G):
        super().__init__(G, list(G.iterNodes()))


__getattr__ = _mg("networkit.distance")
