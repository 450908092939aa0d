"""Stand-in for networkit: same adjacency representation and iteration order as its C++ core (live, index-based
iteration; removal swaps the removed slot with the last one; ids of removed nodes are not reused)."""
import enum, heapq, math, pickle
import numpy as _np
from stubgap import StubGap, module_getattr as _mg

DBL_MAX = 1.7976931348623157e308
none = 18446744073709551615


class Graph:
    def __init__(self, n=0, weighted=False, directed=False, edgesIndexed=False):
        if isinstance(n, Graph):
            g = n
            self._w, self._d = bool(weighted) or g._w, g._d
            self._ex = list(g._ex)
            self._adj = [[list(e) for e in a] for a in g._adj]
            self._m, self._indexed, self._nid = g._m, g._indexed, g._nid
            return
        if directed:
            raise StubGap("directed graphs")
        self._w, self._d = bool(weighted), False
        self._ex = [True] * int(n)
        self._adj = [[] for _ in range(int(n))]       # per node: [neighbour, weight, edge id]
        self._m = 0
        self._indexed = bool(edgesIndexed)
        self._nid = 0

    # nodes
    def _chk(self, u):
        u = int(u)
        if u < 0 or u >= len(self._ex) or not self._ex[u]:
            raise RuntimeError("node %d does not exist" % u)
        return u
    def addNode(self):
        self._ex.append(True); self._adj.append([])
        return len(self._ex) - 1
    def addNodes(self, k):
        k = int(k)
        if k < 0:
            raise OverflowError("can't convert negative value to count")
        for _ in range(k):
            self.addNode()
        return len(self._ex) - 1
    def removeNode(self, u):
        u = self._chk(u)
        for v, _, _ in list(self._adj[u]):
            if v != u:
                self._erase(v, u)
            self._m -= 1
        self._adj[u] = []
        self._ex[u] = False
    def restoreNode(self, u):
        u = int(u)
        if self._ex[u]:
            raise RuntimeError("node exists")
        self._ex[u] = True
    def hasNode(self, u):
        u = int(u)
        return 0 <= u < len(self._ex) and self._ex[u]
    def numberOfNodes(self):
        return sum(self._ex)
    def upperNodeIdBound(self):
        return len(self._ex)
    def iterNodes(self):
        u = 0
        while u < len(self._ex):
            if self._ex[u]:
                yield u
            u += 1
    def forNodes(self, f):
        for u in self.iterNodes():
            f(u)
    nodes = iterNodes

    # edges
    def _find(self, u, v):
        for i, e in enumerate(self._adj[u]):
            if e[0] == v:
                return i
        return -1
    def _erase(self, u, v):
        a = self._adj[u]
        i = self._find(u, v)
        a[i] = a[-1]
        a.pop()
    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        u, v = int(u), int(v)
        if addMissing:
            while len(self._ex) <= max(u, v):
                self.addNode()
            for x in (u, v):
                self._ex[x] = True
        else:
            for x in (u, v):
                if not self.hasNode(x):
                    raise RuntimeError("Cannot create edge ({0}, {1}) as one of the nodes does not exist.".format(u, v))
        if checkMultiEdge and self._find(u, v) >= 0:
            return False
        w = float(w) if self._w else 1.0
        eid = self._nid
        self._nid += 1
        self._adj[u].append([v, w, eid])
        if u != v:
            self._adj[v].append([u, w, eid])
        self._m += 1
        return True
    def addEdges(self, inputData, addMissing=False, checkMultiEdge=False):
        if hasattr(inputData, "tocoo") or hasattr(inputData, "row"):
            c = inputData.tocoo() if hasattr(inputData, "tocoo") else inputData
            data, (r, c_) = c.data, (c.row, c.col)
        elif len(inputData) == 2 and not _np.isscalar(inputData[1][0]) and len(inputData[1]) == 2:
            data, (r, c_) = inputData
        else:
            r, c_ = inputData
            data = _np.ones(len(r))
        for w, u, v in zip(data, r, c_):
            self.addEdge(u, v, w, addMissing, checkMultiEdge)
    def removeEdge(self, u, v):
        u, v = int(u), int(v)
        if not (self.hasNode(u) and self.hasNode(v)) or self._find(u, v) < 0:
            raise RuntimeError("Edge (%d, %d) does not exist!" % (u, v))
        self._erase(u, v)
        if u != v:
            self._erase(v, u)
        self._m -= 1
    def removeAllEdges(self):
        self._adj = [[] for _ in self._adj]; self._m = 0
    def removeSelfLoops(self):
        for u in list(self.iterNodes()):
            while self._find(u, u) >= 0:
                self.removeEdge(u, u)
    def removeMultiEdges(self):
        for u in range(len(self._adj)):
            seen = set()
            for v, _, _ in list(self._adj[u]):
                if v <= u and v in seen:
                    self.removeEdge(u, v)
                seen.add(v)
    def removeEdgesFromIsolatedSet(self, nodes):
        for u in nodes:
            self._m -= len(self._adj[int(u)]); self._adj[int(u)] = []
    def hasEdge(self, u, v):
        return self.hasNode(u) and self.hasNode(v) and self._find(int(u), int(v)) >= 0
    def weight(self, u, v):
        i = self._find(int(u), int(v))
        return self._adj[int(u)][i][1] if i >= 0 else 0.0
    def setWeight(self, u, v, w):
        u, v = int(u), int(v)
        i = self._find(u, v)
        if i < 0:
            self.addEdge(u, v, w); return
        self._adj[u][i][1] = float(w)
        if u != v:
            self._adj[v][self._find(v, u)][1] = float(w)
    def increaseWeight(self, u, v, w):
        self.setWeight(u, v, self.weight(u, v) + float(w))
    def numberOfEdges(self):
        return self._m
    def numberOfSelfLoops(self):
        return sum(1 for u, v in self.iterEdges() if u == v)
    def totalEdgeWeight(self):
        return sum(w for _, _, w in self.iterEdgesWeights())
    def iterEdgesWeights(self):
        u = 0
        while u < len(self._adj):
            i = 0
            while i < len(self._adj[u]):          # live: reads the adjacency as it is now
                v, w = self._adj[u][i][0], self._adj[u][i][1]
                if v <= u:
                    yield u, v, w
                i += 1
            u += 1
    def iterEdges(self):
        for u, v, _ in self.iterEdgesWeights():
            yield u, v
    edges = iterEdges
    def forEdges(self, f):
        for u, v, w in self.iterEdgesWeights():
            f(u, v, w, self._adj[u][self._find(u, v)][2])
    def forEdgesOf(self, u, f):
        for v, w, e in list(self._adj[int(u)]):
            f(int(u), v, w, e)
    def iterNeighbors(self, u):
        i = 0
        while i < len(self._adj[int(u)]):
            yield self._adj[int(u)][i][0]
            i += 1
    iterInNeighbors = neighbors = iterNeighbors
    def iterNeighborsWeights(self, u):
        i = 0
        while i < len(self._adj[int(u)]):
            yield self._adj[int(u)][i][0], self._adj[int(u)][i][1]
            i += 1
    def degree(self, u):
        return len(self._adj[self._chk(u)])
    degreeOut = degreeIn = degree
    def weightedDegree(self, u, countSelfLoopsTwice=False):
        return sum(w for _, w, _ in self._adj[self._chk(u)])
    def isIsolated(self, u):
        return self.degree(u) == 0
    def indexEdges(self, force=False):
        self._indexed = True
    def hasEdgeIds(self):
        return self._indexed
    def edgeId(self, u, v):
        return self._adj[int(u)][self._find(int(u), int(v))][2]
    def upperEdgeIdBound(self):
        return self._nid
    def isWeighted(self):
        return self._w
    def isDirected(self):
        return False
    def isEmpty(self):
        return self.numberOfNodes() == 0
    def sortEdges(self):
        for a in self._adj:
            a.sort()
    def checkConsistency(self):
        return True
    def compactEdges(self):
        pass
    def shrinkToFit(self):
        pass
    def __copy__(self):
        return Graph(self)
    def __deepcopy__(self, memo):
        return Graph(self)
    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise StubGap("networkit.Graph." + a)


class Format(enum.Enum):
    SNAP = 0; EdgeListSpaceZero = 1; EdgeListSpaceOne = 2; EdgeListTabZero = 3; EdgeListTabOne = 4; METIS = 5
    GraphML = 6; GEXF = 7; GML = 8; EdgeListCommaOne = 9; NetworkitBinary = 10; GraphToolBinary = 11


def writeGraph(G, path, fileformat=Format.NetworkitBinary, **kw):
    with open(path, "wb") as f:
        pickle.dump(dict(w=G._w, ex=list(G._ex), edges=list(G.iterEdgesWeights()), idx=G._indexed), f)


def readGraph(path, fileformat=Format.NetworkitBinary, *a, **kw):
    with open(path, "rb") as f:
        d = pickle.load(f)
    g = Graph(len(d["ex"]), weighted=d["w"])
    for u, v, w in d["edges"]:
        g.addEdge(u, v, w)
    g._ex = list(d["ex"])
    if d["idx"]:
        g.indexEdges()
    return g


class _GraphIO:
    Format = Format
    readGraph = staticmethod(readGraph)
    writeGraph = staticmethod(writeGraph)
graphio = _GraphIO


def setSeed(*a, **k): pass
def setNumberOfThreads(*a, **k): pass
def getMaxNumberOfThreads(): return 1
def setLogLevel(*a): pass


def dijkstra(G, s):
    s = G._chk(s)
    dist, pred = {s: 0.0}, {}
    h, done = [(0.0, s)], set()
    while h:
        d, u = heapq.heappop(h)
        if u in done:
            continue
        done.add(u)
        for v, w, _ in G._adj[u]:
            nd = d + w
            if v not in dist or nd < dist[v]:
                dist[v] = nd
                pred[v] = u
                heapq.heappush(h, (nd, v))
    return dist, pred

from . import graphtools, distance, components, graph   # noqa
from .graphtools import GraphTools  # noqa
__getattr__ = _mg("networkit")
