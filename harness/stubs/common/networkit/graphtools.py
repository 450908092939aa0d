from . import Graph
from stubgap import StubGap, module_getattr as _mg


class GraphTools:
    @staticmethod
    def merge(G, G1):
        """G becomes the union of nodes and edges; existing edges are kept once; removed ids present in G1 revive."""
        while G.upperNodeIdBound() < G1.upperNodeIdBound():
            u = G.addNode()
            if not G1.hasNode(u):
                G.removeNode(u)
        for u in G1.iterNodes():
            if not G.hasNode(u):
                G.restoreNode(u)
        for u, v, w in list(G1.iterEdgesWeights()):
            if not G.hasEdge(u, v):
                G.addEdge(u, v, w)
    @staticmethod
    def append(G, G1):
        m = {u: G.addNode() for u in G1.iterNodes()}
        for u, v, w in list(G1.iterEdgesWeights()):
            G.addEdge(m[u], m[v], w)
    @staticmethod
    def copyNodes(G):
        g = Graph(G.upperNodeIdBound(), weighted=G.isWeighted())
        g._ex = list(G._ex)
        return g
    @staticmethod
    def subgraphFromNodes(G, nodes, compact=False):
        if compact:
            raise StubGap("subgraphFromNodes(compact)")
        s = {int(u) for u in nodes}
        g = GraphTools.copyNodes(G)
        g._ex = [e and u in s for u, e in enumerate(g._ex)]
        for u, v, w in G.iterEdgesWeights():
            if u in s and v in s:
                g.addEdge(u, v, w)
        return g
    @staticmethod
    def subgraphAndNeighborsFromNodes(*a, **k):
        raise StubGap("subgraphAndNeighborsFromNodes")
    @staticmethod
    def removeEdgesFromIsolatedSet(G, nodes):
        G.removeEdgesFromIsolatedSet(nodes)
    @staticmethod
    def toWeighted(G):
        return Graph(G, weighted=True)
    @staticmethod
    def size(G):
        return G.numberOfNodes(), G.numberOfEdges()
    @staticmethod
    def density(G):
        n, m = GraphTools.size(G)
        return 2.0 * m / (n * (n - 1)) if n > 1 else 0
    @staticmethod
    def maxDegree(G):
        return max((G.degree(u) for u in G.iterNodes()), default=0)
    @staticmethod
    def sortEdgesByWeight(G, decreasing=False):
        for a in G._adj:
            a.sort(key=lambda e: (-e[1] if decreasing else e[1], e[0]))


merge, append, copyNodes, size = GraphTools.merge, GraphTools.append, GraphTools.copyNodes, GraphTools.size
subgraphFromNodes = GraphTools.subgraphFromNodes
__getattr__ = _mg("networkit.graphtools")
