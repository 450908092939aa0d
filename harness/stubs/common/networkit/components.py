from stubgap import module_getattr as _mg


class ConnectedComponents:
    def __init__(self, G):
        self.G = G
    def run(self):
        self.c, k = {}, 0
        for s in self.G.iterNodes():
            if s in self.c:
                continue
            st = [s]; self.c[s] = k
            while st:
                u = st.pop()
                for v in list(self.G.iterNeighbors(u)):
                    if v not in self.c:
                        self.c[v] = k; st.append(v)
            k += 1
        self.k = k
        return self
    def componentOfNode(self, u): return self.c[int(u)]
    def numberOfComponents(self): return self.k
    def getComponents(self):
        return [[u for u in self.c if self.c[u] == i] for i in range(self.k)]
__getattr__ = _mg("networkit.components")
