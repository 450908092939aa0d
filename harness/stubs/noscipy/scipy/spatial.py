import numpy as np


class ConvexHull:
    """Planar convex hull; .vertices counterclockwise, as in scipy."""
    def __init__(self, points, **kw):
        self.points = np.asarray(points, dtype=float)
        p = self.points
        if p.shape[1] != 2:
            from stubgap import StubGap
            raise StubGap("ConvexHull in dimension %d" % p.shape[1])
        o = sorted(range(len(p)), key=lambda i: (p[i, 0], p[i, 1]))
        def half(seq):
            h = []
            for i in seq:
                while len(h) > 1:
                    a, b, c = p[h[-2]], p[h[-1]], p[i]
                    if (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]) <= 0:
                        h.pop()
                    else:
                        break
                h.append(i)
            return h[:-1]
        self.vertices = np.array(half(o) + half(o[::-1]))
        self.simplices = np.array([[self.vertices[i], self.vertices[(i+1) % len(self.vertices)]] for i in range(len(self.vertices))])


def distance_matrix(x, y, p=2):
    return np.linalg.norm(np.asarray(x)[:, None, :] - np.asarray(y)[None, :, :], axis=2)
class distance:
    @staticmethod
    def cdist(x, y, metric="euclidean"):
        return distance_matrix(x, y)
