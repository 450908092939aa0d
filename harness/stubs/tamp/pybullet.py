"""Stand-in for the few pybullet calls made directly: multi-box bodies go to the world of pybullet_tools.utils."""
from stubgap import module_getattr
__getattr__ = module_getattr("pybullet")
GEOM_BOX, JOINT_FIXED, JOINT_REVOLUTE = 3, 4, 0
_shapes = {}
def _shape(kind, halfExtents=None, **kw):
    _shapes[len(_shapes) + 1] = halfExtents
    return len(_shapes)
createCollisionShape = createVisualShape = _shape
def getQuaternionFromEuler(e):
    from pybullet_tools.utils import quat_from_euler
    return quat_from_euler(e)
def createMultiBody(baseMass=0, baseCollisionShapeIndex=-1, baseVisualShapeIndex=-1, basePosition=(0, 0, 0), baseOrientation=(0, 0, 0, 1),
                    linkCollisionShapeIndices=(), linkPositions=(), linkOrientations=(), **kw):
    from pybullet_tools import utils as u
    b = u.Body("multi", links=[(_shapes[s], (tuple(p), tuple(q))) for s, p, q in zip(linkCollisionShapeIndices, linkPositions, linkOrientations)])
    b.pose = (tuple(basePosition), tuple(baseOrientation))
    return u.add_body(b)
def disconnect(*a): pass
def connect(*a): return 0
