from stubgap import module_getattr
from pybullet_tools.utils import Pose
__getattr__ = module_getattr("pybullet_tools.pr2_utils")
TOOL_POSE, GRASP_LENGTH, MAX_GRASP_WIDTH = Pose(), 0.0, float("inf")
def get_top_grasps(*a, **k): return [Pose()]
