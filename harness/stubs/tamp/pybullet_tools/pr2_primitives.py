"""Stand-in: commands and trajectories record what they were built from."""
from stubgap import module_getattr
__getattr__ = module_getattr("pybullet_tools.pr2_primitives")
class Command:
    pass
class Conf:
    def __init__(self, body, joints, values=None, init=False):
        self.body, self.joints, self.values, self.init = body, joints, tuple(values), init
    def assign(self):
        from pybullet_tools.utils import set_joint_positions
        set_joint_positions(self.body, self.joints, self.values)
class Trajectory(Command):
    def __init__(self, path):
        self.path = tuple(path)
    def reverse(self): return Trajectory(reversed(self.path))
    def iterate(self):
        for c in self.path:
            yield c
def create_trajectory(robot, joints, path): return Trajectory(Conf(robot, joints, q) for q in path)
class _Link(Command):
    def __init__(self, robot, arm=None, grasp=None, body=None):
        self.robot, self.arm, self.grasp, self.body = robot, arm, grasp, body
class Attach(_Link): pass
class Detach(_Link): pass
class State:
    def __init__(self, *a, **k): pass
SHOW = [None]                                  # (how, commands, time step): somebody watching
def control_commands(commands, **k):
    if SHOW[0] is not None:
        SHOW[0]("controllers", commands, 0.)
def apply_commands(state, commands, time_step=None, pause=False, **k):
    if SHOW[0] is not None:
        SHOW[0]("steps", commands, time_step)
