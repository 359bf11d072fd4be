"""Recording stand-ins for the command classes."""
import tinybullet as tb


class Conf:
    def __init__(self, body, joints, values=None, init=False):
        self.body, self.joints, self.values, self.init = body, joints, values, init


class Trajectory:
    def __init__(self, path):
        self.path = tuple(path)


def create_trajectory(robot, joints, path):
    return Trajectory(Conf(robot, joints, q) for q in path)


class _Grip:
    def __init__(self, robot, arm, grasp=None, body=None):
        self.robot, self.arm, self.grasp, self.body = robot, arm, grasp, body


class Attach(_Grip):
    def __init__(self, robot, arm, grasp, body):
        super().__init__(robot, arm, grasp, body)


class Detach(_Grip):
    def __init__(self, robot, arm, body):
        super().__init__(robot, arm, None, body)


class State:
    pass


def control_commands(commands, **kw):
    tb.log("control", list(commands))


def apply_commands(state, commands, time_step=None, **kw):
    tb.log("apply", list(commands), time_step)
