import numpy as np
from pybullet_tools.utils import Pose, Euler, INF

TOOL_POSE = Pose(euler=Euler(pitch=np.pi / 2))
GRASP_LENGTH = 0.04
MAX_GRASP_WIDTH = INF


def get_top_grasps(*args, **kwargs):
    raise NotImplementedError
