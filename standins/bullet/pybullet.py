"""Stand-in for the PyBullet calls of the code under test."""
import tinybullet as tb

GEOM_BOX, GEOM_CYLINDER, JOINT_FIXED = 3, 4, 4
_shapes = []


def createCollisionShape(shapeType, halfExtents=None, radius=None, height=None, **kw):
    _shapes.append(tb.Shape("box", halfExtents) if shapeType == GEOM_BOX else tb.Shape("cyl", (radius, height)))
    return len(_shapes) - 1


def createVisualShape(shapeType, **kw):
    return 0


def createMultiBody(baseMass=0.0, baseCollisionShapeIndex=-1, baseVisualShapeIndex=-1, basePosition=(0, 0, 0),
                    baseOrientation=(0, 0, 0, 1), linkMasses=(), linkCollisionShapeIndices=(), linkVisualShapeIndices=(),
                    linkPositions=(), linkOrientations=(), linkInertialFramePositions=(), linkInertialFrameOrientations=(),
                    linkParentIndices=(), linkJointTypes=(), linkJointAxis=(), **kw):
    lens = {len(x) for x in (linkMasses, linkCollisionShapeIndices, linkVisualShapeIndices, linkPositions, linkOrientations,
                             linkInertialFramePositions, linkInertialFrameOrientations, linkParentIndices, linkJointTypes, linkJointAxis)}
    if len(lens) > 1:
        raise ValueError("All link arrays need to be same size.")
    shapes = []
    if baseCollisionShapeIndex >= 0:
        shapes.append(_shapes[baseCollisionShapeIndex])
    links = []
    for i, pos, ori, par in zip(linkCollisionShapeIndices, linkPositions, linkOrientations, linkParentIndices):
        pose = (tuple(pos), tuple(ori))
        if par > 0:                 # 0 is the base, k the k-th link
            pose = tb.mul(links[par - 1], pose)
        links.append(pose)
        if i >= 0:
            shapes.append(tb.Shape(_shapes[i].kind, _shapes[i].dims, pose))
    b = tb.Body(shapes, name="multibody", kind="multi")
    b.pose = (tuple(float(v) for v in basePosition), tuple(baseOrientation))
    return b.id


def getQuaternionFromEuler(e):
    return tb.quat_from_euler(e)


def getEulerFromQuaternion(q):
    return tb.euler_from_quat(q)


def disconnect(*a, **k):
    tb.log("disconnect")
