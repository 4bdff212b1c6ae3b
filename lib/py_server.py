"""Runs the Python demo module of the tree under check on commands read line by line; answers one line each."""
import sys, os, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)          # whatever the module prints goes elsewhere
import numpy as np
from SuperQuadrics import SuperQuadrics
from MultiBodyTree import MultiBodyTree
import robot_generator
from spatialmath import SE3


class NoAxes:
    def __getattr__(self, n):
        return lambda *a, **k: None


robots = {}


def fl(v):
    return " ".join(float(x).hex() for x in np.asarray(v, dtype=float).ravel())


def sq(p):
    return SuperQuadrics([float(x) for x in p[0:3]], [float(x) for x in p[3:5]], [float(x) for x in p[5:8]],
                         [float(x) for x in p[8:12]], int(p[12]))


def pose(b):
    return fl(np.hstack([np.asarray(b.pose.R).ravel(), np.asarray(b.pose.t).ravel()]))


def poses(r):
    return " ".join([pose(r[0].base)] + [pose(l) for l in r[0].link])


def run(c):
    k, a = c[0], c[1:]
    if k == "sq":
        s = sq(a)
        p = s.get_points()
        x, y, z = s.get_surf()
        return fl(p) + " " + fl(x) + " " + fl(y) + " " + fl(z)
    if k == "new":      # id links urdf base
        urdf = None if a[2] == "-" else a[2]
        r = MultiBodyTree(sq(a[3:]), int(a[1]), urdf)
        robots[a[0]] = (r, r.robot_urdf)
        return "ok"
    if k == "body":     # id index body
        robots[a[0]][0].add_body(sq(a[2:]), int(a[1]))
        return "ok"
    if k == "gen":      # id urdf rows of twelve numbers
        v = np.array([float(x) for x in a[2:]]).reshape(-1, 12)
        r, u = robot_generator.generate_robot(v, None if a[1] == "-" else a[1])
        robots[a[0]] = (r, u)
        return "ok"
    if k == "get":
        return poses(robots[a[0]])
    if k == "tf":       # id 16 numbers, joints
        v = [float(x) for x in a[1:]]
        g = SE3(np.array(v[:16]).reshape(4, 4))
        r = robots[a[0]]
        if len(v) > 16:
            r[0].transform(g, np.array(v[16:]))
        else:
            r[0].transform(g)
        return poses(r)
    if k == "pose":     # id 7 numbers, joints
        r = robots[a[0]]
        robot_generator.plot_robot_pose(r[0], np.array([float(x) for x in a[1:]]), r[1], NoAxes())
        return poses(r)
    if k == "points":   # id body (0: base)
        b = robots[a[0]][0]
        b = b.base if int(a[1]) == 0 else b.link[int(a[1]) - 1]
        return fl(b.get_points())
    return "ERR unknown command"


for line in sys.stdin:
    try:
        r = run(line.split())
    except Exception as e:
        r = "ERR %s %s" % (type(e).__name__, str(e).replace("\n", " "))
    out.write(r + "\n")
    out.flush()
