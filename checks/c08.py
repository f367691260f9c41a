"""C08: scene-graph coordinates; a shadow graph follows every operation."""
import math

import numpy as np

import common
common.setup_path()
from scenes import axis_rotation, rigid_inv, rotation, rigid, unit

chk = common.Check(
    "C08", "a (operation, path shape between the two nodes) combination after which poses or conversions "
           "were compared with the shadow graph; one evaluation is one comparison",
    assumptions=["Rotation axes are directions in the parent's coordinate system (the behaviour of the code; "
                 "the docstring of Transformable.rotate says otherwise).",
                 "Coordinates up to 1e3, trees up to 14 nodes, up to 120 operations per case."])


class Shadow:
    def __init__(self, node, parent, pose):
        self.node, self.parent, self.pose = node, parent, pose

    def world(self):
        m, s = np.eye(4), self
        while s is not None:
            m = s.pose @ m
            s = s.parent
        return m

    def ancestors(self):
        out, s = [], self
        while s is not None:
            out.append(s)
            s = s.parent
        return out


def vec(rng, mag=None):
    mag = mag or 10.0 ** rng.uniform(-2, 2)
    k = int(rng.integers(0, 4))
    v = rng.normal(size=3) * mag
    if k == 0:
        v = np.round(v)
    if k == 1:
        v[int(rng.integers(3))] = 0.0
    return v


def form(rng, v):
    """The same numbers in any of the array-likes users pass."""
    k = int(rng.integers(0, 4))
    if k == 0:
        return tuple(float(x) for x in v)
    if k == 1:
        return [float(x) for x in v]
    if k == 2 and np.all(v == np.round(v)):
        return tuple(int(x) for x in v)
    if k == 3 and np.all(v == np.round(v)):
        return np.array(v, dtype=int)
    return np.array(v, dtype=float)


def any_direction(rng):
    k = int(rng.integers(0, 6))
    if k == 0:
        return np.array([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)][int(rng.integers(6))], float)
    if k <= 2:      # close to the z axis
        d = 10.0 ** rng.uniform(-9, -1)
        a = rng.random() * 2 * math.pi
        return np.array([math.sin(d) * math.cos(a), math.sin(d) * math.sin(a),
                         math.cos(d) * rng.choice([-1.0, 1.0])])
    return unit(rng.normal(size=3))


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.isfinite(a)) and float(np.max(np.abs(a - b))) <= tol


def judge_node(ctx, sh, op):
    n = sh.node
    tol = 1e-9 * (1 + np.abs(sh.pose).max())
    det = dict(op=op, node=n.name, want=sh.pose.tolist(), got=np.asarray(n.pose).tolist())
    ctx.count("poses_judged")
    ctx.expect(close(n.pose, sh.pose, tol), f"pose:{op}", f"pose of a node is not what {op} should make it", **det)
    ctx.expect(close(n.location, sh.pose[:3, 3], tol), f"location:{op}",
               f"location of a node after {op} is not the translation of its placement", loc=list(n.location), **det)
    ctx.expect(close(n.location, np.asarray(n.pose)[:3, 3], tol), f"location_vs_pose:{op}",
               "location and pose disagree", loc=list(n.location), **det)
    r = np.asarray(n.pose, float)[:3, :3]
    ctx.expect(close(r @ r.T, np.eye(3), 1e-9), f"rigid:{op}", "placement is no longer rigid", **det)


def judge_pair(ctx, a, b):
    from pvtrace import Ray
    rng = ctx.rng
    want = rigid_inv(b.world()) @ a.world()
    mag = 1 + max(np.abs(s.world()).max() for s in a.ancestors() + b.ancestors())
    tol = 1e-10 * mag
    anc_a, anc_b = a.ancestors(), b.ancestors()
    common_ = [s for s in anc_a if s in anc_b]
    shape = (min(3, anc_a.index(common_[0])), min(3, anc_b.index(common_[0])))
    det = dict(path=shape, want=want.tolist())
    T = np.asarray(a.node.transformation_to(b.node), float)
    ctx.seen("distinct", ("convert", shape))
    ctx.expect(close(T, want, tol), "transformation_to",
               "transformation between two nodes is not the composition of placements", got=T.tolist(), **det)
    p = vec(rng)
    v = vec(rng)
    q = a.node.point_to_node(form(rng, p), b.node)
    w = a.node.vector_to_node(form(rng, v), b.node)
    ctx.expect(close(q, (want @ np.append(p, 1))[:3], tol * (1 + np.abs(p).max())), "point_to_node",
               "converted point is wrong", point=p.tolist(), got=list(q), **det)
    ctx.expect(close(w, want[:3, :3] @ v, 1e-10 * (1 + np.abs(v).max())), "vector_to_node",
               "converted vector is wrong (or depends on translation)", vector=v.tolist(), got=list(w), **det)
    ctx.expect(abs(np.linalg.norm(w) - np.linalg.norm(v)) < 1e-9 * (1 + np.linalg.norm(v)), "length",
               "conversion changed the length of a vector", vector=v.tolist(), got=list(w))
    back = b.node.point_to_node(q, a.node)
    ctx.expect(close(back, p, tol * (1 + np.abs(p).max())), "point_roundtrip", "converting a point back does not return it",
               point=p.tolist(), got=list(back), **det)
    vb = b.node.vector_to_node(w, a.node)
    ctx.expect(close(vb, v, 1e-9 * (1 + np.abs(v).max())), "vector_roundtrip", "converting a vector back does not return it",
               vector=v.tolist(), got=list(vb), **det)
    ray = Ray(position=tuple(p.tolist()), direction=tuple(unit(v + 1e-3).tolist()), wavelength=float(rng.uniform(300, 900)),
              travelled=float(rng.random()), duration=float(rng.random()), source="s%d" % rng.integers(9))
    rr = ray.representation(a.node, b.node)
    ctx.expect(close(rr.position, (want @ np.append(p, 1))[:3], tol * (1 + np.abs(p).max())), "ray_position", "ray position in another frame is wrong", **det)
    ctx.expect(close(rr.direction, want[:3, :3] @ np.array(ray.direction), 1e-10), "ray_direction", "ray direction in another frame is wrong", **det)
    ctx.expect((rr.wavelength, rr.travelled, rr.duration, rr.source) == (ray.wavelength, ray.travelled, ray.duration, ray.source),
               "ray_attributes", "changing a ray's frame changed its other attributes", got=str(rr))
    ctx.count("pairs_judged")


def case(ctx):
    from pvtrace import Node
    rng = ctx.rng
    nodes = []

    def make(parent):
        name = f"n{len(nodes)}"
        if rng.random() < 0.6:
            loc = vec(rng)
            n = Node(name=name, parent=parent.node if parent else None, location=form(rng, loc))
        else:
            loc = np.zeros(3)
            n = Node(name=name, parent=parent.node if parent else None)
        s = Shadow(n, parent, rigid(np.eye(3), loc))
        nodes.append(s)
        judge_node(ctx, s, "create")
        return s

    make(None)
    for _ in range(int(rng.integers(2, 8))):
        make(nodes[int(rng.integers(len(nodes)))])
    ops = []
    for step in range(int(rng.integers(20, 60))):
        s = nodes[int(rng.integers(len(nodes)))]
        k = int(rng.integers(0, 10))
        n = s.node
        if k == 0 and len(nodes) < 14:
            op = "create"
            s = make(s)
        elif k == 1:
            op = "location"
            v = vec(rng)
            n.location = form(rng, v)
            s.pose = s.pose.copy()
            s.pose[:3, 3] = v
        elif k == 2:
            op = "pose"
            m = rigid(rotation(rng), vec(rng)) if rng.random() < 0.7 else rigid(np.eye(3), np.round(vec(rng)))
            mm = m.copy()
            if np.all(m == np.round(m)) and rng.random() < 0.5:
                mm = m.astype(int)
            n.pose = mm if rng.random() < 0.8 else mm.tolist()
            mm *= 0        # the node must keep its own copy
            s.pose = m
        elif k in (3, 4):
            op = "translate"
            v = vec(rng)
            n.translate(form(rng, v))
            s.pose = s.pose.copy()
            s.pose[:3, 3] += v
        elif k in (5, 6):
            op = "rotate"
            axis = any_direction(rng) * (1.0 if rng.random() < 0.7 else 10.0 ** rng.uniform(-1, 1))
            ang = float(rng.uniform(-7, 7)) if rng.random() < 0.7 else float(rng.choice([0.0, math.pi, -math.pi / 2, math.pi / 2, 1e-7]))
            n.rotate(ang, form(rng, axis))
            R = np.eye(4)
            R[:3, :3] = axis_rotation(axis, ang)
            loc = s.pose[:3, 3].copy()
            s.pose = R @ s.pose
            s.pose[:3, 3] = loc
        elif k == 7:
            op = "look_at"
            d = any_direction(rng)
            fresh = bool(np.allclose(s.pose[:3, :3], np.eye(3), atol=1e-12))
            if not fresh:
                # only an unrotated node's look_at is specified
                s.pose = rigid(np.eye(3), s.pose[:3, 3])
                n.pose = s.pose
            n.look_at(form(rng, d))
            got = np.asarray(n.vector_to_node((0, 0, 1), n.parent), float) if n.parent is not None else np.asarray(n.pose)[:3, 2]
            ctx.count("look_at")
            ctx.seen("distinct", ("look_at", int(math.floor(math.log10(max(1e-12, math.hypot(d[0], d[1]))))), bool(d[2] > 0)))
            ctx.expect(close(got, d, 1e-9), "look_at", "look_at does not turn +z to the given direction",
                       direction=d.tolist(), got=got.tolist())
            R = np.asarray(n.pose, float)[:3, :3]
            ctx.expect(np.linalg.det(R) > 0, "look_at:det", "look_at mirrored the node", got=R.tolist())
            s.pose = rigid(R, s.pose[:3, 3])
        elif k == 8:
            op = "reparent"
            t = nodes[int(rng.integers(len(nodes)))]
            if s.parent is None or s in t.ancestors():
                continue
            n.parent = t.node
            s.parent = t
        else:
            op = "convert"
            t = nodes[int(rng.integers(len(nodes)))]
            judge_pair(ctx, s, t)
        ops.append((op, s.node.name))
        judge_node(ctx, s, op)
        ctx.seen("distinct", ("op", op, ops[-2][0] if len(ops) > 1 else None))
        for o in nodes:
            if o is not s and rng.random() < 0.2:
                judge_node(ctx, o, "other:" + op)
        judge_pair(ctx, nodes[int(rng.integers(len(nodes)))], nodes[int(rng.integers(len(nodes)))])
        judge_pair(ctx, s, nodes[int(rng.integers(len(nodes)))])
    ctx.count("operations", len(ops))
    ctx.sample({"nodes": len(nodes), "operations": ops[:12]})
    # from_pose
    m = rigid(rotation(rng), vec(rng))
    s = Shadow(Node.from_pose(m), None, m)
    judge_node(ctx, s, "from_pose")


chk.run_cases(case, "graphs", common.scale(2000, 40000))
chk.require("operations", 5000)
chk.require("pairs_judged", 10000)
chk.require("look_at", 200)
chk.finish()
