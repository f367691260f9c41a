"""C25: what the scene viewer shows, judged from what reaches its window."""
import common
common.setup_path()
import collections
import contextlib
import io
import math
import os
import shutil
import sqlite3
import struct
import tempfile
import time

import numpy as np

import isolate
import viewer

PVT = {}


def load():
    viewer.install()
    import pvtrace
    from pvtrace.scene.renderer import MeshcatRenderer
    from pvtrace.light.event import Event
    from pvtrace.light import utils
    from pvtrace.algorithm import photon_tracer
    PVT.update(p=pvtrace, R=MeshcatRenderer, E=Event, u=utils, t=photon_tracer)


def new_renderer(**kw):
    n = len(viewer.WINDOWS)
    r = PVT["R"](**kw)
    if len(viewer.WINDOWS) != n + 1:
        raise RuntimeError("the viewer did not open a window")
    return r, viewer.WINDOWS[-1]


# -- colours -----------------------------------------------------------------------

def rgb(w):
    """The published approximation, one line per channel."""
    w = int(w)
    if not 380 <= w <= 780:
        return np.zeros(3)
    r = np.interp(w, [380, 440, 510, 580], [60 / 90, 0, 0, 1])
    g = np.interp(w, [440, 490, 580, 645], [0, 1, 1, 0])
    b = np.interp(w, [490, 510], [1, 0])
    s = np.interp(w, [380, 420, 700, 780], [0.3 + 0.7 * 30 / 70, 1, 1, 0.3])
    return 255 * s * np.array([r, g, b])


def near_colour(value, w):
    """A colour as an integer is that of the wavelength."""
    if isinstance(value, bool) or not isinstance(value, (int, np.integer)) or not 0 <= value <= 0xFFFFFF:
        return False
    got = np.array([value >> 16, value >> 8 & 255, value & 255])
    want = rgb(w)
    return bool(np.all(np.abs(got - want) <= 1.001)) and (want.any() or value == 0)


def colours(ctx, k):
    u = PVT["u"]
    rng = ctx.rng
    waves = list(range(-5, 1500)) + [0.5, 379.999, 380.0, 380.001, 439.999, 440.0, 489.5, 490.0, 509.9, 510.0, 579.999, 580.0, 644.99, 645.0, 700.0, 700.5, 779.999, 780.0, 780.999, 781.0, 1e5, 1e9]
    waves += list(rng.uniform(300, 900, 400)) + list(rng.uniform(0, 20000, 50))
    waves += [np.float64(555.5), np.int64(600), np.float32(410.25)]
    for w in waves:
        got = u.wavelength_to_rgb(w)
        ctx.count("colours")
        ctx.seen("distinct", float(w))
        ctx.expect(len(got) == 3 and all(isinstance(c, (int, np.integer)) and 0 <= c <= 255 for c in got), "colour:range", f"{w} nm has the colour {got}")
        ctx.expect(np.all(np.abs(np.array(got) - rgb(w)) <= 1.001) and (rgb(w).any() or not any(got)), "colour:value", f"{w} nm has the colour {got}, expected {rgb(w)}")
        h = u.wavelength_to_hex_int(w)
        ctx.expect(h == (got[0] << 16 | got[1] << 8 | got[2]), "colour:hex", f"{w} nm is {h:#x}, its components {got}")
    for _ in range(300):
        c = tuple(int(v) for v in rng.integers(-50, 320, 3))
        h = u.rgb_to_hex_int(c)
        q = [max(0, min(255, v)) for v in c]
        ctx.expect(h == (q[0] << 16 | q[1] << 8 | q[2]), "colour:rgb", f"{c} is {h:#x}")


# -- objects ------------------------------------------------------------------------

def turn(angle, axis):
    a = np.array(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    m = np.eye(4)
    m[:3, :3] = np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K
    return m


def shift(v):
    m = np.eye(4)
    m[:3, 3] = v
    return m


def cloud(geometry):
    """Characteristic points of a shape in its own frame, and its kind."""
    p = PVT["p"]
    if isinstance(geometry, p.Sphere):
        return "sphere", (float(geometry.radius),), np.zeros((1, 3))
    if isinstance(geometry, p.Cylinder):
        h = geometry.length / 2
        return "cylinder", (float(geometry.radius), float(geometry.length)), np.array([[0, 0, -h], [0, 0, h]])
    t = geometry.trimesh
    return "mesh", (), np.asarray(t.vertices)[np.asarray(t.faces).ravel()]


def drawn(window, path):
    """The same of an object in the window, in the world."""
    g, m = window.geometry(path), window.placement(path)
    kind = g["type"]
    if kind == "SphereGeometry":
        scale = np.linalg.norm(m[:3, :3], axis=0)
        if not np.allclose(scale, 1, atol=1e-6):
            return ("scaled sphere", (), m[:3, 3][None])
        return "sphere", (float(g["radius"]),), m[:3, 3][None]
    if kind == "CylinderGeometry":
        if g["radiusTop"] != g["radiusBottom"]:
            return ("cone", (), m[:3, 3][None])
        h = g["height"] / 2
        pts = np.array([[0, -h, 0], [0, h, 0]]) @ m[:3, :3].T + m[:3, 3]
        ok = np.allclose(m[:3, :3].T @ m[:3, :3], np.eye(3), atol=1e-6)
        return "cylinder" if ok else "skewed cylinder", (float(g["radiusTop"]), float(g["height"])), pts
    if kind.startswith("_meshfile"):
        data = g["data"]
        data = bytes(getattr(data, "data", data))
        if g["format"] != "stl":
            raise RuntimeError("mesh format " + g["format"])
        n, = struct.unpack_from("<I", data, 80)
        rec = np.frombuffer(data, np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]), n, 84)
        return "mesh", (), rec["v"].reshape(-1, 3) @ m[:3, :3].T + m[:3, 3]
    return kind, (), m[:3, 3][None]


def canonical(points):
    return points[np.lexsort(np.round(points, 3).T[::-1])] if len(points) else points


def same(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]) or a[2].shape != b[2].shape or not np.allclose(a[1], b[1], rtol=1e-9):
        return False
    tol = 2e-5 * (1 + np.abs(a[2]).max())
    if np.allclose(a[2], b[2], atol=tol):
        return True
    if a[0] != "mesh":
        return np.allclose(a[2], b[2][::-1], atol=tol)
    # the same triangles in any order
    ta, tb = a[2].reshape(-1, 3, 3), b[2].reshape(-1, 3, 3)
    ca, cb = ta.mean(axis=1), tb.mean(axis=1)
    for t, c in zip(ta, ca):
        near = tb[np.linalg.norm(cb - c, axis=1) < 5 * tol]
        if not any(all(np.linalg.norm(n - v, axis=1).min() < 5 * tol for v in t) for n in near):
            return False
    return True


class World:
    """A node tree and where each of its nodes is, kept separately."""

    def __init__(self, ctx, names):
        p, rng = PVT["p"], ctx.rng
        self.names = names
        self.root = p.Node(name="world", geometry=p.Sphere(radius=50.0, material=p.Material(refractive_index=1.0)))
        self.nodes, self.local = [self.root], {id(self.root): np.eye(4)}
        for k in range(int(rng.integers(1, 9))):
            self.grow(rng)

    def shape(self, rng):
        p = PVT["p"]
        m = p.Material(refractive_index=1.5)
        kind = int(rng.integers(0, 5))
        if kind == 0:
            return p.Sphere(radius=float(rng.uniform(0.1, 2)), material=m)
        if kind == 1:
            return p.Cylinder(length=float(rng.uniform(0.2, 4)), radius=float(rng.uniform(0.1, 2)), material=m)
        if kind == 2:
            return p.Box(tuple(rng.uniform(0.2, 4, 3).tolist()), material=m)
        if kind == 3:
            import trimesh
            t = trimesh.creation.icosahedron() if rng.random() < 0.5 else trimesh.creation.cone(1.0, 2.0, sections=7)
            t.apply_scale(float(rng.uniform(0.3, 2)))
            t.apply_translation(rng.uniform(-0.5, 0.5, 3))
            return p.Mesh(trimesh=t, material=m)
        return None

    def grow(self, rng):
        p = PVT["p"]
        parent = self.nodes[int(rng.integers(0, len(self.nodes)))]
        k = len(self.nodes)
        name = {"plain": f"node {k}", "twins": "part", "odd": ["a", "a/b", "a/b/c", "ä☀", "x y", "a|b", "rays", "exit"][k % 8]}[self.names]
        n = p.Node(name=name, parent=parent, geometry=self.shape(rng))
        self.nodes.append(n)
        self.local[id(n)] = np.eye(4)
        self.place(n, rng)

    def place(self, n, rng):
        """Where a node goes is set, then it turns about its own origin, then shifts."""
        v, a, ax, dv = rng.uniform(-4, 4, 3), float(rng.uniform(-6, 6)), rng.normal(size=3), rng.uniform(-1, 1, 3)
        if rng.random() < 0.2:
            a = 0.0
        fresh = np.allclose(self.local[id(n)], np.eye(4))
        if fresh and a:
            n.rotate(a, tuple(ax))
            self.local[id(n)] = turn(a, ax)
        n.location = tuple(float(x) for x in v)
        self.local[id(n)] = self.local[id(n)].copy()
        self.local[id(n)][:3, 3] = v
        if rng.random() < 0.5:
            n.translate(tuple(float(x) for x in dv))
            self.local[id(n)][:3, 3] += dv

    def world(self, n):
        m = np.eye(4)
        while n is not None:
            m = self.local[id(n)] @ m
            n = n.parent
        return m

    def expected(self, root=False):
        out = []
        for n in self.nodes:
            if n.geometry is None or n is self.root and not root:
                continue
            k, par, pts = cloud(n.geometry)
            m = self.world(n)
            out.append((k, par, pts @ m[:3, :3].T + m[:3, 3], n.name))
        return out


def compare(ctx, window, want, detail):
    have = {p: drawn(window, p) for p in window.objects if window.geometry(p)["type"] != "BufferGeometry"}
    left = dict(have)
    for w in want:
        ctx.count("objects")
        hit = next((p for p, o in left.items() if same(w[:3], o)), None)
        if ctx.expect(hit is not None, f"object:{w[0]}", f"the {w[0]} of node '{w[3]}' is not shown at its place", **detail):
            del left[hit]
    ctx.expect(not left, "object:stale", f"{len(left)} objects shown which no node has at that place", **detail)


def scene_case(ctx, names):
    rng, p = ctx.rng, PVT["p"]
    w = World(ctx, names)
    opts = dict(wireframe=bool(rng.random() < 0.5), opacity=float(np.round(rng.uniform(0.1, 1), 2)), transparency=bool(rng.random() < 0.5))
    r, window = new_renderer(**opts)
    scene = p.Scene(w.root)
    root = bool(rng.random() < 0.3)
    detail = dict(names=[n.name for n in w.nodes], root=root)
    draw = lambda: r.render(scene, show_root=True) if root else r.render(scene)
    draw()
    compare(ctx, window, w.expected(root), detail)
    for path in window.objects:
        m = window.material(path)
        ctx.expect(bool(m["wireframe"]) == opts["wireframe"] and abs(m["opacity"] - opts["opacity"]) < 1e-12, "material", f"shown with {m}, asked for {opts}", **detail)
    # nodes move, and the scene is shown again
    for _ in range(int(rng.integers(0, 3))):
        for n in w.nodes[1:]:
            if rng.random() < 0.6:
                w.place(n, rng)
        draw()
        ctx.count("redrawn")
        compare(ctx, window, w.expected(root), detail)
    ctx.seen("distinct", tuple(sorted((e[0], tuple(np.round(e[2].mean(axis=0), 6))) for e in w.expected())))
    r.add_ray(p.Ray((0, 0, 0), (0, 0, 1), 555.0), 1.0)
    r.remove(scene)
    ctx.expect(not window.objects, "remove", f"{len(window.objects)} objects left after remove", **detail)
    draw()
    compare(ctx, window, w.expected(root), detail)
    ctx.sample(detail)


# -- paths ---------------------------------------------------------------------------

class Show:
    """A renderer beside a model of what its window should hold."""

    def __init__(self, ctx, limit, **kw):
        self.ctx, self.limit = ctx, limit
        self.r, self.w = new_renderer(max_histories=limit, **kw) if limit != "default" else new_renderer(**kw)
        self.limit = 10 if limit == "default" else limit
        self.histories = collections.deque()     # (lines, balls)
        self.loose = {}                          # id -> lines
        self.order = []

    def check(self, detail):
        ctx, w = self.ctx, self.w
        lines = [(w.vertices(p), w.material(p)["color"]) for p in w.objects if w.objects[p]["object"]["type"].startswith("Line")]
        balls = [(w.placement(p)[:3, 3], float(w.geometry(p)["radius"]), w.material(p)["color"]) for p in w.objects if w.geometry(p)["type"] == "SphereGeometry"]
        others = len(w.objects) - len(lines) - len(balls)
        ctx.expect(others == 0, "paths:others", f"{others} other objects appear", **detail)
        want_lines = [x for kind, item in self.order for x in (item[0] if kind == "history" else item)]
        want_balls = [x for kind, item in self.order if kind == "history" for x in item[1]]
        ctx.count("states")
        ctx.count("segments", len(lines))
        ctx.count("markers", len(balls))
        if not ctx.expect(len(lines) == len(want_lines), "paths:count", f"{len(lines)} segments shown, expected {len(want_lines)} ({len(self.histories)} histories of {self.limit})", **detail):
            return False
        for (v, c), (ww, wl) in zip(lines, want_lines):
            ok = v.shape == ww.shape and np.allclose(v, ww, rtol=3e-7, atol=3e-6)
            ctx.expect(ok, "paths:vertices", f"segment {v.tolist()} shown, expected {ww.tolist()}", **detail)
            ctx.expect(c == wl[1] if wl[0] == "is" else near_colour(c, wl[1]), "paths:colour", f"segment coloured {c:#x}, expected that of {wl}", **detail)
        if not ctx.expect(len(balls) == len(want_balls), "markers:count", f"{len(balls)} markers shown, expected {len(want_balls)} ({len(self.histories)} histories of {self.limit})", **detail):
            return False
        for (pos, rad, c), (wp, wr, wl) in zip(balls, want_balls):
            ctx.expect(np.allclose(pos, wp, atol=1e-6) and abs(rad - wr) < 1e-12, "markers:place", f"marker at {pos} of radius {rad}, expected {wp} and {wr}", **detail)
            ctx.expect(near_colour(c, wl), "markers:colour", f"marker coloured {c:#x}, expected that of {wl} nm", **detail)
        return True

    def history(self, history, **kw):
        p, E, ctx = PVT["p"], PVT["E"], self.ctx
        segment, baubles, length, radius = kw.get("world_segment", "short"), kw.get("baubles", True), kw.get("short_length", 1.0), kw.get("bauble_radius", 0.01)
        detail = dict(options=kw, limit=self.limit, history=[(tuple(np.round(r.position, 4)), r.wavelength, e.name) for r, e in history][:10])
        h = list(history)
        if segment == "exclude":
            for i, (_, e) in enumerate(h):
                if e is E.EXIT:
                    h = h[:i]
                    break
        if len(history) < 2:
            try:
                self.r.add_history(history, **kw)
                ctx.violation("paths:short", "a history of one event is accepted", **detail)
            except Exception as ex:
                if type(ex).__name__ != "AppError":
                    raise
                ctx.count("refused")
            self.check(detail)
            return
        if segment == "exclude" and len(h) < 2:
            try:
                self.r.add_history(history, **kw)
            except Exception as ex:
                if type(ex).__name__ != "AppError":
                    raise
            ctx.count("nothing_left")
            self.check(detail)
            return
        lines, balls = [], []
        for i, ((a, ea), (b, eb)) in enumerate(zip(h[:-1], h[1:])):
            s, e = np.array(a.position, float), np.array(b.position, float)
            if segment == "short" and i == len(h) - 2 and eb is E.EXIT:
                e = s + np.array(a.direction) * length
            lines.append((np.array([s, e]), ("of", a.wavelength)))
            if baubles and ea is E.TRANSMIT:
                balls.append((s, radius, a.wavelength))
        self.r.add_history(history, **kw)
        item = ("history", (lines, balls))
        self.order.append(item)
        self.histories.append(item)
        while self.limit is not None and len(self.histories) > self.limit:
            old = self.histories.popleft()
            self.order = [x for x in self.order if x is not old]
            ctx.count("expired")
        ctx.count("histories")
        self.check(detail)

    def extra(self, rays):
        """Rays added by other means are not counted and stay."""
        p, rng, ctx = PVT["p"], self.ctx.rng, self.ctx
        k = int(rng.integers(0, 5))
        if k == 0 and len(rays) > 1:
            ids = self.r.add_ray_path(rays)
            lines = [(np.array([a.position, b.position], float), ("of", a.wavelength)) for a, b in zip(rays[:-1], rays[1:])]
        elif k == 1:
            L = float(rng.uniform(0.1, 5))
            ids = [self.r.add_ray(rays[0], L)]
            s = np.array(rays[0].position, float)
            lines = [(np.array([s, s + L * np.array(rays[0].direction)]), ("of", rays[0].wavelength))]
        elif k == 2:
            a, b = rng.uniform(-3, 3, 3), rng.uniform(-3, 3, 3)
            if rng.random() < 0.3:
                a, b = [[int(v) for v in np.round(x)] for x in (a, b)]
            c = int(rng.integers(0, 0x1000000))
            ids = [self.r.add_line_segment(tuple(a), tuple(b), colour=c)]
            lines = [(np.array([a, b]), ("is", c))]
        elif k == 3:
            v = rng.uniform(-3, 3, (3, int(rng.integers(2, 6))))
            c = int(rng.integers(0, 0x1000000))
            ids = [self.r.add_path(v, colour=c)]
            lines = [(v.T, ("is", c))]
        else:
            try:
                self.r.add_ray_path(rays[:1])
                ctx.violation("paths:short", "a path of one ray is accepted")
            except Exception as ex:
                if type(ex).__name__ != "AppError":
                    raise
            try:
                self.r.add_history([(r, PVT["E"].REFLECT) for r in rays[:1]] * 2, world_segment="long")
                ctx.violation("paths:option", "an unknown world_segment is accepted")
            except ValueError:
                ctx.count("refused")
            return
        item = ("loose", lines)
        self.order.append(item)
        if rng.random() < 0.4:
            self.loose[tuple(ids)] = item
        self.check(dict(extra=k))

    def drop(self):
        if self.loose:
            ids, item = self.loose.popitem()
            for i in ids:
                self.r.remove_object(i)
            self.order = [x for x in self.order if x is not item]
            self.ctx.count("dropped")
            self.check(dict(drop=True))


def synthetic(rng):
    """Histories no tracer would make, but which are histories."""
    p, E = PVT["p"], PVT["E"]
    n = int(rng.integers(1, 9))
    pool = [p.Ray(tuple(rng.uniform(-3, 3, 3).tolist()), tuple((lambda v: v / np.linalg.norm(v))(rng.normal(size=3)).tolist()), float(rng.uniform(350, 820))) for _ in range(int(rng.integers(1, 6)))]
    h = [(pool[int(rng.integers(0, len(pool)))], [E.REFLECT, E.TRANSMIT, E.ABSORB, E.EMIT, E.SCATTER][int(rng.integers(0, 5))]) for _ in range(n)]
    h[0] = (h[0][0], E.GENERATE)
    if n > 1 and rng.random() < 0.8:
        h[-1] = (h[-1][0], [E.EXIT, E.EXIT, E.NONRADIATIVE, E.KILL, E.REACT][int(rng.integers(0, 5))])
    return h


def paths_case(ctx, source):
    rng, p = ctx.rng, PVT["p"]
    show = Show(ctx, [1, 1, 2, 3, 5, 10, "default", None][int(rng.integers(0, 8))])
    real = []
    if source == "tracer":
        np.random.seed(int(rng.integers(0, 2**31)))
        scene = tracer_scene(rng)
        for ray in scene.emit(common.scale(25, 60)):
            real.append(list(PVT["t"].follow(scene, ray)))
        ctx.count("traced", len(real))
    n = common.scale(25, 60)
    fixed = None
    for k in range(n):
        h = real[k % len(real)] if real else synthetic(rng)
        if fixed is None or rng.random() < 0.4:
            fixed = {}
            if rng.random() < 0.7:
                fixed["world_segment"] = str(rng.choice(["short", "exclude"]))
            if rng.random() < 0.5:
                fixed["baubles"] = bool(rng.random() < 0.6)
            if rng.random() < 0.5:
                fixed["short_length"] = float(np.round(rng.uniform(0.05, 3), 3))
            if rng.random() < 0.5:
                fixed["bauble_radius"] = float(np.round(rng.uniform(0.01, 0.3), 3))
        h = tuple(h) if rng.random() < 0.5 else h
        show.history(h, **fixed)
        if rng.random() < 0.25:
            show.extra([r for r, _ in h])
        if rng.random() < 0.1:
            show.drop()
        ctx.seen("distinct", (len(h), tuple(e.name for _, e in h), tuple(sorted(fixed.items()))))
    show.r.remove(None)
    ctx.expect(not show.w.objects, "remove", f"{len(show.w.objects)} objects left after remove")
    ctx.sample(dict(limit=show.limit, shown=len(show.histories)))


def tracer_scene(rng):
    """A box with a dye beside a sphere, lit by a lamp."""
    p = PVT["p"]
    x = np.arange(300.0, 1001.0)
    dye = p.Luminophore(np.column_stack((x, 2 * np.exp(-((x - 500) / 40) ** 2))), emission=np.column_stack((x, np.exp(-((x - 620) / 20) ** 2))), quantum_yield=0.8)
    w = p.Node(name="world", geometry=p.Sphere(radius=20.0, material=p.Material(refractive_index=1.0)))
    p.Node(name="box", parent=w, geometry=p.Box((2.0, 3.0, 1.0), material=p.Material(refractive_index=1.5, components=[dye])))
    ball = p.Node(name="ball", parent=w, geometry=p.Sphere(radius=0.8, material=p.Material(refractive_index=1.4, components=[p.Scatterer(0.5)])))
    ball.location = (0, 0, 3)
    lamp = p.Node(name="lamp", parent=w, light=p.Light(wavelength=lambda: float(np.random.uniform(420, 560)), direction=lambda: p.cone(0.6)))
    lamp.location = (0.1, 0.2, 6.0)
    lamp.rotate(math.pi, (1, 0, 0))
    return p.Scene(w)


# -- those who use the viewer ---------------------------------------------------------

def lsc_case(ctx, k):
    from pvtrace.device.lsc import LSC
    rng = ctx.rng
    size = tuple(float(np.round(v, 2)) for v in (rng.uniform(1, 5), rng.uniform(1, 5), rng.uniform(0.2, 1)))
    lsc = LSC(size)
    lsc.add_solar_cell({"left", "right"})
    kw = {} if rng.random() < 0.5 else dict(world_segment=str(rng.choice(["short", "exclude"])), baubles=bool(rng.random() < 0.5))
    n0 = len(viewer.WINDOWS)
    sleep, time.sleep = time.sleep, lambda s: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            lsc.show(**kw)
    finally:
        time.sleep = sleep
    if len(viewer.WINDOWS) != n0 + 1:
        raise RuntimeError("the viewer did not open a window")
    w = viewer.WINDOWS[-1]
    balls = lambda: [p for p in w.objects if w.geometry(p)["type"] == "SphereGeometry"]
    base = len(w.objects)
    base_balls = len(balls())
    meshes = [drawn(w, p) for p in w.objects]
    h = np.array(size) / 2
    plate = [m for m in meshes if m[0] == "mesh" and np.allclose(m[2].max(axis=0), h, atol=1e-5) and np.allclose(m[2].min(axis=0), -h, atol=1e-5)]
    ctx.expect(len(plate) == 1, "lsc:plate", f"{len(plate)} objects of the size of the plate shown", size=size)
    n = int(rng.integers(60, 90))
    with contextlib.redirect_stdout(io.StringIO()):
        lsc.simulate(n)
    ctx.count("lsc_rays", n)
    lines = [w.vertices(p) for p in w.objects if w.objects[p]["object"]["type"].startswith("Line")]
    # segments in order of drawing: a new path starts where the last one does not end
    paths = 0
    last = None
    for v in lines:
        if last is None or not np.allclose(v[0], last, atol=1e-5):
            paths += 1
        last = v[1]
    ctx.expect(0 < paths <= 50, "lsc:paths", f"{paths} paths shown after {n} rays", size=size, options=kw)
    balls_now = len(balls()) - base_balls
    ctx.expect(balls_now <= len(lines), "lsc:markers", f"{balls_now} markers for {len(lines)} segments", size=size, options=kw)
    ctx.expect(len(w.objects) == base + len(lines) + balls_now, "lsc:objects", "the objects of the scene changed", size=size)
    ctx.seen("distinct", (size, n))


def cli_case(ctx, k):
    from typer.testing import CliRunner
    from pvtrace.cli.main import app
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="c25-")
    try:
        doc = """version: "1.0"
nodes:
  world:
    sphere:
      radius: 10
      material:
        refractive-index: 1.0
  my-box:
    location: [0, 0, 0.3]
    box:
      size: [4, 3, 1]
      material:
        refractive-index: 1.5
  my-light:
    location: [0, 0, 3]
    light:
      name: lamp
      mask:
        direction:
          cone:
            half-angle: 15
    direction: [0, 0, -1]
"""
        path = os.path.join(folder, "scene.yml")
        with open(path, "w") as fp:
            fp.write(doc)
        every, keep = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        rays, workers = int(rng.integers(12, 30)), int(rng.integers(1, 4))
        args = ["simulate", path, "--rays", str(rays), "--workers", str(workers), "--zmq", "tcp://127.0.0.1:6000", "--render-every", str(every), "--render-max", str(keep)]

        def command():
            n0 = len(viewer.WINDOWS)
            result = CliRunner().invoke(app, args)
            if result.exit_code != 0:
                return result.output + repr(result.exception)
            if len(viewer.WINDOWS) != n0 + 1:
                raise RuntimeError("the viewer did not open a window")
            w = viewer.WINDOWS[-1]
            return [(w.vertices(p), w.material(p)["color"]) for p in w.objects if w.objects[p]["object"]["type"].startswith("Line")]
        detail = dict(every=every, keep=keep, rays=rays, workers=workers)
        try:
            lines = isolate.run(command)
        except isolate.Hang as exc:
            ctx.violation("cli:hang", "the command does not end", stderr=str(exc), **detail)
            return
        if not ctx.expect(not isinstance(lines, str), "cli:exit", f"the command failed: {str(lines)[-300:]}", **detail):
            return
        db = sqlite3.connect(os.path.join(folder, "scene.sqlite3"))
        photons = collections.defaultdict(list)
        for t, x, y, z, i, j, l, wl in db.execute("select ray.throw_id, ray.x, ray.y, ray.z, ray.i, ray.j, ray.k, ray.wavelength from ray order by ray.rowid"):
            photons[t].append((np.array([x, y, z]), np.array([i, j, l]), wl))
        db.close()
        ctx.count("cli_photons", len(photons))
        pairs = []
        for t, seq in photons.items():
            for i, ((p, d, wl), (q, _, _)) in enumerate(zip(seq[:-1], seq[1:])):
                pairs.append((t, p, q if i < len(seq) - 2 else p + d, wl))
        owners = set()
        for v, c in lines:
            hit = {t for t, a, b, wl in pairs if np.allclose(v, [a, b], atol=1e-5) and near_colour(c, wl)}
            ctx.count("cli_segments")
            if ctx.expect(bool(hit), "cli:segment", f"segment {v.tolist()} is not part of any photon's path", **detail):
                owners.add(min(hit))
        ctx.expect(len(owners) <= keep, "cli:limit", f"{len(owners)} paths shown, at most {keep} asked for", **detail)
        ctx.expect(bool(lines), "cli:none", f"no path shown", **detail)
        ctx.seen("distinct", (every, keep, rays, workers, k))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def main():
    chk = common.Check("C25", "one state of the viewer's window", assumptions=[
        "What the browser draws from meshcat's commands is not judged; what reaches the window is.",
        "Histories are pairs of rays and events, as the tracer returns them.",
        "Objects removed from a scene between two renderings are not judged."])
    load()
    chk.run_cases(colours, "colours", common.scale(1, 4), args=(0,))
    for names in ("plain", "twins", "odd"):
        chk.run_cases(scene_case, "scene-" + names, common.scale(60, 600), args=(names,))
    chk.run_cases(paths_case, "paths-synthetic", common.scale(60, 600), args=("synthetic",))
    chk.run_cases(paths_case, "paths-tracer", common.scale(30, 300), args=("tracer",))
    chk.run_cases(lsc_case, "lsc", common.scale(4, 30), args=(0,))
    chk.run_cases(cli_case, "cli", common.scale(4, 24), args=(0,))
    for k, v in dict(colours=1500, objects=800, redrawn=60, histories=1200, expired=400, segments=5000, markers=800, states=1500, refused=30, nothing_left=20, traced=500, lsc_rays=200,
                     cli_photons=40, cli_segments=8, dropped=10).items():
        chk.require(k, v)
    chk.finish()


main()
