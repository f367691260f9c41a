"""Random scene generator, builder (public pvtrace API) and geometry oracle.

A scene is a plain-data description (`SceneSpec`) independent of pvtrace
classes. `build()` turns it into a pvtrace Scene with the public API; the
oracle methods answer geometry questions from the description only.
"""
import math

import numpy as np

C_CM = 2.99792458e10


# ---------------------------------------------------------------- rigid maps
def rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def axis_rotation(axis, angle):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * (K @ K)


def rigid(R, t):
    m = np.eye(4)
    m[:3, :3] = R
    m[:3, 3] = t
    return m


def rigid_inv(m):
    r = np.eye(4)
    r[:3, :3] = m[:3, :3].T
    r[:3, 3] = -m[:3, :3].T @ m[:3, 3]
    return r


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


# ---------------------------------------------------------------- shapes
class Shape:
    """Closed shape centred at its local origin."""

    def sdf(self, p):            # signed distance, negative inside
        raise NotImplementedError

    def hits(self, o, d):        # all real parameters t (both signs), ascending
        raise NotImplementedError

    def normal(self, p):
        raise NotImplementedError


class BoxS(Shape):
    kind = "box"

    def __init__(self, size):
        self.size = np.asarray(size, float)
        self.h = self.size / 2
        self.R = float(np.linalg.norm(self.h))
        self.extent = float(self.size.max())

    def spec(self):
        return ["box", self.size.tolist()]

    def sdf(self, p):
        q = np.abs(p) - self.h
        return float(np.linalg.norm(np.maximum(q, 0)) + min(q.max(), 0))

    def hits(self, o, d):
        lo, hi = -math.inf, math.inf
        for k in range(3):
            if d[k] == 0:
                if abs(o[k]) > self.h[k]:
                    return []
                continue
            a = (-self.h[k] - o[k]) / d[k]
            b = (self.h[k] - o[k]) / d[k]
            lo = max(lo, min(a, b))
            hi = min(hi, max(a, b))
        return [lo, hi] if hi > lo else []

    def normal(self, p):
        """(outward normal, ambiguous?)"""
        g = np.abs(np.abs(p) - self.h)
        k = int(np.argmin(g))
        g2 = np.sort(g)
        n = np.zeros(3)
        n[k] = 1.0 if p[k] > 0 else -1.0
        return n, bool(g2[1] < 1e-9 * max(1.0, self.extent))

    def holds(self, c, R):
        return bool(np.all(np.abs(c) + R <= self.h))

    def sample_inside(self, rng, margin):
        return (rng.random(3) * 2 - 1) * np.maximum(self.h - margin, 0)

    def build(self, material):
        from pvtrace import Box
        return Box(tuple(self.size.tolist()), material=material)


class SphereS(Shape):
    kind = "sphere"

    def __init__(self, r):
        self.r = float(r)
        self.R = self.r
        self.extent = 2 * self.r

    def spec(self):
        return ["sphere", self.r]

    def sdf(self, p):
        return float(np.linalg.norm(p) - self.r)

    def hits(self, o, d):
        b = float(np.dot(o, d))
        # robust: distance of closest approach
        perp = o - b * d
        disc = self.r * self.r - float(np.dot(perp, perp))
        if disc <= 0:
            return []
        s = math.sqrt(disc)
        return [-b - s, -b + s]

    def normal(self, p):
        return p / np.linalg.norm(p), False

    def holds(self, c, R):
        return bool(np.linalg.norm(c) + R <= self.r)

    def sample_inside(self, rng, margin):
        return unit(rng.normal(size=3)) * (self.r - margin) * rng.random() ** (1 / 3)

    def build(self, material):
        from pvtrace import Sphere
        return Sphere(self.r, material=material)


class CylS(Shape):
    kind = "cylinder"

    def __init__(self, length, r):
        self.L = float(length)
        self.r = float(r)
        self.R = math.hypot(self.L / 2, self.r)
        self.extent = max(self.L, 2 * self.r)

    def spec(self):
        return ["cylinder", self.L, self.r]

    def sdf(self, p):
        a = math.hypot(p[0], p[1]) - self.r
        b = abs(p[2]) - self.L / 2
        return math.hypot(max(a, 0), max(b, 0)) + min(max(a, b), 0)

    def hits(self, o, d):
        lo, hi = -math.inf, math.inf
        if d[2] == 0:
            if abs(o[2]) > self.L / 2:
                return []
        else:
            a = (-self.L / 2 - o[2]) / d[2]
            b = (self.L / 2 - o[2]) / d[2]
            lo, hi = min(a, b), max(a, b)
        A = d[0] ** 2 + d[1] ** 2
        if A < 1e-30:
            if math.hypot(o[0], o[1]) > self.r:
                return []
        else:
            B = (o[0] * d[0] + o[1] * d[1]) / A
            px, py = o[0] - B * d[0], o[1] - B * d[1]
            disc = self.r ** 2 - px * px - py * py
            if disc <= 0:
                return []
            s = math.sqrt(disc / A)
            lo, hi = max(lo, -B - s), min(hi, -B + s)
        return [lo, hi] if hi > lo else []

    def normal(self, p):
        rho = math.hypot(p[0], p[1])
        gs = abs(rho - self.r)
        gc = abs(abs(p[2]) - self.L / 2)
        amb = max(gs, gc) < 1e-9 * max(1.0, self.extent)
        if gc < gs:
            return np.array([0, 0, 1.0 if p[2] > 0 else -1.0]), amb
        return np.array([p[0] / rho, p[1] / rho, 0.0]), amb

    def holds(self, c, R):
        return bool(math.hypot(c[0], c[1]) + R <= self.r and abs(c[2]) + R <= self.L / 2)

    def sample_inside(self, rng, margin):
        a = rng.random() * 2 * math.pi
        q = (self.r - margin) * math.sqrt(rng.random())
        return np.array([q * math.cos(a), q * math.sin(a), (rng.random() * 2 - 1) * (self.L / 2 - margin)])

    def build(self, material):
        from pvtrace import Cylinder
        return Cylinder(self.L, self.r, material=material)


class MeshS(Shape):
    """Closed triangle mesh, already centred on its centre of mass."""
    kind = "mesh"

    def __init__(self, vertices, faces, convex, label):
        self.v = np.asarray(vertices, float)
        self.f = np.asarray(faces, int)
        self.convex = convex
        self.label = label
        self.R = float(np.linalg.norm(self.v, axis=1).max())
        self.extent = float((self.v.max(0) - self.v.min(0)).max())
        self.tri = self.v[self.f]
        n = np.cross(self.tri[:, 1] - self.tri[:, 0], self.tri[:, 2] - self.tri[:, 0])
        self.n = n / np.linalg.norm(n, axis=1)[:, None]
        self.inr = float(np.min(np.einsum("ij,ij->i", self.n, self.tri[:, 0]))) if convex else 0.0

    def spec(self):
        return ["mesh", self.label, len(self.f)]

    def _mt(self, o, d):
        a, b, c = self.tri[:, 0], self.tri[:, 1], self.tri[:, 2]
        e1, e2 = b - a, c - a
        h = np.cross(d, e2)
        det = np.einsum("ij,ij->i", e1, h)
        with np.errstate(all="ignore"):
            inv = 1.0 / det
            s = o - a
            u = np.einsum("ij,ij->i", s, h) * inv
            q = np.cross(s, e1)
            v = (q @ d) * inv
            t = np.einsum("ij,ij->i", e2, q) * inv
        w = 1 - u - v
        m = np.minimum(np.minimum(u, v), w)
        ok = (np.abs(det) > 1e-14) & (m >= 0)
        edge = (np.abs(det) > 1e-14) & (np.abs(m) < 1e-5)
        par = (np.abs(det) <= 1e-9 * self.extent ** 2)
        return t, ok, edge, par

    def hits(self, o, d):
        t, ok, edge, par = self._mt(np.asarray(o, float), np.asarray(d, float))
        return sorted(t[ok].tolist())

    def near_edge(self, o, d):
        t, ok, edge, par = self._mt(np.asarray(o, float), np.asarray(d, float))
        return bool(edge.any())

    def dist(self, p):
        # unsigned distance to the surface (point-triangle, vectorised)
        a, b, c = self.tri[:, 0], self.tri[:, 1], self.tri[:, 2]
        best = np.inf
        pa = p - a
        # plane projection inside triangle
        dn = np.einsum("ij,ij->i", pa, self.n)
        q = p - dn[:, None] * self.n
        v0, v1, v2 = b - a, c - a, q - a
        d00 = np.einsum("ij,ij->i", v0, v0)
        d01 = np.einsum("ij,ij->i", v0, v1)
        d11 = np.einsum("ij,ij->i", v1, v1)
        d20 = np.einsum("ij,ij->i", v2, v0)
        d21 = np.einsum("ij,ij->i", v2, v1)
        den = d00 * d11 - d01 * d01
        v = (d11 * d20 - d01 * d21) / den
        w = (d00 * d21 - d01 * d20) / den
        inside = (v >= 0) & (w >= 0) & (v + w <= 1)
        if inside.any():
            best = float(np.abs(dn[inside]).min())
        for x, y in ((a, b), (b, c), (c, a)):
            e = y - x
            tt = np.clip(np.einsum("ij,ij->i", p - x, e) / np.einsum("ij,ij->i", e, e), 0, 1)
            best = min(best, float(np.linalg.norm(p - (x + tt[:, None] * e), axis=1).min()))
        return best

    def inside(self, p):
        if self.convex:
            return bool(np.max(np.einsum("ij,ij->i", p - self.tri[:, 0], self.n)) < 0)
        votes = 0
        for d in (unit([0.31, 0.77, 0.55]), unit([-0.62, 0.21, 0.75]), unit([0.11, -0.93, 0.35])):
            votes += sum(1 for t in self.hits(p, d) if t > 0) % 2
        return votes >= 2

    def sdf(self, p):
        p = np.asarray(p, float)
        s = self.dist(p)
        return -s if self.inside(p) else s

    def normal(self, p):
        # plane distance of triangles containing the projection
        best, bi, second = np.inf, 0, np.inf
        dn = np.abs(np.einsum("ij,ij->i", p - self.tri[:, 0], self.n))
        order = np.argsort(dn)
        cands = []
        for i in order[:40]:
            a, b, c = self.tri[i]
            q = p - np.dot(p - a, self.n[i]) * self.n[i]
            v0, v1, v2 = b - a, c - a, q - a
            d00, d01, d11 = v0 @ v0, v0 @ v1, v1 @ v1
            d20, d21 = v2 @ v0, v2 @ v1
            den = d00 * d11 - d01 * d01
            v = (d11 * d20 - d01 * d21) / den
            w = (d00 * d21 - d01 * d20) / den
            m = min(v, w, 1 - v - w)
            if m > -1e-6 and dn[i] < 1e-6 * self.extent:
                cands.append((i, m))
        if not cands:
            return self.n[int(order[0])], True
        i, m = max(cands, key=lambda x: x[1])
        return self.n[i], bool(m < 1e-6)

    def holds(self, c, R):
        return bool(self.convex and np.linalg.norm(c) + R <= self.inr)

    def sample_inside(self, rng, margin):
        if self.convex:
            return unit(rng.normal(size=3)) * max(self.inr - margin, 0) * rng.random() ** (1 / 3)
        for _ in range(200):
            p = self.v.min(0) + rng.random(3) * (self.v.max(0) - self.v.min(0))
            if self.sdf(p) < -margin:
                return p
        return None

    def build(self, material):
        import trimesh
        from pvtrace import Mesh
        return Mesh(trimesh.Trimesh(vertices=self.v.copy(), faces=self.f.copy(), process=False),
                    material=material)


def mesh_shape(rng, size):
    import trimesh
    k = int(rng.integers(0, 4))
    if k == 0:
        m, convex, label = trimesh.creation.icosphere(subdivisions=1, radius=size), True, "icosphere1"
    elif k == 1:
        m, convex, label = trimesh.creation.icosphere(subdivisions=2, radius=size), True, "icosphere2"
    elif k == 2:
        m, convex, label = trimesh.creation.annulus(r_min=size * 0.4, r_max=size * 0.8, height=size * 0.7, sections=12), False, "annulus"
    else:
        pts = rng.normal(size=(14, 3))
        pts = pts / np.linalg.norm(pts, axis=1)[:, None] * size * (0.7 + 0.3 * rng.random((14, 1)))
        m, convex, label = trimesh.convex.convex_hull(pts), True, "hull"
    v = np.array(m.vertices) - np.array(m.center_mass)
    return MeshS(v, np.array(m.faces), convex, label)


# ---------------------------------------------------------------- materials
class Comp:
    """Volume component description."""

    def __init__(self, name, kind, coef, qy=1.0, tau_rad=None, tau_nr=None,
                 phase=("iso",), emission=None):
        self.name, self.kind, self.coef = name, kind, coef
        self.qy, self.tau_rad, self.tau_nr = qy, tau_rad, tau_nr
        self.phase, self.emission = phase, emission
        self.form = "table"

    def reform(self, form):
        """Write the same kind of component differently (only the Python tracer takes all forms).

        "hist": spectra are histograms; "functions": spectra are lists of functions of a common grid."""
        self.form = form
        if form == "functions":
            x = self.coef[1] if self.coef[0] == "spec" else self.emission[0] if self.emission else None
            if x is None:
                self.form = "table"
                return self
            y = self.coef[2] if self.coef[0] == "spec" else np.full(len(x), self.coef[1])
            self.coef = ("spec", x, y)
            if self.emission:
                self.emission = (x, np.interp(x, *self.emission))
        return self

    def spec(self):
        return [self.form, self.name, self.kind, self.coef[0], self.qy, self.tau_rad, self.tau_nr, self.phase]

    @property
    def survival(self):
        if self.kind in ("absorber", "reactor"):
            return 0.0
        if self.tau_rad is not None and self.tau_nr is not None:
            return self.tau_nr / (self.tau_nr + self.tau_rad)
        return self.qy

    def alpha(self, nm):
        if self.coef[0] == "const":
            return self.coef[1]
        if self.form == "hist":
            return float(self.coef[2][np.searchsorted(self.coef[1], nm)])
        return float(np.interp(nm, self.coef[1], self.coef[2]))

    def emission_cdf(self):
        """Piecewise-linear sampling CDF of the tabulated emission spectrum."""
        x, y = self.emission
        w = 0.5 * (y[1:] + y[:-1]) * np.diff(x)
        c = np.concatenate([[0.0], np.cumsum(w)])
        return x, c / c[-1]

    def lookup(self, nm):
        """Part of the emission spectrum up to `nm`."""
        if self.form == "hist":
            x, y = self.emission
            c = np.cumsum(y)
            return float(c[np.searchsorted(x, nm)] / c[-1])
        return float(np.interp(nm, *self.emission_cdf()))

    def quantile(self, nm, p1, rng):
        """Uniform in (0, 1) when `nm` was sampled from the spectrum above the quantile `p1`."""
        p = self.lookup(nm)
        if self.form == "hist":     # every value stands for a range of quantiles
            x, y = self.emission
            j = int(np.searchsorted(x, nm))
            if x[j] != nm:
                return None
            lo = max(p1, float(np.cumsum(y)[j - 1] / y.sum())) if j else 0.0
            if not lo < p:
                return None
            p = lo + (p - lo) * rng.random()
        return min(max((p - p1) / (1 - p1), 0.0), 1.0)

    def build(self):
        from pvtrace import Absorber, Luminophore, Reactor, Scatterer
        coef = self.coef[1] if self.coef[0] == "const" else np.column_stack(self.coef[1:3])
        pf = phase_build(self.phase)
        if self.form != "table":
            return self._build_form(pf)
        if self.kind == "absorber":
            return Absorber(coef, tau_nr=self.tau_nr, name=self.name)
        if self.kind == "reactor":
            return Reactor(coef, name=self.name)
        if self.kind == "scatterer":
            return Scatterer(coef, quantum_yield=self.qy, tau_rad=self.tau_rad, tau_nr=self.tau_nr,
                             phase_function=pf, name=self.name)
        return Luminophore(coef, emission=np.column_stack(self.emission), quantum_yield=self.qy,
                           tau_rad=self.tau_rad, tau_nr=self.tau_nr, phase_function=pf, name=self.name)


    def _build_form(self, pf):
        from pvtrace import Absorber, Luminophore, Reactor, Scatterer
        kw = {"name": self.name}
        if self.form == "hist":
            kw["hist"] = True
            coef = self.coef[1] if self.coef[0] == "const" else np.column_stack(self.coef[1:3])
            ems = None if self.emission is None else np.column_stack(self.emission)
        else:
            x = kw["x"] = [list, tuple, np.array][len(self.name) % 3](self.coef[1].tolist())
            y = self.coef[2]
            # a sum of two functions
            coef = [lambda t: np.interp(t, self.coef[1], 0.25 * y), lambda t: np.interp(t, self.coef[1], 0.75 * y)]
            ems = self.emission and [lambda t: np.interp(t, *self.emission)]
        if self.kind == "absorber":
            return Absorber(coef, tau_nr=self.tau_nr, **kw)
        if self.kind == "reactor":
            return Reactor(coef, **kw)
        kw.update(quantum_yield=self.qy, tau_rad=self.tau_rad, tau_nr=self.tau_nr, phase_function=pf)
        return Scatterer(coef, **kw) if self.kind == "scatterer" else Luminophore(coef, emission=ems, **kw)


def phase_build(phase):
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
    if phase[0] == "iso":
        return isotropic
    if phase[0] == "hg":
        return HenyeyGreenstein(phase[1])
    if phase[0] == "cone":
        return Cone(phase[1])
    raise ValueError(phase)


class NodeS:
    def __init__(self, name, shape, world, n=1.0, surface="fresnel", comps=(), depth=0, encl=None):
        self.name, self.shape = name, shape
        self.world = world                      # local -> world
        self.inv = rigid_inv(world)
        self.n, self.surface, self.comps = n, surface, list(comps)
        self.depth, self.encl = depth, encl     # geometric enclosure
        self.graph_parent = encl                # scene-graph parent (NodeS or GroupS)
        self.recorders = []

    def spec(self):
        return [self.name, self.shape.spec(), round(self.n, 3), self.surface, [c.spec() for c in self.comps]]


class GroupS:
    """Scene-graph node without geometry."""

    def __init__(self, name, world, parent):
        self.name, self.world, self.graph_parent = name, world, parent
        self.inv = rigid_inv(world)
        self.recorders = []


class LightS:
    def __init__(self, name, node_name, world, parent, wavelength, direction, position):
        self.name, self.node_name, self.world = name, node_name, world
        self.graph_parent = parent
        self.wavelength, self.direction, self.position = wavelength, direction, position

    def build(self):
        from pvtrace import Light
        from pvtrace.light.light import (ConstantWavelengthMask, CubeMask)
        import functools
        pos = None
        if self.position is not None:
            pos = CubeMask(*self.position)
        w = self.wavelength
        wav = ConstantWavelengthMask(w) if isinstance(w, float) else w
        return Light(wavelength=wav, position=pos, direction=phase_build(self.direction) if self.direction else None,
                     name=self.name)


class UniformWavelength:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __call__(self):
        return float(np.random.uniform(self.lo, self.hi))


class SceneSpec:
    def __init__(self):
        self.nodes = []      # NodeS, root first
        self.groups = []
        self.lights = []
        self.by_name = {}

    @property
    def root(self):
        return self.nodes[0]

    def add(self, node):
        self.nodes.append(node)
        self.by_name[node.name] = node
        return node

    def spec(self):
        return {"nodes": [n.spec() for n in self.nodes],
                "lights": [[l.name, str(l.wavelength), l.direction] for l in self.lights]}

    def shape_signature(self):
        return tuple(sorted((n.shape.kind, n.depth, n.surface, tuple(sorted(c.kind for c in n.comps)))
                            for n in self.nodes))

    # ---- oracle geometry
    def innermost(self, p):
        """(node or None, clearance): innermost node strictly enclosing p, and
        the distance of p to the nearest surface of any node."""
        best, clear = None, math.inf
        for nd in self.nodes:
            q = nd.inv[:3, :3] @ p + nd.inv[:3, 3]
            if nd.shape.kind == "mesh":
                # cheap bound first
                r = float(np.linalg.norm(q))
                if r > nd.shape.R + 1e-3:
                    clear = min(clear, r - nd.shape.R)
                    continue
            s = nd.shape.sdf(q)
            clear = min(clear, abs(s))
            if s < 0 and (best is None or nd.depth > best.depth):
                best = nd
        return best, clear

    def all_hits(self, o, d, tmin):
        out = []
        for nd in self.nodes:
            R = nd.inv[:3, :3]
            lo, ld = R @ o + nd.inv[:3, 3], R @ d
            for t in nd.shape.hits(lo, ld):
                if t > tmin:
                    out.append((t, nd))
        out.sort(key=lambda x: x[0])
        return out

    def normal(self, nd, p):
        q = nd.inv[:3, :3] @ p + nd.inv[:3, 3]
        n, amb = nd.shape.normal(q)
        return nd.world[:3, :3] @ n, amb

    def surface_gap(self, nd, p):
        q = nd.inv[:3, :3] @ p + nd.inv[:3, 3]
        return abs(nd.shape.sdf(q))

    # ---- build with the public API
    def build(self, surface_for=None):
        from pvtrace import Material, Node, NullSurfaceDelegate, Scene, Surface
        made = {}

        def make(item):
            if item is None:
                return None
            if id(item) in made:
                return made[id(item)]
            parent = make(item.graph_parent)
            rel = item.world if item.graph_parent is None else rigid_inv(item.graph_parent.world) @ item.world
            geometry = None
            if isinstance(item, NodeS):
                surf = surface_for(item) if surface_for is not None else None
                if surf is None:
                    surf = Surface(delegate=NullSurfaceDelegate()) if item.surface == "null" else Surface()
                mat = Material(refractive_index=item.n, surface=surf, components=[c.build() for c in item.comps])
                geometry = item.shape.build(mat)
            light = item.build() if isinstance(item, LightS) else None
            name = item.node_name if isinstance(item, LightS) else item.name
            kw = {}
            if getattr(item, "recorders", None):
                kw["recorders"] = [r.build() for r in item.recorders]
            node = Node(name=name, parent=parent, geometry=geometry, light=light, **kw)
            if item.graph_parent is not None or not np.array_equal(rel, np.eye(4)):
                node.pose = rel
            made[id(item)] = node
            return node

        root = make(self.root)
        for nd in self.nodes:
            make(nd)
        for g in self.groups:
            make(g)
        for l in self.lights:
            make(l)
        self.pv = {nd.name: made[id(nd)] for nd in self.nodes}
        self.pv_lights = [made[id(l)] for l in self.lights]
        return Scene(root)


# ---------------------------------------------------------------- generator
def random_shape(rng, R, kinds=("box", "sphere", "cylinder")):
    """Shape whose bounding sphere has radius <= R."""
    k = kinds[int(rng.integers(0, len(kinds)))]
    if k == "sphere":
        return SphereS(R * (0.4 + 0.6 * rng.random()))
    if k == "box":
        s = np.exp(rng.uniform(-1.6, 0, 3))
        s = s / np.linalg.norm(s) * 2 * R * (0.6 + 0.4 * rng.random())
        return BoxS(np.maximum(s, 0.02))
    if k == "cylinder":
        a = rng.uniform(0.15, 1.4)
        return CylS(2 * R * math.cos(a) * 0.98, R * math.sin(a) * 0.98)
    return mesh_shape(rng, R * 0.95)


def snug_shape(rng, parent):
    """A shape fitting inside `parent` closely, aligned with it."""
    m = 0.03 + 0.3 * rng.random()
    if parent.kind == "box":
        g = np.minimum(m * parent.size.min(), 0.9 * parent.h.min())
        return BoxS(parent.size - g * (0.5 + rng.random(3)))
    if parent.kind == "sphere":
        return SphereS(parent.r * (1 - m))
    if parent.kind == "cylinder":
        g = m * min(parent.r, parent.L)
        return CylS(parent.L - g, parent.r - g / 2)
    return None


GRID = np.linspace(300.0, 1000.0, 141)


def random_grid(rng):
    if rng.random() < 0.6:
        return GRID.copy()
    inner = np.sort(rng.uniform(305, 995, int(rng.integers(20, 120))))
    x = np.unique(np.concatenate([[300.0], inner, [1000.0]]))
    keep = np.concatenate([[True], np.diff(x) > 0.05])
    x = x[keep]
    if x[-1] != 1000.0:
        x = np.append(x, 1000.0)
    return x


def bump(x, c, w):
    return np.exp(-((x - c) / w) ** 2)


def random_component(rng, name, kind=None, allow_tau=True, strength=1.0):
    kind = kind or ("absorber", "scatterer", "luminophore", "reactor")[int(rng.choice(4, p=[.25, .25, .4, .1]))]
    if rng.random() < 0.5:
        coef = ("const", float(np.exp(rng.uniform(-3, 0.7))) * strength)
    else:
        x = random_grid(rng)
        y = bump(x, rng.uniform(400, 700), rng.uniform(30, 150)) * np.exp(rng.uniform(-2, 1.2)) * strength
        if rng.random() < 0.5:
            y = y + 0.02
        coef = ("spec", x, y)
    qy = float(rng.choice([1.0, 0.0, rng.random(), 0.5 + 0.5 * rng.random()]))
    tau_rad = tau_nr = None
    if allow_tau and kind in ("scatterer", "luminophore") and rng.random() < 0.3:
        if rng.random() < 0.6:
            tau_rad, tau_nr = float(10 ** rng.uniform(-10, -7)), float(10 ** rng.uniform(-10, -7))
        else:
            tau_rad = float(10 ** rng.uniform(-10, -7))
    if allow_tau and kind == "absorber" and rng.random() < 0.3:
        tau_nr = float(10 ** rng.uniform(-10, -7))
    phase = ("iso",)
    if kind in ("scatterer", "luminophore"):
        u = rng.random()
        if u < 0.25:
            phase = ("hg", float(rng.uniform(-0.9, 0.9) if rng.random() < 0.75 else rng.choice([-1, 1]) * rng.uniform(0.9, 0.99)))
        elif u < 0.4:
            phase = ("cone", float(rng.uniform(0.1, math.pi / 2)))
    emission = None
    if kind == "luminophore":
        x = random_grid(rng)
        emission = (x, bump(x, rng.uniform(480, 750), rng.uniform(30, 120)) + 1e-3 * rng.random())
    return Comp(name, kind, coef, qy, tau_rad, tau_nr, phase, emission)


def random_scene(rng, kinds=("box", "sphere", "cylinder"), max_nodes=7, comps=True, nulls=True,
                 world_size=None, n_lights=None, allow_tau=True, light_kinds=True, strength=1.0):
    S = SceneSpec()
    W = world_size or float(rng.choice([2.0, 5.0, 8.0, 12.0]))
    root_shape = random_shape(rng, W)
    if rng.random() < 0.3:
        root_shape = SphereS(W)
    root = S.add(NodeS("world", root_shape, np.eye(4), n=float(rng.choice([1.0, 1.0, 1.2])), depth=0))
    if rng.random() < 0.15:
        # a root placed away from the origin is legal: world frame is the root's frame
        pass
    target = int(rng.integers(1, max_nodes))
    ncomp = 0
    cn = 0
    frontier = [root]
    for _ in range(target * 6):
        if len(S.nodes) - 1 >= target:
            break
        par = frontier[int(rng.integers(0, len(frontier)))]
        siblings = [n for n in S.nodes if n.encl is par]
        if par.shape.kind == "mesh" and not par.shape.convex:
            continue
        placed = None
        if not siblings and rng.random() < 0.45 and par.shape.kind != "mesh":
            sh = snug_shape(rng, par.shape)
            # exact aligned placement is safe because the shape is strictly smaller
            if sh is not None and min(getattr(sh, "size", np.array([1]))) > 0.02:
                world = par.world.copy()
                if par.shape.kind == "box" and rng.random() < 0.5:
                    gap = (par.shape.size - sh.size) / 2
                    off = (rng.random(3) * 2 - 1) * gap * 0.8
                    world = par.world @ rigid(np.eye(3), off)
                placed = (sh, world)
        if placed is None:
            room = par.shape.R
            for _try in range(30):
                R = room * float(np.exp(rng.uniform(-2.3, -0.4)))
                if R < 0.05:
                    continue
                c = par.shape.sample_inside(rng, 0.0)
                if c is None:
                    break
                if not par.shape.holds(c, R * 1.05 + 1e-3):
                    continue
                cw = par.world[:3, :3] @ c + par.world[:3, 3]
                ok = True
                for s in siblings:
                    q = s.inv[:3, :3] @ cw + s.inv[:3, 3]
                    if s.shape.kind == "mesh":
                        if np.linalg.norm(q) < s.shape.R + R * 1.05:
                            ok = False
                    elif s.shape.sdf(q) < R * 1.05 + 1e-3:
                        ok = False
                if not ok:
                    continue
                sh = random_shape(rng, R, kinds)
                Rm = rotation(rng) if rng.random() < 0.8 else np.eye(3)
                placed = (sh, rigid(par.world[:3, :3] @ Rm, cw))
                break
        if placed is None:
            continue
        i = len(S.nodes)
        nd = NodeS(f"node{i}", placed[0], placed[1],
                   n=float(rng.choice([1.0, 1.5, rng.uniform(1.0, 2.5), par.n])),
                   surface="null" if nulls and rng.random() < 0.2 else "fresnel",
                   depth=par.depth + 1, encl=par)
        S.add(nd)
        frontier.append(nd)
        # scene graph parent: usually the enclosing node, sometimes another one or a bare group
        u = rng.random()
        if u < 0.15:
            nd.graph_parent = S.nodes[int(rng.integers(0, i))]
        elif u < 0.3:
            g = GroupS(f"group{len(S.groups)}", rigid(rotation(rng), rng.normal(size=3)), par)
            S.groups.append(g)
            nd.graph_parent = g
    if comps:
        for nd in S.nodes:
            p = 0.25 if nd is S.root else 0.65
            if rng.random() < p:
                for _ in range(int(rng.choice([1, 1, 2, 3]))):
                    nd.comps.append(random_component(rng, f"comp{cn}", allow_tau=allow_tau, strength=strength))
                    cn += 1
    nl = n_lights or int(rng.choice([1, 1, 2, 3]))
    for k in range(nl):
        host = S.nodes[int(rng.integers(0, len(S.nodes)))]
        for _try in range(300):
            c = host.shape.sample_inside(rng, 0.01 * host.shape.R)
            if c is None:
                break
            pw = host.world[:3, :3] @ c + host.world[:3, 3]
            m, clear = S.innermost(pw)
            if clear > 1e-3:
                box = None
                if rng.random() < 0.5:
                    box = tuple((np.array([1, 1, 1]) * clear * 0.5 * rng.random(3)).tolist())
                d = ("iso",) if not light_kinds or rng.random() < 0.6 else (
                    ("cone", float(rng.uniform(0.05, 1.5))) if rng.random() < 0.7 else None)
                w = float(rng.uniform(420, 700)) if rng.random() < 0.6 else UniformWavelength(420, 700)
                S.lights.append(LightS(f"light{k}", f"lightnode{k}",
                                       rigid(rotation(rng), pw), S.root if rng.random() < 0.5 else host, w, d, box))
                break
    if not S.lights:
        return random_scene(rng, kinds, max_nodes, comps, nulls, world_size, n_lights, allow_tau, light_kinds, strength)
    return S


def crowded_scene(rng, kinds=("box", "sphere", "cylinder"), most=100):
    """Many nodes on one line of sight: a row of small shapes, or shapes strictly nested in one another."""
    S = SceneSpec()
    W = float(rng.choice([4.0, 8.0, 12.0]))
    root = S.add(NodeS("world", SphereS(W) if rng.random() < 0.5 else BoxS(np.full(3, 2 * W)), np.eye(4), n=1.0))
    count = most if rng.random() < 0.25 else int(rng.integers(20, most + 1))
    frame = rigid(rotation(rng) if rng.random() < 0.6 else np.eye(3), rng.normal(size=3) * 0.02 * W)
    made = []
    loss = 0.3 / W                  # about a third of the photons interact on their way across
    def medium():
        return 1.0 if rng.random() < 0.7 else float(rng.uniform(1.0, 1.4))
    row = rng.random() < 0.65
    if row:
        axis = int(rng.integers(3))
        span = 1.7 * W
        R = 0.46 * span / count
        for i in range(count):
            c = np.zeros(3)
            c[axis] = -0.85 * W + (i + 0.5) * span / count
            others = [k for k in range(3) if k != axis]
            c[others] = rng.normal(size=2) * 0.15 * R
            sh = random_shape(rng, R, kinds)
            A = rotation(rng) if rng.random() < 0.6 else np.eye(3)
            made.append((sh, frame @ rigid(A, c), root))
        end = np.zeros(3)
        end[axis] = -0.85 * W - 0.02 * W
        toward = np.eye(3)[axis]
    else:
        kind = str(rng.choice(kinds))
        size = W * 0.55
        sh = {"sphere": lambda: SphereS(size), "box": lambda: BoxS(rng.uniform(0.6, 1.1, 3) * size),
              "cylinder": lambda: CylS(size * rng.uniform(0.7, 1.4), size * rng.uniform(0.4, 0.9))}[kind]()
        world = frame
        for i in range(count):
            made.append((sh, world, None))
            f = float(rng.uniform(0.955, 0.985))
            old = sh
            sh = {"sphere": lambda: SphereS(old.r * f), "box": lambda: BoxS(old.size * f),
                  "cylinder": lambda: CylS(old.L * f, old.r * f)}[kind]()
            if rng.random() < 0.5:
                gap = {"sphere": lambda: np.full(3, old.r - sh.r) / 2, "box": lambda: (old.size - sh.size) / 2,
                       "cylinder": lambda: np.array([(old.r - sh.r) / 2, (old.r - sh.r) / 2, (old.L - sh.L) / 2])}[kind]()
                world = world @ rigid(np.eye(3), (rng.random(3) * 2 - 1) * gap * 0.6)
        end = np.array([0.0, 0.0, 0.93 * W])
        toward = -end / np.linalg.norm(end)
        frame = np.eye(4)
    encl = root
    specs = []
    for i, (sh, world, e) in enumerate(made):
        nd = NodeS(f"part{i}", sh, world, n=medium(), surface="null" if rng.random() < 0.4 else "fresnel",
                   depth=1 if row else i + 1, encl=root if row else encl)
        if rng.random() < 0.3:
            nd.comps.append(random_component(rng, f"comp{i}", strength=loss * (4.0 if row else 1.0)))
        encl = nd
        specs.append(nd)
    order = rng.permutation(len(specs))
    first_last = bool(rng.random() < 0.5)       # those close to the light at the end of the tree
    if first_last:
        order = np.arange(len(specs))[::-1]
    for i in order:
        nd = specs[int(i)]
        # any node may be the scene-graph parent, whatever encloses it
        known = S.nodes
        nd.graph_parent = root if first_last or rng.random() < 0.6 else known[int(rng.integers(0, len(known)))]
        S.add(nd)
    z = unit(frame[:3, :3] @ toward)
    x = unit(np.cross(z, rng.normal(size=3)))
    Rl = np.stack([x, np.cross(z, x), z], axis=1)
    pos = frame[:3, :3] @ end + frame[:3, 3]
    spread = ("cone", float(rng.choice([0.003, 0.02, 0.1])))
    w = float(rng.uniform(420, 700)) if rng.random() < 0.6 else UniformWavelength(420, 700)
    S.lights.append(LightS("light0", "lightnode0", rigid(Rl, pos), root, w, spread, None))
    if rng.random() < 0.5:
        # and one among the shapes
        for _try in range(200):
            c = (rng.random(3) * 2 - 1) * 0.5 * W
            m, clear = S.innermost(c)
            if m is not None and clear > 1e-3:
                S.lights.append(LightS("light1", "lightnode1", rigid(rotation(rng), c), root, w, ("iso",), None))
                break
    return S


def faint_scene(rng, lo, hi):
    """Light trapped in a block whose components have coefficients of 10**lo..10**hi."""
    S = SceneSpec()
    W = float(rng.uniform(10, 14))
    root = S.add(NodeS("world", SphereS(W), np.eye(4)))
    comps = []
    for i in range(int(rng.integers(1, 3))):
        a = float(10.0 ** rng.uniform(lo, hi))
        c = random_component(rng, f"faint{i}", kind=str(rng.choice(["absorber", "reactor", "scatterer"])), allow_tau=False)
        c.coef = ("const", a) if rng.random() < 0.5 else ("spec", np.array([300.0, 500.0, 1000.0]), np.full(3, a))
        comps.append(c)
    size = W * rng.uniform(0.4, 0.9, size=3)
    S.add(NodeS("block", BoxS(size), np.eye(4), n=float(rng.uniform(1.4, 2.4)), comps=comps, depth=1, encl=root))
    where = rigid(np.eye(3), (rng.random(3) - 0.5) * size * 0.5)
    S.lights.append(LightS("light0", "ln", where, root, 555.0, ("iso",), None))
    return S
