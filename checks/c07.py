"""C07: geometry queries are exact."""
import math

import numpy as np

import common
common.setup_path()
import scenes
from scenes import BoxS, CylS, SphereS, mesh_shape, unit

chk = common.Check(
    "C07", "a (shape, query kind, query class) combination whose answers were compared with the "
           "analytic oracle; one evaluation is one query judged",
    assumptions=[
        "Sizes and coordinates between 1e-2 and 20; queries closer than 1e-9 x size to an edge, a rim or "
        "a tangent (1e-10 x size x (1 + distance^2/radius^2) for tangents of spheres and cylinders; 2e-5 x size for pairs of hits of boxes and meshes, the resolution of the ray-casting "
        "library) are not judged because both answers are defensible there.",
        "Points count as surface points within 1e-13 (the library's own threshold is 2.2e-13).",
        "The oracle evaluates the shapes' own formulas in double precision, written independently."])


def random_shape(rng):
    k = int(rng.integers(0, 10))
    s = float(10 ** rng.uniform(-1.3, 1.0))
    if k < 3:
        size = s * rng.uniform(0.2, 1.0, size=3)
        if rng.random() < 0.3:
            size[int(rng.integers(3))] *= 0.05
        if rng.random() < 0.15:
            size = np.round(np.maximum(size, 1.0))
        return BoxS(size)
    if k < 5:
        return SphereS(s if rng.random() < 0.8 else max(1.0, round(s)))
    if k < 8:
        r = s * rng.uniform(0.05, 1.0)
        L = s * rng.uniform(0.05, 2.0)
        return CylS(L, r)
    return mesh_shape(rng, s)


def surface_point(rng, sh):
    """A point on the surface well away from edges, by construction (not via the SUT)."""
    if sh.kind == "box":
        p = (rng.random(3) * 2 - 1) * sh.h * 0.98
        k = int(rng.integers(3))
        p[k] = sh.h[k] * rng.choice([-1.0, 1.0])
        return p
    if sh.kind == "sphere":
        return unit(rng.normal(size=3)) * sh.r
    if sh.kind == "cylinder":
        a = rng.random() * 2 * math.pi
        if rng.random() < 0.5:
            q = sh.r * math.sqrt(rng.random()) * 0.98
            return np.array([q * math.cos(a), q * math.sin(a), sh.L / 2 * rng.choice([-1.0, 1.0])])
        return np.array([sh.r * math.cos(a), sh.r * math.sin(a), sh.L / 2 * rng.uniform(-0.98, 0.98)])
    i = int(rng.integers(len(sh.tri)))
    w = rng.dirichlet([2, 2, 2])
    return w @ sh.tri[i]


AXES = [np.array(a, float) for a in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))]


def direction(rng):
    k = int(rng.integers(0, 10))
    if k < 5:
        return unit(rng.normal(size=3)), "random"
    if k < 7:
        return AXES[int(rng.integers(6))].copy(), "axis"
    if k < 8:
        d = np.zeros(3)
        i, j = rng.choice(3, 2, replace=False)
        a = rng.random() * 2 * math.pi
        d[i], d[j] = math.cos(a), math.sin(a)
        return d, "plane"
    d = AXES[int(rng.integers(6))] + rng.normal(size=3) * 10.0 ** rng.uniform(-7, -2)
    return unit(d), "near_axis"


def origin(rng, sh):
    k = int(rng.integers(0, 8))
    e = sh.extent
    if k < 3:
        p = sh.sample_inside(rng, 1e-3 * e)
        if p is not None:
            return p, "inside"
    if k == 3:
        return np.zeros(3) + (rng.normal(size=3) * 1e-3 * e if sh.kind == "mesh" else 0.0), "centre"
    if k == 4:
        return (rng.random(3) * 2 - 1) * e * 1.2, "around"
    if k == 5:
        return unit(rng.normal(size=3)) * e * rng.uniform(2, 6), "far"
    if k == 6:
        p = surface_point(rng, sh)
        n, _ = sh.normal(p)
        lo = -4.5 if sh.kind in ("box", "mesh") else -6
        return p + n * e * 10.0 ** rng.uniform(lo, -2) * rng.choice([-1.0, 1.0]), "near_surface"
    return (rng.random(3) * 2 - 1) * e, "around"


def ambiguous_ray(sh, o, d, ts):
    """Tangential, edge/rim, or coincident-hit rays: more than one answer is defensible."""
    e = sh.extent
    tol = 1e-9 * max(1.0, e)
    if sh.kind in ("box", "mesh") and abs(sh.sdf(o)) < 1e-5 * e:
        return True
    pair = (2e-5 if sh.kind in ("box", "mesh") else 1e-6) * e
    if any(b - a < pair for a, b in zip(ts, ts[1:])):
        return True
    if any(abs(t) < 1e-8 * max(e, 1.0) for t in ts):
        return True
    if sh.kind == "mesh":
        if sh.near_edge(o, d):
            return True
        return False
    for t in ts:
        if sh.normal(o + t * d)[1]:
            return True
    # a miss that a tiny change of the shape would turn into a hit (or the reverse)
    g = type(sh)
    grow = {"box": lambda f: BoxS(sh.size * f), "sphere": lambda f: SphereS(sh.r * f),
            "cylinder": lambda f: CylS(sh.L * f, sh.r * f)}[sh.kind]
    if sh.kind == "box":
        f = 1e-6
    else:
        # rounding of the discriminant: a few 1e-16 (distance / radius)^2
        f = 1e-10 * (1.0 + (float(np.linalg.norm(o)) / sh.r) ** 2)
    n1 = len([t for t in grow(1 + f).hits(o, d) if t > 0])
    n0 = len([t for t in grow(1 - f).hits(o, d) if t > 0])
    if sh.kind == "box":
        # a ray running along a face plane
        for k in range(3):
            if abs(d[k]) < 1e-6 and abs(abs(o[k]) - sh.h[k]) < 1e-5 * e:
                return True
    return n1 != n0


def grazing(rng, sh):
    """A ray passing a sphere or a cylinder wall at a tiny distance outside or inside it."""
    s = surface_point(rng, sh)
    if sh.kind == "cylinder":
        a = math.atan2(s[1], s[0])
        s = np.array([sh.r * math.cos(a), sh.r * math.sin(a), sh.L / 2 * rng.uniform(-0.6, 0.6)])
    n, _ = sh.normal(s)
    d = np.cross(n, rng.normal(size=3))
    if sh.kind == "cylinder":       # stay clear of the caps while next to the wall
        d[2] *= 0.02
    d = unit(d - n * float(np.dot(d, n)))
    g = sh.r * 10.0 ** rng.uniform(-9.5, -2) * rng.choice([1.0, 1.0, -1.0])
    return s + g * n - d * sh.extent * rng.uniform(0.3, 3.0), d, "outside" if g > 0 else "inside"


def check_intersections(ctx, sh, geo, where="", n=60):
    rng = ctx.rng
    for _ in range(n):
        o, oc = origin(rng, sh)
        d, dc = direction(rng)
        if sh.kind in ("sphere", "cylinder") and rng.random() < 0.15:
            o, d, side = grazing(rng, sh)
            oc, dc = "grazing", side
        elif rng.random() < 0.3:      # aim at the shape
            q = sh.sample_inside(rng, 0.0)
            if q is not None and np.linalg.norm(q - o) > 1e-6:
                d, dc = unit(q - o), "aimed"
        ts = sh.hits(o, d)
        if ambiguous_ray(sh, o, d, ts):
            ctx.count("ambiguous_rays")
            continue
        if oc == "grazing":
            ctx.count("grazing_" + dc)
        want = [o + t * d for t in ts if t > 0]
        form = int(rng.integers(0, 3))
        oo, dd = [(tuple(o.tolist()), tuple(d.tolist())), (list(o), list(d)), (o, d)][form]
        got = [np.array(p, float) for p in geo.intersections(oo, dd)]
        ctx.count("rays")
        ctx.count(f"rays_{sh.kind}")
        ctx.seen("distinct", (sh.kind, "intersections", oc, dc, len(want)))
        info = dict(shape=sh.spec(), origin=o.tolist(), direction=d.tolist(),
                    want=[w.tolist() for w in want], got=[g.tolist() for g in got])
        if not ctx.expect(len(got) == len(want), f"intersections:count:{sh.kind}",
                          f"{sh.kind}: {len(got)} intersections reported, the ray meets the surface {len(want)} times",
                          **info):
            continue
        tol = 1e-8 * max(1.0, sh.extent, float(np.linalg.norm(o)))
        for g, w in zip(got, want):
            # skimming rays amplify rounding of the face positions by 1/cos
            cos = abs(float(np.dot(sh.normal(w)[0], d)))
            ctx.expect(np.all(np.isfinite(g)) and np.linalg.norm(g - w) < tol * max(1.0, 1e-3 / max(cos, 1e-9)), f"intersections:point:{sh.kind}",
                       f"{sh.kind}: intersection is {np.linalg.norm(g - w):.3g} away from where the ray meets the surface (or out of order)",
                       **info)
        # agreement with containment
        sd = sh.sdf(o)
        if abs(sd) > 1e-6 * sh.extent:
            ctx.expect(bool(geo.contains(tuple(o.tolist()))) == (len(got) % 2 == 1), f"parity:{sh.kind}",
                       f"{sh.kind}: {len(got)} forward crossings but contains() says {geo.contains(tuple(o.tolist()))}", **info)
            ctx.count("parity_checked")
        # the reported points are surface points, normals are outward
        for i, g in enumerate(got):
            p = tuple(g.tolist())
            if sh.kind != "mesh" and abs(sh.sdf(g)) < 1e-13:
                on = geo.is_on_surface(p)
                ctx.expect(bool(on), f"on_surface:hit:{sh.kind}",
                           f"{sh.kind}: reported intersection is not a surface point for is_on_surface", point=p, **info)
            check_normal(ctx, sh, geo, g, d)


def check_normal(ctx, sh, geo, g, d):
    n, amb = sh.normal(g)
    if amb:
        return
    p = tuple(np.asarray(g).tolist())
    got = np.array(geo.normal(p), float)
    ctx.count("normals")
    ctx.seen("distinct", (sh.kind, "normal", tuple(np.round(n).tolist())))
    if not ctx.expect(got.shape == (3,) and np.linalg.norm(got - n) < 1e-6, f"normal:{sh.kind}",
                      f"{sh.kind}: normal differs from the outward unit normal", shape=sh.spec(), point=p,
                      want=n.tolist(), got=got.tolist()):
        return
    dot = float(np.dot(n, d))
    if abs(dot) > 1e-6 and abs(sh.sdf(g)) < 1e-13:
        ent = geo.is_entering(p, tuple(np.asarray(d).tolist()))
        ctx.count("entering")
        ctx.seen("distinct", (sh.kind, "entering", dot < 0))
        ctx.expect(bool(ent) == (dot < 0), f"entering:{sh.kind}",
                   f"{sh.kind}: is_entering={ent} but direction . outward normal = {dot:.3g}",
                   shape=sh.spec(), point=p, direction=np.asarray(d).tolist())


def check_points(ctx, sh, geo, n=40):
    rng = ctx.rng
    e = sh.extent
    fine = 1e-9 if sh.kind != "mesh" else 1e-6
    for _ in range(n):
        k = int(rng.integers(0, 5))
        if k == 0:
            p, c = (rng.random(3) * 2 - 1) * e * 0.9, "bulk"
        elif k == 1:
            p, c = unit(rng.normal(size=3)) * e * rng.uniform(0.5, 5), "outside"
        elif k == 2:
            s = surface_point(rng, sh)
            m, _ = sh.normal(s)
            p, c = s + m * e * 10.0 ** rng.uniform(math.log10(fine) + 1, -2) * rng.choice([-1.0, 1.0]), "near"
        elif k == 3:
            p, c = np.array([0.0, 0.0, 0.0]), "centre"
            p = p + AXES[int(rng.integers(6))] * e * rng.uniform(0, 0.7)
        else:
            # on an extension of a face/cap plane or the wall, but outside the shape
            s = surface_point(rng, sh)
            p, c = s * rng.uniform(0.2, 3.0), "scaled"
        sd = sh.sdf(p)
        if abs(sd) < 3 * fine * max(1.0, e):
            continue
        form = tuple(p.tolist()) if rng.random() < 0.7 else p
        got = bool(geo.contains(form))
        ctx.count("contains")
        ctx.seen("distinct", (sh.kind, "contains", c, sd < 0))
        ctx.expect(got == (sd < 0), f"contains:{sh.kind}", f"{sh.kind}: contains()={got} at signed distance {sd:.3g}",
                   shape=sh.spec(), point=p.tolist())
        on = bool(geo.is_on_surface(tuple(p.tolist())))
        ctx.count("on_surface")
        # is_on_surface of a box looks at the six (infinite) face planes only; judged for points
        # that are off every one of them
        if sh.kind == "box" and np.min(np.abs(np.abs(p) - sh.h)) < 1e-8 * max(1, e):
            continue
        ctx.expect(not on, f"on_surface:false_positive:{sh.kind}",
                   f"{sh.kind}: a point {sd:.3g} off the surface is reported on it", shape=sh.spec(), point=p.tolist())
    # true surface points
    for _ in range(n):
        s = surface_point(rng, sh)
        if sh.kind == "mesh":
            continue
        on = bool(geo.is_on_surface(tuple(s.tolist())))
        ctx.count("surface_points")
        ctx.seen("distinct", (sh.kind, "surface_point", tuple(np.sign(s).tolist())))
        ctx.expect(on, f"on_surface:false_negative:{sh.kind}",
                   f"{sh.kind}: a surface point is reported off the surface", shape=sh.spec(), point=s.tolist())
        check_normal(ctx, sh, geo, s, unit(rng.normal(size=3)))


def case(ctx):
    from pvtrace import Material
    sh = random_shape(ctx.rng)
    m = Material(1.5)
    geo = sh.build(m)
    ctx.seen("shapes", str(sh.spec()))
    ctx.sample({"shape": sh.spec()})
    check_intersections(ctx, sh, geo)
    check_points(ctx, sh, geo)
    ctx.expect(geo.material is m, f"material:{sh.kind}", "shape does not report the material it was given")
    m2 = Material(1.1)
    geo.material = m2
    ctx.expect(geo.material is m2, f"material_set:{sh.kind}", f"{sh.kind}: assigned material is not the one reported")


chk.run_cases(case, "shapes", common.scale(2500, 40000))
chk.require("rays", 5000)
chk.require("grazing_outside", 500)
chk.require("grazing_inside", 200)
chk.require("normals", 3000)
chk.require("contains", 3000)
chk.finish()
