"""C04: Fresnel, Snell, total internal reflection, custom surface delegates."""
import math

import numpy as np
import common
common.setup_path()
import stats
import tracework
from scenes import random_scene, unit
from tracemon import Monitor, fresnel, TINY


class Tape:
    """Custom delegate: records every call and answers from its own plan."""


def make_delegate(base, node, tape, plan):
    class Probe(base):
        def _call(self, what, surface, ray, geometry, container, adjacent):
            tape.append({"what": what, "node": node, "surface": surface, "ray": ray, "geometry": geometry,
                         "container": container, "adjacent": adjacent})

        def reflectivity(self, surface, ray, geometry, container, adjacent):
            self._call("reflectivity", surface, ray, geometry, container, adjacent)
            return plan["R"]

        def reflected_direction(self, surface, ray, geometry, container, adjacent):
            self._call("reflected", surface, ray, geometry, container, adjacent)
            d = plan["reflect"](ray, geometry)
            tape[-1]["out"] = d
            return d

        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            self._call("transmitted", surface, ray, geometry, container, adjacent)
            d = plan["transmit"](ray, geometry)
            tape[-1]["out"] = d
            return d
    return Probe()


def lambert_about(normal, rng):
    z = unit(np.asarray(normal, float))
    a = unit(np.cross(z, [0.3, 0.5, 0.81]))
    b = np.cross(z, a)
    s = math.sqrt(0.95 * rng.random())
    phi = rng.random() * 2 * math.pi
    v = s * math.cos(phi) * a + s * math.sin(phi) * b + math.sqrt(1 - s * s) * z
    return tuple(unit(v).tolist())


def delegate_case(ctx):
    """Random scene whose surfaces use custom delegates: what the tracer asked
    and what it did are compared with the scene oracle."""
    from pvtrace import Surface, SurfaceDelegate
    from pvtrace.algorithm import photon_tracer
    rng = ctx.rng
    kinds = ("box", "sphere", "cylinder") + (("mesh",) if rng.random() < 0.3 else ())
    S = random_scene(rng, kinds=kinds)
    tape = []
    plans = {}

    def outward(ray, geometry):
        return np.asarray(geometry.normal(ray.position), float)

    def surface_for(nd):
        if nd is S.root or rng.random() < 0.25:
            return None
        R = float(rng.choice([0.0, 1.0, rng.random(), 0.5]))
        mode = int(rng.integers(0, 2))

        def reflect(ray, geometry):
            n = outward(ray, geometry)
            if np.dot(n, ray.direction) > 0:
                n = -n
            return lambert_about(n, rng)

        def transmit(ray, geometry):
            n = outward(ray, geometry)
            if np.dot(n, ray.direction) < 0:
                n = -n
            return lambert_about(n, rng) if mode else ray.direction
        plans[nd.name] = {"R": R, "reflect": reflect, "transmit": transmit}
        return Surface(delegate=make_delegate(SurfaceDelegate, nd, tape, plans[nd.name]))

    scene = S.build(surface_for=surface_for)
    ctx.seen("distinct", ("delegate", S.shape_signature(), tuple(round(p["R"], 2) for p in plans.values())))
    ctx.sample({"delegate scene": S.spec(), "reflectivities": {k: p["R"] for k, p in plans.items()}})
    mon = Monitor(ctx, S, "delegate", ("optics", "geo"), maxsteps=80, delegates=plans)
    rows = []
    for ray in scene.emit(25):
        k0 = len(tape)
        hist = []
        marks = []
        for item in photon_tracer.step_forward(scene, ray, maxsteps=80):
            hist.append(item)
            marks.append((k0, len(tape)))
            k0 = len(tape)
        mon.history(hist)
        for i, (r, e, m) in enumerate(hist):
            calls = tape[marks[i][0]:marks[i][1]]
            if e.name in ("REFLECT", "TRANSMIT") and m["hit"] in plans:
                nd = S.by_name[m["hit"]]
                plan = plans[m["hit"]]
                ctx.count("delegate_events")
                refl = [c for c in calls if c["what"] == "reflectivity"]
                dirs = [c for c in calls if c["what"] != "reflectivity"]
                ctx.expect(len(refl) == 1 and len(dirs) == 1 and
                           dirs[0]["what"] == ("reflected" if e.name == "REFLECT" else "transmitted"),
                           "delegate:calls", f"{e.name} made delegate calls {[c['what'] for c in calls]}")
                rows.append((plan["R"], e.name == "REFLECT"))
                for c in calls:
                    ctx.expect(c["node"] is nd, "delegate:node", f"hit {nd.name} but delegate of {c['node'].name} asked")
                    ctx.expect(c["geometry"] is S.pv[nd.name].geometry, "delegate:geometry", "wrong geometry passed")
                    ctx.expect(c["surface"] is S.pv[nd.name].geometry.material.surface, "delegate:surface", "wrong surface passed")
                    ctx.expect(c["container"] is S.pv[m["container"]] and c["adjacent"] is S.pv[m["adjacent"]],
                               "delegate:nodes", "container/adjacent passed to the delegate differ from the event's")
                    p_local = nd.inv[:3, :3] @ np.array(r.position) + nd.inv[:3, 3]
                    d_in = nd.inv[:3, :3] @ np.array(hist[i - 1][0].direction)
                    ctx.expect(np.abs(p_local - c["ray"].position).max() < 1e-9, "delegate:position",
                               f"delegate saw position {c['ray'].position}, local position is {p_local.tolist()}")
                    ctx.expect(np.abs(d_in - c["ray"].direction).max() < 1e-9, "delegate:direction",
                               f"delegate saw direction {c['ray'].direction}, local incident direction is {d_in.tolist()}")
                    ctx.expect(c["ray"].wavelength == r.wavelength, "delegate:wavelength", "delegate saw another wavelength")
                if dirs:
                    out = nd.world[:3, :3] @ np.array(dirs[0]["out"])
                    ctx.expect(np.abs(out - r.direction).max() < 1e-9, "delegate:outcome",
                               f"delegate answered {out.tolist()} (world), photon left along {r.direction}")
            elif e.name not in ("REFLECT", "TRANSMIT"):
                ctx.expect(not calls, "delegate:spurious", f"delegate called at {e.name}")
    ctx.data.append({("delegate", "reflect"): rows})


def law_case(ctx):
    """FresnelSurfaceDelegate on its own, over the whole range of angles and media."""
    from pvtrace import Box, Material, Node, Ray, Sphere
    from pvtrace.material.surface import FresnelSurfaceDelegate, Surface
    rng = ctx.rng
    dele = FresnelSurfaceDelegate()
    for _ in range(120):
        n1, n2 = float(rng.uniform(1, 3)), float(rng.uniform(1, 3))
        if rng.random() < 0.1:
            n2 = n1
        surf = Surface()
        geom = Sphere(1.0, material=Material(n1, surface=surf))
        a = Node(name="a", geometry=Sphere(1.0, material=Material(n1)))
        b = Node(name="b", geometry=Sphere(1.0, material=Material(n2)))
        p = unit(rng.normal(size=3))
        sgn = 1 if rng.random() < 0.5 else -1
        c = math.cos(math.asin(min(1.0, rng.random()))) if rng.random() < 0.5 else rng.uniform(0.01, 1)
        crit = None
        if n2 < n1:
            crit = math.sqrt(1 - (n2 / n1) ** 2)
            if rng.random() < 0.4:
                c = min(1.0, max(0.005, crit + rng.normal() * 10 ** rng.uniform(-5, -1)))
        t = unit(np.cross(p, rng.normal(size=3)))
        d = sgn * c * p + math.sqrt(max(0.0, 1 - c * c)) * t
        d = unit(d)
        c = abs(float(np.dot(d, p)))
        ray = Ray(tuple(p.tolist()), tuple(d.tolist()), 555.0)
        if crit is not None and abs(c - crit) < 1e-9:
            continue
        R = dele.reflectivity(surf, ray, geom, a, b)
        want = fresnel(c, n1, n2)
        ctx.count("law_points")
        ctx.seen("distinct", ("law", round(n1, 3), round(n2, 3), round(c, 3)))
        slack = 1e-6
        if crit is not None and want < 1:
            slack += 1e-5 / max(1e-6, abs(c - crit)) ** 0.5 * 1e-3
        ctx.expect(0 <= R <= 1 and abs(R - want) < slack, "law:reflectivity", f"R={R} expected {want} (n1={n1}, n2={n2}, cos={c})")
        if want >= 1:
            ctx.expect(R == 1.0, "law:tir", f"R={R} beyond the critical angle")
            ctx.count("law_tir")
        m = np.array(dele.reflected_direction(surf, ray, geom, a, b))
        ctx.expect(np.abs(m - (d - 2 * np.dot(d, p) * p)).max() < 1e-12, "law:mirror", "reflected direction is not the mirror image")
        if want < 1:
            tdir = np.array(dele.transmitted_direction(surf, ray, geom, a, b))
            si, st = n1 * np.cross(p, d), n2 * np.cross(p, tdir)
            ctx.expect(np.abs(si - st).max() < 1e-9 and np.dot(tdir, p) * np.dot(d, p) > -1e-12, "law:snell",
                       f"transmitted {tdir.tolist()} for {d.tolist()} at normal {p.tolist()} n1={n1} n2={n2}")
            ctx.expect(abs(np.linalg.norm(tdir) - 1) < 1e-9, "law:unit", "transmitted direction is not a unit vector")
        if 0 < want < 1:
            out = [surf.is_reflected(ray, geom, a, b) for _ in range(4)]
            ctx.data.append({("surface", "direct_reflect"): [(want, bool(o)) for o in out]})


def faint_case(ctx):
    """Nearly matched media, where only one ray in thousands is reflected."""
    from pvtrace import Box, Light, Material, Node, Ray, Scene, Sphere
    from pvtrace.engine import simulate
    from pvtrace.material.surface import Surface
    from pvtrace.material.utils import isotropic
    rng = ctx.rng
    n1 = float(rng.uniform(1, 2))
    n2 = n1 * float(rng.uniform(1.03, 1.12)) ** (1 if rng.random() < 0.5 else -1)
    a = Node(name="a", geometry=Sphere(1.0, material=Material(n1)))
    b = Node(name="b", geometry=Sphere(1.0, material=Material(n2)))
    surf = Surface()
    geom = Sphere(1.0, material=Material(n1, surface=surf))
    p = unit(rng.normal(size=3))
    t = unit(np.cross(p, rng.normal(size=3)))
    c = float(rng.uniform(0.9, 1.0))
    d = unit(c * p + math.sqrt(1 - c * c) * t)
    ray = Ray(tuple(p.tolist()), tuple(d.tolist()), 555.0)
    R = fresnel(c, n1, n2)
    n = 10000
    ctx.data.append({("surface", "faint_reflect"): [(R, bool(surf.is_reflected(ray, geom, a, b))) for _ in range(n)]})
    # a lamp in the middle of a ball
    world = Node(name="world", geometry=Sphere(10.0, material=Material(refractive_index=n1)))
    ball = Node(name="ball", parent=world, geometry=Sphere(1.0, material=Material(refractive_index=n2)))
    Node(name="lamp", parent=ball, light=Light(direction=isotropic))
    m = 40000
    np.random.seed(int(rng.integers(0, 2**31)))
    r = simulate(Scene(world), m, seed=int(rng.integers(0, 2**31)), workers=1, maxsteps=3, max_events=12)
    k = sum(1 for h in r.histories() if h[1][1].name == "REFLECT")
    ctx.data.append({("engine", "faint_reflect"): [(fresnel(1.0, n2, n1), i < k) for i in range(m)]})
    ctx.count("faint_reflections", k)
    ctx.seen("distinct", ("faint", round(n1, 3), round(n2, 3)))


def critical_case(ctx):
    """Light pointed exactly at the critical angle: rounding puts it on either side,
    the photon is reflected or grazes the surface but never loses its direction."""
    from pvtrace import Box, Light, Material, Node, Ray, Scene, Sphere
    from pvtrace.algorithm import photon_tracer
    from pvtrace.engine import simulate
    from pvtrace.material.surface import FresnelSurfaceDelegate, Surface
    rng = ctx.rng
    dele, surf = FresnelSurfaceDelegate(), Surface()
    transmitted = 0
    for k in range(200):
        n1 = round(float(rng.uniform(1.05, 3)), 2)
        n2 = 1.0 if rng.random() < 0.5 else round(float(rng.uniform(1, n1 - 0.04)), 2)
        s = n2 / n1
        d = (s, 0.0, math.sqrt(1 - s * s))
        if rng.random() < 0.3:
            th = math.asin(s)
            d = (math.sin(th), 0.0, math.cos(th))
        geom = Box((4.0, 4.0, 4.0), material=Material(n1, surface=surf))
        a, b = Node(name="a", geometry=geom), Node(name="b", geometry=Sphere(20.0, material=Material(n2)))
        ray = Ray((0.0, 0.0, 2.0), d, 555.0)
        R = float(dele.reflectivity(surf, ray, geom, a, b))
        t = np.array(dele.transmitted_direction(surf, ray, geom, a, b), float)
        ctx.count("critical_points")
        ctx.seen("distinct", ("critical", n1, n2))
        ctx.expect(1 - 1e-5 < R <= 1, "critical:reflectivity", f"R={R} at the critical angle (n1={n1}, n2={n2}, direction {d})")
        ctx.expect(np.all(np.isfinite(t)) and abs(np.linalg.norm(t) - 1) < 1e-9 and abs(t[2]) < 1e-6, "critical:direction",
                   f"transmitted direction {t.tolist()} at the critical angle (n1={n1}, n2={n2}, direction {d})")
        if k % 4:
            continue
        world = Node(name="world", geometry=Sphere(20.0, material=Material(n2)))
        Node(name="box", parent=world, geometry=Box((30.0, 4.0, 4.0), material=Material(n1)))
        Node(name="light", parent=world, light=Light(direction=lambda d=d: d))
        scene = Scene(world)
        hists = [("engine", h) for h in simulate(scene, 4, seed=k, maxsteps=30).histories()]
        hists += [("python", list(photon_tracer.step_forward(scene, r, maxsteps=30))) for r in scene.emit(2)]
        for who, h in hists:
            ctx.count("critical_photons_" + who)
            last = h[-1][1].name
            ctx.expect(all(np.all(np.isfinite(x[0].position)) and np.all(np.isfinite(x[0].direction))
                           and abs(np.linalg.norm(x[0].direction) - 1) < 1e-6 for x in h) and last in ("EXIT", "KILL"),
                       f"critical:{who}", f"photon at the critical angle: {[x[1].name for x in h][:6]} last ray {h[-1][0]} "
                       f"(n1={n1}, n2={n2}, direction {d})")
            transmitted += len(h) > 1 and h[1][1].name == "TRANSMIT"
    ctx.expect(transmitted < 3, "critical:transmitted", f"{transmitted} photons left at the critical angle")


chk = tracework.standard("C04", "a surface interaction whose outcome and direction were judged", "optics")
chk.run_cases(delegate_case, "delegate", common.scale(80, 500))
chk.run_cases(law_case, "law", common.scale(40, 300))
chk.run_cases(faint_case, "faint", common.scale(24, 200))
chk.require("faint_reflections", 300)
chk.run_cases(critical_case, "critical", common.scale(12, 80))
tracework.judge(chk, "optics")
chk.require("tir_events", 2000)
chk.require("matched_events", 500)
chk.require("obs_python_reflect", 1000)
chk.require("obs_engine_reflect", 4000)
chk.require("distinct_reflect_config", 500)
chk.require("delegate_events", 1000)
chk.require("law_points", 2000)
chk.require("critical_points", 2000)
chk.require("critical_photons_engine", 1500)
chk.require("critical_photons_python", 800)
chk.finish()
