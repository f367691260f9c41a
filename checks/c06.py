"""C06: luminescence spectrum, energy constraint, phase functions."""
import math

import numpy as np
import common
common.setup_path()
import tracework
from scenes import random_component, rigid, rotation
from tracemon import KT32, region


def emit_case(ctx):
    """Luminophore.emit / Scatterer.emit called directly with every method."""
    from pvtrace import Ray
    rng = ctx.rng
    comp = random_component(rng, "lum", kind="luminophore")
    if rng.random() < 0.4:      # nothing is emitted above (and below) some wavelength
        x, y = comp.emission
        comp.emission = x, np.where((x < np.quantile(x, rng.uniform(0.5, 0.9))) & (x > x[0] + 5), y, 0.0)
        ctx.count("direct_bounded")
    comp.reform(("table", "hist", "functions")[ctx.idx % 3])
    c = comp.build()
    x = comp.emission[0]
    ctx.count(f"direct_{comp.form}")
    for method in ("full", "redshift", "kT"):
        for nm0 in rng.uniform(330, 960, 6):
            nm0 = float(nm0)
            ray = Ray((0.1, 0.2, 0.3), (0.0, 0.0, 1.0), nm0, travelled=2.0, duration=1e-9, source="light")
            us = []
            for _ in range(25):
                out = c.emit(ray, method=method)
                nm = out.wavelength
                ctx.count("direct_emissions")
                ctx.seen("distinct", ("emit", method, round(nm0), round(nm)))
                ctx.expect(x[0] - 1e-6 <= nm <= x[-1] + 1e-6, "direct:range", f"{method} emitted {nm}")
                lim = 1240.0 / (1240.0 / nm0 + KT32) if method == "kT" else nm0
                if method == "full":
                    p1 = 0.0
                else:
                    p1 = comp.lookup(lim)
                    ctx.expect(nm >= lim - 1e-3, f"direct:{method}", f"{method}: emitted {nm} nm after absorbing {nm0} nm (limit {lim})")
                if p1 < 1 - 1e-6:
                    u = comp.quantile(float(nm), p1, rng)
                    if ctx.expect(u is not None, "direct:value", f"{method}: {nm} nm is not a value of the emission histogram above {lim} nm"):
                        us.append(u)
                ctx.expect(out.position == ray.position and out.travelled == 2.0, "direct:moved", "emission moved the ray")
                ctx.expect(out.source == "lum", "direct:source", f"source {out.source!r}")
                ctx.expect(abs(np.linalg.norm(out.direction) - 1) < 1e-9, "direct:unit", f"{out.direction}")
            if us:
                ctx.data.append({("direct", "spectrum_" + method): us})
    # Without a spectrum the emission is a Gaussian centred at 600 nm
    from pvtrace import Luminophore
    lum = Luminophore(1.0, x=np.arange(400.0, 801.0))
    nm = [lum.emit(Ray((0, 0, 0), (0, 0, 1), 450.0), method="full").wavelength for _ in range(100)]
    ctx.count("default_emissions", len(nm))
    ctx.expect(abs(np.mean(nm) - 600.0) < 25 and 400 <= min(nm) <= max(nm) <= 800, "direct:default",
               f"default emission: mean {np.mean(nm)} nm, {min(nm)} to {max(nm)}")


def phase_case(ctx, tracer):
    """The phase functions of components, one parameter at a time."""
    from pvtrace import Box, Light, Luminophore, Material, Node, Ray, Scatterer, Scene, Sphere, engine
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
    rng = ctx.rng
    kind = ("hg", "hg", "cone", "iso")[ctx.idx % 4]
    v = {"hg": float(rng.choice([-1, 1]) * rng.choice([rng.uniform(0.9, 0.99), rng.uniform(0, 0.99)])),
         "cone": float(rng.choice([math.pi / 2, rng.uniform(1e-3, 0.3), rng.uniform(0.1, 1.57)])), "iso": 0.0}[kind]
    f = {"hg": HenyeyGreenstein, "cone": Cone, "iso": lambda _: isotropic}[kind](v)
    if rng.random() < 0.5:
        c = Scatterer(1.0, phase_function=f, name="c")
    else:
        c = Luminophore(1.0, x=np.arange(400.0, 801.0, 5.0), phase_function=f, name="c")
    frame = np.eye(4)
    if tracer == "direct":
        ray = Ray((0.1, 0.2, 0.3), (0.6, 0.0, 0.8), 600.0)
        dirs = [c.emit(ray, method="full").direction for _ in range(60)]
    else:
        # the material of a turned node in an empty world
        root = Node(name="w", geometry=Box((70, 70, 70), material=Material(1.0)))
        node = Node(name="n", parent=root, geometry=Sphere(15.0, material=Material(1.0, components=[c])))
        frame = rigid(rotation(rng), rng.normal(size=3))
        node.pose = frame
        node.light = Light(wavelength=lambda: 600.0, name="l")
        np.random.seed(int(rng.integers(1 << 31)))
        dirs = [r.direction for h in engine.simulate(Scene(root), 40, seed=int(rng.integers(1 << 31)), workers=1, maxsteps=400,
                                                     emit_method="full").histories()
                for r, e, _ in h if e.name in ("SCATTER", "EMIT")]
    us, phis = [], []
    for d in dirs:
        d = frame[:3, :3].T @ np.asarray(d, float)
        mu = float(d[2])
        ctx.count(f"phase_{kind}")
        ctx.expect(abs(np.linalg.norm(d) - 1) < 1e-9, "phase:unit", f"{kind} {v}: {d} is not a unit vector")
        if kind == "hg":
            if abs(v) < 1e-3:
                continue
            us.append((1 - v * v) / (2 * v) * (1 / math.sqrt(1 + v * v - 2 * v * mu) - 1 / (1 + v)))
        elif kind == "cone":
            s = math.sin(v) ** 2
            s2 = float(d[0]) ** 2 + float(d[1]) ** 2
            ctx.expect(mu > -1e-9 and s2 <= s * (1 + 1e-9), "phase:cone", f"{d} is outside the cone of half angle {v}")
            us.append(s2 / s)
        else:
            us.append((mu + 1) / 2)
        phis.append((math.atan2(d[1], d[0]) / (2 * math.pi)) % 1)
    ctx.seen("distinct", ("phase", tracer, kind, round(v, 2)))
    name = kind if kind == "iso" else f"{kind}[{region(kind, v)}]"
    tracer = {"engine": "compiled"}.get(tracer, tracer)
    ctx.data.append({(tracer, f"phase_{name}"): [min(max(u, 0.0), 1.0) for u in us], (tracer, f"phi_{name}"): phis})


chk = tracework.standard("C06", "an emission or scattering whose wavelength and direction were judged", "emit",
                         python=(130, 700), engine=(110, 700), rays=(50, 250), crowd=None, opts={"strength": 2.0})
chk.run_cases(emit_case, "emit", common.scale(100, 600))
chk.run_cases(phase_case, "phase", common.scale(400, 4000), args=("direct",))
chk.run_cases(phase_case, "phase-engine", common.scale(200, 2000), args=("engine",))
tracework.judge(chk, "emit")
for part in ("hg[-strong]", "hg[+strong]", "hg[-medium]", "hg[+medium]", "hg[-weak]", "hg[+weak]", "cone[wide]", "cone[medium]", "cone[narrow]"):
    chk.require(f"obs_direct_phase_{part}", 300)
    chk.require(f"obs_compiled_phase_{part}", 300)
for name, n in (("spectrum", 500), ("phase_iso", 400), ("phase_hg", 300), ("phase_cone", 100)):
    chk.require(f"obs_python_{name}", n)
    chk.require(f"obs_engine_{name}", 3 * n)
chk.require("distinct_emission_states", 300)
for form in ("hist", "functions"):
    chk.require(f"direct_{form}", 20)
    chk.require(f"emissions_of_{form}", 10)
chk.finish()
