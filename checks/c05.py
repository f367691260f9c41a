"""C05: Beer-Lambert absorption, component selection, yields and lifetimes."""
import collections

import numpy as np
import common
common.setup_path()
import stats
import tracework
from scenes import random_component


def material_case(ctx):
    """Material.penetration_depth / component / is_absorbed called directly."""
    from pvtrace import Material, Ray
    rng = ctx.rng
    comps = [random_component(rng, f"c{i}") for i in range(int(rng.integers(1, 5)))]
    for c in comps:
        if rng.random() < 0.5:
            c.reform(str(rng.choice(["hist", "functions"])))
        elif rng.random() < 0.5:        # structure finer than a nanometre
            x = np.linspace(300.0, 1000.0, int(rng.choice([1401, 2801, 7001])))
            c.coef = ("spec", x, rng.lognormal(0, 1.5, len(x)))
            ctx.count("fine_spectra")
    mat = Material(refractive_index=1.5, components=[c.build() for c in comps])
    for nm in rng.uniform(320, 980, 3):
        nm = float(nm)
        al = [c.alpha(nm) for c in comps]
        tot = sum(al)
        if tot < 1e-6:
            continue
        for c, a in zip(mat.components, al):
            got = float(c.coefficient(nm))
            ctx.count("coefficients_compared")
            ctx.expect(abs(got - a) <= 1e-9 * max(1.0, a), "material:coefficient", f"{c.name}: coefficient {got} at {nm} nm instead of {a}")
        depths = [mat.penetration_depth(nm) for _ in range(60)]
        ctx.data.append({("material", "depth"): [float(-np.expm1(-tot * d)) for d in depths]})
        pick = collections.Counter(mat.component(nm).name for _ in range(60))
        rows = []
        for c, a in zip(comps, al):
            k = pick.get(c.name, 0)
            rows += [(a / tot, i < k) for i in range(60)]
            ctx.expect(a > 0 or k == 0, "material:zero", f"component {c.name} with zero coefficient was chosen")
        ctx.data.append({("material", "select"): rows})
        L = float(rng.exponential(1 / tot))
        ray = Ray((0, 0, 0), (0, 0, 1), nm)
        outs = [mat.is_absorbed(ray, L) for _ in range(60)]
        ctx.data.append({("material", "absorb"): [(float(-np.expm1(-tot * L)), bool(o[0])) for o in outs]})
        for o, d in outs:
            ctx.expect((d < L) if o else d >= L or d == L, "material:is_absorbed",
                       f"is_absorbed returned {o}, {d} for path {L}")
        ctx.count("material_draws", 180)
        ctx.seen("distinct", ("mat", len(comps), round(nm), round(tot, 2)))


def faint_case(ctx, tracer, n, steps):
    """Coefficients so small that only long paths show them: light trapped in a block."""
    from scenes import faint_scene
    from tracemon import Monitor
    rng = ctx.rng
    S = faint_scene(rng, -4.6, -2.6)
    comps = S.nodes[1].comps
    alphas = np.array([c.alpha(555.0) for c in comps])
    scene = S.build()
    mon = Monitor(ctx, S, tracer, ("volume",), maxsteps=steps)
    np.random.seed(int(rng.integers(0, 2**31 - 1)))
    seed = int(rng.integers(0, 2**31 - 1))
    it = tracework.python_histories(scene, n, steps) if tracer == "python" else tracework.engine_histories(
        scene, n, seed, 1, steps)
    for h in it:
        mon.history(h)
        ctx.count(f"faint_histories_{tracer}")
    v = np.array(mon.obs["absorb"], float).reshape(-1, 2)
    ctx.count("faint_trials", len(v))
    ctx.count("faint_absorbed", v[:, 1].sum())
    ctx.seen("distinct", (tracer, "faint", tuple(c.kind for c in comps), round(float(np.log10(alphas.sum())), 1)))
    from stats import ALPHA, bernoulli
    p, desc = bernoulli(mon.obs["absorb"])
    ctx.expect(p > ALPHA, f"{tracer}:faint", f"[{tracer}] light in a material of {alphas.sum():.2g} per unit is not absorbed as the law demands: {desc} p={p:.1e}",
               alphas=alphas.tolist())


chk = tracework.standard("C05", "an absorption trial, selection, yield trial or delay compared with its law", "volume",
                         python=(110, 700), engine=(110, 700), rays=(50, 300), crowd=(8, 80), crowd_rays=(3, 40))
chk.require("fine_spectra", 60)
chk.run_cases(material_case, "material", common.scale(200, 1500))
chk.run_cases(faint_case, "faint-python", common.scale(8, 60), args=("python", 20, 200))
chk.run_cases(faint_case, "faint-engine", common.scale(16, 200), args=("engine", 250, 250))
chk.require("faint_absorbed", 400)
chk.require("trials_at_root", 300)
tracework.judge(chk, "volume")
for name, n in (("absorb", 5000), ("freepath", 1000), ("select", 1000), ("yield", 700)):
    chk.require(f"obs_python_{name}", n)
    chk.require(f"obs_engine_{name}", 3 * n)
chk.require("obs_material_depth", 5000)
for form in ("hist", "functions"):
    chk.require(f"trials_of_{form}", 300)
chk.finish()
