"""Workloads that drive both tracers over random scenes under the Monitor."""
import collections

import numpy as np

from scenes import crowded_scene, random_scene
from tracemon import Monitor
import stats

KINDS = ("box", "sphere", "cylinder")


def python_histories(scene, n, maxsteps=1000, maxpath=np.inf, emit_method="kT"):
    from pvtrace.algorithm import photon_tracer
    for ray in scene.emit(n):
        yield list(photon_tracer.step_forward(scene, ray, maxsteps=maxsteps, maxpathlength=maxpath,
                                              emit_method=emit_method))


def engine_histories(scene, n, seed, workers=1, maxsteps=1000, max_events=None, emit_method="kT", every=1):
    """n recorded histories: every `every`-th of the photons traced."""
    from pvtrace.engine import simulate
    if max_events is None:
        max_events = 2 * maxsteps + 4
    r = simulate(scene, (n - 1) * every + 1, seed=seed, workers=workers, maxsteps=maxsteps, max_events=max_events,
                 emit_method=emit_method, record_every=every)
    yield from r.histories()


def derive(scene, rng):
    """Objects of derived classes, which behave as their base class does."""
    from anytree import PreOrderIter
    nodes = list(PreOrderIter(scene.root))
    things = [n.light for n in nodes if n.light is not None]
    for n in nodes:
        if n.geometry is not None:
            m = n.geometry.material
            things += [n.geometry, m, m.surface] + list(m.components)
    for t in things + nodes:
        if rng.random() < 0.7:
            t.__class__ = type("Derived" + type(t).__name__, (type(t),), {})


def trace_case(ctx, tracer, groups, nrays, opts=None):
    """One random scene, traced and monitored."""
    opts = dict(opts or {})
    rng = ctx.rng
    kinds = KINDS
    if opts.pop("meshes", True) and tracer == "python" and rng.random() < 0.2:
        kinds = KINDS + ("mesh", "mesh")
    method = opts.pop("emit_method", None) or str(rng.choice(["kT", "kT", "redshift", "full"]))
    maxsteps = opts.pop("maxsteps", None)
    if maxsteps is None:
        maxsteps = int(rng.choice([60, 150, 400])) if tracer == "python" else int(rng.choice([100, 300, 1000]))
    elif callable(maxsteps):
        maxsteps = maxsteps(rng)
    maxpath = opts.pop("maxpath", None)
    if callable(maxpath):
        maxpath = maxpath(rng)
    max_events = opts.pop("max_events", None)
    if callable(max_events):
        max_events = max_events(rng)
    crowded = opts.pop("crowded", False)
    S = crowded_scene(rng, most=crowded) if crowded else random_scene(rng, kinds=kinds, **opts)
    if tracer == "python" and rng.random() < 0.4:
        # the Python tracer also takes histograms and functions as spectra
        for node in S.nodes:
            for c in node.comps:
                if rng.random() < 0.8:
                    c.reform(str(rng.choice(["hist", "functions"])))
    scene = S.build()
    if tracer == "python" and rng.random() < 0.3:
        derive(scene, rng)
        ctx.count("derived_scenes")
    mon = Monitor(ctx, S, tracer, groups, maxsteps=maxsteps,
                  maxpath=maxpath if tracer == "python" else None, emit_method=method,
                  max_events=max_events if tracer == "engine" else None)
    ctx.seen("scenes", S.shape_signature())
    ctx.seen("distinct", (tracer, S.shape_signature(), method, maxsteps))
    ctx.count(f"scenes_{tracer}")
    ctx.sample({"tracer": tracer, "scene": S.spec(), "emit_method": method, "maxsteps": maxsteps})
    np.random.seed(int(rng.integers(0, 2**31 - 1)))
    if tracer == "python":
        it = python_histories(scene, nrays, maxsteps, np.inf if maxpath is None else maxpath, method)
    else:
        every = int(rng.choice([1, 1, 1, 2, 3, 7]))
        workers = int(rng.choice([1, 1, 3]))
        ctx.seen("strides", every)
        it = engine_histories(scene, nrays, int(rng.integers(0, 2**31 - 1)), workers, maxsteps, max_events, method,
                              every)
    for h in it:
        mon.history(h)
        ctx.count(f"histories_{tracer}")
        if crowded:
            ctx.count("crowded_histories")
            ctx.seen("crowd_sizes", len(S.nodes))
            ctx.count("crowded_events", len(h))
        if len(ctx.violations) > 6:
            break
    if mon.obs:
        ctx.data.append({(tracer, k): v for k, v in mon.obs.items()})


BERN = {"reflect", "absorb", "select", "yield", "direct_reflect", "faint_reflect"}


def judge(check, group, min_obs=()):
    """Statistical verdicts over everything the monitors collected."""
    obs = collections.defaultdict(list)
    for d in check.data:
        if isinstance(d, dict):
            for k, v in d.items():
                obs[k].extend(v)
    ctx = check.ctx("statistics", 0)
    results = {}
    for (tracer, name), v in sorted(obs.items()):
        if name in BERN:
            p, desc = stats.bernoulli(v)
        else:
            p, desc = stats.uniform(v, name)
        results[f"{tracer}:{name}"] = {"p": p, "n": len(v), "desc": desc}
        ctx.count(f"obs_{tracer}_{name}", len(v))
        ctx.count("oracle_evaluations")
        if p < stats.ALPHA:
            ctx.violation(f"{tracer}:stat:{name}", f"[{tracer}] observed {name} contradicts the law: {desc} (p={p:.2e})")
    check.absorb(ctx)
    check.extra["statistics"] = results
    return results


def standard(pid, rule, group, python=(80, 500), engine=(80, 500), rays=(40, 200), opts=None, assumptions=(),
             crowd=(16, 120), crowd_rays=(4, 60)):
    """Both tracers over random scenes, watched by one rule group.

    `crowd` adds scenes with up to 100 nodes (128, the limit of the engine) on one line of sight."""
    from common import Check, scale
    import kernelbuild
    import pvtrace  # noqa: F401
    chk = Check(pid, rule, assumptions=list(assumptions) + BASE_ASSUMPTIONS)
    kernelbuild.use_release_kernel()
    groups = (group,)
    chk.run_cases(trace_case, "python", scale(*python), args=("python", groups, rays[0], opts))
    chk.run_cases(trace_case, "engine", scale(*engine), args=("engine", groups, rays[1], opts))
    if crowd:
        many = dict(opts or {}, crowded=100, meshes=False, maxsteps=400)
        chk.run_cases(trace_case, "crowded-python", scale(*crowd), args=("python", groups, crowd_rays[0], many))
        chk.run_cases(trace_case, "crowded-engine", scale(*crowd), args=("engine", groups, crowd_rays[1], dict(many, crowded=127)))
        chk.require("crowded_histories", scale(*crowd) * sum(crowd_rays) // 2)
        chk.require("crowded_events", scale(*crowd) * sum(crowd_rays) * 4)
    chk.require("scenes_python", scale(*python) // 2)
    chk.require("scenes_engine", scale(*engine) // 2)
    chk.require("histories_python", 1000)
    chk.require("histories_engine", 5000)
    chk.require("oracle_evaluations", 20000)
    chk.require("distinct_event_sequences", 300)
    return chk


BASE_ASSUMPTIONS = [
    "Scenes are closed: a root node with geometry encloses strictly nested, non-overlapping, non-touching "
    "nodes; coordinates stay within about 20 units (the tracers' absolute tolerance is 2.2e-13).",
    "Flights meeting two surfaces closer together than 2e-5 of the shapes' size, or a mesh edge, are not judged "
    "(counted as flights_ambiguous).",
    "Tabulated spectra cover every wavelength a photon can have.",
    "Statistical verdicts use a significance threshold of 1e-9 per test.",
]
