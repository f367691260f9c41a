"""C24: tracing limits are enforced and otherwise do not disturb the trace."""
import numpy as np
import common
common.setup_path()
import tracework
from scenes import random_scene
from tracemon import Monitor

KEY = ("name",)


def same(a, b):
    """Index of the first difference of two histories, or None."""
    for i, ((ra, ea, ma), (rb, eb, mb)) in enumerate(zip(a, b)):
        if ea != eb or ra != rb:
            return i
        if {k: v for k, v in (ma or {}).items() if k not in ("maxsteps", "maxpathlength")} != \
           {k: v for k, v in (mb or {}).items() if k not in ("maxsteps", "maxpathlength")}:
            return i
    return None if len(a) == len(b) else min(len(a), len(b))


def steps_of(h):
    return sum(1 for _, e, _ in h[1:] if e.name not in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT", "KILL"))


def limited_case(ctx, tracer):
    """The same photons traced with generous and with tight limits."""
    rng = ctx.rng
    S = random_scene(rng)
    scene = S.build()
    big = 300
    seed = int(rng.integers(0, 2**31 - 1))
    tight = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 40]))
    method = str(rng.choice(["kT", "full", "redshift"]))
    if tracer == "python":
        from pvtrace.algorithm import photon_tracer
        np.random.seed(seed)
        rays = list(scene.emit(20))

        def run(**kw):
            out = []
            for k, ray in enumerate(rays):
                np.random.seed((seed + k) % 2**31)
                out.append(list(photon_tracer.step_forward(scene, ray, emit_method=method, **kw)))
            return out
        free = run(maxsteps=big)
        path = float(np.exp(rng.uniform(-1.5, 3.5)))
        variants = [("steps", tight, None, None, run(maxsteps=tight)),
                    ("path", big, path, None, run(maxsteps=big, maxpathlength=path)),
                    ("both", tight, path, None, run(maxsteps=tight, maxpathlength=path))]
        # a limit that a photon meets exactly, and just misses
        t = [x[0].travelled for h in free for x in h[:-1] if x[0].travelled > 0]
        if t:
            mp = float(rng.choice(t))
            for mp in (mp, float(np.nextafter(mp, 0)), float(np.nextafter(mp, 1e9))):
                variants.append(("path", big, mp, None, run(maxsteps=big, maxpathlength=mp)))
                ctx.count("exact_limits")
        k0 = int(rng.integers(0, len(rays)))
        from pvtrace.algorithm.photon_tracer import follow
        np.random.seed((seed + k0) % 2**31)
        f = follow(scene, rays[k0], maxsteps=tight, emit_method=method)
        g = variants[0][4][k0]
        ctx.expect([x[:2] for x in g] == list(map(tuple, f)), "python:follow", "follow() and step_forward() disagree")
    else:
        from pvtrace.engine import simulate

        def run(maxsteps, max_events):
            np.random.seed(seed)
            return list(simulate(scene, 120, seed=seed, workers=1, maxsteps=maxsteps, max_events=max_events,
                                 emit_method=method).histories())
        free = run(big, 2 * big + 8)
        budget = int(rng.choice([2, 3, 4, 5, 6, 9, 17, 50]))
        variants = [("steps", tight, None, None, run(tight, 2 * big + 8)),
                    ("budget", big, None, budget, run(big, budget)),
                    ("both", tight, None, budget, run(tight, budget))]
    ctx.seen("distinct", (tracer, S.shape_signature(), tight))
    ctx.sample({"tracer": tracer, "scene": S.spec(), "tight": tight})
    for label, ms, mp, me, hs in variants:
        mon = Monitor(ctx, S, tracer, ("limits",), maxsteps=ms, maxpath=mp, max_events=me)
        ctx.expect(len(hs) == len(free), f"{tracer}:limits:count", f"{len(hs)} histories of {len(free)} rays")
        for a, b in zip(free, hs):
            mon.history(b)
            ctx.count(f"limited_{tracer}")
            killed = b[-1][1].name == "KILL"
            within = steps_of(a) <= ms and (mp is None or all(x[0].travelled <= mp for x in a[:-1])) and \
                a[-1][1].name != "KILL"
            if me is not None:
                # an absorption may be refused when fewer than three rows are left
                within = within and len(a) + 2 <= me
            i = same(a, b)
            if within:
                ctx.count(f"undisturbed_{tracer}")
                ctx.expect(i is None, f"{tracer}:limits:disturbed",
                           f"limit {label} steps={ms} path={mp} events={me} changed a trace of {len(a)} events at event {i}")
            elif killed:
                ctx.count(f"cut_{tracer}_{label}")
                n = len(b)
                ctx.expect(i is None or i >= n - 1, f"{tracer}:limits:prefix",
                           f"{label}: killed trace differs from the free one at event {i} of {n}")
                r, q = b[-1][0], b[-2][0]
                ctx.expect(r == q, f"{tracer}:limits:kill-ray", f"the ray changed at the kill: {q} -> {r}")
                ctx.expect([e.name for _, e, _ in b].count("KILL") == 1, f"{tracer}:limits:kill-last", "kill is not the last event")
            elif me is None:
                ctx.expect(a[-1][1].name == "KILL" or i is None, f"{tracer}:limits:missed",
                           f"{label} steps={ms} path={mp}: trace of {steps_of(a)} steps was not cut, ended {b[-1][1].name}")


chk = tracework.standard("C24", "a history judged against its step, path and event limits", "limits", crowd=None,
                         python=(60, 300), engine=(60, 300), rays=(40, 200),
                         opts={"maxsteps": lambda rng: int(rng.choice([1, 2, 3, 4, 6, 10, 25, 60])),
                               "maxpath": lambda rng: float(np.exp(rng.uniform(-1.5, 4))) if rng.random() < .6 else None,
                               "max_events": lambda rng: int(rng.choice([2, 3, 4, 5, 8, 20, 64]))})
chk.run_cases(limited_case, "limited-python", common.scale(50, 300), args=("python",))
chk.run_cases(limited_case, "limited-engine", common.scale(50, 300), args=("engine",))
for t in ("python", "engine"):
    chk.require(f"limited_{t}", 1000)
    chk.require(f"undisturbed_{t}", 100)
    chk.require(f"cut_{t}_steps", 100)
chk.require("cut_python_path", 100)
chk.require("exact_limits", 50)
chk.require("cut_engine_budget", 100)
chk.finish()
