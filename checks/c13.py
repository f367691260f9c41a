"""C13: the native kernel under sanitizers, with hostile and limiting workloads.

The parent compiles the working tree's kernel in four variants and starts this file
again in a worker mode for each: `asan` (address + undefined behaviour), `tsan`
(thread, on an instrumented OpenMP runtime), `init` (two builds that fill
uninitialised locals with different values; numpy.empty filled likewise).
"""
import concurrent.futures
import glob
import hashlib
import os
import pickle
import re
import shutil
import subprocess
import sys
import threading

import numpy as np
import common
common.setup_path()
import kernelbuild
from recorders import attach_recorders
from scenes import random_scene

MODE = os.environ.get("C13_MODE")
ASSUME = ["At most 256 workers: creating more threads may exceed what the system allows.",
          "Allocations beyond the memory of the machine raise MemoryError (a refusal).",
          "Uninitialised reads are detected by their effect on results."]


# ------------------------------------------------------------------ monitors
def digest(r, sums=True):
    """Everything the result reports, NaNs canonical."""
    d = r.data
    m = r.max_events
    h = hashlib.blake2b(digest_size=16)
    counts = np.asarray(d["counts"])
    h.update(counts.tobytes())
    rows = np.concatenate([np.arange(int(c)) + j * m for j, c in enumerate(counts)] + [np.zeros(0, int)]).astype(int)
    for k in sorted(d):
        a = np.asarray(d[k])
        if k == "counts" or (k == "rec_sums" and not sums):      # the order of summation depends on the schedule
            continue
        if not k.startswith("rec_"):
            a = a[rows]
        if a.dtype.kind == "f":
            a = np.where(np.isnan(a), np.nan, a)
        h.update(k.encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def inspect(ctx, r, n):
    """Result arrays of one run: nothing out of range, nothing beyond the rows reported."""
    d, m = r.data, r.max_events
    counts = np.asarray(d["counts"])
    ctx.count("runs_inspected")
    ctx.count("events", int(counts.sum()))
    if not ctx.expect(len(counts) == r.num_recorded and (len(counts) == 0 or (counts.min() >= 0 and counts.max() <= max(m, 0))),
                      "counts", "event counts outside of 0..max_events", got=counts[:10], max_events=m):
        return
    used = np.zeros(max(0, r.num_recorded * m), bool)
    for j, c in enumerate(counts):
        used[j * m:j * m + int(c)] = True
    nn, nc = len(r.compiled.node_names), len(r.compiled.component_names)
    for k in sorted(d):
        if k.startswith("rec_") or k == "counts":
            continue
        a = np.asarray(d[k])
        if not ctx.expect(len(a) == len(used), "rows:size", f"{k} has {len(a)} rows instead of {len(used)}"):
            continue
        rest = a[~used]
        ctx.count("unreported_rows", len(rest))
        if len(rest):
            b = rest.reshape(len(rest), -1)
            same = b.view(np.uint8) if b.flags.c_contiguous else np.ascontiguousarray(b).view(np.uint8)
            ctx.expect(bool((same == same[0]).all()), "rows:unreported",
                       f"{k} was written outside of the rows reported", rows=np.flatnonzero((same != same[0]).any(1))[:5])
        got = a[used]
        if k in ("hit", "container", "adjacent") and len(got):
            ctx.expect(got.min() >= -1 and got.max() < nn, "rows:node", f"{k} is not a node of the scene", got=(got.min(), got.max()))
        if k in ("component", "source") and len(got):
            ctx.expect(got.min() >= -1 and got.max() < nc, "rows:component", f"{k} is not a component", got=(got.min(), got.max()))
        if k == "kind" and len(got):
            ctx.expect(got.max() <= 9, "rows:kind", "unknown event", got=got.max())
    for name, rec in r.recorders.items():
        ctx.count("recorders_inspected")
        ctx.expect(0 <= rec.rays <= n and rec.rays <= rec.crossings, "recorder:counts", "impossible recorder counts",
                   got=(rec.rays, rec.crossings), rays=n)
        for i in range(len(rec.spec.histograms)):
            b = np.asarray(rec.histogram(i)[-1])
            ctx.expect(b.min() >= 0 and b.sum() <= rec.rays, "recorder:bins", "impossible histogram counts",
                       got=(int(b.min()), int(b.sum())), rays=rec.rays)
    list(r.histories())
    r.event_counts()


REFUSALS = (ValueError, OverflowError, MemoryError, TypeError, ZeroDivisionError, IndexError)


def attempt(ctx, scene, n, **kw):
    """Run the engine; a refusal is an exception."""
    from pvtrace.engine import UnsupportedSceneError, simulate
    try:
        r = simulate(scene, n, **kw)
    except (UnsupportedSceneError,) + REFUSALS as e:
        ctx.count("refused")
        ctx.seen("refusals", (type(e).__name__, str(e)[:25]))
        return None
    ctx.count("runs")
    inspect(ctx, r, n)
    return r


# ------------------------------------------------------------------ workloads
def call_params(rng, big=False):
    ms = int(rng.choice([0, 1, 2, 5, 50, 300, -1]))
    me = int(rng.choice([1, 2, 3, 4, 5, 8, 2 * abs(ms) + 6, 128]))
    if rng.random() < 0.02:
        me = int(rng.choice([0, -1, 300000]))
    n = int(rng.choice([0, 1, 2, 63, 64, 65, 129, 400] + ([1500] if big else [])))
    k = int(rng.choice([1, 1, 1, 2, 3, 64, 0, -1, max(n - 1, 1), max(n, 1), n + 1, 2**31, 2**62, 2**63 - 1, 2**63 - n - 1]))
    if k == 0 and rng.random() < 0.1:       # nothing is allocated
        me = 2**31 - 1
    if k != 0 and n * max(me, 0) > 1000000:
        me = 128
    w = int(rng.choice([1, 2, 3, 7, 8, 16, 40, 64, 128, 0, -2, 200]))
    return n, dict(maxsteps=ms, max_events=me, record_every=k, workers=w, seed=int(rng.choice([0, 1, 2**31, 2**63 - 1, 2**70])),
                   emit_method=str(rng.choice(["kT", "full", "redshift"])))


def random_case(ctx, runs=3):
    rng = ctx.rng
    S = random_scene(rng, max_nodes=int(rng.choice([2, 5, 12])), strength=float(rng.choice([0.3, 1, 6])))
    attach_recorders(rng, S)
    scene = S.build()
    out = []
    for _ in range(runs):
        n, kw = call_params(rng, big=True)
        np.random.seed(int(rng.integers(0, 2**31)))
        r = attempt(ctx, scene, n, **kw)
        out.append(None if r is None else digest(r, kw["workers"] <= 1))
        ctx.seen("distinct", (S.shape_signature(), n, tuple(sorted(kw.items()))))
    ctx.sample({"scene": S.spec(), "call": str(kw)})
    return out


def weird(rng):
    """Values at the edge of double arithmetic."""
    return float(rng.choice([0.0, -0.0, 1.0, -1.0, np.nan, np.inf, -np.inf, 5e-324, -5e-324, 1e-300, 2e-301, 1e-160, 1e-16, 1e16,
                             1e150, 1e155, 1.7e308, -1.7e308, 0.5, -0.5, 1e-8, 2.220446049250313e-13, rng.normal(), rng.normal()]))


def special_shape(rng, material, R, hostile):
    from pvtrace import Box, Cylinder, Sphere
    k = int(rng.integers(0, 3))

    def v():
        if hostile and rng.random() < 0.3:
            return abs(weird(rng))
        return float(R * rng.uniform(0.5, 1.5))
    if k == 0:
        return Box((v(), v(), v()), material=material)
    if k == 1:
        return Sphere(radius=v(), material=material)
    return Cylinder(length=v(), radius=v(), material=material)


def special_component(rng, i, hostile):
    from pvtrace import Absorber, Luminophore, Reactor, Scatterer
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
    m = int(rng.choice([2, 3, 50, 4000])) if i == 0 else int(rng.choice([2, 5, 20]))
    x = np.linspace(300, 900, m)
    y = rng.random(m) * float(rng.choice([0.1, 3]))
    if hostile and rng.random() < 0.3:
        y = y * 0 if rng.random() < 0.5 else np.where(rng.random(m) < 0.2, abs(weird(rng)), y)
    spec = np.column_stack((x, y)) if rng.random() < 0.8 else float(abs(weird(rng)) if hostile else rng.uniform(0.01, 3))
    phase = [isotropic, HenyeyGreenstein(float(rng.uniform(-0.99, 0.99))), Cone(float(rng.uniform(0.01, 1.57)))][int(rng.integers(0, 3))]
    if hostile and rng.random() < 0.3:
        phase = HenyeyGreenstein(float(rng.choice([0, 1e-14, 1, -1, 0.9999999999999999])))
    kind = int(rng.integers(0, 4))
    qy = float(rng.choice([0, 0.5, 1]))
    if kind == 0:
        return Absorber(coefficient=spec)
    if kind == 1:
        return Reactor(coefficient=spec)
    if kind == 2:
        return Scatterer(coefficient=spec, quantum_yield=qy, phase_function=phase)
    ex = np.linspace(400, 800, int(rng.choice([2, 3, 500])))
    ey = rng.random(len(ex))
    if hostile and rng.random() < 0.3:
        ey[:] = 0
        ey[int(rng.integers(0, len(ex)))] = rng.choice([0, 1])
    return Luminophore(coefficient=spec, emission=np.column_stack((ex, ey)), quantum_yield=qy, phase_function=phase,
                       tau_rad=float(rng.choice([0, 1e-9])) or None, tau_nr=float(rng.choice([0, 1e-9])) or None)


def special_scene(rng, hostile, nodes=None, recorders=None):
    """Many nodes, recorders, components and bins; hostile also numbers at the edges."""
    from pvtrace import Light, Material, Node, Scene, Sphere
    from pvtrace.engine import Heatmap, Histogram, Recorder
    nn = nodes or int(rng.choice([1, 2, 10, 40, 127]))

    def material(top=False):
        comps = [special_component(rng, i, hostile) for i in range(0 if top else int(rng.choice([0, 0, 1, 2, 40], p=[.4, .2, .2, .15, .05])))]
        idx = float(rng.uniform(1, 2)) if not hostile or rng.random() < 0.7 else weird(rng)
        return Material(refractive_index=idx, components=comps)
    world = Node(name="world", geometry=Sphere(radius=50.0, material=material(True)))
    made = [world]
    arrangement = int(rng.integers(0, 3))
    for i in range(nn - 1 if nodes else nn):
        if arrangement == 0:        # concentric: every ray crosses everything
            R, loc = 40.0 * (1 - i / (nn + 1)), (0, 0, 0)
        elif arrangement == 1:      # along the axis of the light
            R, loc = 0.2, (0, 0, -40 + 80 * i / nn)
        else:
            R, loc = 1.0, tuple(rng.uniform(-20, 20, 3))
        parent = made[int(rng.integers(0, len(made)))] if arrangement == 2 and rng.random() < 0.3 else world
        nd = Node(name=f"n{i}", parent=parent, geometry=special_shape(rng, material(), R, hostile))
        nd.location = loc
        if rng.random() < 0.2:
            nd.rotate(float(rng.uniform(0, 6)), tuple(rng.normal(size=3)))
        made.append(nd)
    nrec = recorders if recorders is not None else int(rng.choice([0, 1, 30, 255, 256]))
    props = ["wavelength", "angle", "duration", "pathlength", "x", "y", "z"]
    for i in range(nrec):
        nd = made[int(rng.integers(0, len(made)))]
        hs = []
        for _ in range(int(rng.choice([0, 1, 3]))):
            def axis(top):
                p = str(rng.choice(props))
                lo = float(rng.uniform(-2, 1)) if not hostile or rng.random() < 0.6 else weird(rng)
                hi = float(rng.uniform(1, 900)) if not hostile or rng.random() < 0.6 else weird(rng)
                return p, (lo, hi, int(rng.choice([1, 2, 30, top])))
            try:
                (pa, ra), (pb, rb) = axis(100), axis(60)
                hs.append(Heatmap(pa, pb, ra, rb) if rng.random() < 0.4 else Histogram(pa, *ra))
            except ValueError:
                pass
        event = str(rng.choice(["entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"]))
        facet = None
        if event in ("entering", "escaping", "reflected", "exit") and rng.random() < 0.3:
            facet = tuple(weird(rng) for _ in range(3)) if hostile else (0, 0, 1)
        nd.recorders.append(Recorder(f"r{i}", event=event, facet=facet, histograms=hs or None))

    def vec(k):
        if not hostile:
            return None
        pool = [np.array([weird(rng) for _ in range(3)]) for _ in range(6)] + [np.zeros(3), np.array([0, 0, 1.0])]
        if k == "position":
            pool += [np.array([0, 0, 50.0]), np.array([0, 0, 40.0]), np.array([0.2, 0, 0])]
        return lambda: tuple(pool[np.random.randint(len(pool))])
    waves = [555.0, 300.0, 900.0] + ([weird(rng) for _ in range(4)] if hostile else [])
    Node(name="light", parent=world, light=Light(
        wavelength=lambda: waves[np.random.randint(len(waves))], position=vec("position"), direction=vec("direction")))
    for l in world.children:
        if l.light is not None and not hostile:
            l.location = (0.0, 0.0, float(rng.uniform(-45, 45)))
    return Scene(world)


def special_case(ctx, hostile, runs=2):
    rng = ctx.rng
    try:
        scene = special_scene(rng, hostile)
    except (ValueError, TypeError, ZeroDivisionError, OverflowError, FloatingPointError) as e:
        if not hostile:
            raise
        ctx.count("not_constructible")        # pvtrace refuses to make such an object
        ctx.seen("refusals", (type(e).__name__, str(e)[:25]))
        return []
    out = []
    for _ in range(runs):
        n, kw = call_params(rng)
        kw["maxsteps"] = min(kw["maxsteps"], 60)
        np.random.seed(int(rng.integers(0, 2**31)))
        r = attempt(ctx, scene, n, **kw)
        out.append(None if r is None else digest(r, kw["workers"] <= 1))
        ctx.seen("distinct", (hostile, n, tuple(sorted(kw.items())), ctx.idx))
    return out


def beyond_case(ctx):
    """Beyond the documented limits the engine must refuse."""
    from pvtrace.engine import simulate
    rng = ctx.rng
    which = ctx.idx % 2
    nodes = int(rng.choice([129, 130, 200, 700])) if which == 0 else 3
    recs = int(rng.choice([257, 300, 1000])) if which else 2
    scene = special_scene(rng, False, nodes=nodes, recorders=recs)
    refused = False
    try:
        simulate(scene, 20, workers=1, seed=1)
    except Exception:
        refused = True
    ctx.count("beyond_limits")
    ctx.expect(refused, "beyond:accepted", "a scene beyond the documented limits was traced", nodes=nodes, recorders=recs)
    ctx.seen("distinct", (nodes, recs))
    # and at the limits it works
    scene = special_scene(rng, False, nodes=128 if which == 0 else 2, recorders=256 if which else 2)
    inspect(ctx, simulate(scene, 130, workers=5, seed=1, maxsteps=300), 130)
    ctx.count("at_limits")


def bins_case(ctx):
    """More accumulator bins in all threads than a 32-bit index holds."""
    from pvtrace import Light, Material, Node, Scene, Sphere
    from pvtrace.engine import Heatmap, Recorder, simulate
    world = Node(name="world", geometry=Sphere(radius=1.0, material=Material(refractive_index=1.0)))
    side = 6000 + 50 * ctx.idx
    world.recorders.append(Recorder("out", event="exit", histograms=[Heatmap("x", "y", (-1, 1, side), (-1, 1, side))]))
    Node(name="light", parent=world, light=Light(direction=lambda: tuple(unit(np.random.normal(size=3)))))
    r = simulate(Scene(world), 64 * 64 * 3, workers=64, record_every=0, seed=1)
    rec = r.recorders["out"]
    ctx.count("huge_bins")
    ctx.expect(rec.rays == r.num_rays and int(np.sum(rec.histogram(0)[-1])) == r.num_rays, "recorder:huge",
               "a large heatmap lost rays", got=(rec.rays, r.num_rays))


def unit(v):
    return v / np.linalg.norm(v)


def tsan_case(ctx):
    from pvtrace.engine import simulate
    rng = ctx.rng
    S = random_scene(rng, max_nodes=int(rng.choice([3, 6])), strength=float(rng.choice([0.5, 2])))
    attach_recorders(rng, S, n=int(rng.choice([3, 12, 40])))
    scene = S.build()
    for _ in range(3):
        n = int(rng.choice([40, 129, 700, 1500]))
        kw = dict(maxsteps=int(rng.choice([5, 60, 200])), max_events=int(rng.choice([8, 128, 410])), seed=int(rng.integers(0, 2**31)),
                  record_every=int(rng.choice([0, 1, 1, 2, 7])), workers=int(rng.choice([2, 3, 4, 8, 24])))
        attempt(ctx, scene, n, **kw)
        ctx.seen("distinct", (S.shape_signature(), n, tuple(sorted(kw.items()))))


def tsan_threads_case(ctx):
    """Several simulations at the same time in one process."""
    from pvtrace.engine import simulate
    rng = ctx.rng
    scenes = []
    for _ in range(3):
        S = random_scene(rng, max_nodes=4)
        attach_recorders(rng, S, n=5)
        scenes.append(S.build())
    errors = []

    def body(k):
        try:
            for w in (2, 3):
                simulate(scenes[k], 300, workers=w, maxsteps=60, seed=k)
        except Exception as e:      # noqa
            errors.append(repr(e))
    ts = [threading.Thread(target=body, args=(k,)) for k in range(3)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ctx.expect(not errors, "threads:error", f"concurrent simulations failed: {errors[:1]}")
    ctx.count("concurrent_runs", 6)
    ctx.seen("distinct", ("threads", ctx.idx))


def init_case(ctx, paths):
    """The same calls on two kernels whose uninitialised memory differs."""
    real = np.empty, np.empty_like
    outs = []
    state = ctx.rng.bit_generator.state
    for path, byte in zip(paths, (0x00, 0xCB)):
        kernelbuild.inject(path)

        def poison(fn):
            def f(*a, **k):
                x = fn(*a, **k)
                if x.dtype.kind in "biuf" and x.flags.c_contiguous and x.size:
                    x.reshape(-1).view(np.uint8)[:] = byte
                return x
            return f
        np.empty, np.empty_like = poison(real[0]), poison(real[1])
        try:
            ctx.rng.bit_generator.state = state
            if ctx.idx % 3 == 0:
                outs.append(random_case(ctx))
            else:
                outs.append(special_case(ctx, ctx.idx % 3 == 2))
        finally:
            np.empty, np.empty_like = real
    ctx.count("init_comparisons", len(outs[0]))
    ctx.expect(outs[0] == outs[1], "uninitialised", "results depend on uninitialised memory", a=outs[0], b=outs[1])


def worker_main():
    chk = common.Check("C13", "worker", assumptions=ASSUME)
    paths = os.environ["C13_KERNEL"].split(":")
    if MODE == "asan":
        kernelbuild.inject(paths[0])
        chk.run_cases(random_case, "asan-random", common.scale(120, 2500))
        chk.run_cases(special_case, "asan-limits", common.scale(64, 900), args=(False,))
        chk.run_cases(special_case, "asan-hostile", common.scale(200, 4000), args=(True,))
        chk.run_cases(beyond_case, "asan-beyond", common.scale(8, 40))
        chk.run_cases(bins_case, "asan-bins", common.scale(1, 4), procs=2)
    elif MODE == "tsan":
        kernelbuild.inject(paths[0])
        chk.run_cases(tsan_case, "tsan-random", common.scale(60, 900))
        chk.run_cases(tsan_threads_case, "tsan-threads", common.scale(12, 120))
    elif MODE == "init":
        chk.run_cases(init_case, "init", common.scale(90, 1500), args=(paths,))
    with open(os.environ["C13_OUT"], "wb") as f:
        pickle.dump((dict(chk.counters), dict(chk.sets), chk.violations, chk.samples, chk.problems), f)


def lib(name):
    return subprocess.check_output(["gcc", f"-print-file-name={name}"], text=True).strip()


def run_mode(chk, mode, kernels, tmp):
    out = os.path.join(tmp, mode + ".pkl")
    log = os.path.join(tmp, mode + ".log")
    gomp = open(os.path.join(tmp, mode + ".regions"), "a+b")
    env = dict(os.environ, C13_MODE=mode, C13_KERNEL=":".join(kernels), C13_OUT=out, OPENBLAS_NUM_THREADS="1",
               VERIF_WALL=str(max(60, int(chk.remaining() - 20))))
    prefix = []
    if mode == "asan":
        env["LD_PRELOAD"] = lib("libasan.so") + ":" + lib("libubsan.so")
        env["ASAN_OPTIONS"] = f"detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:log_path={log}:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = f"abort_on_error=1:halt_on_error=1:print_stacktrace=1:log_path={log}"
    elif mode == "tsan":
        env["LD_PRELOAD"] = lib("libtsan.so")
        env["TSAN_OPTIONS"] = f"halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:log_path={log}:history_size=4"
        env["MINIGOMP_LOG"] = str(gomp.fileno())
        env["MINIGOMP_SEED"] = str(common.SEED)
    for prefix in ([], ["setarch", "-R"]):
        r = subprocess.run(prefix + [sys.executable, os.path.abspath(__file__)], env=env, capture_output=True, text=True,
                           pass_fds=[gomp.fileno()], timeout=max(60, chk.remaining()))
        if os.path.exists(out):
            break
        if mode != "tsan":
            break
    if not os.path.exists(out):
        chk.problems.append(f"{mode} worker failed ({r.returncode}): {r.stderr[-600:]}")
        return
    counters, sets, violations, samples, problems = pickle.load(open(out, "rb"))
    reports = []
    for f in sorted(glob.glob(log + "*")):
        reports.append(open(f, errors="replace").read())
    if r.stderr:
        reports += re.findall(r"(?s)(?:runtime error|ERROR: \w+Sanitizer|WARNING: \w+Sanitizer).*", r.stderr)[:3]
    summaries = [m.strip() for t in reports for m in re.findall(r"(?:SUMMARY: .*|.*runtime error: .*)", t)]
    for v in violations:
        if v["key"].startswith("crash:"):
            v["key"] = f"{mode}:{v['key']}"
            v["what"] += " (" + "; ".join(summaries[:2])[:300] + ")"
            v["detail"]["report"] = "\n".join(reports)[:1400]
    # a report without a crash (an option was ignored) is a violation all the same
    if summaries and not any(v["key"].startswith(mode + ":crash") for v in violations):
        violations.append({"key": f"{mode}:report", "what": summaries[0][:300], "case": [mode, 0], "detail": {"report": reports[0][:1400]}})
    chk._merge({f"{mode}_{k}" if k not in ("evaluations", "oracle_evaluations", "cases") else k: v for k, v in counters.items()},
               sets, violations, samples, [])
    chk.problems += [f"{mode}: {p}" for p in problems]
    chk.counters[f"{mode}_reports"] += len(reports)
    gomp.seek(0)
    for line in gomp.read().decode().splitlines():
        f = line.split()
        if len(f) == 5 and f[0] == "region":
            chk.counters[f"{mode}_regions"] += 1
            chk.counters[f"{mode}_regions_parallel"] += int(f[2]) > 1
            chk.sets["team_shapes"].add(f"{f[1]},{f[2]},{f[3]},{f[4]}".encode())
    gomp.close()


def main():
    chk = common.Check("C13", "a scene and call (size, budgets, stride, workers) run on an instrumented kernel", assumptions=ASSUME)
    tmp = kernelbuild.scratch("verif-c13-")
    c = kernelbuild.cythonize(tmp)
    want = ["asan", "tsan", "initzero", "initpattern"]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        libs = dict(zip(want, ex.map(lambda v: kernelbuild.compile_c(c, v), want)))
    for mode, kernels in (("asan", [libs["asan"]]), ("tsan", [libs["tsan"]]), ("init", [libs["initzero"], libs["initpattern"]])):
        if common.ONLY and not common.ONLY.startswith(mode):
            continue
        run_mode(chk, mode, kernels, tmp)
    chk.require("asan_runs", 500)
    chk.require("asan_refused", 1)
    chk.require("asan_at_limits", 4)
    chk.require("tsan_regions_parallel", 50)
    chk.require("init_init_comparisons", 100)
    chk.finish()


worker_main() if MODE else main()
