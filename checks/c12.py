"""C12: engine results depend only on the scene and seeds, not on scheduling."""
import collections
import threading

import numpy as np
import common
common.setup_path()
import kernelbuild
import stats
from recorders import attach_recorders
from scenes import random_scene

def flat(h):
    return tuple((e.name, tuple(r.position), tuple(r.direction), r.wavelength, r.travelled, r.duration, r.source,
                  tuple(sorted((k, v if isinstance(v, (str, type(None))) else tuple(v)) for k, v in m.items())))
                 for r, e, m in h)


def tallies(results):
    """Summed public recorder results of one or more runs."""
    out = {}
    for r in results:
        for name, rec in r.recorders.items():
            mom = [rec.mean(m) * rec.rays if rec.rays else 0.0 for m in ("wavelength", "angle", "duration", "pathlength")]
            sq = [(rec.std(m) ** 2 + rec.mean(m) ** 2) * rec.rays if rec.rays else 0.0
                  for m in ("wavelength", "angle", "duration", "pathlength")]
            bins = [np.asarray(rec.histogram(i)[-1]).copy() for i in range(len(rec.spec.histograms))]
            if name not in out:
                out[name] = [rec.rays, rec.crossings, np.array(mom + sq), bins]
            else:
                o = out[name]
                o[0] += rec.rays
                o[1] += rec.crossings
                o[2] = o[2] + np.array(mom + sq)
                o[3] = [a + b for a, b in zip(o[3], bins)]
    return out


def same_tallies(ctx, a, b, key, what, **d):
    ctx.count("tally_comparisons", len(a))
    if not ctx.expect(set(a) == set(b), key + ":names", "recorder names differ " + what, **d):
        return
    for name in a:
        x, y = a[name], b[name]
        ctx.expect(x[0] == y[0] and x[1] == y[1] and all(np.array_equal(p, q) for p, q in zip(x[3], y[3])),
                   key + ":counts", f"recorder counts differ {what}", recorder=name, a=x[:2], b=y[:2], **d)
        ctx.expect(bool(np.all(np.abs(x[2] - y[2]) <= 1e-9 * np.maximum(np.abs(x[2]), np.abs(y[2])) + 1e-30)),
                   key + ":moments", f"recorder moments differ {what}", recorder=name, a=x[2].tolist(), b=y[2].tolist(), **d)


def compare_histories(ctx, ref, idx, got, key, what, **d):
    """got: list of flat histories expected to be ref[i] for i in idx."""
    ctx.count("history_comparisons", len(got))
    if not ctx.expect(len(got) == len(idx), key + ":number", f"{len(got)} histories instead of {len(idx)} {what}", **d):
        return
    bad = [i for i, g in zip(idx, got) if g != ref[i]]
    ctx.expect(not bad, key + ":history", f"histories of {len(bad)} of {len(idx)} rays differ {what}", rays=bad[:10], **d)


def same_events(ctx, r, hs, what):
    """event_counts() of a result against its own histories."""
    c = collections.Counter(x[0] for h in hs for x in h)
    got = {k.name: v for k, v in r.event_counts().items() if v}
    ctx.count("event_counts_compared")
    ctx.expect(got == dict(c), "event_counts", f"event_counts() differs from the histories {what}", got=got, want=dict(c))


def schedule_case(ctx):
    from pvtrace.engine import simulate
    rng = ctx.rng
    S = random_scene(rng, max_nodes=int(rng.choice([3, 6, 10])), strength=float(rng.choice([0.5, 2.0])))
    attach_recorders(rng, S, n=int(rng.choice([2, 8, 30])))
    scene = S.build()
    n = int(rng.choice([1, 63, 65, 300, 1000, 2500]))
    seed = int(rng.choice([0, 1, rng.integers(0, 2**31), 2**32 + 5]))
    es = int(rng.integers(0, 2**31))
    maxsteps = int(rng.choice([20, 200, 700]))
    method = str(rng.choice(["kT", "full", "redshift"]))

    def run(**kw):
        np.random.seed(es)
        kw.setdefault("max_events", 2 * maxsteps + 6)
        return simulate(scene, n, seed=seed, maxsteps=maxsteps, emit_method=method, **kw)

    ref_r = run(workers=1)
    ref = [flat(h) for h in ref_r.histories()]
    ref_t = tallies([ref_r])
    ctx.expect(len(ref) == n, "one-worker:number", f"{len(ref)} histories of {n} rays")
    ctx.count("events", sum(map(len, ref)))
    ctx.seen("distinct", (S.shape_signature(), n, maxsteps))
    ctx.sample({"scene": S.spec(), "rays": n, "maxsteps": maxsteps})
    for w in list(rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16, 64], size=4, replace=False)) + [None]:
        w = None if w is None else int(w)
        r = run(workers=w)
        compare_histories(ctx, ref, range(n), [flat(h) for h in r.histories()], "workers",
                          f"between one and {w} workers", workers=w, rays_total=n)
        same_tallies(ctx, ref_t, tallies([r]), "workers", f"between one and {w} workers", workers=w)
        ctx.seen("worker_counts", w)
    r = run(workers=1)
    compare_histories(ctx, ref, range(n), [flat(h) for h in r.histories()], "repeat", "when repeated")
    for k in list(rng.choice([2, 3, 5, 64, 1000], size=2, replace=False)) + [0, n + 3]:
        k, w = int(k), int(rng.integers(1, 9))
        r = run(workers=w, record_every=k)
        want = list(range(0, n, k)) if k else []
        ctx.expect([int(x) for x in r.recorded_indices] == want, "stride:indices", f"recorded indices with stride {k}",
                   got=list(r.recorded_indices)[:10])
        some = [flat(h) for h in r.histories()]
        compare_histories(ctx, ref, want, some, "stride", f"with record_every={k}", stride=k)
        same_events(ctx, r, some, f"with record_every={k}")
        same_tallies(ctx, ref_t, tallies([r]), "stride", f"with record_every={k}", stride=k)
        ctx.expect(r.num_rays == n and r.num_recorded == len(want), "stride:size", "num_rays/num_recorded with a stride",
                   got=(r.num_rays, r.num_recorded))
    # a larger event budget changes nothing
    r = run(workers=3, max_events=4 * maxsteps + 50)
    compare_histories(ctx, ref, range(n), [flat(h) for h in r.histories()], "budget", "with a larger event budget")
    same_tallies(ctx, ref_t, tallies([r]), "budget", "with a larger event budget")
    # an insufficient one leaves the histories that fit alone
    fits = max(2, int(np.median([len(h) for h in ref])))
    r = run(workers=2, max_events=fits)
    got = [flat(h) for h in r.histories()]
    idx = [i for i in range(n) if len(ref[i]) < fits]      # one row is kept for a kill
    same_events(ctx, r, got, f"which fill {fits} slots")
    if len(got) == n:
        compare_histories(ctx, ref, idx, [got[i] for i in idx], "budget-fit", "although they fit the event budget")
    # the other seed really is another stream
    if n >= 300:
        np.random.seed(es)
        o = simulate(scene, n, seed=seed + 1, maxsteps=maxsteps, emit_method=method, workers=2, max_events=2 * maxsteps + 6)
        other = [flat(h) for h in o.histories()]
        changed = sum(a != b for a, b in zip(other, ref))
        ctx.count("seed_changed", changed)
    same_events(ctx, ref_r, ref, "")


class Replay:
    """A light delegate returning a prepared sequence, then continuing it."""

    def __init__(self, values):
        self.values, self.k = values, 0

    def __call__(self):
        v = self.values[self.k % len(self.values)]
        self.k += 1
        return v


def deterministic_lights(rng, S, scene):
    """Give every light a prepared sequence; returns a rewind function."""
    from pvtrace import Light
    replays = []
    for spec, node in zip(S.lights, S.pv_lights):
        m = int(rng.integers(50, 400))
        d = rng.normal(size=(m, 3))
        d /= np.linalg.norm(d, axis=1)[:, None]
        e = np.array(spec.position if spec.position is not None else (0, 0, 0))
        p = (rng.random((m, 3)) * 2 - 1) * e
        reps = [Replay([float(x) for x in rng.uniform(420, 700, m)]), Replay([tuple(map(float, x)) for x in p]),
                Replay([tuple(map(float, x)) for x in d])]
        node.light = Light(wavelength=reps[0], position=reps[1], direction=reps[2], name=spec.name)
        replays += reps

    def rewind():
        for r in replays:
            r.k = 0
    return rewind


def stream_case(ctx):
    from pvtrace.engine import simulate, simulate_stream
    rng = ctx.rng
    S = random_scene(rng, max_nodes=6, n_lights=int(rng.choice([1, 2, 3, 4])))
    attach_recorders(rng, S, n=int(rng.choice([2, 8])))
    scene = S.build()
    rewind = deterministic_lights(rng, S, scene)
    n = int(rng.choice([1, 10, 97, 400, 900]))
    seed = int(rng.choice([0, 5, rng.integers(0, 2**31)]))
    maxsteps = int(rng.choice([20, 200]))
    kw = dict(seed=seed, maxsteps=maxsteps, max_events=2 * maxsteps + 6)
    rewind()
    one = simulate(scene, n, workers=2, **kw)
    ref = [flat(h) for h in one.histories()]
    ref_t = tallies([one])
    ctx.seen("distinct", ("stream", S.shape_signature(), n, len(S.lights)))
    for bundle in {1 if n <= 100 else 11, 7, 64, n, n + 10, int(rng.integers(2, 300))}:
        k = int(rng.choice([1, 1, 1, 2, 5, 0]))
        rewind()
        got, idx, rs, last, sizes = [], [], [], 0, []
        for r, traced in simulate_stream(scene, n, bundle=int(bundle), workers=int(rng.integers(1, 6)), record_every=k, **kw):
            ctx.expect(traced == last + r.num_rays, "stream:progress", f"traced count {traced} after {last} and a bundle of {r.num_rays}")
            got += [flat(h) for h in r.histories()]
            idx += [last + int(i) for i in r.recorded_indices]
            last = traced
            sizes.append(r.num_rays)
            rs.append(r)
            ctx.count("bundles")
        what = f"between one run and a stream in bundles of {bundle} with stride {k}"
        ctx.expect(last == n and sum(sizes) == n, "stream:total", f"stream traced {last} of {n} rays", sizes=sizes[:10])
        want = list(range(0, n, k)) if k else []
        ctx.expect(idx == want, "stream:stride", f"rays with histories are not every {k}-th of the run", bundle=bundle, got=idx[:12])
        if idx == want:
            compare_histories(ctx, ref, want, got, "stream", what, bundle=bundle, stride=k, lights=len(S.lights))
        same_tallies(ctx, ref_t, tallies(rs), "stream", what, bundle=bundle, stride=k)
    ctx.count("streams")


def threads_case(ctx):
    """Simulations running at the same time do not disturb each other."""
    from pvtrace.engine import simulate
    rng = ctx.rng
    jobs = []
    for _ in range(4):
        S = random_scene(rng, max_nodes=5)
        attach_recorders(rng, S, n=5)
        scene = S.build()
        jobs.append((scene, deterministic_lights(rng, S, scene), int(rng.choice([300, 1500])), int(rng.integers(0, 2**31))))

    def run(job, workers):
        scene, rewind, n, seed = job
        rewind()
        return simulate(scene, n, seed=seed, workers=workers, maxsteps=200, max_events=410)
    want = [run(j, 1) for j in jobs]
    got = [None] * len(jobs)
    errors = []
    barrier = threading.Barrier(len(jobs))

    def body(k):
        try:
            barrier.wait()
            for _ in range(2):
                got[k] = run(jobs[k], int(1 + (k + ctx.idx) % 5))
        except Exception as e:      # noqa
            errors.append(repr(e))
    ts = [threading.Thread(target=body, args=(k,)) for k in range(len(jobs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ctx.expect(not errors, "threads:error", f"simulate failed when run from several threads: {errors[:1]}")
    for a, b in zip(want, got):
        if b is None:
            continue
        ref = [flat(h) for h in a.histories()]
        compare_histories(ctx, ref, range(len(ref)), [flat(h) for h in b.histories()], "threads",
                          "when other simulations run at the same time")
        same_tallies(ctx, tallies([a]), tallies([b]), "threads", "when other simulations run at the same time")
    ctx.count("concurrent_runs", len(jobs))


def streams_case(ctx):
    """Random streams of rays and seeds are distinct and independent: identical
    rays in a scattering medium, free paths give back the uniforms drawn."""
    from pvtrace import Light, Material, Node, Scatterer, Scene, Sphere
    from pvtrace.engine import simulate, simulate_stream
    rng = ctx.rng
    mu = 1.0
    world = Node(name="world", geometry=Sphere(radius=2000.0, material=Material(refractive_index=1.0)))
    Node(name="ball", parent=world, geometry=Sphere(radius=1000.0, material=Material(
        refractive_index=1.0, components=[Scatterer(coefficient=mu, quantum_yield=1.0)])))
    Node(name="l", parent=world, light=Light(wavelength=lambda: 555.0, direction=lambda: (0, 0, 1)))
    scene = Scene(world)
    n, steps = 2000, 9
    base = int(rng.choice([0, 1, 2, 7, 1000, rng.integers(0, 2**31), 2**31 - 4]))
    stride = int(rng.choice([1, 1, 2, 3, 1000, n, n // 2, 2**20, 2**16]))
    seeds = [base + k * stride for k in range(5)]
    U = []
    for s in seeds:
        if rng.random() < 0.3:
            rs = [r for r, _ in simulate_stream(scene, n, bundle=int(rng.choice([100, 777])), seed=s, workers=3, maxsteps=steps,
                                                max_events=2 * steps + 4)]
        else:
            rs = [simulate(scene, n, seed=s, workers=int(rng.integers(1, 9)), maxsteps=steps, max_events=2 * steps + 4)]
        u = np.full((n, steps - 1), np.nan)
        row = 0
        for r in rs:
            for h in r.histories():
                tr = [x[0].travelled for x in h if x[1].name in ("GENERATE", "SCATTER")]
                f = np.exp(-mu * np.diff(tr))[:steps - 1]
                u[row, :len(f)] = f
                row += 1
        U.append(u)
    U = np.array(U)
    ctx.seen("distinct", ("seeds", base, stride))
    ctx.count("draws", int(np.isfinite(U).sum()))
    first = U[:, :, 0]
    k = len(np.unique(np.round(first, 13)))
    ctx.expect(k >= first.size - 3, "streams:first", f"only {k} of {first.size} rays have a first free path of their own",
               seeds=seeds)
    flatu = np.round(U[np.isfinite(U)], 13)
    k = len(np.unique(flatu))
    ctx.expect(k >= flatu.size - 6, "streams:overlap", f"only {k} of {flatu.size} free paths of different rays are distinct: "
               "random streams overlap", seeds=seeds)
    tests = {"first": first.ravel(), "second": U[:, :, 1].ravel(),
             "neighbours": ((first[:, 1:] - first[:, :-1]) % 1).ravel(),
             "neighbours2": ((first[:, 2:] - first[:, :-2]) % 1).ravel(),
             "seeds": ((first[1:] - first[:-1]) % 1).ravel(),
             "within": ((U[:, :, 1] - U[:, :, 0]) % 1).ravel(),
             "cross": ((U[:, 1:, 0] - U[:, :-1, 1]) % 1).ravel()}
    for name, v in tests.items():
        p, desc = stats.uniform(v[np.isfinite(v)], name)
        ctx.count("independence_tests")
        ctx.expect(p > stats.ALPHA, f"streams:{name}", f"random streams are not independent: {desc} p={p:.1e}", seeds=seeds)


def many_case(ctx):
    """No two of a great many identical rays share a stream: beyond the 2**16
    and 2**17 rays at which shortened stream numbers would wrap around."""
    from pvtrace import Light, Material, Node, Reactor, Scene, Sphere
    from pvtrace.engine import simulate, simulate_stream
    rng = ctx.rng
    world = Node(name="world", geometry=Sphere(radius=2000.0, material=Material(refractive_index=1.0)))
    Node(name="ball", parent=world, geometry=Sphere(radius=1000.0, material=Material(
        refractive_index=1.0, components=[Reactor(coefficient=1.0)])))
    Node(name="l", parent=world, light=Light(wavelength=lambda: 555.0, direction=lambda: (0, 0, 1)))
    scene = Scene(world)
    n = common.scale(150000, 600000)
    s = int(rng.integers(0, 2**31))
    if rng.random() < 0.5:
        rs = [simulate(scene, n, seed=s, workers=8, max_events=4)]
    else:
        rs = [r for r, _ in simulate_stream(scene, n, bundle=int(rng.choice([7000, 40000, 70000])), seed=s, workers=8, max_events=4)]
    d = np.array([h[-1][0].travelled for r in rs for h in r.histories()])
    ctx.count("long_run_rays", len(d))
    ctx.expect(len(d) == n, "many:rays", f"{len(d)} histories of {n} rays", seed=s)
    k = len(np.unique(d))
    ctx.seen("distinct", ("many", s))
    ctx.expect(k >= n - 6, "many:overlap", f"only {k} of {n} identical rays have a free path of their own", seed=s)
    p, desc = stats.uniform(np.exp(-d), "many")
    ctx.expect(p > stats.ALPHA, "many:law", f"{desc} p={p:.1e}", seed=s)


def main():
    chk = common.Check("C12", "a scene run under several schedules, strides or bundle sizes", assumptions=[
        "'The same emitted rays' is arranged by reseeding numpy's generator (same call pattern) or by lights that replay a "
        "prepared sequence (bundles).", "Sums of moments may differ by 1e-9 relative.", "Seeds are non-negative."])
    kernelbuild.use_release_kernel()
    chk.run_cases(schedule_case, "schedule", common.scale(40, 500))
    chk.run_cases(stream_case, "stream", common.scale(40, 400))
    chk.run_cases(threads_case, "threads", common.scale(10, 100))
    chk.run_cases(streams_case, "streams", common.scale(16, 150))
    chk.run_cases(many_case, "many", common.scale(4, 12), procs=2)
    chk.require("long_run_rays", common.scale(600000, 5000000))
    chk.require("history_comparisons", 50000)
    chk.require("tally_comparisons", 1000)
    chk.require("bundles", 1000)
    chk.require("draws", 500000)
    chk.require("concurrent_runs", 20)
    chk.require("event_counts_compared", 60)
    chk.finish()


main()
