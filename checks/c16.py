"""C16: parallel simulation delivers every ray exactly once and independently.

Every photon is tagged through the public light API: a wavelength delegate
writes each wavelength it hands out to an append-only log, so what the workers
emitted is known without looking at the code that delivers it.
"""
import collections
import multiprocessing
import os
import signal
import struct
import tempfile
import threading
import time

import numpy as np
import common
common.setup_path()
import tracework
from scenes import random_scene
from tracemon import Monitor

TERMINAL = {"EXIT", "NONRADIATIVE", "REACT", "KILL"}


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


class Tag:
    """Wavelength delegate: a number of its own for every ray of the run, logged.

    `plan` slows down some of the processes, in the order they come to life."""

    def __init__(self, path, plan):
        self.path, self.plan = path, plan
        self.pid = None

    def __call__(self):
        pid = os.getpid()
        fd = os.open(self.path, os.O_CREAT | os.O_APPEND | os.O_RDWR)
        try:
            if self.pid != pid:
                self.pid = pid
                first = {}
                for p, _ in _records(self.path):
                    first.setdefault(p, len(first))
                self.delay = self.plan[len(first) % len(self.plan)]
            w = 400.0 + (int.from_bytes(os.urandom(6), "big")) * 2.0 ** -41     # 400..528, exact
            os.write(fd, struct.pack("<qd", pid, w))
        finally:
            os.close(fd)
        if self.delay:
            time.sleep(self.delay)
        return w

    def __getstate__(self):
        return dict(path=self.path, plan=self.plan, pid=None)


def _records(path):
    if not os.path.exists(path):
        return []
    b = open(path, "rb").read()
    return [struct.unpack_from("<qd", b, i) for i in range(0, len(b) // 16 * 16, 16)]


class Fails:
    def __init__(self, inner, after):
        self.inner, self.after, self.k = inner, after, 0

    def __call__(self):
        self.k += 1
        if self.k > self.after:
            raise RuntimeError("planned failure of a light")
        return self.inner()


def kill_children():
    import gc
    import psutil
    gc.collect()                    # pools nobody closed end here
    for c in psutil.Process().children(recursive=True):
        try:
            c.kill()
        except psutil.Error:
            pass


def wanted(event, meta):
    """End rays, read off the property."""
    name = event.name
    if name == "GENERATE" or name in TERMINAL:
        return True
    if name == "TRANSMIT":
        return meta["hit"] in (meta["adjacent"], meta["container"])
    if name == "REFLECT":
        return meta["hit"] == meta["adjacent"] and meta["hit"] != meta["container"]
    return False


def pack(ray, event, meta):
    m = {k: (tuple(float(x) for x in v) if k == "normal" else v) for k, v in (meta or {}).items()}
    return (event.name, tuple(map(float, ray.position)), tuple(map(float, ray.direction)), float(ray.wavelength),
            str(ray.source), float(ray.travelled), float(ray.duration), tuple(sorted(m.items())))


def simulate(ctx, scene, n, workers, mode, end_rays=False, seed=None, slow=0.0):
    """Runs Scene.simulate; histories as [[(ray, event, meta)]] with identities (queue) or None."""
    if mode == "return":
        out = scene.simulate(n, workers=workers, seed=seed)
        return [(None, [(x[0], x[1], None) for x in h]) for h in out]
    m = multiprocessing.Manager()
    try:
        bounded = mode == "bounded"
        q = m.Queue(maxsize=int(ctx.rng.choice([1, 7, 500]))) if bounded else m.Queue()
        items, stop = [], threading.Event()

        def drain(last=False):
            while True:
                try:
                    items.append(q.get(True, 0.05))
                    if slow and ctx.counters["queue_items"] % 50 == 0:
                        time.sleep(slow)
                    ctx.counters["queue_items"] += 1
                except Exception:
                    if stop.is_set():
                        return
        t = threading.Thread(target=drain, daemon=True)
        if bounded:
            t.start()
        try:
            scene.simulate(n, workers=workers, seed=seed, queue=q, end_rays=end_rays)
        finally:
            stop.set()
            if bounded:
                t.join(60)
        if not bounded:
            drain()
    finally:
        m.shutdown()
    groups = collections.OrderedDict()
    switches = 0
    prev = None
    for it in items:
        key = tuple(it[:2])
        switches += key[0] != prev
        prev = key[0]
        groups.setdefault(key, []).append(tuple(it[2:5]))
    ctx.count("process_switches", switches)
    ctx.count("queue_events", len(items))
    return [(k, v) for k, v in groups.items()]


def complete(ctx, label, found, total, **d):
    """Each identity is exactly one history."""
    ctx.expect(len(found) == total, f"{label}:count", f"{len(found)} histories for {total} rays", **d)
    for key, h in found:
        names = [e.name for _, e, _ in h]
        if not ctx.expect(names and names[0] == "GENERATE" and names.count("GENERATE") == 1, f"{label}:start",
                          f"the events of ray {key} start {names[:5]} ({names.count('GENERATE')} generations)", **d):
            continue
        t = [i for i, x in enumerate(names) if x in TERMINAL]
        ctx.expect(t == [len(names) - 1], f"{label}:end", f"the events of ray {key} end {names[-4:]} (terminals at {t})", **d)
        w = [r.travelled for r, _, _ in h]
        ctx.expect(all(b >= a - 1e-12 for a, b in zip(w, w[1:])), f"{label}:order", f"events of ray {key} are out of order: {w[:8]}", **d)


def lights_of(scene):
    return [nd.light for nd in scene.light_nodes]


def draw(rng):
    workers = int(rng.choice([1, 2, 2, 3, 4, 5, 7, 8]))
    n = int(rng.choice([0, 1, 2, workers - 1, workers, workers + 1, 2 * workers, 3 * workers - 1, 17, 50, 101,
                        int(rng.integers(1, 120))]))
    return workers, n


def setup(seconds=150):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)


def tagged_case(ctx):
    """Passive scenes: nothing is random but the rays, each history can be
    traced again from its first ray."""
    from pvtrace.algorithm import photon_tracer
    setup()
    rng = ctx.rng
    S = random_scene(rng, kinds=("box", "sphere", "cylinder"), max_nodes=int(rng.choice([2, 4, 6])), comps=False)
    for nd in S.nodes:                  # one refractive index: only undirected transmissions
        nd.n, nd.surface = 1.0, "fresnel"
    scene = S.build()
    workers, n = draw(rng)
    mode = str(rng.choice(["return", "queue", "queue", "bounded"]))
    end = bool(rng.random() < 0.4) and mode != "return"
    plan = rng.choice([0, 0, 0.002, 0.01, 0.05], size=workers).tolist()
    tmp = tempfile.mkdtemp(prefix="verif-c16-")
    try:
        tag = Tag(os.path.join(tmp, "log"), plan)
        for l in lights_of(scene):
            l.wavelength = tag
        w = None if rng.random() < 0.1 else workers
        state = np.random.get_state()
        np.random.seed(int(rng.integers(0, 2**31)))
        conf = dict(workers=w, n=n, mode=mode, end=end, plan=plan)
        try:
            found = simulate(ctx, scene, n, w, mode, end, slow=float(rng.choice([0, 0.02])))
        except Hang:
            ctx.violation("hang", "the simulation did not finish within 150 s", **conf)
            return
        finally:
            kill_children()
            signal.alarm(0)
        log = _records(os.path.join(tmp, "log"))
        complete(ctx, mode if mode == "return" else "queue", found, n, **conf)
        ctx.seen("distinct", (mode, end, w, n, tuple(plan)))
        ctx.seen("processes", len({p for p, _ in log}))
        ctx.count("rays", n)
        ctx.count(f"rays_{mode}", n)
        got = collections.Counter(round(h[0][0].wavelength * 2**41) for _, h in found if h)
        sent = collections.Counter(round(x * 2**41) for _, x in log)
        ctx.expect(got == sent, "exactly-once", f"{len(sent - got)} of {sum(sent.values())} emitted rays were not delivered, "
                   f"{len(got - sent)} of {sum(got.values())} delivered were never emitted or twice", **conf)
        # each worker's rays are its own
        pos = [tuple(h[0][0].direction) + tuple(h[0][0].position) for _, h in found if h]
        if all(l.position is not None or l.direction is not None for l in S.lights):
            ctx.expect(len(set(pos)) == len(pos), "independent", f"{len(pos) - len(set(pos))} of {len(pos)} initial rays are repeated", **conf)
        used = collections.Counter(str(h[0][0].source) for _, h in found if h)
        if w is not None and (workers == 1 or n < workers):
            want = sorted(len(range(i, n, len(S.lights))) for i in range(len(S.lights)))
            have = sorted(used[l.name] for l in S.lights)
            ctx.expect(want == have, "lights", f"the lights emitted {have} of {n} rays, not {want}", **conf)
        for key, h in found:
            if not h:
                continue
            ctx.expect(len({round(r.wavelength * 2**41) for r, _, _ in h}) == 1, "mixed", f"the events of ray {key} come from several rays", **conf)
            want = list(photon_tracer.step_forward(scene, h[0][0]))
            if end:
                want = [x for x in want if wanted(x[1], x[2])]
            if mode == "return":
                want = [pack(r, e, None)[:-1] for r, e, _ in want]
                have = [pack(x[0], x[1], None)[:-1] for x in h]
            else:
                want, have = [pack(*x) for x in want], [pack(*x) for x in h]
            ctx.count("histories_retraced")
            ctx.count("events_compared", len(want))
            ctx.expect(want == have, "history", f"the events of ray {key} are not those of its path", want=want[:6], have=have[:6], **conf)
        ctx.sample(dict(conf, scene=S.spec()))
        np.random.set_state(state)
    finally:
        common_rmtree(tmp)


def common_rmtree(p):
    import shutil
    shutil.rmtree(p, ignore_errors=True)


def random_case(ctx):
    """Scenes with absorption, emission, scattering, reflection: every history is
    judged by the event monitor; end rays against the full log of the same seed."""
    setup()
    rng = ctx.rng
    for _ in range(12):     # trapped photons make 1000 events each: enough interactions, but not that many
        S = random_scene(rng, kinds=("box", "sphere", "cylinder"), max_nodes=int(rng.choice([3, 5])), strength=float(rng.choice([0.5, 2.0])))
        scene = S.build()
        probe = list(tracework.python_histories(scene, 12))
        if np.mean([len(h) for h in probe]) < 40 and any(e.name in ("EMIT", "SCATTER") for h in probe for _, e, _ in h):
            break
    length = np.mean([len(h) for h in probe])
    workers, n = draw(rng)
    n = max(1, min(n, int(1500 / length)))
    conf = dict(workers=workers, n=n)
    ctx.seen("distinct", ("random", workers, n, S.shape_signature()))
    try:
        np.random.seed(int(rng.integers(0, 2**31)))
        mode = str(rng.choice(["queue", "bounded"]))
        found = simulate(ctx, scene, n, workers, mode)
        complete(ctx, "queue", found, n, **conf)
        mon = Monitor(ctx, S, "python", ("life", "kin", "geo"), maxsteps=1000, emit_method="kT")
        for _, h in found:
            mon.history(h)
        # emitted rays are nobody else's
        tails = collections.Counter()
        for _, h in found:
            for (r, e, _) in h:
                if e.name in ("EMIT", "SCATTER"):
                    tails[tuple(np.round(r.direction, 12)) + tuple(np.round(r.position, 12))] += 1
        rep = [k for k, v in tails.items() if v > 1]
        ctx.count("emissions", len(tails))
        ctx.expect(not rep, "independent-emission", f"{len(rep)} emissions of different photons coincide", **conf)
        # reproducibility with one worker
        seed = int(rng.choice([0, 1, rng.integers(0, 2**31 - 1)]))
        a = simulate(ctx, scene, n, 1, "queue", seed=seed)
        b = simulate(ctx, scene, n, 1, "queue", seed=seed)
        fa, fb = [[pack(*x) for x in h] for _, h in a], [[pack(*x) for x in h] for _, h in b]
        ctx.expect(fa == fb, "reproducible", f"seed {seed} gives two different sequences of histories", **conf)
        r = simulate(ctx, scene, n, 1, "return", seed=seed)
        ctx.expect([[x[:-1] for x in h] for h in fa] == [[pack(x[0], x[1], None)[:-1] for x in h] for _, h in r],
                   "return-queue", f"seed {seed} returns other histories than it queues", **conf)
        c = simulate(ctx, scene, n, 1, "queue", end_rays=True, seed=seed)
        fc = [[pack(*x) for x in h] for _, h in c]
        want = [[pack(*x) for x in h if wanted(x[1], x[2])] for _, h in a]
        ctx.count("end_rays_compared", sum(map(len, want)))
        for x in want:
            ctx.seen("end_ray_sequences", tuple(e[0] for e in x))
        ctx.expect(fc == want, "end-rays", "the end rays are not the crossings, generation and terminal events of the full log", seed=seed,
                   first=next(((x, y) for x, y in zip(want, fc) if x != y), None), **conf)
        d = simulate(ctx, scene, n, 1, "queue", seed=seed + 1)
        ctx.expect(n < 3 or [[pack(*x) for x in h] for _, h in d] != fa, "seeds", "two seeds give the same histories", **conf)
        # end rays whatever the number of workers and rays: nothing else, and nothing of them missing
        k = int(rng.choice([n, max(1, workers - 1), 1, min(n, workers + 2)]))
        e = simulate(ctx, scene, k, workers, str(rng.choice(["queue", "bounded"])), end_rays=True)
        complete(ctx, "end-rays-workers", e, k, workers=workers, n=k)
        for key, h in e:
            ctx.count("end_rays_judged", len(h))
            other = [x.name for _, x, m in h if not wanted(x, m)]
            ctx.expect(not other, "end-rays-only", f"the end rays of ray {key} ({k} rays, {workers} workers) include {other[:5]}", names=[x.name for _, x, _ in h][:20])
        # a seed with several workers: refused, or at least not the same rays in each of them
        if workers > 1 and n >= workers:
            try:
                e = simulate(ctx, scene, n, workers, "queue", seed=seed)
            except ValueError:
                ctx.count("seed_refused")
            else:
                pos = [tuple(h[0][0].direction) + tuple(h[0][0].position) + (h[0][0].wavelength,) for _, h in e]
                ctx.expect(len(set(pos)) == len(pos) or len(S.lights) == 0, "seeded-workers", "workers sharing a seed trace the same rays", **conf)
        # a worker's failure is reported
        l = lights_of(scene)[0]
        after = int(rng.integers(0, 3))
        l.wavelength = Fails(l.wavelength, after)
        k = len(lights_of(scene)) * (after + 1) * workers + 1
        mode = str(rng.choice(["return", "queue"]))
        try:
            found = simulate(ctx, scene, k, workers, mode)
        except Hang:
            raise
        except RuntimeError as exc:
            ctx.expect("planned failure" in str(exc), "failure", f"a failing light is reported as {exc!r}")
            ctx.count("failures_reported")
        else:
            ctx.violation("failure:silent", f"a light failed in a worker and the simulation returned {len(found)} of {k} histories", **conf)
    except Hang:
        ctx.violation("hang", "the simulation did not finish within 150 s", **conf)
    finally:
        signal.alarm(0)
        kill_children()


def main():
    chk = common.Check("C16", "one run of Scene.simulate", assumptions=tracework.BASE_ASSUMPTIONS + [
        "Scenes are picklable, workers are processes started by fork and are not killed from outside.",
        "Delays are injected through the lights' delegates and a bounded, slowly emptied queue."])
    import pvtrace  # noqa: F401
    chk.run_cases(tagged_case, "tagged", common.scale(64, 900), procs=8)
    chk.run_cases(random_case, "random", common.scale(24, 200), procs=8)
    chk.require("rays", 800)
    chk.require("queue_events", 10000)
    chk.require("process_switches", 200)
    chk.require("histories_retraced", 500)
    chk.require("end_rays_compared", 500)
    chk.require("end_rays_judged", 100)
    chk.require("failures_reported", 10)
    chk.finish()


main()
