"""C17: the simulation database records every event exactly once, per photon.

The `simulate` command runs through its public entry point.  What reaches the
writer is recorded by a tee around the queue the command hands to
`Scene.simulate`; the finished database is compared with that record and with
the shape every photon's history must have.
"""
import collections
import io
import os
import pickle
import shutil
import signal
import sqlite3
import struct
import sys
import tempfile
import threading
import time
import traceback

import numpy as np
import common
common.setup_path()
import docs
import tracework

TERMINAL = {"EXIT", "NONRADIATIVE", "REACT", "KILL"}


class Hang(Exception):
    pass


class Tee:
    """Queue stand-in: writes what is put to a log of the process, then passes it on."""

    def __init__(self, inner, folder, jitter=0.0):
        self.inner, self.folder, self.jitter = inner, folder, jitter

    def put(self, item, *a, **k):
        with open(os.path.join(self.folder, f"log{os.getpid()}-{threading.get_ident()}"), "ab") as fp:
            b = pickle.dumps(item)
            fp.write(struct.pack("<q", len(b)) + b)
        if self.jitter and np.random.random() < 0.1:
            time.sleep(self.jitter)
        return self.inner.put(item, *a, **k)

    def put_nowait(self, item):
        return self.put(item, False)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("inner", "folder", "jitter"):
            raise AttributeError(name)
        return getattr(self.inner, name)


def read_logs(folder):
    out = []
    for f in sorted(os.listdir(folder)):
        if f.startswith("log"):
            b = open(os.path.join(folder, f), "rb").read()
            k, one = 0, []
            while k < len(b):
                n, = struct.unpack_from("<q", b, k)
                one.append(pickle.loads(b[k + 8:k + 8 + n]))
                k += 8 + n
            out.append(one)
    return out


def photons_of(stream):
    """One process' items, cut at every generation."""
    out = []
    for it in stream:
        if it[3].name == "GENERATE" or not out:
            out.append([])
        out[-1].append(tuple(it[2:5]))
    return out


def num(x):
    return None if x is None else float(x)


def row_of(ray, event, meta):
    m = meta or {}
    n = m.get("normal")
    n = (None, None, None) if n is None else tuple(float(x) for x in n)
    g = lambda k: None if m.get(k) is None else str(m[k])
    return (tuple(float(x) for x in ray.position) + tuple(float(x) for x in ray.direction) +
            (num(ray.wavelength), None if ray.source is None else str(ray.source), num(ray.travelled), num(ray.duration)),
            (event.name, g("component"), g("hit"), g("container"), g("adjacent"), g("facet")) + n)


def database(path):
    c = sqlite3.connect("file:" + path + "?mode=ro", uri=True)
    try:
        rays = c.execute("SELECT rowid, throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration FROM ray ORDER BY rowid").fetchall()
        events = c.execute("SELECT rowid, ray_id, kind, component, hit, container, adjacent, facet, ni, nj, nk FROM event ORDER BY rowid").fetchall()
        ok = c.execute("PRAGMA integrity_check").fetchone()[0]
    finally:
        c.close()
    return rays, events, ok


def check_database(ctx, path, photons, n, conf, ordered=True):
    """photons: histories in the order their process delivered them."""
    if not ctx.expect(os.path.exists(path), "missing", "no database next to the scene", **conf):
        return
    rays, events, ok = database(path)
    ctx.expect(ok == "ok", "corrupt", f"integrity check: {ok}", **conf)
    total = sum(map(len, photons))
    ctx.count("rows", len(rays))
    ctx.count("events_delivered", total)
    ctx.expect(len(rays) == total and len(events) == total, "rows", f"{len(rays)} ray and {len(events)} event rows for {total} events", **conf)
    by = collections.Counter(e[1] for e in events)
    ids = {r[0] for r in rays}
    ctx.expect(all(v == 1 for v in by.values()) and set(by) == ids, "pairing", "event and ray rows are not paired one to one", **conf)
    ev = {e[1]: e[2:] for e in events}
    groups = collections.OrderedDict()
    for r in rays:
        groups.setdefault(r[1], []).append((tuple(r[2:]), ev.get(r[0])))
    ctx.expect(len(groups) == n, "throws", f"{len(groups)} throw ids for {n} rays", **conf)
    want = collections.Counter(tuple(row_of(*x) for x in p) for p in photons)
    got = collections.Counter(tuple(g) for g in groups.values())
    ctx.count("photons_compared", n)
    if want != got:
        lost, extra = list((want - got).elements()), list((got - want).elements())
        # tell apart wrong values from wrong grouping
        flat_w = collections.Counter(x for p in want.elements() for x in p)
        flat_g = collections.Counter(x for p in got.elements() for x in p)
        key = "values" if flat_w != flat_g else "grouping" if \
            collections.Counter(tuple(sorted(map(repr, p))) for p in want.elements()) != collections.Counter(tuple(sorted(map(repr, p))) for p in got.elements()) \
            else "order"
        ctx.violation(key, f"{len(lost)} photons are not in the database as they were delivered", wanted=lost[:1], found=extra[:1], **conf)
    for t, g in groups.items():
        kinds = [x[1][0] if x[1] else None for x in g]
        ctx.expect(kinds[0] == "GENERATE" and kinds.count("GENERATE") == 1 and kinds[-1] in TERMINAL and
                   sum(k in TERMINAL for k in kinds) == 1, "history", f"throw {t} reads {kinds}", **conf)
        ctx.seen("event_sequences", tuple(kinds))
    return groups


class SlowConnection(sqlite3.Connection):
    delay = 0.0

    def commit(self):
        super().commit()
        if self.delay and np.random.random() < 0.2:
            time.sleep(self.delay)


class Result:
    exit_code, output, exception = None, "", None


def invoke(args, cwd=None, timeout=100, input=None, room=None):
    """The command, in a process group of its own so that it cannot hang the check."""
    fd, out = tempfile.mkstemp(prefix="verif-c17o-")
    os.close(fd)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setsid()
            err = os.open(out + ".err", os.O_CREAT | os.O_WRONLY)
            os.dup2(err, 2)
            from typer.testing import CliRunner
            from pvtrace.cli.main import app
            if cwd:
                os.chdir(cwd)
            if room:
                import resource
                resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
            res = CliRunner().invoke(app, args, input=input)
            exc = res.exception
            if exc is not None and not isinstance(exc, SystemExit):
                exc = "".join(traceback.format_exception(exc))
            else:
                exc = None
            with open(out, "wb") as fp:
                pickle.dump((res.exit_code, res.output, exc), fp)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            import multiprocessing.util
            multiprocessing.util._exit_function()
            os._exit(code)
    end = time.time() + timeout
    try:
        while True:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                raise Hang(open(out + ".err").read()[-1500:])
            time.sleep(0.01)
        r = Result()
        b = open(out, "rb").read()
        if not b:
            raise RuntimeError("the command's process died: " + open(out + ".err").read()[-1500:])
        r.exit_code, r.output, r.exception = pickle.loads(b)
        r.stderr = open(out + ".err").read()
        return r
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        for f in (out, out + ".err"):
            if os.path.exists(f):
                os.unlink(f)


def with_patches(scene_simulate=None, slow=0.0):
    """Context: Scene.simulate replaced, commits slowed down."""
    import contextlib

    @contextlib.contextmanager
    def cm():
        from pvtrace import Scene
        orig_sim, orig_connect = Scene.simulate, sqlite3.connect
        if slow:
            class C(SlowConnection):
                delay = slow

            def connect(*a, **k):
                k.setdefault("factory", C)
                return orig_connect(*a, **k)
            sqlite3.connect = connect
        if scene_simulate:
            Scene.simulate = scene_simulate(orig_sim)
        try:
            yield
        finally:
            Scene.simulate, sqlite3.connect = orig_sim, orig_connect
    return cm()


def tee_simulate(folder, jitter):
    def make(orig):
        def simulate(self, *a, **k):
            a = [Tee(x, folder, jitter) if hasattr(x, "put") else x for x in a]
            k = {n: Tee(x, folder, jitter) if hasattr(x, "put") else x for n, x in k.items()}
            return orig(self, *a, **k)
        return simulate
    return make


def write_scene(rng, folder, name="scene.yml", simple=True):
    doc = docs.random_document(rng, folder, simple=simple, mesh=False, max_nodes=3, point_masks=False,
                               lights=int(rng.integers(1, 3)))
    path = os.path.join(folder, name)
    open(path, "w").write(docs.dump(doc))
    return doc, path


class Delay:
    """Slows a light down in some processes."""

    def __init__(self, inner, plan):
        self.inner, self.plan = inner, plan

    def __call__(self):
        d = self.plan[os.getpid() % len(self.plan)]
        if d:
            time.sleep(d)
        return self.inner()


def real_case(ctx):
    """Real simulations through the command."""
    rng = ctx.rng
    folder, logs = tempfile.mkdtemp(prefix="verif-c17-"), tempfile.mkdtemp(prefix="verif-c17l-")
    try:
        np.random.seed(int(rng.integers(0, 2**31)))
        name = str(rng.choice(["scene.yml", "a.b.yml", "scene.v2.yaml", "with space.yml"]))
        sub = os.path.join(folder, str(rng.choice(["", "deep"])))
        os.makedirs(sub, exist_ok=True)
        doc, path = write_scene(rng, sub, name)
        workers = int(rng.choice([1, 2, 3, 4, 6]))
        n = int(rng.choice([0, 1, workers, workers + 1, 9, 23, 40]))
        end = bool(rng.random() < 0.4)
        args = ["simulate", path, "-r", str(n), "-w", str(workers)]
        if workers != 1 and rng.random() < 0.15:
            args = ["simulate", path, "--rays", str(n)]
        seeded = workers == 1 and rng.random() < 0.5
        if seeded:
            args += ["--seed", str(int(rng.integers(0, 1000)))]
        if end:
            args.append("--end-rays")
        slow, jitter = float(rng.choice([0, 0, 0.005, 0.02])), float(rng.choice([0, 0, 0.02]))
        if len(args) and rng.random() < 0.5:
            args += ["--render-every", str(int(rng.choice([1, 2, 10]))), "--render-max", str(int(rng.choice([1, 3])))]
        conf = dict(args=args[2:], slow=slow, jitter=jitter)
        ctx.seen("distinct", (n, workers, end, slow, jitter, len(doc["nodes"]), ctx.idx))
        plan = [float(x) for x in rng.choice([0, 0, 0.005, 0.03], size=3)]

        def make(orig):
            inner = tee_simulate(logs, jitter)(orig)

            def simulate(self, *a, **k):
                for nd in self.light_nodes:
                    nd.light.wavelength = Delay(nd.light.wavelength, plan)
                return inner(self, *a, **k)
            return simulate
        before = {f: open(os.path.join(sub, f), "rb").read() for f in os.listdir(sub) if os.path.isfile(os.path.join(sub, f))}
        with with_patches(make, slow):
            try:
                cwd = str(rng.choice([folder, "/", sub]))
                res = invoke(args, cwd=cwd)
            except Hang as exc:
                ctx.violation("hang", "the command did not finish within 100 s", stderr=str(exc), **conf)
                return
        ctx.expect(res.exit_code == 0, "exit-code", f"the command ended with {res.exit_code}: {res.output[-200:]} {res.exception or ''}", **conf)
        if seeded and n and n < 2:
            pass
        streams = read_logs(logs)
        photons = [p for s in streams for p in photons_of(s)]
        db = os.path.join(sub, name.rsplit(".", 1)[0] + ".sqlite3")
        check_database(ctx, db, photons, n, conf)
        ctx.expect(len(photons) == n, "delivered", f"{len(photons)} photons were traced for {n} rays", **conf)
        if end:
            bad = [e.name for p in photons for _, e, m in p if e.name in ("ABSORB", "EMIT", "SCATTER") or
                   (e.name == "REFLECT" and m["hit"] == m["container"])]
            ctx.expect(not bad, "end-rays:extra", f"the end-rays run stored {collections.Counter(bad)}", **conf)
        after = {f: open(os.path.join(sub, f), "rb").read() for f in os.listdir(sub) if os.path.isfile(os.path.join(sub, f))}
        new = set(after) - set(before)
        ctx.expect(new == {os.path.basename(db)} and all(after.get(k) == v for k, v in before.items()), "files",
                   f"the command left {sorted(new)} or changed other files", **conf)
        ctx.count("commands")
        ctx.count("photons", n)
        ctx.count("processes", len(streams))
        ctx.sample(conf)
        # an existing database
        old = open(db, "rb").read()
        how = str(rng.choice(["no", "eof", "yes", "flag", "broken"]))
        ctx.seen("overwrite", how)
        shutil.rmtree(logs)
        os.makedirs(logs)
        args2 = ["simulate", path, "-r", "3", "-w", "1"]
        if how == "broken":
            text = open(path).read()
            open(path, "w").write(text.replace("refractive-index: 1", "refractive-index: -1"))
            args2.append("--overwrite")
        if how == "flag":
            args2.append("--overwrite")
        with with_patches(tee_simulate(logs, 0), 0):
            try:
                res = invoke(args2, input={"no": "n\n", "eof": "", "yes": "y\n"}.get(how))
            except Hang as exc:
                ctx.violation("hang", "the command did not finish within 100 s", how=how, stderr=str(exc))
                return
        if how in ("no", "eof", "broken"):
            ctx.expect(res.exit_code != 0 and open(db, "rb").read() == old, "overwrite:refused",
                       f"an existing database did not survive ({how}, exit {res.exit_code})")
        else:
            ctx.expect(res.exit_code == 0, "overwrite:exit", f"overwriting ended with {res.exit_code}: {res.output[-300:]} {res.exception or ''}")
            check_database(ctx, db, [p for s in read_logs(logs) for p in photons_of(s)], 3, dict(overwrite=how))
    finally:
        import gc
        gc.collect()
        shutil.rmtree(folder, ignore_errors=True)
        shutil.rmtree(logs, ignore_errors=True)


SCALARS = [float, np.float64, lambda x: float(np.float32(x))]


def fake_history(rng, tag):
    """A synthetic history: any events the tracer can report, hostile values."""
    from pvtrace import Ray
    from pvtrace.light.event import Event
    names = ["slab", "it's", 'quo"te', "Ünï→", "a;b--", "", "0", "None", "slab "]
    nm = lambda: str(names[int(rng.integers(0, len(names)))])
    f = SCALARS[int(rng.integers(0, len(SCALARS)))]

    def ray(t):
        v = rng.normal(size=3)
        p = tuple(f(x) for x in rng.normal(size=3) * 10.0 ** rng.integers(-12, 5))
        return Ray(position=p if rng.random() < 0.7 else np.array(p), direction=tuple(v / np.linalg.norm(v)),
                   wavelength=f(tag), travelled=f(t), duration=f(t * 1e-11), source=nm())
    t = 0.0
    out = [(ray(t), Event.GENERATE, None)]
    for _ in range(int(rng.choice([0, 0, 1, 2, 5, 30]))):
        t += float(rng.exponential())
        k = int(rng.integers(0, 3))
        if k == 0:
            nn = rng.normal(size=3)
            nn = tuple(float(x) for x in nn / np.linalg.norm(nn))
            out.append((ray(t), [Event.REFLECT, Event.TRANSMIT][int(rng.integers(0, 2))],
                        {"hit": nm(), "container": nm(), "adjacent": nm() if rng.random() < 0.9 else None, "normal": nn}))
        else:
            m = {"component": nm(), "container": nm()}
            out.append((ray(t), Event.ABSORB, m))
            out.append((ray(t), [Event.EMIT, Event.SCATTER][int(rng.integers(0, 2))], dict(m, emit_method="kT")))
    e = [Event.EXIT, Event.NONRADIATIVE, Event.REACT, Event.KILL][int(rng.integers(0, 4))]
    m = {Event.EXIT: {"hit": "world", "container": "world", "adjacent": None}, Event.KILL: {"maxsteps": 3, "maxpathlength": 2.0, "container": nm()}}.get(
        e, {"component": nm(), "container": nm()})
    out.append((ray(t + 1), e, m))
    return out


def fake_case(ctx):
    """Hostile interleavings of several workers' items, fed to the real writer."""
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c17-")
    try:
        doc, path = write_scene(rng, folder)
        W = int(rng.choice([1, 2, 3, 5, 8]))
        per = [int(x) for x in rng.integers(0, 12, size=W)]
        pids = [int(x) for x in rng.permutation(np.arange(1, 4 * W + 1))[:W]] if rng.random() < 0.5 else \
            [int(rng.integers(1, 2**22)) + i for i in range(W)]
        tag = 0
        streams, photons = [], []
        for w in range(W):
            s = []
            for i in range(per[w]):
                tag += 1
                h = fake_history(rng, 400.0 + tag / 7)
                photons.append(h)
                s += [(pids[w], i) + x for x in h]
            streams.append(s)
        n = len(photons)
        mode = str(rng.choice(["roundrobin", "random", "blocks", "sequential", "last-first"]))
        seq, cur = [], [0] * W
        while any(cur[w] < len(streams[w]) for w in range(W)):
            live = [w for w in range(W) if cur[w] < len(streams[w])]
            w = {"roundrobin": live[len(seq) % len(live)], "random": live[int(rng.integers(0, len(live)))],
                 "blocks": live[int(rng.integers(0, len(live)))], "sequential": live[0], "last-first": live[-1]}[mode]
            for _ in range(int(rng.integers(1, 9)) if mode == "blocks" else 1):
                if cur[w] < len(streams[w]):
                    seq.append(streams[w][cur[w]])
                    cur[w] += 1
        pause = {int(i): float(rng.choice([0.05, 0.15, 0.3])) for i in rng.integers(0, max(1, len(seq)), size=3)}
        slow = float(rng.choice([0, 0, 0.005, 0.02]))
        fail = bool(rng.random() < 0.2)
        conf = dict(mode=mode, workers=W, per=per, slow=slow, fail=fail)
        ctx.seen("distinct", tuple((x[0], x[1], x[3].name) for x in seq))
        ctx.count("interleaving_switches", sum(a[0] != b[0] for a, b in zip(seq, seq[1:])))

        def make(orig):
            def simulate(self, *a, **k):
                q = [x for x in list(a) + list(k.values()) if hasattr(x, "put")][0]
                for i, it in enumerate(seq):
                    if i in pause:
                        time.sleep(pause[i])
                    q.put(it)
                if fail:
                    raise RuntimeError("planned failure of the simulation")
            return simulate
        args = ["simulate", path, "-r", str(n), "-w", str(W)]
        if rng.random() < 0.5:
            args += ["--render-every", str(int(rng.choice([1, 2, 10])))]
        hold = float(rng.choice([0.3, 1.5])) if rng.random() < 0.3 else 0.0
        conf["locked"] = hold
        held = []

        def locker():
            """Someone else takes the database for less time than sqlite waits."""
            end = time.time() + 20
            while time.time() < end and not held:
                try:
                    if os.path.exists(os.path.join(folder, "scene.sqlite3")):
                        c = sqlite3.connect(os.path.join(folder, "scene.sqlite3"), timeout=0)
                        if c.execute("SELECT COUNT(*) FROM sqlite_master WHERE name = 'event'").fetchone()[0]:
                            c.execute("BEGIN IMMEDIATE")
                            held.append(1)
                            time.sleep(hold)
                            c.rollback()
                        c.close()
                except sqlite3.Error:
                    pass
                time.sleep(0.003)
        t = threading.Thread(target=locker, daemon=True) if hold else None
        if t:
            t.start()
        with with_patches(make, slow):
            try:
                res = invoke(args)
            except Hang as exc:
                ctx.violation("hang", "the command did not finish within 100 s", stderr=str(exc), **conf)
                return
        if t:
            held.append(0)
            t.join()
            ctx.count("runs_locked", held[0])
        if fail:
            ctx.expect(res.exit_code != 0, "failure:silent", "a failed simulation ends with exit code 0", **conf)
        else:
            ctx.expect(res.exit_code == 0, "exit-code", f"the command ended with {res.exit_code}: {res.output[-200:]} {res.exception or ''}", **conf)
        check_database(ctx, os.path.join(folder, "scene.sqlite3"), photons, n, conf)
        ctx.count("fed_runs")
    finally:
        import gc
        gc.collect()
        shutil.rmtree(folder, ignore_errors=True)


def fault_case(ctx):
    """The database cannot be written at some point: no claim of success, and no hang."""
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c17-")
    db = os.path.join(folder, "scene.sqlite3")
    holder = None
    try:
        np.random.seed(int(rng.integers(0, 2**31)))
        doc, path = write_scene(rng, folder)
        how = "locked" if ctx.idx % 4 == 3 else "full"
        n = int(rng.integers(5, 100)) if how == "full" else 60
        workers = int(rng.integers(1, 4))
        room = int(rng.integers(14, 40)) * 1024 if how == "full" else None
        conf = dict(how=how, rays=n, workers=workers, room=room)
        if how == "locked":
            holder = os.fork()
            if holder == 0:
                try:
                    end = time.time() + 30
                    while time.time() < end:       # as soon as there are tables
                        time.sleep(0.01)
                        if os.path.exists(db):
                            c = sqlite3.connect(db, timeout=0.01)
                            try:
                                c.execute("begin exclusive")
                                if c.execute("select count(*) from sqlite_master where type='table'").fetchone()[0] > 1:
                                    time.sleep(8)
                                    break
                            except sqlite3.OperationalError:
                                pass
                            finally:
                                c.close()
                finally:
                    os._exit(0)
        try:
            res = invoke(["simulate", path, "-r", str(n), "-w", str(workers)], timeout=90, room=room)
        except Hang as exc:
            ctx.violation("fault:hang", "the command does not end when its database cannot be written", stderr=str(exc), **conf)
            return
        ctx.count("fault_runs")
        ctx.seen("distinct", (how, n, workers, room))
        if res.exit_code:
            ctx.count("faults_" + how)
            return
        c = sqlite3.connect(db)
        rows = c.execute("select count(distinct throw_id) from ray").fetchone()[0]
        c.close()
        ctx.expect(rows == n, "fault:success", f"success claimed with {rows} of {n} photons recorded", **conf)
    finally:
        if holder:
            os.kill(holder, signal.SIGKILL)
            os.waitpid(holder, 0)
        import gc
        gc.collect()
        shutil.rmtree(folder, ignore_errors=True)


def main():
    chk = common.Check("C17", "one run of the simulate command", assumptions=tracework.BASE_ASSUMPTIONS + [
        "A full disk is a limit on file sizes; a run which reports a failure may have recorded less."])
    import pvtrace.cli.main  # noqa: F401
    chk.run_cases(real_case, "real", common.scale(40, 400))
    chk.run_cases(fake_case, "fed", common.scale(80, 800))
    chk.run_cases(fault_case, "fault", common.scale(16, 120))
    chk.require("faults_full", 3)
    chk.require("faults_locked", 1)
    chk.require("commands", 20)
    chk.require("rows", 3000)
    chk.require("photons_compared", 1000)
    chk.require("fed_runs", 40)
    chk.require("interleaving_switches", 1000)
    chk.finish()


main()
