"""C21: what a studio run streams, against engine runs of the displayed document."""
import common
common.setup_path()
import asyncio
import copy
import math
import os
import shutil
import sys
import tempfile
import time

import numpy as np

import docs
import kernelbuild
import studio

QUIET = common.scale(25, 60)


def steady(doc, rng):
    """Lights which draw no random numbers: every ray starts alike, on every run."""
    for d in doc["nodes"].values():
        if "light" in d:
            d["light"] = {"wavelength": float(np.round(rng.uniform(420, 700), 1))}
    return doc


def document(ctx, folder, fixed, names=None):
    rng = ctx.rng
    while True:
        doc = docs.random_document(rng, folder, simple=bool(rng.random() < 0.5), mesh=False, max_nodes=4, recorders=True,
                                   point_masks=True)
        if fixed:
            steady(doc, rng)
        body = [n for n, d in doc["nodes"].items() if "light" not in d]
        recs = doc.setdefault("recorders", {})
        if rng.random() < 0.9:    # make sure that there is something to count
            n = body[int(rng.integers(0, len(body)))] if rng.random() < 0.5 else "world"
            recs["counted"] = {"node": n, "event": "exit" if n == "world" else str(rng.choice(["entering", "escaping", "reflected", "lost"]))}
            hs = {}
            if rng.random() < 0.8:
                hs["wavelength"] = [float(rng.integers(300, 500)), float(rng.integers(600, 900)), int(rng.integers(1, 60))]
            if rng.random() < 0.5:
                hs["angle"] = [0, 1.6, int(rng.integers(1, 20))]
            if rng.random() < 0.6:
                hs["position"] = ["x", str(rng.choice(["y", "z"])), [-7.0, 6.5, int(rng.integers(1, 9))], [-5.0, 8.0, int(rng.integers(1, 9))]]
            if hs:
                recs["counted"]["histograms"] = hs
        lamps = [n for n, d in doc["nodes"].items() if "light" in d]
        if lamps and rng.random() < 0.25:     # a node without a shape records nothing
            recs["on-a-lamp"] = {"node": lamps[0], "event": "entering", "histograms": {"wavelength": [300, 900, 4]}}
        if not recs:
            del doc["recorders"]
        text = docs.dump(doc)
        scene = build(text, folder)
        if scene is None:
            continue
        import pvtrace.engine as engine
        try:
            engine.simulate(scene, 5, seed=1, record_every=1)
        except Exception:  # noqa: BLE001  e.g. a light outside of a spectrum
            continue
        if "on-a-lamp" in recs:
            ctx.count("recorders_without_shape")
        return doc, text, scene


def build(text, folder):
    import contextlib
    import io
    from pvtrace.cli.parse import parse
    p = os.path.join(folder, "expected.yml")
    with open(p, "w") as f:
        f.write(text)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return parse(p)
    except Exception:  # noqa: BLE001
        return None
    finally:
        os.unlink(p)


# -- the reference ----------------------------------------------------------------

def tallies(result):
    out = {}
    for n, r in result.recorders.items():
        n_ = max(int(r.rays), 1)
        hs = [np.asarray(b) for b in bins(result)[n]]
        sums = result.data["rec_sums"][list(result.compiled.recorder_names).index(n)]
        out[n] = dict(rays=int(r.rays), crossings=int(r.crossings), hists=hs, wavelength=float(sums[0, 0]) / n_, angle=float(sums[1, 0]) / n_)
    return out


def bins(result):
    c, out = result.compiled, {}
    for r, spec in enumerate(c.recorder_specs):
        s = c.rec_hist_start[r]
        out[spec.name] = [result.data["rec_bins"][c.hist_offset[s + h]: c.hist_offset[s + h] + c.hist_na[s + h] * c.hist_nb[s + h]]
                          for h in range(len(spec.histograms))]
    return out


class Reference:
    """Engine runs of a scene: cumulative tallies after any number of rays."""

    def __init__(self, scene, seed, record_every):
        self.scene, self.seed, self.every, self.cache = scene, seed, record_every, {}

    def result(self, n):
        import pvtrace.engine as engine
        if n not in self.cache:
            self.cache[n] = engine.simulate(self.scene, n, seed=self.seed, record_every=self.every)
        return self.cache[n]

    def at(self, n):
        return tallies(self.result(n))

    def paths(self, n):
        return [([ray.position for ray, _, _ in h], [ray.wavelength for ray, _, _ in h]) for h in self.result(n).histories()]


class StreamReference:
    """Lights which draw random numbers: the same draws, bundle by bundle."""

    def __init__(self, scene, seed, record_every, rays, bundle, state):
        import pvtrace.engine as engine
        np.random.seed(state)
        self.tallies, self.hist = {}, []
        total = None
        for result, traced in engine.simulate_stream(scene, rays, bundle=bundle, seed=seed, record_every=record_every):
            t = tallies(result)
            sums = result.data["rec_sums"].copy()
            names = list(result.compiled.recorder_names)
            if total is None:
                total = dict(t=t, sums=sums)
            else:
                total["sums"] += sums
                for n in t:
                    total["t"][n]["rays"] += t[n]["rays"]
                    total["t"][n]["crossings"] += t[n]["crossings"]
                    total["t"][n]["hists"] = [a + b for a, b in zip(total["t"][n]["hists"], t[n]["hists"])]
            for i, n in enumerate(names):
                k = max(total["t"][n]["rays"], 1)
                total["t"][n]["wavelength"] = total["sums"][i, 0, 0] / k
                total["t"][n]["angle"] = total["sums"][i, 1, 0] / k
            self.tallies[traced] = copy.deepcopy(total["t"])
            self.hist += [([ray.position for ray, _, _ in h], [ray.wavelength for ray, _, _ in h]) for h in result.histories()]

    def at(self, n):
        return self.tallies.get(n)

    def paths(self, n):
        return self.hist


def recorder_nodes(scene):
    from anytree import PreOrderIter
    return {r.name: (n.name, r) for n in PreOrderIter(scene.root) for r in getattr(n, "recorders", [])}


def finite(x):
    if isinstance(x, dict):
        return all(finite(v) for v in x.values())
    if isinstance(x, list):
        return all(finite(v) for v in x)
    return not isinstance(x, float) or math.isfinite(x)


def check_meta(ctx, msg, scene, detail):
    recs = recorder_nodes(scene)
    meta = msg.get("histograms", {})
    if not ctx.expect(sorted(meta) == sorted(recs), "meta:recorders", f"recorders {sorted(meta)} announced, the scene has {sorted(recs)}", **detail):
        return
    for n, (node, r) in recs.items():
        m = meta[n]
        ctx.expect(m["node"] == node and m["event"] == r.event, "meta:recorder", f"recorder {n} announced as {m['event']} of {m['node']}", **detail)
        if not ctx.expect(len(m["histograms"]) == len(r.histograms), "meta:histograms", f"recorder {n}: {len(m['histograms'])} histograms announced", **detail):
            continue
        for g, h in zip(m["histograms"], r.histograms):
            if hasattr(h, "a"):
                ok = g["kind"] == "heatmap" and (g["prop_a"], g["prop_b"]) == (h.a.prop, h.b.prop) and \
                    studio.near(g["edges_a"], np.linspace(h.a.start, h.a.stop, h.a.bins + 1)) and \
                    studio.near(g["edges_b"], np.linspace(h.b.start, h.b.stop, h.b.bins + 1))
            else:
                ok = g["kind"] == "hist" and g["prop"] == h.prop and studio.near(g["edges"], np.linspace(h.start, h.stop, h.bins + 1))
            ctx.expect(ok, "meta:edges", f"recorder {n}: histogram {h} announced as {g}", **detail)


def check_tally(ctx, got, want, scene, detail):
    if not ctx.expect(sorted(got) == sorted(want), "recorders", f"recorders {sorted(got)} streamed, the scene has {sorted(want)}", **detail):
        return
    recs = recorder_nodes(scene)
    for n, w in want.items():
        g = got[n]
        ctx.count("tallies_compared")
        ctx.expect(g["rays"] == w["rays"] and g["crossings"] == w["crossings"], "counts",
                   f"recorder {n}: {g['rays']} rays, {g['crossings']} crossings; the engine counts {w['rays']}, {w['crossings']}", **detail)
        hs = recs[n][1].histograms
        if ctx.expect(len(g["histograms"]) == len(w["hists"]), "histograms", f"recorder {n}: {len(g['histograms'])} histograms streamed", **detail):
            for e, b, h in zip(g["histograms"], w["hists"], hs):
                ctx.expect(np.array_equal(np.asarray(e["values"]), b), "bins", f"recorder {n}: bins differ from the engine's ({sum(e['values'])} against {b.sum()} entries)", **detail)
                if hasattr(h, "a"):
                    ctx.expect(list(e["shape"]) == [h.a.bins, h.b.bins], "shape", f"recorder {n}: heatmap of {h.a.bins} by {h.b.bins} streamed as {e.get('shape')}", **detail)
        for k in ("wavelength", "angle"):
            a, b = g[f"mean_{k}"], w[k]
            ctx.expect(abs(a - b) <= 1e-7 * (1 + abs(b)), f"mean-{k}", f"recorder {n}: mean {k} {a}, the engine's {b}", **detail)


def check_paths(ctx, sent, real, limit, complete, detail):
    ctx.count("paths", len(sent))
    ctx.expect(len(sent) <= max(limit, 0), "paths:limit", f"{len(sent)} paths streamed, {limit} requested", **detail)
    i = 0
    for k, p in enumerate(sent):
        P, W = np.asarray(p["points"], float), np.asarray(p["wavelengths"], float)
        found = False
        while i < len(real) and not found:
            Q, V = np.asarray(real[i][0], float), np.asarray(real[i][1], float)
            found = P.shape == Q.shape and W.shape == V.shape and bool(np.all(np.abs(P - Q) <= 2e-6)) and bool(np.all(np.abs(W - V) <= 0.02))
            i += 1
        if not ctx.expect(found, "paths:real", f"streamed path {k} ({len(P)} points from {P[:1].tolist()}) is not a recorded history of the run", **detail):
            return
    if complete:
        n = min(max(limit, 0), sum(len(r[0]) > 1 for r in real))
        ctx.expect(len(sent) == n, "paths:complete", f"{len(sent)} paths streamed, {len(real)} histories were recorded, {limit} were requested", **detail)


def monotone(ctx, a, b, detail):
    for n in b["recorders"]:
        x, y = a["recorders"].get(n), b["recorders"][n]
        ok = x is not None and x["rays"] <= y["rays"] and x["crossings"] <= y["crossings"] and \
            all(np.all(np.asarray(p["values"]) <= np.asarray(q["values"])) for p, q in zip(x["histograms"], y["histograms"]))
        ctx.expect(ok, "decreasing", f"recorder {n}: totals decrease between bundles", **detail)


def check_run(ctx, msgs, params, ref, scene, complete, detail, every=1):
    """One run's messages, from `started` to `done`."""
    total = params["rays"]
    ctx.count("runs")
    ctx.expect(msgs[0].get("type") == "started" and msgs[0].get("total") == total, "started", f"a run of {total} rays starts with {str(msgs[0])[:200]}", **detail)
    ctx.expect([m["type"] for m in msgs[1:]] == ["bundle"] * (len(msgs) - 2) + ["done"], "protocol",
               f"messages of a run: {[m['type'] for m in msgs][:20]}", **detail)
    ctx.expect(finite(msgs), "finite", "messages with numbers that are not finite (not JSON)", **detail)
    check_meta(ctx, msgs[0], scene, detail)
    bundles = [m for m in msgs if m["type"] == "bundle"]
    ctx.count("bundles", len(bundles))
    last = 0
    for k, b in enumerate(bundles):
        d = dict(detail, bundle=k, traced=b["traced"])
        ctx.expect(b["total"] == total and last < b["traced"] <= total, "traced", f"traced {b['traced']} of {b['total']} after {last} of {total}", **d)
        last = b["traced"]
        if k:
            monotone(ctx, bundles[k - 1], b, d)
        if k % every == 0 or k == len(bundles) - 1:
            want = ref.at(b["traced"])
            if want is None:
                ctx.count("other_bundling")     # other boundaries than the engine's own streaming
            else:
                check_tally(ctx, b["recorders"], want, scene, d)
        else:
            ctx.expect(sorted(b["recorders"]) == sorted(recorder_nodes(scene)), "recorders", "recorders missing from a bundle", **d)
    if complete:
        ctx.expect(last == total or total <= 0, "complete", f"the run is done after {last} of {total} rays", **detail)
    limit = params.get("max_paths", 200)
    sent = [p for b in bundles for p in b["paths"]]
    if last > 0 and total > 0:
        real = ref.paths(last)
        if real is not None:
            check_paths(ctx, sent, real, limit, complete, detail)
    ctx.seen("distinct", (total, len(bundles), tuple(sorted((n, r["rays"], r["crossings"]) for n, r in (bundles[-1]["recorders"] if bundles else {}).items()))))


def random_params(rng, small=False):
    n = int(rng.choice([1, 2, 7, 50, 333, 1000])) if not small else int(rng.integers(50, 400))
    p = dict(rays=n, seed=int(rng.choice([0, 1, 2**31 - 1, int(rng.integers(0, 2**31))])))
    p["bundle"] = int(rng.choice([1 if n <= 50 else 17, 10, 37, 100, n, n + 1, 25000])) if not small else int(rng.choice([20, 37]))
    p["record_every"] = int(rng.choice([1, 1, 2, 3, 7, 10, 60]))
    if rng.random() < 0.85:
        p["max_paths"] = int(rng.choice([0, 1, 2, 3, 10, 40, 200, 5000]))
    return p


def gather(sock, timeout=90):
    out = []
    while True:
        m = sock.next(timeout)
        if m is None:
            return out, "silent"
        out.append(m)
        if m.get("type") in ("done", "error"):
            return out, m["type"]


class Delays:
    """Random pauses wherever the server sends a message or fetches a bundle."""

    def __init__(self, rng, most):
        import random
        self.r, self.most = random.Random(int(rng.integers(0, 2**31))), most

    def __enter__(self):
        from starlette.websockets import WebSocket
        import pvtrace.engine as engine
        self.send, self.stream, self.engine, self.WebSocket = WebSocket.send_json, engine.simulate_stream, engine, WebSocket
        send, stream, r, most = self.send, self.stream, self.r, self.most

        async def send_json(ws, *a, **k):
            await asyncio.sleep(most * r.random())
            await send(ws, *a, **k)
            await asyncio.sleep(most * r.random() if r.random() < 0.5 else 0)

        def simulate_stream(*a, **k):
            for item in stream(*a, **k):
                time.sleep(most * r.random())
                yield item
        WebSocket.send_json, engine.simulate_stream = send_json, simulate_stream
        return self

    def __exit__(self, *a):
        self.WebSocket.send_json, self.engine.simulate_stream = self.send, self.stream


class World:
    """A scratch folder with an opened document and a client."""

    def __init__(self, ctx, fixed, extra=0):
        self.folder = tempfile.mkdtemp(prefix="c21-")
        self.data = self.folder
        self.docs = [document(ctx, self.folder, fixed) for _ in range(1 + extra)]
        self.path = os.path.join(self.folder, "scene.yml")
        with open(self.path, "w") as f:
            f.write(self.docs[0][1])

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.folder)
        sys.stdout = open(os.devnull, "w")    # the parser names the files it reads
        self.cm = studio.client(self.path)
        self.c = self.cm.__enter__()
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        self.cm.__exit__(None, None, None)
        shutil.rmtree(self.folder, ignore_errors=True)


# -- single runs -------------------------------------------------------------------

def stream(ctx, fixed):
    rng = ctx.rng
    w = World(ctx, fixed)
    with w:
        doc, text, scene = w.docs[0]
        s = studio.Socket(w.c)
        for k in range(common.scale(4, 8)):
            p = random_params(rng)
            detail = dict(params=p, text=text)
            state = int(rng.integers(0, 2**31))
            np.random.seed(state)
            msgs, end = studio.run_to_end(s, **p)
            if not ctx.expect(end == "done", "ended", f"a run ended '{end}' after {[m['type'] for m in msgs][-3:]}: {str(msgs[-1:])[:300]}", **detail):
                s.close()
                s = studio.Socket(w.c)
                continue
            every = max(1, (len(msgs) - 2) // 6)
            if fixed:
                ref = Reference(scene, p["seed"], p["record_every"])
            else:
                ref = StreamReference(scene, p["seed"], p["record_every"], p["rays"], p["bundle"], state)
            check_run(ctx, msgs, p, ref, scene, True, detail, every)
            ctx.sample(dict(params=p, messages=len(msgs)))
        extra = s.next(0.3)
        ctx.expect(extra is None, "extra", f"a message after the end of the last run: {str(extra)[:200]}", text=text)
        s.close()


# -- control: runs, stops, replacements, edits, disconnects ---------------------------------

def split(ctx, msgs, detail):
    """Segments from `started` to the end of the run."""
    segments, cur = [], None
    for m in msgs:
        t = m.get("type")
        if t == "started":
            ctx.expect(cur is None, "interleaved", "a run starts before the previous one is done", **detail)
            cur = [m]
            segments.append(cur)
        elif cur is None:
            if t == "error":
                segments.append([m])
            else:
                ctx.violation("outside", f"a {t} message outside of a run", **detail)
        else:
            cur.append(m)
            if t in ("done", "error"):
                cur = None
    ctx.expect(cur is None, "unfinished", "a run without a completion message", **detail)
    return segments


def control(ctx, clients):
    rng = ctx.rng
    w = World(ctx, True, extra=2)
    scenes = [d[2] for d in w.docs]
    with w, Delays(rng, float(rng.choice([0, 0.002, 0.01, 0.03]))):
        current = {"doc": 0}
        socks = [Client(ctx, w.c, scenes, current) for _ in range(clients)]
        for step in range(common.scale(10, 20)):
            k = socks[int(rng.integers(0, len(socks)))]
            a = rng.random()
            if a < 0.35:
                k.run(random_params(rng, small=True))
            elif a < 0.5:
                k.stop()
            elif a < 0.6:
                k.run(random_params(rng, small=True)); k.stop(); k.run(random_params(rng, small=True))
            elif a < 0.75:
                k.read(int(rng.integers(1, 8)))
            elif a < 0.92:
                j = int(rng.integers(0, len(w.docs)))
                for q in socks:
                    q.about(j)
                r = w.c.put("/api/document", json={"text": w.docs[j][1]})
                ctx.expect(r.status_code == 200, "put", f"a valid document is refused: {r.text[:300]}", text=w.docs[j][1])
                current["doc"] = j
                ctx.count("documents_applied")
            elif a < 0.96:
                r = w.c.put("/api/document", json={"text": "nodes: ["})
                ctx.expect(r.status_code != 200, "put-bad", "a broken document is accepted")
            else:
                k.reconnect()
                ctx.count("disconnects")
        for k in socks:
            k.finish()


class Client:
    """One websocket session and what was asked of it."""

    def __init__(self, ctx, c, scenes, current):
        self.ctx, self.c, self.scenes, self.current = ctx, c, scenes, current
        self.open()

    def open(self):
        self.s, self.log, self.runs, self.ended = studio.Socket(self.c), [], [], 0

    def run(self, p):
        if self.runs:
            self.runs[-1]["cut"] = True
        p = dict(p, rays=p["rays"] + len(self.runs) * 1000 if len(self.runs) < 3 else p["rays"])
        while any(r["p"]["rays"] == p["rays"] for r in self.runs):
            p["rays"] += 1
        if p["rays"] > 1000:
            p["bundle"] = 100
        self.runs.append(dict(p=p, cut=False, docs={self.current["doc"]}))
        self.s.send(cmd="run", **p)

    def stop(self):
        if self.runs:
            self.runs[-1]["cut"] = True
        self.s.send(cmd="stop")
        self.ctx.count("stops")

    def about(self, j):
        """A new document is about to be applied: runs which did not start yet may show either."""
        started = sum(m.get("type") in ("started",) for m in self.log)
        for r in self.runs[started:]:
            r["docs"].add(j)

    def read(self, n):
        for _ in range(n):
            m = self.s.next(0.05)
            if m is None:
                return
            self.log.append(m)

    def reconnect(self):
        self.s.close()
        self.judge(closed=True)
        self.open()

    def finish(self):
        p = random_params(self.ctx.rng, small=True)
        self.run(p)
        last = self.runs[-1]["p"]["rays"]
        deadline = time.time() + 120
        while time.time() < deadline:
            m = self.s.next(30)
            if m is None:
                break
            self.log.append(m)
            started = [x for x in self.log if x.get("type") == "started"]
            if m.get("type") in ("done", "error") and started and started[-1]["total"] == last:
                break
        extra = self.s.next(0.2)
        if extra is not None:
            self.log.append(extra)
        self.judge(closed=False)
        self.s.close()

    def judge(self, closed):
        ctx = self.ctx
        detail = dict(asked=[dict(r["p"], cut=r["cut"], docs=sorted(r["docs"])) for r in self.runs], log=[m.get("type") for m in self.log][-60:])
        log = self.log
        if closed:     # the last run was cut off by the client
            k = max([i for i, m in enumerate(log) if m.get("type") in ("done", "error")], default=-1)
            tail, log = log[k + 1:], log[:k + 1]
            ctx.expect(not tail or tail[0].get("type") == "started" and all(m.get("type") == "bundle" for m in tail[1:]), "protocol",
                       f"messages {[m.get('type') for m in tail][:10]} of a run", **detail)
        segments = split(ctx, log, detail)
        i = 0
        for seg in segments:
            d = dict(detail, segment=[m.get("type") for m in seg][:20])
            if seg[0].get("type") == "error" or seg[-1].get("type") == "error":
                ctx.violation("error", f"a run ended with an error: {seg[-1].get('message')}", **d)
                i += 1
                continue
            while i < len(self.runs) and self.runs[i]["p"]["rays"] != seg[0]["total"] and self.runs[i]["cut"]:
                i += 1
                ctx.count("never_started")
            if not ctx.expect(i < len(self.runs) and self.runs[i]["p"]["rays"] == seg[0]["total"], "order",
                              f"a run of {seg[0]['total']} rays which was not asked for (again)", **d):
                return
            r = self.runs[i]
            i += 1
            names = sorted(seg[0].get("histograms", {}))
            best = None
            for j in sorted(r["docs"]):     # which of the possible documents does it show
                ref = Reference(self.scenes[j], r["p"]["seed"], r["p"]["record_every"])
                ok = sorted(recorder_nodes(self.scenes[j])) == names
                if ok and len(r["docs"]) > 1:
                    b = [m for m in seg if m["type"] == "bundle"]
                    if b:
                        t = ref.at(b[0]["traced"])
                        ok = all(b[0]["recorders"].get(n, {}).get("rays") == v["rays"] and
                                 abs(b[0]["recorders"][n]["mean_wavelength"] - v["wavelength"]) < 1e-6 for n, v in t.items())
                if ok or best is None:
                    best = (j, ref)
                if ok:
                    break
            if len(r["docs"]) > 1:
                ctx.count("runs_during_edits")
            check_run(ctx, seg, r["p"], best[1], self.scenes[best[0]], not r["cut"], d, every=max(1, (len(seg) - 2) // 4))
            ctx.count("cut_runs" if r["cut"] else "full_runs")
        if not closed:
            ctx.expect(i == len(self.runs), "missing", f"{len(self.runs)} runs asked for, the log ends after run {i}", **detail)


# -- huge runs which must end ------------------------------------------------------------------

def busy(seconds=1.0):
    a, t = os.times(), time.time()
    time.sleep(seconds)
    b = os.times()
    return (b.user + b.system - a.user - a.system) / (time.time() - t)


def endless(ctx, how):
    rng = ctx.rng
    w = World(ctx, True)
    doc, text, scene = w.docs[0]
    with w:
        for k in range(2):
            s = studio.Socket(w.c)
            p = dict(rays=10**9, bundle=int(rng.choice([500, 2000, 20000])), seed=3, record_every=1000, max_paths=20)
            detail = dict(how=how, params=p, text=text)
            s.send(cmd="run", **p)
            log = []
            for _ in range(int(rng.integers(0, 6))):
                m = s.next(60)
                if m is None:
                    ctx.violation("silent", "a run sends nothing for a minute", **detail)
                    break
                log.append(m)
            if how == "replace":
                q = dict(rays=300, bundle=100, seed=int(rng.integers(0, 2**31)), record_every=7)
                s.send(cmd="run", **q)
            elif how == "stop":
                s.send(cmd="stop")
            if how in ("stop", "replace"):
                tic = time.time()
                while time.time() - tic < QUIET * 2:
                    m = s.next(QUIET)
                    if m is None:
                        break
                    log.append(m)
                    if m.get("type") == "done":
                        break
                ctx.expect(log[-1:] and log[-1].get("type") == "done", "stop", f"a stopped run is not done after {time.time() - tic:.0f} s, {len(log)} messages", **detail)
                check_run(ctx, log, p, Reference(scene, p["seed"], p["record_every"]) if len(log) < 40 and p["bundle"] < 20000 else Skip(), scene, False, detail, every=10**9)
            if how == "replace":
                log, end = gather(s)
                if ctx.expect(end == "done", "ended", f"a run replacing another one ended '{end}'", **detail):
                    check_run(ctx, log, q, Reference(scene, q["seed"], 7), scene, True, detail)
            s.close()
            tic = time.time()
            use = busy()
            while use > 0.3 and time.time() - tic < QUIET:
                use = busy()
            ctx.expect(use <= 0.3, "still-tracing", f"{QUIET} s after {'the client disconnected' if how == 'drop' else 'the run ended'} {use:.1f} CPUs are in use", **detail)
            ctx.count("ended_" + how)
        s = studio.Socket(w.c)
        p = random_params(rng)
        msgs, end = studio.run_to_end(s, **p)
        d = dict(params=p, text=text, after=how)
        if ctx.expect(end == "done", "ended", f"a later run ended '{end}'", **d):
            check_run(ctx, msgs, p, Reference(scene, p["seed"], p["record_every"]), scene, True, d, max(1, len(msgs) // 6))
        s.close()


class Skip:
    def at(self, n):
        return None

    def paths(self, n):
        return None


# -- odd requests -------------------------------------------------------------------------------

ODD = [("rays", v) for v in (0, -1, -1000, "abc", None, [], {}, "12", 2.7, True, "", 1e3, "1e3")] + \
      [("bundle", v) for v in (0, -1, -5, "x", None, 3.9, "7", [])] + \
      [("seed", v) for v in (-1, "a", 2**31, 2**40, 2**70, 1.5, None, True, [1], "7")] + \
      [("record_every", v) for v in (0, -1, -7, "x", None, 10**9, 2.5)] + \
      [("max_paths", v) for v in (0, -1, "x", None, 10**12, 1.5)] + [("extra", 3), ("cmd2", "stop")]


def odd(ctx):
    rng = ctx.rng
    w = World(ctx, True)
    doc, text, scene = w.docs[0]
    with w:
        s = studio.Socket(w.c)
        order = [ODD[i] for i in rng.permutation(len(ODD))][:common.scale(12, len(ODD))]
        for name, value in order:
            p = dict(rays=60, bundle=20, seed=5, record_every=3, max_paths=8)
            p[name] = value
            if rng.random() < 0.3:
                k2, v2 = ODD[int(rng.integers(0, len(ODD)))]
                p[k2] = v2
            d = dict(params=p, text=text)
            ctx.count("odd_requests")
            try:
                s.send(**{"cmd": "run", **p})
                msgs, end = gather(s, 60)
            except Exception as e:  # noqa: BLE001
                ctx.violation("socket-lost", f"the connection is lost by a run with {name}={value!r}: {type(e).__name__}", **d)
                s = studio.Socket(w.c)
                continue
            if not ctx.expect(end != "silent", "silent", f"a run with {name}={value!r} sends neither its end nor an error", **d):
                s.close()
                s = studio.Socket(w.c)
                continue
            ctx.count("odd_" + end)
            if end == "done":
                total = msgs[0]["total"]
                ctx.expect(isinstance(total, int), "odd:total", f"a run of {total!r} rays", **d)
                if isinstance(p["seed"], int) and isinstance(p.get("record_every"), int):
                    q = dict(p, rays=total, max_paths=max(int(p["max_paths"]), 0))
                    check_run(ctx, msgs, q, Reference(scene, p["seed"], p["record_every"]), scene, True, d)
                else:
                    traced = [m["traced"] for m in msgs if m["type"] == "bundle"]
                    ctx.expect(all(a < b for a, b in zip(traced, traced[1:])) and (traced[-1:] == [total] or total <= 0), "odd:traced",
                               f"rays traced {traced[:10]} of {total}", **d)
            # the next run is as if nothing had been
            q = dict(rays=40, bundle=15, seed=int(rng.integers(0, 2**31)), record_every=4)
            msgs, end = studio.run_to_end(s, **q)
            if ctx.expect(end == "done", "after-odd", f"a plain run after one with {name}={value!r} ended '{end}'", **d):
                check_run(ctx, msgs, q, Reference(scene, q["seed"], 4), scene, True, d)
        s.close()


def malformed(ctx):
    """Messages which are no requests; whatever becomes of that session, others work."""
    rng = ctx.rng
    w = World(ctx, True)
    doc, text, scene = w.docs[0]
    with w:
        for bad in ("[", "3", "[]", '"run"', "null", '{"cmd": 7}', "{}", '{"cmd": "walk"}', '{"cmd": ["run"]}', '{"cmd": "stop"}'):
            s = studio.Socket(w.c)
            other = studio.Socket(w.c)
            q = dict(rays=200, bundle=20, seed=int(rng.integers(0, 2**31)), record_every=4)
            other.send(cmd="run", **q)
            try:
                s.ws.send_text(bad)
                s.send(cmd="run", rays=10**8, bundle=500)
                s.next(1)
                s.ws.send_text(bad)
                s.next(0.1)
            except Exception:  # noqa: BLE001  that session may end
                ctx.count("sessions_ended")
            msgs, end = gather(other)
            d = dict(bad=bad, params=q, text=text)
            if ctx.expect(end == "done", "ended", f"a run ended '{end}' as another client sent {bad}", **d):
                check_run(ctx, msgs, q, Reference(scene, q["seed"], 4), scene, True, d, 4)
            s.close()
            other.close()
            ctx.count("malformed")
        tic = time.time()
        use = busy()
        while use > 0.3 and time.time() - tic < QUIET:
            use = busy()
        ctx.expect(use <= 0.3, "still-tracing", f"{QUIET} s after all clients left {use:.1f} CPUs are in use", text=text)


def main():
    chk = common.Check("C21", "one studio run", assumptions=[
        "With a seed, the engine's own run of the document's scene is the reference (the tallies themselves are judged by C14).",
        "Lights which draw random numbers draw them from numpy's global generator, seeded alike for both.",
        "A run replaced or stopped before it started need not send anything."])
    kernelbuild.use_release_kernel()
    import pvtrace.studio.server  # noqa: F401
    chk.run_cases(stream, "fixed", common.scale(16, 160), args=(True,))
    chk.run_cases(stream, "random", common.scale(16, 160), args=(False,))
    chk.run_cases(control, "one", common.scale(14, 140), args=(1,))
    chk.run_cases(control, "two", common.scale(10, 100), args=(2,))
    for how in ("stop", "drop", "replace"):
        chk.run_cases(endless, "endless-" + how, common.scale(2, 12), args=(how,))
    chk.run_cases(odd, "odd", common.scale(6, 24))
    chk.run_cases(malformed, "malformed", common.scale(2, 8))
    chk.require("recorders_without_shape", 3)
    chk.require("runs", 150)
    chk.require("bundles", 600)
    chk.require("tallies_compared", 800)
    chk.require("paths", 500)
    chk.require("stops", 10)
    chk.require("full_runs", 20)
    chk.require("cut_runs", 10)
    chk.require("documents_applied", 10)
    chk.finish()


main()
