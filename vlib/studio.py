"""Driving the studio server in-process and writing commented documents."""
import json
import os

import numpy as np


def client(path=None):
    """A test client running the application in one event loop; use as context manager."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from fastapi.testclient import TestClient
        from pvtrace.studio import server
    return TestClient(server.create_app(None if path is None else str(path)), raise_server_exceptions=False)


def scalar(rng, v, quote=None):
    if isinstance(v, bool):
        return str(rng.choice(["true", "True", "yes", "on"] if v else ["false", "False", "no", "off"]))
    if v is None:
        return str(rng.choice(["null", "~"]))
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        s = repr(v)
        if "e" in s and "." not in s.split("e")[0]:
            s = s.replace("e", ".0e")
        if rng.random() < 0.1 and "e" not in s and "." in s:
            s += "0"
        return s
    import yaml
    plain = yaml.safe_dump(v).splitlines()[0]
    k = int(rng.integers(0, 4))
    if k > 1 and v[:1].isdigit():     # 1e5 is text for some YAML readers only
        k = 1
    if k == 0:
        return json.dumps(v)
    if k == 1:
        return "'" + v.replace("'", "''") + "'"
    return plain


def flow(rng, v):
    if isinstance(v, list):
        sep = ", " if rng.random() < 0.8 else ","
        return "[" + sep.join(flow(rng, x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(scalar(rng, k) + ": " + flow(rng, x) for k, x in v.items()) + "}"
    return scalar(rng, v)


class Text:
    """A document as hand-written text: comments, blank lines, mixed styles.

    `comments` is a list of (tag, kind, path, predecessor) where kind is "own" (a
    line before the entry at `path`) or "trail" (at the end of its line), and
    predecessor is the path of the line before an own-line comment.
    """

    def __init__(self, rng, doc, density=0.25):
        self.rng, self.density = rng, density
        self.lines, self.comments, self.prev = [], [], None
        self.step = int(rng.choice([2, 2, 2, 4, 3]))
        if rng.random() < 0.3:
            self.own(("version",), 0)
        self.emit(doc, (), 0)
        if rng.random() < 0.3:
            self.own(("#end",), 0)
        self.text = "\n".join(self.lines) + ("\n" if rng.random() < 0.9 else "")

    def tag(self):
        return f"note{len(self.comments)}x"

    def own(self, path, indent):
        t = self.tag()
        self.comments.append((t, "own", path, self.prev))
        self.lines.append(" " * indent + "# " + t + str(self.rng.choice(["", ": watch out", " [1, 2]", " - 'x'"])))

    def line(self, s, path):
        if self.rng.random() < self.density * 0.7:
            t = self.tag()
            self.comments.append((t, "trail", path, self.prev))
            s += "  # " + t
        self.lines.append(s)
        self.prev = path

    def emit(self, d, path, indent):
        rng = self.rng
        for k, v in d.items():
            p = path + (k,)
            if rng.random() < 0.12:
                self.lines.append("")
            if path and rng.random() < self.density:
                self.own(p, indent)
            pad, key = " " * indent, scalar(rng, k)
            if isinstance(v, dict) and v and (len(path) < 2 or rng.random() < 0.8):
                self.line(f"{pad}{key}:", p)
                self.emit(v, p, indent + self.step)
            elif isinstance(v, list) and v and not any(isinstance(x, list) for x in v) and rng.random() < 0.35:
                self.line(f"{pad}{key}:", p)
                ind = indent + (self.step if rng.random() < 0.6 else 0)
                for i, x in enumerate(v):
                    if rng.random() < self.density * 0.5:
                        self.own(p + (i,), ind)
                    self.line(" " * ind + "- " + scalar(rng, x), p + (i,))
            else:
                self.line(f"{pad}{key}: {flow(rng, v)}", p)


GEOM = {"box": lambda g: list(g["size"]), "sphere": lambda g: [g["radius"]], "cylinder": lambda g: [g["length"], g["radius"]]}


def plain(x):
    """What a value looks like after a trip through JSON."""
    return json.loads(json.dumps(x))


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def placements(spec):
    """World matrices of all nodes from the document alone."""
    def own(name):
        d = spec["nodes"][name]
        m = np.eye(4)
        v = d.get("direction")
        if v:
            m[:3, :3] = turn(np.array(v, float))
        if d.get("location"):
            m[:3, 3] = d["location"]
        return m

    def world(name, depth=0):
        if name == "world":
            return np.eye(4)
        return world(spec["nodes"][name].get("parent") or "world", depth + 1) @ own(name)
    return {n: world(n) for n in spec["nodes"]}


def turn(v):
    """Some rotation taking +z to v (only its third column is determined)."""
    z = v / np.linalg.norm(v)
    a = np.array([1.0, 0, 0]) if abs(z[0]) < 0.7 else np.array([0, 1.0, 0])
    x = np.cross(a, z); x /= np.linalg.norm(x)
    return np.column_stack([x, np.cross(z, x), z])


def check_payload(ctx, payload, spec, scene, key="payload", **detail):
    """The returned description against the document and the parsed scene."""
    from anytree import PreOrderIter
    nodes = {n.name: n for n in PreOrderIter(scene.root)}
    bodies = {n: d for n, d in spec["nodes"].items() if "light" not in d}
    got = {d["name"]: d for d in payload["nodes"]}
    bad = lambda what, cond, msg: ctx.expect(cond, f"{key}:{what}", msg, **detail)
    bad("nodes", sorted(got) == sorted(bodies) and len(got) == len(payload["nodes"]), f"objects {sorted(got)} described for {sorted(bodies)}")
    for n, d in bodies.items():
        g = got.get(n)
        if g is None:
            continue
        kind = [k for k in GEOM if k in d][0]
        p = GEOM[kind](d[kind])
        bad("type", g["type"] == kind, f"{n} is a {kind}, described as {g['type']}")
        bad("params", near(g["params"][:len(p)], p), f"{n}: {kind} {p} described as {g['params']}")
        bad("index", near(g["refractive_index"], d[kind]["material"]["refractive-index"]), f"{n}: refractive index {g['refractive_index']}")
        bad("root", g["root"] == (n == "world"), f"{n}: root flag {g['root']}")
        m = np.array(g["matrix"], float).reshape(4, 4).T
        bad("matrix", near(m, nodes[n].transformation_to(scene.root), 1e-8), f"{n}: placement {m.tolist()} is not that of the scene")
        bad("spec", g["spec"] == plain(d), f"{n}: description of its entry differs from the document")
    lights = {n: d for n, d in spec["nodes"].items() if "light" in d and n not in bodies}
    got = {d["name"]: d for d in payload["lights"]}
    bad("lights", sorted(got) == sorted(lights) and len(got) == len(payload["lights"]), f"lights {sorted(got)} described for {sorted(lights)}")
    for n, d in lights.items():
        if n in got:
            m = np.array(got[n]["matrix"], float).reshape(4, 4).T
            bad("light-matrix", near(m, nodes[n].transformation_to(scene.root), 1e-8), f"light {n}: placement is not that of the scene")
            bad("light-spec", got[n]["spec"] == plain(d), f"light {n}: description differs from the document")
    want = {}
    for n in nodes.values():
        for r in getattr(n, "recorders", []):
            hs = []
            for h in r.histograms:
                if hasattr(h, "a"):
                    hs.append(dict(kind="heatmap", prop_a=h.a.prop, prop_b=h.b.prop, range_a=[h.a.start, h.a.stop, h.a.bins],
                                   range_b=[h.b.start, h.b.stop, h.b.bins]))
                else:
                    hs.append(dict(kind="hist", prop=h.prop, range=[h.start, h.stop, h.bins]))
            want[r.name] = dict(name=r.name, node=n.name, event=r.event, facet=list(r.facet) if r.facet is not None else None, histograms=hs,
                                auto=r.name not in (spec.get("recorders") or {}))
    got = {d["name"]: d for d in payload["recorders"]}
    bad("recorders", sorted(got) == sorted(want) and len(got) == len(payload["recorders"]),
        f"recorders {sorted(got)} described for {sorted(want)}")
    for n, w in want.items():
        if n in got:
            g = {k: got[n].get(k) for k in w}
            bad("recorder", plain(g) == plain(w), f"recorder {n} described as {g}, it is {w}")
    sections = ("version", "nodes", "components", "recorders")
    bad("document", {k: v for k, v in payload["spec"].items() if k in sections} == plain({k: v for k, v in spec.items() if k in sections}),
        "the description of the document differs from the document")


class Socket:
    """A websocket session whose messages are collected."""

    def __init__(self, c):
        self.cm = c.websocket_connect("/ws")
        self.ws = self.cm.__enter__()

    def send(self, **msg):
        self.ws.send_json(msg)

    def next(self, timeout=60):
        """The next message, or None when nothing comes for `timeout` seconds."""
        return receive(self.ws, timeout)

    def close(self):
        try:
            self.cm.__exit__(None, None, None)
        except BaseException:  # noqa: BLE001
            pass


def receive(ws, timeout):
    import threading
    box = []
    if not hasattr(ws, "_verif_pending"):
        ws._verif_pending = None
    t = ws._verif_pending
    if t is None:
        def run():
            try:
                box.append(ws.receive_json())
            except BaseException as e:  # noqa: BLE001
                box.append(e)
        t = threading.Thread(target=run, daemon=True)
        t.box = box
        t.start()
    t.join(timeout)
    if t.is_alive():
        ws._verif_pending = t
        return None
    ws._verif_pending = None
    m = t.box[0]
    if isinstance(m, BaseException):
        raise m
    return m


def run_to_end(sock, timeout=120, **params):
    """One run; returns its messages up to and including its end."""
    sock.send(cmd="run", **params)
    out = []
    while True:
        m = sock.next(timeout)
        if m is None:
            return out, "silent"
        out.append(m)
        if m.get("type") in ("done", "error"):
            return out, m["type"]
