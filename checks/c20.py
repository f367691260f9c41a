"""C20: studio edits are atomic, faithful and keep document and scene in step."""
import copy
import json
import os
import shutil
import tempfile
import threading

import numpy as np
import common
common.setup_path()
import docs
import kernelbuild
import studio

FACES = [("top", [0, 0, 1]), ("bottom", [0, 0, -1]), ("east", [1, 0, 0]), ("west", [-1, 0, 0]), ("north", [0, 1, 0]), ("south", [0, -1, 0])]
EVENTS = ["entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"]
KINDS = ("box", "sphere", "cylinder")
BAD = object()          # the edit has to be refused
AWKWARD = [1e-6, 2e-5, 1e-300, 1.5e22, 0.1 + 0.2, -0.0, 3, 0, 1 / 3, 1e16, 123456789.125, -2.5e-7]


def body(d):
    return next((k for k in KINDS if k in d), None)


def document(ctx, folder):
    """A random document for the studio (no meshes), with awkward names."""
    rng = ctx.rng
    doc = docs.random_document(rng, folder, simple=rng.random() < 0.6, mesh=False, max_nodes=4)
    ren = {}
    for n in list(doc["nodes"]) + list(doc.get("components", {})):
        if n != "world" and rng.random() < 0.2:
            new = str(rng.choice(["yes", "on", "1e5", "12", "box-1", "light-1", "absorber-1", "null", "1.5", "No", "sphere-2", "0x1f", "1_000"]))
            if new not in ren.values():
                ren[n] = new
    doc["nodes"] = {ren.get(n, n): d for n, d in doc["nodes"].items()}
    for d in doc["nodes"].values():
        if "parent" in d:
            d["parent"] = ren.get(d["parent"], d["parent"])
        k = body(d)
        if k and "components" in d[k]["material"]:
            d[k]["material"]["components"] = [ren.get(c, c) for c in d[k]["material"]["components"]]
    if "components" in doc:
        doc["components"] = {ren.get(n, n): d for n, d in doc["components"].items()}
    for r in doc.get("recorders", {}).values():
        r["node"] = ren.get(r["node"], r["node"])
    if rng.random() < 0.5:
        doc["nodes"] = {"world": doc["nodes"]["world"], **docs.shuffled(rng, {k: v for k, v in doc["nodes"].items() if k != "world"})}
    return doc


def set_at(doc, path, value):
    d = doc
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = value


def churn(rng, doc, focus):
    """The next edit of a series which adds things of one kind and deletes earlier ones: (op, what)."""
    section, op, kind = focus
    if op == "face-recorders":
        boxes = [n for n in doc["nodes"] if "box" in doc["nodes"][n]]
        faces = [r for n in boxes for r in (f"{n}-{label}" for label, _ in FACES) if r in doc.get("recorders", {})]
        if not boxes:
            return "add-node", "box"
        if faces and rng.random() < 0.5:
            return "delete-recorder", faces[int(rng.integers(len(faces)))]
        return "add-face-recorders", (faces[0].rpartition("-")[0] if faces and rng.random() < 0.7 else boxes[int(rng.integers(len(boxes)))])
    stem = {"nodes": kind, "components": None, "recorders": None}[section]
    mine = [n for n in doc.get(section, {}) if n != "world" and (section != "nodes" or kind in doc[section][n])
            and n.rpartition("-")[2].isdigit() and (stem is None or n.startswith(stem + "-"))]
    if len(mine) >= 2 and rng.random() < 0.5:
        victim = mine[0] if rng.random() < 0.7 else mine[int(rng.integers(len(mine)))]
        return "delete-" + op, victim
    if section == "recorders":
        return "add-recorder", next((n for n in doc["nodes"] if body(doc["nodes"][n])), "world")
    return "add-" + op, kind


FOCUS = [("nodes", "node", k) for k in ("box", "sphere", "cylinder", "light")] + [
    ("components", "component", None), ("recorders", "recorder", None), ("recorders", "face-recorders", None)]


def edit(ctx, doc, world, forced=None):
    """A random edit: (payload, expected document or BAD or a predicate, addressed paths)."""
    rng = ctx.rng
    new = copy.deepcopy(doc)
    pick = lambda xs: list(xs)[int(rng.integers(0, len(xs)))]
    names, others = list(doc["nodes"]), [n for n in doc["nodes"] if n != "world"] or ["nobody"]
    bodies = [n for n in names if body(doc["nodes"][n])]
    num = lambda: float(rng.choice(AWKWARD)) if rng.random() < 0.25 else docs.r(rng.uniform(0.2, 3), int(rng.integers(0, 7)))
    vec = lambda: [x if abs(x) < 1e9 else 1.0 for x in (num() for _ in range(3))]
    op = str(rng.choice(["set", "set", "set", "set", "move", "move", "add-node", "add-recorder", "add-face-recorders", "add-component",
                         "delete-component", "update-recorder", "delete-recorder", "delete-node", "nonsense"]))
    what = None
    if forced is not None:
        op, what = forced
        ctx.count("churn_" + op)
    if op == "set":
        paths = []
        for n in others:
            paths += [(("nodes", n, "location"), vec), (("nodes", n, "direction"), lambda: pick([[0, 0, 1], [1, 0, 0], vec(), [0.0, 0.6, 0.8]])),
                      (("nodes", n, "parent"), lambda: pick(bodies + ["nobody"]))]
        for n in names:
            d = doc["nodes"][n]
            k = body(d)
            if k:
                paths += [(("nodes", n, k, "material", "refractive-index"), num), (("nodes", n, "record"), lambda: bool(rng.random() < 0.6)),
                          (("nodes", n, k, "material", "components"), lambda: [str(c) for c in rng.permutation(sorted(doc.get("components", {})) + (["nobody"] if rng.random() < 0.1 else []))[:int(rng.integers(0, 3))]])]
                if n != "world":
                    if k == "box":
                        paths += [(("nodes", n, "box", "size"), lambda: [abs(x) for x in vec()])]
                    if k != "box":
                        paths += [(("nodes", n, k, "radius"), num)]
                    if k == "cylinder":
                        paths += [(("nodes", n, k, "length"), num)]
            elif "light" in d:
                paths += [(("nodes", n, "light", "wavelength"), lambda: float(rng.integers(400, 700))),
                          (("nodes", n, "light", "mask", "direction", "cone", "half-angle"), lambda: num())]
        for c, d in doc.get("components", {}).items():
            k = list(d)[0]
            if k == "luminophore":
                paths += [(("components", c, k, "absorption", "coefficient"), num), (("components", c, k, "emission", "quantum-yield"), lambda: 0.5)]
            else:
                paths += [(("components", c, k, "coefficient"), num)]
        for r, d in doc.get("recorders", {}).items():
            paths += [(("recorders", r, "atol"), num), (("recorders", r, "node"), lambda: pick(bodies)),
                      (("recorders", r, "histograms", "wavelength"), lambda: [400, 900.5, 12])]
        path, value = paths[int(rng.integers(0, len(paths)))]
        value = value()
        if rng.random() < 0.08:
            value = pick(["red", None, [], {}, [1, "x"], -1, True, {"a": [1, {"b": 2}]}, "[1, 2]", "a: b", "# no", "", "- x", "~"])
        try:
            set_at(new, path, value)
        except (AttributeError, TypeError):     # the way leads through a list
            new = BAD
        return dict(op="set", path=list(path), value=value), new, [path]
    if op == "move":
        n = pick(others + ["nobody"] if rng.random() < 0.05 else others)
        w = [float(rng.choice([0, 1e-5, 2e-6, -1e-6, x, round(x, 3), x])) for x in rng.uniform(-3, 3, 3)]
        if rng.random() < 0.03:
            return dict(op="move", node="world", world_position=w), BAD, []
        if n not in doc["nodes"]:
            return dict(op="move", node=n, world_position=w), BAD, []
        m = world(doc["nodes"][n].get("parent") or "world")
        loc = (np.linalg.inv(m) @ np.array(w + [1.0]))[:3]
        new["nodes"][n]["location"] = [float(x) for x in loc]
        return dict(op="move", node=n, world_position=w), new, [("nodes", n, "location")]
    if op == "add-node":
        kind = pick(["box", "sphere", "cylinder", "light"] + (["mesh", "cone"] if rng.random() < 0.1 else [])) if what is None else what
        if kind in ("mesh", "cone"):
            return dict(op=op, kind=kind), BAD, []

        def ok(got):
            extra = [k for k in got["nodes"] if k not in doc["nodes"]]
            if len(extra) != 1 or kind not in got["nodes"][extra[0]]:
                return f"new nodes {extra}"
            rest = copy.deepcopy(got)
            del rest["nodes"][extra[0]]
            return None if rest == doc else "other parts of the document changed"
        return dict(op=op, kind=kind), ok, []
    if op == "add-recorder":
        n = pick(names) if what is None else what
        if what is None and rng.random() < 0.1:
            return dict(op=op, node="nobody"), BAD, []

        def ok(got):
            extra = [k for k in got.get("recorders", {}) if k not in doc.get("recorders", {})]
            if len(extra) != 1 or got["recorders"][extra[0]]["node"] != n:
                return f"new recorders {extra}"
            rest = copy.deepcopy(got)
            del rest["recorders"][extra[0]]
            if "recorders" not in doc:
                rest.pop("recorders")
            return None if rest == doc else "other parts of the document changed"
        return dict(op=op, node=n), ok, []
    if op == "add-face-recorders":
        n = pick(names) if what is None else what
        if any(f"{n}-{label}" in doc.get("recorders", {}) for label, _ in FACES):
            ctx.count("faces_again")
        if "box" not in doc["nodes"][n]:
            return dict(op=op, node=n), BAD, []
        size = doc["nodes"][n]["box"]["size"]

        def ok(got):
            rest = copy.deepcopy(got)
            for label, facet in FACES:
                name = f"{n}-{label}"
                r = rest.get("recorders", {}).get(name)
                if name in doc.get("recorders", {}):
                    continue
                if r is None or r["node"] != n or r["event"] != "escaping" or r["facet"] != facet:
                    return f"recorder {name} is {r}"
                axes = [i for i in range(3) if not facet[i]]
                pos = r["histograms"]["position"]
                if sorted(pos[:2]) != ["xyz"[i] for i in axes]:
                    return f"recorder {name} has axes {pos[:2]}"
                for a, rg in zip(pos[:2], pos[2:]):
                    h = size["xyz".index(a)] / 2
                    if not studio.near(rg[:2], [-h, h]) or int(rg[2]) < 1:
                        return f"recorder {name} covers {rg} along {a} of a box {size}"
                del rest["recorders"][name]
            if "recorders" not in doc:
                rest.pop("recorders", None)
            return None if rest == doc else "other parts of the document changed"
        return dict(op=op, node=n), ok, []
    if op == "add-component":
        def ok(got):
            extra = [k for k in got.get("components", {}) if k not in doc.get("components", {})]
            if len(extra) != 1:
                return f"new components {extra}"
            rest = copy.deepcopy(got)
            del rest["components"][extra[0]]
            if "components" not in doc:
                rest.pop("components")
            return None if rest == doc else "other parts of the document changed"
        return dict(op=op), ok, []
    if op == "delete-component":
        cs = list(doc.get("components", {}))
        if not cs or what is None and rng.random() < 0.05:
            return dict(op=op, component="nobody"), BAD, []
        c = pick(cs) if what is None else what
        del new["components"][c]
        where = [("components", c)]
        for n, d in new["nodes"].items():
            k = body(d)
            if k and c in d[k]["material"].get("components", []):
                d[k]["material"]["components"] = [x for x in d[k]["material"]["components"] if x != c]
                where.append(("nodes", n, k, "material", "components"))
        return dict(op=op, component=c), new, where
    if op == "update-recorder":
        auto = [f"{n}-{s}" for n in bodies if doc["nodes"][n].get("record") for s in
                (["lost"] + [f for f, _ in FACES] if "box" in doc["nodes"][n] else ["lost", "escaping"])]
        recs = list(doc.get("recorders", {})) + auto
        if not recs or rng.random() < 0.05:
            return dict(op=op, recorder="nobody", changes={"event": "lost"}), BAD, []
        r = pick(recs)
        changes = {}
        for k, v in (("event", pick(EVENTS)), ("facet", pick([[0, 0, 1], [1.0, 0, 0], [0.0, 0.6, 0.8], [1e-7, 0, 1]])), ("atol", num())):
            if rng.random() < 0.5:
                changes[k] = v
        if rng.random() < 0.08:
            return dict(op=op, recorder=r, changes={**changes, pick(["node", "name", "histograms"]): "x"}), BAD, []
        if r in doc.get("recorders", {}):
            new["recorders"][r].update(changes)
            return dict(op=op, recorder=r, changes=changes), new, [("recorders", r)]
        n = next(b for b in sorted(bodies, key=len, reverse=True) if r.startswith(b + "-") and doc["nodes"][b].get("record"))
        from pvtrace.cli.parse import auto_recorders
        spec = copy.deepcopy(auto_recorders(n, doc["nodes"][n])[r])
        spec.update(changes)
        new.setdefault("recorders", {})[r] = spec
        return dict(op=op, recorder=r, changes=changes), new, [("recorders", r)]
    if op == "delete-recorder":
        rs = list(doc.get("recorders", {}))
        if not rs or what is None and rng.random() < 0.1:
            return dict(op=op, recorder="nobody"), BAD, []
        r = pick(rs) if what is None else what
        del new["recorders"][r]
        return dict(op=op, recorder=r), new, [("recorders", r)]
    if op == "delete-node":
        n = pick(others + ["nobody"] if rng.random() < 0.05 else others)
        if rng.random() < 0.03:
            n = "world"
        if what is not None:
            n = what
        if n not in doc["nodes"] or n == "world":
            return dict(op=op, node=n), BAD, []
        where = [("nodes", n)] + [("recorders", r) for r, d in doc.get("recorders", {}).items() if d["node"] == n] + \
            [("nodes", k, "parent") for k, d in doc["nodes"].items() if d.get("parent") == n]

        def ok(got):
            want = copy.deepcopy(doc)
            del want["nodes"][n]
            for r in [r for r, d in want.get("recorders", {}).items() if d["node"] == n]:
                del want["recorders"][r]
            got = copy.deepcopy(got)
            for k, d in list(want["nodes"].items()):
                if d.get("parent") == n:        # children go elsewhere, or with their parent
                    d.pop("parent")
                    if k in got["nodes"]:
                        if got["nodes"][k].get("parent", "world") not in got["nodes"]:
                            return f"{k} refers to the parent {got['nodes'][k].get('parent')}"
                        got["nodes"][k].pop("parent", None)
            return None if got == want else "other parts of the document changed"
        return dict(op=op, node=n), ok, where
    payload = pick([{}, {"op": "explode"}, {"op": "set"}, {"op": "set", "path": [], "value": 1}, {"op": "set", "path": ["nodes"], "value": 3},
                    {"op": "move", "node": others[0]}, {"op": "set", "path": ["version"], "value": "9.9"}, {"op": None},
                    {"op": "set", "path": ["nodes", "world", "sphere", "radius", "x"], "value": 3},
                    {"op": "move", "node": others[0], "world_position": [1, 2]}, {"op": "move", "node": others[0], "world_position": "abc"},
                    {"op": "add-node"}, {"op": "update-recorder", "recorder": "a"}, {"op": "set", "path": ["nodes", "world"], "value": {}}])
    return payload, BAD, []


def build(text, folder):
    """(scene, None) or (None, error): what the parser makes of a text beside the document."""
    import contextlib
    import io
    from pvtrace.cli.parse import parse
    import pvtrace.engine as engine
    p = os.path.join(folder, "expected.yml")
    open(p, "w").write(text)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            s = parse(p)
        engine.compile_scene(s)
        return s, None
    except Exception as e:  # noqa: BLE001
        return None, e
    finally:
        os.unlink(p)


def totals(ctx, c, scene, detail, rays=60):
    """A short run in the studio equals the same run of the scene it should show."""
    import pvtrace.engine as engine
    seed = int(ctx.rng.integers(0, 2**31))
    s = studio.Socket(c)
    try:
        np.random.seed(seed)
        msgs, end = studio.run_to_end(s, rays=rays, seed=seed, bundle=rays, record_every=0)
    finally:
        s.close()
    try:
        np.random.seed(seed)
        (ref, _), = list(engine.simulate_stream(scene, rays, bundle=rays, seed=seed, record_every=0))
    except Exception as e:  # noqa: BLE001  e.g. no lights
        ctx.count("unsimulable")
        ctx.expect(end == "error", "run", f"a run of a scene which cannot be traced ({e}) ended '{end}'", **detail)
        return
    if not ctx.expect(end == "done" and len(msgs) >= 3, "run", f"a run of the edited scene ended '{end}' after {len(msgs)} messages", **detail):
        return
    got = msgs[-2]["recorders"]
    want = {n: r for n, r in ref.recorders.items()} if hasattr(ref.recorders, "items") else {r.name: r for r in ref.recorders}
    ctx.count("runs_compared")
    ctx.expect(sorted(got) == sorted(want) and all(got[n]["rays"] == want[n].rays and got[n]["crossings"] == want[n].crossings for n in want),
               "scene-shown", "a run in the studio does not trace the scene of the current document", **detail)


def there(doc, path):
    for k in path if path[0] != "#end" else ():
        if not (isinstance(doc, dict) and k in doc or isinstance(doc, list) and isinstance(k, int) and k < len(doc)):
            return False
        doc = doc[k]
    return True


def comments_kept(ctx, text, T, where, op, detail):
    """Every comment which is not part of what was edited is still there."""
    inside = lambda p: p is not None and any(p[:len(w)] == w for w in where)
    for tag, kind, path, prev in T.comments:
        if tag not in detail["alive"] or inside(path):
            continue
        n = text.count("# " + tag)
        ctx.count("comments_checked")
        if n == 1:
            rest = text[text.index("# " + tag):].split("\n")[1:] if kind == "own" else []
            after = next((l.strip() for l in rest if l.strip() and not l.strip().startswith("#")), None)
            if kind == "own" and after is not None and path[0] != "#end" and not isinstance(path[-1], int):
                ctx.expect(after.lstrip("\"'").startswith(str(path[-1])), f"comment-moved:{op}", f"the comment before {path} is now before {after!r}",
                           **{k: v for k, v in detail.items() if k != 'alive'})
            continue
        if kind == "own" and inside(prev):
            ctx.violation(f"comment-following:{op}", f"the comment before {path} is lost by {op} of the entry above it", **{k: v for k, v in detail.items() if k != 'alive'})
        else:
            ctx.violation(f"comment:{op}", f"a comment at {path} appears {n} times after {op} of {where}", **{k: v for k, v in detail.items() if k != 'alive'})


def case(ctx, mode):
    import yaml
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c20-")
    cwd = os.getcwd()
    try:
        work = os.path.join(folder, "cwd")
        os.mkdir(work)
        data = os.path.join(folder, "data")
        os.mkdir(data)
        os.chdir(work if rng.random() < 0.5 else data)
        for _ in range(20):
            doc = document(ctx, data)
            T = studio.Text(rng, doc, density=float(rng.choice([0, 0.15, 0.4])))
            if yaml.safe_load(T.text) == doc and build(T.text, data)[0] is not None:
                break
        else:
            raise RuntimeError("no document")
        path = os.path.join(data, "scene.yml")
        open(path, "w").write(T.text)
        ctx.seen("distinct", T.text)
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()), studio.client(path) as c:
            (concurrent if mode == "concurrent" else session)(ctx, c, doc, T, path, data)
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder, ignore_errors=True)


def session(ctx, c, doc, T, path, data):
    import yaml
    rng = ctx.rng
    text, fileat = T.text, T.text
    scene = build(text, data)[0]
    ctx.expect(c.get("/api/document").json()["text"] == text, "open", "the opened document is not the file")
    totals(ctx, c, scene, dict(text=text))
    alive = {t[0] for t in T.comments}
    focus = FOCUS[int(rng.integers(len(FOCUS)))]
    for step in range(common.scale(12, 25)):
        forced = churn(rng, doc, focus) if rng.random() < (0.8 if focus[1] == "face-recorders" else 0.4) else None
        r = rng.random() if forced is None else 1.0
        if r < 0.12:      # whole document
            kind = str(rng.choice(["same", "new", "invalid", "garbage", "odd"]))
            if kind == "new":
                nd = document(ctx, data)
                T2 = studio.Text(rng, nd)
                new = T2.text
            elif kind == "invalid":
                nd = copy.deepcopy(doc)
                which = str(rng.choice(["version", "world", "index", "ref", "rec"]))
                if which == "version":
                    nd["version"] = "2.0"
                elif which == "world":
                    del nd["nodes"]["world"]
                elif which == "index":
                    k = body(nd["nodes"]["world"]); nd["nodes"]["world"][k]["material"] = {}
                elif which == "ref":
                    nd["nodes"]["zz"] = {"sphere": {"radius": 0.1, "material": {"refractive-index": 1, "components": ["nobody"]}}}
                else:
                    nd.setdefault("recorders", {})["zz"] = {"node": "nobody", "event": "lost"}
                new = docs.dump(nd)
            elif kind == "garbage":
                new = str(rng.choice(["", "[1, 2", "a", "- 1", "nodes: 3", "\t", "version: '1.0'", "!!python/object/apply:os.getcwd []", "{", "\x00"]))
            elif kind == "odd":
                new = text + str(rng.choice(["\nextra: .nan\n", "\nextra: .inf\n", "\nextra: 2020-01-01\n", "\nextra: &a [*a]\n", "\nextra: !!binary aGk=\n",
                                             "\nextra: !!set {a, b}\n", "\n10extra: 2\n", "\n? [1, extra]\n: 3\n", "\n# ünï → comment\n"])).replace("extra", f"extra{step}")
            else:
                new = text
            want, err = build(new, data)
            detail = dict(kind=kind, new=new, before=text, error=str(err))
            res = c.put("/api/document", json={"text": new})
            ctx.count("puts")
            ctx.seen("edits", ("put", kind, res.status_code))
            if res.status_code == 200:
                if not ctx.expect(want is not None, f"put:{kind}:accepted", "a document the parser refuses was applied", **detail):
                    return
                text, scene = new, want
                doc = yaml.safe_load(text)
                if kind == "new":
                    T = T2
                if kind in ("new",):
                    alive = {t[0] for t in T.comments}
                elif kind != "same":
                    T.comments = []
                studio.check_payload(ctx, res.json()["scene"], doc, scene, **detail)
            else:
                ctx.expect(want is None or kind == "odd", f"put:{kind}:refused", f"a good document was refused: {res.status_code} {res.text[:200]}", **detail)
                ctx.expect("error" in res.text.lower(), "put:no-error", f"a refusal without an error: {res.text[:100]}", **detail)
        elif r < 0.2:
            res = c.post("/api/save")
            ctx.count("saves")
            ctx.expect(res.status_code == 200 and open(path, newline="").read() == text, "save", f"saving ({res.status_code}) did not write the current document", text=text)
            fileat = text
        else:
            W = studio_world(scene)
            payload, want, where = edit(ctx, doc, W, forced)
            detail = dict(edit=json.dumps(payload), before=text)
            op = str(payload.get("op"))
            if want is not BAD and not callable(want):
                expected, err = build(yaml.safe_dump(want, sort_keys=False), data)
                if expected is None:
                    want = BAD
            res = c.post("/api/patch", json=payload)
            ctx.count("patches")
            ctx.seen("edits", (op, str(payload.get("path", [""])[-1:])[:40], res.status_code))
            if res.status_code == 200:
                ctx.count("patches_ok")
                body_ = res.json()
                now = c.get("/api/document").json()["text"]
                ctx.expect(body_["text"] == now, f"{op}:text", "the returned text is not the stored document", **detail)
                got = yaml.safe_load(now)
                if not ctx.expect(want is not BAD, f"{op}:accepted", "an edit was accepted which has no valid result", after=now, **detail):
                    return
                if callable(want):
                    why = want(got)
                else:
                    tol = copy.deepcopy(want)
                    if op == "move":    # positions may be rounded
                        a, b = got["nodes"][payload["node"]].get("location"), tol["nodes"][payload["node"]]["location"]
                        if a is not None and studio.near(a, b, 2e-6):
                            tol["nodes"][payload["node"]]["location"] = a
                    why = None if got == tol else "the document is not the edited one"
                ctx.expect(why is None, f"{op}:document", f"{op}: {why}", after=now, **detail)
                new_scene, err = build(now, data)
                if not ctx.expect(new_scene is not None, f"{op}:unparsable", f"the stored document cannot be parsed: {err}", after=now, **detail):
                    return
                studio.check_payload(ctx, body_["scene"], got, new_scene, key=f"payload", after=now, **detail)
                if op == "move":
                    m = [d for d in body_["scene"]["nodes"] + body_["scene"]["lights"] if d["name"] == payload["node"]]
                    ctx.expect(bool(m) and studio.near(m[0]["matrix"][12:15], payload["world_position"], 1e-5), "move:position",
                               f"{payload['node']} is at {m and m[0]['matrix'][12:15]}", after=now, **detail)
                comments_kept(ctx, now, T, where, op, dict(detail, alive=alive, after=now))
                ctx.sample(dict(edit=payload, comments=len(alive)))
                alive = {t[0] for t in T.comments if t[0] in alive and now.count("# " + t[0]) == 1 and there(got, t[2])}
                text, doc, scene = now, got, new_scene
            else:
                ctx.count("patches_refused")
                ctx.expect(want is BAD, f"{op}:refused", f"{op} refused with {res.status_code}: {res.text[:200]}", **detail)
                ctx.expect("error" in res.text.lower(), f"{op}:no-error", f"a refusal without an error: {res.text[:100]}", **detail)
        ctx.expect(c.get("/api/document").json()["text"] == text, "not-atomic", "the stored document changed by a refused edit", text=text)
        if open(path, newline="").read() != fileat:
            ctx.violation("saved-early", "the file changed without a save")
        if rng.random() < 0.35:
            totals(ctx, c, scene, dict(text=text))
    res = c.post("/api/save")
    ctx.expect(res.status_code == 200 and open(path, newline="").read() == text, "save", f"saving ({res.status_code}) did not write the current document", text=text)
    with studio.client(path) as again:
        ctx.expect(again.get("/api/document").json()["text"] == text, "reopen", "a saved document does not open as it was saved", text=text)
        totals(ctx, again, scene, dict(text=text))


def studio_world(scene):
    from anytree import PreOrderIter
    m = {n.name: np.asarray(n.transformation_to(scene.root)) for n in PreOrderIter(scene.root)}
    return lambda n: m[n]


def concurrent(ctx, c, doc, T, path, data):
    """Edits sent at the same time: each one is in the result, none is lost."""
    import sys
    import yaml
    rng = ctx.rng
    old = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-4)
        targets = [n for n in doc["nodes"] if n != "world"]
        results, lock = [], threading.Lock()
        plans = []
        for t in range(4):
            seq = []
            for k in range(4):
                kind = str(rng.choice(["add-node", "add-component", "set"]))
                if kind == "set" and t < len(targets):
                    seq.append(dict(op="set", path=["nodes", targets[t], "location"], value=[float(t), float(k), 0.5]))
                elif kind == "add-component":
                    seq.append(dict(op="add-component"))
                else:
                    seq.append(dict(op="add-node", kind=str(rng.choice(["box", "light"]))))
            plans.append(seq)

        def go(seq):
            for p in seq:
                r = c.post("/api/patch", json=p)
                with lock:
                    results.append((p, r.status_code))
        ts = [threading.Thread(target=go, args=(s,)) for s in plans]
        [t.start() for t in ts]
        [t.join(120) for t in ts]
        now = c.get("/api/document").json()["text"]
        got = yaml.safe_load(now)
        ctx.count("concurrent_edits", len(results))
        bad = [r for r in results if r[1] != 200]
        ctx.expect(not bad, "concurrent:refused", f"{len(bad)} of {len(results)} edits refused: {bad[:1]}", before=T.text)
        ok = [p for p, s in results if s == 200]
        for what, key in (("add-node", "nodes"), ("add-component", "components")):
            n = sum(p["op"] == what for p in ok)
            ctx.expect(len(got.get(key, {})) == len(doc.get(key, {})) + n, "concurrent:lost",
                       f"{n} {what} succeeded, the document went from {len(doc.get(key, {}))} to {len(got.get(key, {}))}", after=now)
        for t, seq in enumerate(plans):
            last = [p for p in seq if p["op"] == "set"]
            if last and (last[-1], 200) in results:
                ctx.expect(got["nodes"][targets[t]]["location"] == last[-1]["value"], "concurrent:lost", "a successful edit is not in the document", after=now)
        scene, err = build(now, data)
        if ctx.expect(scene is not None, "concurrent:unparsable", f"the document cannot be parsed: {err}", after=now):
            totals(ctx, c, scene, dict(text=now))
    finally:
        sys.setswitchinterval(old)


def broken(ctx):
    """Opening a document which does not parse: it can be seen, replaced and is never damaged."""
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c20-")
    cwd = os.getcwd()
    try:
        os.chdir(folder)
        good = docs.dump(document(ctx, folder))
        text = str(rng.choice(["", "a: [", "nodes: 3\n", good.replace("version", "versoin"), "# only a comment\n"]))
        path = os.path.join(folder, "s.yml")
        open(path, "w").write(text)
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()), studio.client(path) as c:
            ctx.seen("distinct", text)
            for p in ({"op": "add-node", "kind": "box"}, {"op": "move", "node": "a", "world_position": [0, 0, 0]},
                      {"op": "set", "path": ["nodes", "a"], "value": 1}, {"op": "delete-node", "node": "x"}):
                r = c.post("/api/patch", json=p)
                ctx.count("patches")
                ctx.expect(r.status_code != 200 and c.get("/api/document").json()["text"] == text, "broken:edit",
                           f"editing a document that does not parse: {r.status_code}, stored document changed", text=text)
            s = studio.Socket(c)
            msgs, end = studio.run_to_end(s, rays=5)
            s.close()
            ctx.expect(end == "error" and len(msgs) == 1, "broken:run", f"running a document that does not parse: {msgs[:2]}")
            want = build(good, folder)[0]
            r = c.put("/api/document", json={"text": good})
            ctx.expect((r.status_code == 200) == (want is not None), "broken:put", f"a document was {'refused' if want else 'accepted'}: {r.text[:200]}", text=good)
            ctx.expect(open(path).read() == text, "broken:file", "the file changed without a save")
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder, ignore_errors=True)


def main():
    chk = common.Check("C20", "one document edited in the studio", assumptions=[
        "Documents are for the studio's engine (no meshes), node, component and recorder names follow the schema.",
        "Positions written by moves may be rounded to a millionth.",
        "An edit is expected to succeed when the edited document parses and compiles, to fail otherwise."])
    kernelbuild.use_release_kernel()
    import pvtrace.studio.server  # noqa: F401
    chk.run_cases(case, "session", common.scale(60, 600), args=("session",))
    chk.run_cases(case, "concurrent", common.scale(8, 60), args=("concurrent",))
    chk.run_cases(broken, "broken", common.scale(6, 20))
    chk.require("patches_ok", 100)
    chk.require("patches_refused", 20)
    chk.require("runs_compared", 50)
    chk.require("comments_checked", 300)
    chk.require("concurrent_edits", 60)
    chk.require("churn_add-node", 40)
    chk.require("faces_again", 5)
    chk.require("churn_delete-node", 10)
    chk.finish()


main()
