"""C19: a scene file builds exactly the scene it describes, or is rejected."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np
import common
common.setup_path()
import docs
import stats
import tracework

PY = "!!python/object/apply:os.mkdir ['%s']"


def load_csv(path):
    rows = [l.strip().split(",") for l in open(path).read().splitlines()[1:]]
    return np.array([[float(a[1]), float(a[2])] for a in rows])


class Reader:
    """An independent reading of the document."""

    def __init__(self, doc, folder):
        self.doc, self.folder = doc, folder

    def spectrum(self, s, what):
        if "file" in s:
            p = s["file"]
            return load_csv(p if os.path.isabs(p) else os.path.join(self.folder, p))
        from pvtrace.data import fluro_red, lumogen_f_red_305
        m = {"lumogen-f-red-305": lumogen_f_red_305, "fluro-red": fluro_red}[s["name"]]
        g = s["range"]
        x = g["min"] + g["spacing"] * np.arange(int(np.floor((g["max"] - g["min"]) / g["spacing"] + 1e-9)) + 2)
        x = x[x < g["max"] + g["spacing"] - 1e-9]
        return np.column_stack([x, (m.absorption if what == "absorption" else m.emission)(x)])


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def direction_samples(ctx, key, mask, sampler, name, n=400):
    """Samples of a direction mask (about +z) against what is written."""
    d = np.array([np.asarray(sampler(), float) for _ in range(n)])
    ctx.count("directions_sampled", n)
    ctx.expect(bool(np.all(np.abs(np.linalg.norm(d, axis=1) - 1) < 1e-9)), key + ":unit", f"{name}: directions are not unit vectors")
    z = d[:, 2]
    if mask is None:
        return ctx.expect(near(d, np.tile([0, 0, 1.0], (n, 1))), key + ":default", f"{name}: directions are not +z")
    if isinstance(mask, (list, tuple)) :
        want = np.array(mask, float) / np.linalg.norm(mask)
        return ctx.expect(near(d, np.tile(want, (n, 1))), key + ":point", f"{name}: direction {mask} gives {d[0]}")
    if "isotropic" in mask:
        u = (z + 1) / 2
    elif "lambertian" in mask:
        u = z * z
        ctx.expect(bool(np.all(z >= -1e-12)), key + ":lambertian", f"{name}: lambertian direction below the horizon")
    elif "cone" in mask:
        t = np.radians(float(mask["cone"]["half-angle"]))
        u = np.sin(np.arccos(np.clip(z, -1, 1))) ** 2 / np.sin(t) ** 2
        ctx.expect(bool(np.all(z >= np.cos(t) - 1e-9)), key + ":cone", f"{name}: direction outside the cone of {mask['cone']}")
    else:
        g = float(mask["henyey-greenstein"]["g"])
        if abs(g) < 1e-6:
            u = (z + 1) / 2
        elif abs(g) > 1 - 1e-9:
            return ctx.expect(bool(np.all(np.abs(z - np.sign(g)) < 1e-4)), key + ":hg", f"{name}: HG of g={g} scatters to {z[:3]}")
        else:
            u = (1 - g * g) / (2 * g) * (1 / np.sqrt(1 + g * g - 2 * g * z) - 1 / (1 + g))
    p, desc = stats.uniform(np.clip(u, 0, 1), name)
    ctx.count("laws_tested")
    ctx.expect(p > stats.ALPHA, key + ":law", f"{name}: directions do not follow {mask}: {desc} p={p:.1e}")


def wavelength_samples(ctx, key, v, table, hist, name):
    v = np.asarray(v, float)
    x, y = table[:, 0], table[:, 1].astype(float)
    ctx.count("laws_tested")
    if hist:
        ok = np.isin(np.round(v, 9), np.round(x[y > 0], 9))
        ctx.expect(bool(ok.all()), key + ":bins", f"{name}: wavelength {v[~ok][:3]} is not one of the histogram's")
        c = np.cumsum(y) / y.sum()
        i = np.searchsorted(x, v - 1e-6)
        i = np.minimum(i, len(x) - 1)
        u = c[i] - np.random.default_rng(1).random(len(v)) * y[i] / y.sum()
    else:
        c = np.concatenate([[0], np.cumsum(np.diff(x) * (y[1:] + y[:-1]) / 2)])
        c /= c[-1]
        u = np.interp(v, x, c)
        ctx.expect(bool(np.all((v >= x[0] - 1e-9) & (v <= x[-1] + 1e-9))), key + ":range", f"{name}: wavelength outside its spectrum")
    p, desc = stats.uniform(u, name)
    ctx.expect(p > stats.ALPHA, key + ":law", f"{name}: wavelengths do not follow the spectrum: {desc} p={p:.1e}")


def check_component(ctx, R, name, comp, spec):
    from pvtrace import Absorber, Luminophore, Ray, Reactor, Scatterer
    kind = next(iter(k for k in spec if k in ("absorber", "scatterer", "luminophore")))
    s = spec[kind]
    ctx.seen("component_forms", (kind, tuple(sorted(s.get("absorption", s))), "hist" in s))
    cls = {"absorber": Absorber, "scatterer": Scatterer, "luminophore": Luminophore}[kind]
    ok = isinstance(comp, cls) and not isinstance(comp, Reactor) and (kind != "scatterer" or not isinstance(comp, (Absorber, Luminophore)))
    if not ctx.expect(ok, "component:type", f"{kind} {name} became {type(comp).__name__}"):
        return
    ctx.expect(comp.name == name, "component:name", f"component {name} is called {comp.name!r}")
    a = s["absorption"] if kind == "luminophore" else s
    hist = bool(s.get("hist", False))
    w = np.concatenate([ctx.rng.uniform(docs.Maker(ctx.rng, ".").lo + 1, 899, 60), [500.0, 600.0]])
    if "spectrum" in a:
        t = R.spectrum(a["spectrum"], "absorption").astype(float)
        if "coefficient" in a:
            t[:, 1] = t[:, 1] / t[:, 1].max() * a["coefficient"]
        w = np.concatenate([w, t[1:, 0]]) if not hist else w
        if t[:, 1].max() == 0 and hist:
            want = np.zeros(len(w))
        else:
            ref = Absorber(t, hist=hist)
            want = np.array([ref.coefficient(x) for x in w])
            peak = max(t[:, 1])
            ctx.expect("coefficient" not in a or abs(peak - a["coefficient"]) < 1e-9 * max(1, peak), "harness", "")
    else:
        want = np.full(len(w), float(a["coefficient"]))
    got = np.array([comp.coefficient(x) for x in w], float)
    ctx.count("coefficients_compared", len(w))
    ctx.expect(near(got, want, 1e-9), f"{kind}:coefficient", f"{kind} {name} written as {a}: coefficient {got[:3]} instead of {want[:3]} "
               f"(largest {got.max():.6g}, {want.max():.6g})", spec=s)
    if kind == "absorber":
        ctx.expect(not comp.is_radiative(Ray((0, 0, 0), (0, 0, 1), 555.0)), "absorber:radiative", f"absorber {name} re-emits")
        return
    q = (s["emission"] if kind == "luminophore" else s).get("quantum-yield", 1.0)
    ctx.expect(abs(comp.quantum_yield - q) < 1e-12, f"{kind}:yield", f"{kind} {name}: yield {comp.quantum_yield}, written {q}")
    pf = (s["emission"] if kind == "luminophore" else s).get("phase-function", {"isotropic": None})
    pf = {pf: None} if isinstance(pf, str) else pf
    ray = Ray((0, 0, 0), (0, 0, 1), 520.0)
    direction_samples(ctx, f"{kind}:phase", pf, lambda: comp.emit(ray, method="full").direction, f"{kind} {name}")
    v = [comp.emit(ray, method="full").wavelength for _ in range(300)]
    if kind == "scatterer":
        ctx.expect(set(v) == {520.0}, "scatterer:wavelength", f"scatterer {name} changes the wavelength")
    else:
        wavelength_samples(ctx, "luminophore:emission", v, R.spectrum(s["emission"]["spectrum"], "emission"), hist, f"luminophore {name}")


def check_shape(ctx, R, name, node, spec):
    g = node.geometry
    kind = next(k for k in ("box", "sphere", "cylinder", "mesh") if k in spec)
    s = spec[kind]
    from pvtrace import Box, Cylinder, Mesh, Sphere
    if not ctx.expect(isinstance(g, {"box": Box, "sphere": Sphere, "cylinder": Cylinder, "mesh": Mesh}[kind]), "shape:type",
                      f"{kind} {name} became {type(g).__name__}"):
        return
    ctx.count("shapes")
    if kind == "sphere":
        h = [s["radius"]] * 3
    elif kind == "cylinder":
        h = [s["radius"], s["radius"], s["length"] / 2]
    elif kind == "box":
        h = [x / 2 for x in s["size"]]
    else:
        p = s["file"] if os.path.isabs(s["file"]) else os.path.join(R.folder, s["file"])
        v = np.array([[float(x) for x in l.split()[1:]] for l in open(p) if l.startswith("vertex")])
        h = v.max(axis=0).tolist()
    off = np.array(h) * 0.0137
    for ax in range(3):
        o, d = off.copy(), np.zeros(3)
        o[ax], d[ax] = -3 * max(h), 1.0
        hits = np.array(sorted(np.asarray(q, float)[ax] for q in g.intersections(tuple(o), tuple(d))))
        want = np.array([-h[ax], h[ax]])
        if kind == "sphere":
            want *= np.sqrt(1 - 2 * 0.0137 ** 2)
        if kind == "cylinder" and ax < 2:
            want *= np.sqrt(1 - 0.0137 ** 2)
        ctx.expect(near(hits, want, 1e-6), f"shape:{kind}", f"{kind} {name} written {s}: surface at {hits} along axis {ax}, not {want}")
    m = g.material
    mat = s["material"]
    ctx.expect(abs(m.refractive_index - mat["refractive-index"]) < 1e-12, "material:index", f"{name}: refractive index {m.refractive_index}, "
               f"written {mat['refractive-index']}")
    names = [c.name for c in m.components]
    ctx.expect(names == list(mat.get("components", [])), "material:components", f"{name}: components {names}, written {mat.get('components')}")
    for c in m.components:
        if c.name in R.doc.get("components", {}):
            check_component(ctx, R, c.name, c, R.doc["components"][c.name])


def check_light(ctx, R, name, node, spec):
    s = spec["light"]
    m = s.get("mask") or {}
    ctx.seen("light_forms", (tuple(sorted(s)), tuple((k, type(v).__name__, tuple(v) if isinstance(v, dict) else ()) for k, v in sorted(m.items()))))
    light = node.light
    rays = list(light.emit(300))
    ctx.count("lights")
    ctx.expect(all(x.source == name for x in rays), "light:source", f"rays of light {name} have source {rays[0].source!r}")
    w = [x.wavelength for x in rays]
    wm = m.get("wavelength")
    if isinstance(wm, dict) and "spectrum" in wm:
        wavelength_samples(ctx, "light:spectrum", w, R.spectrum(wm["spectrum"], "absorption"), False, f"light {name}")
    else:
        want = wm["nanometers"] if isinstance(wm, dict) else wm if wm is not None else s.get("wavelength", 555.0)
        ctx.expect(all(abs(x - want) < 1e-9 for x in w), "light:wavelength", f"light {name} written {s}: wavelength {w[0]}, not {want}")
    p = np.array([x.position for x in rays], float)
    pm = m.get("position")
    if pm is None or isinstance(pm, list):
        want = np.zeros(3) if pm is None else np.array(pm, float)
        ctx.expect(near(p, np.tile(want, (len(p), 1))), "light:position", f"light {name} written {pm}: emits from {p[0]}")
    elif "circle" in pm:
        r2 = (p[:, 0] ** 2 + p[:, 1] ** 2) / pm["circle"] ** 2
        ctx.expect(bool(np.all(p[:, 2] == 0) and np.all(r2 <= 1 + 1e-9)), "light:circle", f"light {name}: emits outside {pm}")
        q, desc = stats.uniform(np.clip(r2, 0, 1), "circle")
        ctx.expect(q > stats.ALPHA, "light:circle-law", f"light {name}: {desc} p={q:.1e}")
    else:
        e = list(pm.get("rect") or pm["cube"])
        e = e + [0.0] * (3 - len(e))
        for i, a in enumerate(e):
            if a == 0:
                ctx.expect(bool(np.all(p[:, i] == 0)), "light:plane", f"light {name}: leaves its plane")
                continue
            u = (p[:, i] / a + 1) / 2
            ctx.expect(bool(np.all((u >= 0) & (u <= 1))), "light:extent", f"light {name} written {pm}: emits from {p[np.abs(u - .5) > .5][:2]}")
            q, desc = stats.uniform(np.clip(u, 0, 1), "rect")
            ctx.expect(q > stats.ALPHA, "light:extent-law", f"light {name} written {pm}: {desc} p={q:.1e}")
    dm = m.get("direction")
    it = iter(list(light.emit(400)))
    direction_samples(ctx, "light:direction", dm, lambda: next(it).direction, f"light {name}")


def histogram_tuple(h):
    return (h.prop, h.start, h.stop, h.bins)


def recorder_tuple(x):
    from pvtrace.engine.recorder import Heatmap
    hs = tuple(sorted(("map",) + histogram_tuple(h.a) + histogram_tuple(h.b) if isinstance(h, Heatmap) else ("hist",) + histogram_tuple(h)
                      for h in x.histograms))
    return (x.name, x.event, x.facet, x.atol, hs)


def written_recorder(name, s):
    hs = []
    for k, v in (s.get("histograms") or {}).items():
        if k == "position":
            hs.append(("map", v[0], float(v[2][0]), float(v[2][1]), int(v[2][2]), v[1], float(v[3][0]), float(v[3][1]), int(v[3][2])))
        else:
            hs.append(("hist", k, float(v[0]), float(v[1]), int(v[2])))
    f = s.get("facet")
    return (name, s["event"], None if f is None else tuple(float(x) for x in f), float(s.get("atol", 1e-6)), tuple(sorted(hs)))


def check_recorders(ctx, doc, nodes):
    got = {}
    for n, nd in nodes.items():
        for x in nd.recorders:
            ctx.expect(x.name not in got, "recorder:twice", f"recorder {x.name} appears twice")
            got[x.name] = (n, recorder_tuple(x))
    for name, s in (doc.get("recorders") or {}).items():
        if ctx.expect(name in got, "recorder:missing", f"recorder {name} is not in the scene"):
            n, t = got.pop(name)
            ctx.count("recorders")
            ctx.expect(n == s["node"], "recorder:node", f"recorder {name} written on {s['node']} is attached to {n}")
            ctx.expect(t == written_recorder(name, s), "recorder:values", f"recorder {name}: {t}, written {written_recorder(name, s)}")
    # record: true
    for n, s in doc["nodes"].items():
        auto = {k: t for k, (m, t) in got.items() if m == n}
        for k in auto:
            got.pop(k)
        if not s.get("record"):
            ctx.expect(not auto, "recorder:extra", f"node {n} has recorders {sorted(auto)} nobody asked for")
            continue
        named = [k for k in (doc.get("recorders") or {}) if k.startswith(n + "-")]
        if named or not ({"box", "sphere", "cylinder"} & set(s)):
            continue
        ctx.count("record_true")
        ev = sorted((t[1], t[2]) for t in auto.values() if t[1] != "lost")
        if "box" in s:
            want = sorted(("escaping", tuple(float(sgn) if i == a else 0.0 for i in range(3))) for a in range(3) for sgn in (1, -1))
            ctx.expect([(a, tuple(b)) for a, b in ev] == want, "record:box", f"record: true on box {n} gives {ev}")
            for t in auto.values():
                if t[1] != "escaping":
                    continue
                maps = [h for h in t[4] if h[0] == "map"]
                if not ctx.expect(len(maps) == 1, "record:heatmap", f"face recorder {t[0]} has {len(maps)} heatmaps"):
                    continue
                h = maps[0]
                ax = [i for i in range(3) if t[2][i] != 0][0]
                size = s["box"]["size"]
                ctx.expect({h[1], h[5]} == {"xyz"[i] for i in range(3) if i != ax}, "record:axes", f"face {t[2]} of {n} maps {h[1], h[5]}")
                for p, lo, hi, bins in (h[1:5], h[5:9]):
                    e = size["xyz".index(p)] / 2 if p in "xyz" else 0
                    ctx.expect(abs(lo + e) < 1e-9 and abs(hi - e) < 1e-9 and bins >= 1, "record:extent", f"face {t[2]} of {n}: {p} from {lo} to {hi}, half size {e}")
        else:
            ctx.expect(ev == [("escaping", None)], "record:surface", f"record: true on {n} gives {ev}")
        ctx.expect([t[2] for t in auto.values() if t[1] == "lost"] == [None], "record:lost", f"record: true on {n} has no loss recorder")
    ctx.expect(not got, "recorder:extra", f"recorders {sorted(got)} are not in the document")


def check_scene(ctx, doc, folder, scene):
    R = Reader(doc, folder)
    root = scene.root
    ctx.expect(root.name == "world" and root.parent is None, "world", f"the root is {root.name!r}")
    alln = [root] + list(root.descendants)
    nodes = {n.name: n for n in alln}
    if not ctx.expect(sorted(n.name for n in alln) == sorted(doc["nodes"]), "nodes", f"nodes {sorted(n.name for n in alln)}, written {sorted(doc['nodes'])}"):
        return
    for name, s in doc["nodes"].items():
        n = nodes[name]
        if name != "world":
            want = s.get("parent") or "world"
            ctx.expect(n.parent is not None and n.parent.name == want, "parent", f"{name}: parent {n.parent.name!r}, written {s.get('parent')!r}")
            o = n.point_to_node((0, 0, 0), n.parent)
            loc = s.get("location") or [0, 0, 0]
            ctx.expect(near(o, loc), "location", f"{name}: origin at {o} of its parent, written {s.get('location')}")
            d = s.get("direction")
            if d:
                v = n.vector_to_node((0, 0, 1), n.parent)
                ctx.expect(near(v, np.array(d, float) / np.linalg.norm(d)), "direction", f"{name}: faces {v}, written {d}")
            else:
                ax = [n.vector_to_node(a, n.parent) for a in np.eye(3)]
                ctx.expect(near(ax, np.eye(3)), "orientation", f"{name}: turned although no direction is written")
        ctx.count("nodes")
        if "light" in s:
            ctx.expect(n.geometry is None and n.light is not None, "light:node", f"{name}: light node without light, or with a shape")
            if n.light is not None:
                check_light(ctx, R, name, n, s)
        else:
            ctx.expect(n.light is None, "shape:light", f"{name}: shape node with a light")
            check_shape(ctx, R, name, n, s)
    check_recorders(ctx, doc, nodes)


def write(rng, doc, path):
    style = int(rng.integers(0, 4))
    import yaml
    if style == 0:
        text = yaml.safe_dump(doc, sort_keys=False)
    elif style == 1:
        text = yaml.safe_dump(doc, sort_keys=True, default_flow_style=True)
    elif style == 2 and "e-" not in json.dumps(doc):
        text = json.dumps(doc, indent=1)
    else:
        text = "# a comment\n%YAML 1.1\n---\n"[:0] + "# a comment\n" + yaml.safe_dump(doc, sort_keys=False, default_flow_style=None) + "\n# end\n"
    open(path, "w").write(text)
    return style


def valid_case(ctx):
    from pvtrace.cli.parse import parse
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c19-")
    cwd = os.getcwd()
    try:
        np.random.seed(int(rng.integers(0, 2**31)))
        doc = docs.random_document(rng, folder, max_nodes=6)
        if rng.random() < 0.7:
            for k in ("nodes", "components", "recorders"):
                if k in doc:
                    doc[k] = docs.shuffled(rng, doc[k])
            doc = docs.shuffled(rng, doc)
        if rng.random() < 0.3:                      # explicit recorders win over automatic ones
            b = [n for n, s in doc["nodes"].items() if "box" in s and s.get("record")]
            if b:
                doc.setdefault("recorders", {})[f"{b[0]}-top"] = {"node": b[0], "event": "entering", "atol": 0.25}
        if doc["nodes"] and rng.random() < 0.3:
            for n, s in doc["nodes"].items():
                if n != "world" and "parent" not in s:
                    s["parent"] = None
        name = str(rng.choice(["scene.yml", "my.scene.yaml", "scene"]))
        path = os.path.join(folder, name)
        style = write(rng, doc, path)
        how = int(rng.integers(0, 3))
        if how == 0:
            os.chdir("/")
            arg = path
        elif how == 1:
            os.chdir(folder)
            arg = name
        else:
            os.chdir(os.path.dirname(folder))
            arg = os.path.join(os.path.basename(folder), name)
        ctx.seen("distinct", json.dumps(doc, sort_keys=True))
        ctx.sample(doc)
        listing = sorted(os.listdir(folder))
        try:
            scene = parse(arg)
        except Exception as exc:
            ctx.violation(f"rejected:{common.exception_key(exc)}", f"a document following the schema is rejected: {type(exc).__name__}: {str(exc)[:200]}",
                          document=doc, style=style)
            return
        ctx.expect(sorted(os.listdir(folder)) == listing, "files", "parsing left files behind")
        check_scene(ctx, doc, folder, scene)
        ctx.count("documents")
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder, ignore_errors=True)


def first(doc, *kinds):
    for n, s in doc["nodes"].items():
        for k in kinds:
            if k in s and n != "world":
                return s[k], n
    return None, None


def mutations(doc, folder):
    """(label, document) pairs none of which may be accepted."""
    def m(label):
        def deco(f):
            d = copy.deepcopy(doc)
            out = f(d)
            if out is not False:
                yield_.append((label, out if isinstance(out, (dict, str)) else d))
            return f
        return deco
    yield_ = []
    world = lambda d: d["nodes"]["world"][[k for k in ("box", "sphere") if k in d["nodes"]["world"]][0]]
    box = lambda d: first(d, "box", "sphere", "cylinder")[0]
    node = lambda d: d["nodes"][first(d, "box", "sphere", "cylinder", "mesh", "light")[1]]
    m("version-unknown")(lambda d: d.__setitem__("version", "2.0"))
    m("version-prefix")(lambda d: d.__setitem__("version", "1.0.1"))
    m("version-missing")(lambda d: d.pop("version") and None)
    m("version-number")(lambda d: d.__setitem__("version", 1.0))
    m("no-nodes")(lambda d: d.pop("nodes") and None)
    m("no-world")(lambda d: d["nodes"].pop("world") and None)
    m("bad-name")(lambda d: d["nodes"].__setitem__("a b", {"sphere": {"radius": 0.01, "material": {"refractive-index": 1.0}}}))
    m("two-shapes")(lambda d: node(d).update(sphere={"radius": 1, "material": {"refractive-index": 1}}, box={"size": [1, 1, 1], "material": {"refractive-index": 1}}))
    m("no-shape")(lambda d: d["nodes"].__setitem__("empty", {"parent": "world"}))
    m("index-low")(lambda d: world(d)["material"].__setitem__("refractive-index", 0.99))
    m("index-text")(lambda d: world(d)["material"].__setitem__("refractive-index", "1.5"))
    m("index-missing")(lambda d: world(d)["material"].pop("refractive-index") and None)
    m("radius-negative")(lambda d: d["nodes"].__setitem__("neg", {"sphere": {"radius": -1, "material": {"refractive-index": 1}}}))
    m("length-negative")(lambda d: d["nodes"].__setitem__("neg", {"cylinder": {"radius": 1, "length": -1, "material": {"refractive-index": 1}}}))
    m("no-radius")(lambda d: d["nodes"].__setitem__("neg", {"sphere": {"material": {"refractive-index": 1}}}))
    m("no-material")(lambda d: d["nodes"].__setitem__("neg", {"sphere": {"radius": 1}}))
    m("unknown-component")(lambda d: world(d)["material"].__setitem__("components", ["nobody"]))
    m("unknown-parent")(lambda d: node(d).__setitem__("parent", "nobody"))
    m("own-parent")(lambda d: node(d).__setitem__("parent", first(d, "box", "sphere", "cylinder", "mesh", "light")[1]))

    def cycle(d):
        s = {"sphere": {"radius": 0.01, "material": {"refractive-index": 1}}}
        d["nodes"]["c1"], d["nodes"]["c2"] = dict(s, parent="c2"), dict(s, parent="c1")
    m("parent-cycle")(cycle)
    m("unknown-node-key")(lambda d: node(d).__setitem__("rotation", [0, 0, 1]))
    m("location-text")(lambda d: node(d).__setitem__("location", "0 0 0"))
    m("recorder-node")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "nobody", "event": "lost"}))
    m("recorder-event")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "leaving"}))
    m("recorder-no-event")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world"}))
    m("recorder-facet")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "lost", "facet": [0, 1]}))
    m("recorder-property")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "lost", "histograms": {"colour": [0, 1, 2]}}))
    m("recorder-bins")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "lost", "histograms": {"angle": [0, 1, 0]}}))
    m("recorder-range")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "lost", "histograms": {"angle": [1, 0, 4]}}))
    m("recorder-extra")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "lost", "colour": 1}))
    m("recorder-malformed")(lambda d: d.setdefault("recorders", {}).__setitem__("r", {"node": "world", "event": "lost", "histograms": {"angle": [0, 1]}}))
    C = lambda d, c: d.setdefault("components", {}).__setitem__("bad", c)
    m("absorber-empty")(lambda d: C(d, {"absorber": {}}))
    m("absorber-negative")(lambda d: C(d, {"absorber": {"coefficient": -1}}))
    m("absorber-extra")(lambda d: C(d, {"absorber": {"coefficient": 1, "quantum-yield": 1}}))
    m("scatterer-yield")(lambda d: C(d, {"scatterer": {"coefficient": 1, "quantum-yield": 1.1}}))
    m("scatterer-empty")(lambda d: C(d, {"scatterer": {"quantum-yield": 1}}))
    m("phase-two")(lambda d: C(d, {"scatterer": {"coefficient": 1, "phase-function": {"isotropic": None, "lambertian": None}}}))
    m("phase-unknown")(lambda d: C(d, {"scatterer": {"coefficient": 1, "phase-function": {"forward": None}}}))
    m("phase-g")(lambda d: C(d, {"scatterer": {"coefficient": 1, "phase-function": {"henyey-greenstein": {"g": 1.5}}}}))
    m("component-two")(lambda d: C(d, {"scatterer": {"coefficient": 1}, "absorber": {"coefficient": 1}}))
    m("component-unknown")(lambda d: C(d, {"reflector": {"coefficient": 1}}))
    m("component-name")(lambda d: d.setdefault("components", {}).__setitem__("a b", {"absorber": {"coefficient": 1}}))
    m("spectrum-unknown")(lambda d: C(d, {"absorber": {"spectrum": {"name": "nobody", "range": {"min": 400, "max": 900, "spacing": 1}}}}))
    m("spectrum-no-range")(lambda d: C(d, {"absorber": {"spectrum": {"name": "fluro-red"}}}))
    m("spectrum-range")(lambda d: C(d, {"absorber": {"spectrum": {"name": "fluro-red", "range": {"min": 400, "max": 900}}}}))
    m("spectrum-both")(lambda d: C(d, {"absorber": {"spectrum": {"file": "x.csv", "name": "fluro-red", "range": {"min": 400, "max": 900, "spacing": 1}}}}))
    m("spectrum-missing-file")(lambda d: C(d, {"absorber": {"spectrum": {"file": "nobody.csv"}}}))
    m("luminophore-yield")(lambda d: C(d, {"luminophore": {"absorption": {"coefficient": 1}, "emission": {"quantum-yield": -0.1, "spectrum": {"name": "fluro-red", "range": {"min": 500, "max": 800, "spacing": 1}}}}}))
    m("mesh-missing")(lambda d: d["nodes"].__setitem__("m", {"mesh": {"file": "nobody.stl", "material": {"refractive-index": 1}}}))
    L = lambda d, l: d["nodes"].__setitem__("l9", {"light": l})
    m("light-position-two")(lambda d: L(d, {"mask": {"position": {"rect": [1, 1], "circle": 1}}}))
    m("light-position-extra")(lambda d: L(d, {"mask": {"position": {"rect": [1, 1], "angle": 1}}}))
    m("light-direction-unknown")(lambda d: L(d, {"mask": {"direction": {"beam": 1}}}))
    m("light-wavelength-text")(lambda d: L(d, {"wavelength": "green"}))
    m("light-wavelength-two")(lambda d: L(d, {"mask": {"wavelength": {"nanometers": 1, "spectrum": {"name": "fluro-red", "range": {"min": 400, "max": 900, "spacing": 1}}}}}))
    m("record-text")(lambda d: node(d).__setitem__("record", "yes please"))
    m("yaml-broken")(lambda d: docs.dump(d) + "\n  - [unclosed")
    m("empty")(lambda d: "")
    m("list")(lambda d: "- 1\n- 2\n")
    flag = os.path.join(folder, "executed")
    m("code")(lambda d: docs.dump(d) + "\nrecorders2: " + PY % flag + "\n")
    m("code-inside")(lambda d: docs.dump(d).replace("version: '1.0'", 'version: !!python/object/apply:os.mkdir ["' + flag + '"]'))
    return yield_


def invalid_case(ctx):
    from pvtrace.cli.parse import parse
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c19-")
    try:
        doc = docs.random_document(rng, folder, max_nodes=3)
        ms = mutations(doc, folder)
        for i in rng.permutation(len(ms)):
            label, d = ms[i]
            path = os.path.join(folder, "scene.yml")
            if isinstance(d, str):
                open(path, "w").write(d)
            else:
                write(rng, d, path)
            ctx.seen("distinct", (label, json.dumps(doc, sort_keys=True)))
            ctx.seen("mutations", label)
            try:
                parse(path)
            except Exception as exc:
                ctx.count("rejected")
            else:
                ctx.violation(f"accepted:{label}", f"a document with {label} is accepted", document=d)
            ctx.count("oracle_evaluations")
            ctx.expect(not os.path.exists(os.path.join(folder, "executed")), "code-executed", "reading a document ran code written in it")
            if os.path.isdir(os.path.join(folder, "executed")):
                os.rmdir(os.path.join(folder, "executed"))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def main():
    chk = common.Check("C19", "one document parsed and compared with an independent reading", assumptions=[
        "Luminophores have an absorption and an emission spectrum; masks describe non-empty regions.",
        "Random choices (phase functions, emission, masks) are judged by 300 to 400 samples at a threshold of 1e-9."])
    import pvtrace.cli.parse  # noqa: F401
    chk.run_cases(valid_case, "valid", common.scale(240, 3000))
    chk.run_cases(invalid_case, "invalid", common.scale(24, 200))
    chk.require("documents", 100)
    chk.require("rejected", 1000)
    chk.require("recorders", 100)
    chk.require("laws_tested", 500)
    chk.finish()


main()
