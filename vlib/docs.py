"""Random scene documents (YAML files) and the files they refer to.

`random_document(rng, folder, ...)` returns a plain dict following the schema;
bodies sit apart from each other inside a world body so that the documents can
also be simulated.  Nothing here is taken from the parser.
"""
import os

import numpy as np


def r(x, k=4):
    return round(float(x), k)


def write_csv(path, x, y, integers=False, header=("index", "nm", "value")):
    with open(path, "w") as fp:
        fp.write(",".join(header) + "\n")
        for i, (a, b) in enumerate(zip(x, y)):
            fp.write(f"{i},{int(a)},{int(b)}\n" if integers else f"{i},{float(a)!r},{float(b)!r}\n")


def write_stl(path, size):
    """A box as ASCII STL, outward facets."""
    h = np.array(size) / 2
    out = ["solid box"]
    for ax in range(3):
        for s in (-1, 1):
            n = np.zeros(3); n[ax] = s
            u, v = [(ax + 1) % 3, (ax + 2) % 3]
            def pt(a, b):
                p = np.zeros(3); p[ax] = s * h[ax]; p[u] = a * h[u]; p[v] = b * h[v]
                return p
            q = [pt(-1, -1), pt(1, -1), pt(1, 1), pt(-1, 1)]
            if s < 0:
                q = q[::-1]
            for t in ((0, 1, 2), (0, 2, 3)):
                out.append("facet normal %g %g %g" % tuple(n))
                out.append("outer loop")
                out += ["vertex %.9g %.9g %.9g" % tuple(q[i]) for i in t]
                out += ["endloop", "endfacet"]
    out.append("endsolid box")
    open(path, "w").write("\n".join(out) + "\n")


NAMES = ["slab", "ball", "rod", "a.b", "x-1", "lens_2", "True", "null-node", "0", "12", "node", "light", "box", "ABC"]


class Maker:
    def __init__(self, rng, folder, simple=False, lo=380.0, hi=900.0, quote_free=True):
        self.rng, self.folder, self.simple = rng, folder, simple
        self.lo, self.hi = lo, hi
        self.k = 0

    def name(self, used, stem=None):
        rng = self.rng
        pool = [n for n in NAMES if n not in used and not n.isdigit()]
        if stem is None and pool and rng.random() < 0.5:
            return str(rng.choice(pool))
        while True:
            self.k += 1
            n = f"{stem or 'n'}{self.k}"
            if n not in used:
                return n

    # -- spectra
    def spectrum(self, emission=False, simple=None):
        rng = self.rng
        simple = self.simple if simple is None else simple
        if rng.random() < 0.5 or simple:
            name = str(rng.choice(["lumogen-f-red-305", "fluro-red"]))
            sp = float(rng.choice([1, 2, 5, 2.5]))
            lo, hi = self.lo, self.hi
            return {"name": name, "range": {"min": lo, "max": hi, "spacing": sp}}
        self.k += 1
        sub = str(rng.choice(["", "", "data", "deep/er"]))
        os.makedirs(os.path.join(self.folder, sub), exist_ok=True)
        fn = os.path.join(sub, f"spec{self.k}.csv")
        while os.path.exists(os.path.join(self.folder, fn)):    # of another document in this folder
            self.k += 1
            fn = os.path.join(sub, f"spec{self.k}.csv")
        n = int(rng.choice([4, 9, 60]))
        lo, hi = self.lo, self.hi
        x = np.unique(np.round(np.concatenate([[lo, hi], [449, 450] if emission else [], rng.uniform(lo, hi, n)])))
        y = np.abs(rng.normal(5, 3, len(x)))
        y[rng.random(len(x)) < 0.2] = 0.0
        k = int(rng.integers(0, len(x) - 1))
        y[k] += 7.0
        if emission:            # room for photons gaining energy when emitted
            y[x < 450] = 0.0
            if not y[x < hi].any():
                y[-2] = 3.0
        ints = rng.random() < 0.3
        if ints:
            y = np.round(y)
        write_csv(os.path.join(self.folder, fn), x, y, ints)
        if rng.random() < 0.25:
            fn = os.path.abspath(os.path.join(self.folder, fn))
        return {"file": fn}

    def direction_mask(self, lambertian=True):
        rng = self.rng
        k = int(rng.integers(0, 4 if lambertian else 3))
        if k == 0:
            return {"isotropic": None}
        if k == 1:
            a = r(rng.choice([5, 22.5, 60, 90, rng.uniform(1, 90)]))
            return {"cone": {"half-angle": str(a) if rng.random() < 0.2 else a}}
        if k == 2:
            return {"henyey-greenstein": {"g": r(rng.choice([-0.7, 0, 0.3, 0.9, rng.uniform(-1, 1)]))}}
        return {"lambertian": None}

    def component(self, kind=None):
        rng = self.rng
        kind = kind or str(rng.choice(["absorber", "scatterer", "luminophore", "absorber"]))
        coef = r(rng.choice([0.0, 0.3, 1, 5, rng.uniform(0, 8)]))
        form = str(rng.choice(["coefficient", "spectrum", "both"]))
        c = {}
        if form != "spectrum":
            c["coefficient"] = int(coef) if coef == int(coef) and rng.random() < 0.5 else coef
        if form != "coefficient":
            c["spectrum"] = self.spectrum()
        hist = rng.random() < 0.3
        if kind == "absorber":
            d = c
        elif kind == "scatterer":
            d = c
            if rng.random() < 0.5:
                d["quantum-yield"] = r(rng.choice([0, 0.5, 1, rng.random()]))
            if rng.random() < 0.6:
                d["phase-function"] = self.direction_mask()
        else:
            e = {"spectrum": self.spectrum(emission=True)}
            if rng.random() < 0.6:
                e["quantum-yield"] = r(rng.choice([0, 0.5, 0.95, 1, rng.random()]))
            if rng.random() < 0.5:
                e["phase-function"] = self.direction_mask()
            d = {"absorption": c, "emission": e}
        if hist:
            d["hist"] = bool(rng.random() < 0.8)
        return {kind: d}

    def light(self, point=True):
        rng = self.rng
        d = {}
        if rng.random() < 0.6:
            w = r(rng.uniform(400, 780), 1)
            d["wavelength"] = int(w) if rng.random() < 0.5 else w
        m = {}
        if rng.random() < 0.5:
            k = int(rng.integers(0, 4 if point else 3))
            m["position"] = [{"rect": [r(rng.uniform(.01, .2)), r(rng.uniform(.01, .2))]},
                             {"cube": [r(rng.uniform(.01, .2)) for _ in range(3)]},
                             {"circle": r(rng.uniform(.01, .2))},
                             [r(x) for x in rng.uniform(-.2, .2, 3)]][k]
        if rng.random() < 0.6:
            if point and rng.random() < 0.2:
                m["direction"] = [r(x) for x in rng.normal(size=3)]
                if not any(m["direction"]):
                    m["direction"] = [0, 0, -1]
            else:
                m["direction"] = self.direction_mask()
        if rng.random() < 0.4:
            k = int(rng.integers(0, 3))
            w = r(rng.uniform(400, 780), 2)
            m["wavelength"] = [w, {"nanometers": w}, {"spectrum": self.spectrum(emission=True)}][k]
            if k == 2 and "name" in m["wavelength"]["spectrum"]:
                m["wavelength"]["spectrum"]["range"] = {"min": 450, "max": 650, "spacing": 2}
        if m or rng.random() < 0.2:
            d["mask"] = m
        return d

    def shape(self, R, material, mesh=True):
        """Something inside the ball of radius R about the node's origin."""
        rng = self.rng
        k = int(rng.integers(0, 4 if mesh else 3))
        f = rng.uniform(0.5, 0.95)
        if k == 0 or k == 3:
            v = np.abs(rng.normal(size=3)) + 0.3
            size = [r(x, 3) for x in 2 * R * f * v / np.linalg.norm(v)]
            if rng.random() < 0.2:
                size = [1, 1, 1] if R > 0.95 else size
            if k == 0:
                return {"box": {"size": size, "material": material}}
            self.k += 1
            while os.path.exists(os.path.join(self.folder, f"mesh{self.k}.stl")):
                self.k += 1
            fn = f"mesh{self.k}.stl"
            write_stl(os.path.join(self.folder, fn), size)
            return {"mesh": {"file": fn if rng.random() < 0.7 else os.path.abspath(os.path.join(self.folder, fn)), "material": material}}
        if k == 1:
            return {"sphere": {"radius": r(R * f, 3), "material": material}}
        a = rng.uniform(0.3, 1.2)
        return {"cylinder": {"length": r(2 * R * f * np.cos(a), 3), "radius": r(R * f * np.sin(a), 3), "material": material}}


def _inner_radius(d):
    if "box" in d:
        return min(d["box"]["size"]) / 2
    if "sphere" in d:
        return d["sphere"]["radius"]
    if "cylinder" in d:
        return min(d["cylinder"]["length"] / 2, d["cylinder"]["radius"])
    return 0.0


def histograms(rng):
    out = {}
    opts = {"wavelength": (300.0, 1000.0), "angle": (0.0, 1.5708), "duration": (0.0, 1e-8), "pathlength": (0.0, 60.0),
            "x": (-2.0, 2.0), "y": (-2.0, 2.0), "z": (-2, 2)}
    for k in rng.permutation(sorted(opts))[:int(rng.integers(0, 4))]:
        lo, hi = opts[str(k)]
        out[str(k)] = [lo, hi, int(rng.choice([1, 7, 40]))]
    if rng.random() < 0.4:
        a, b = [str(x) for x in rng.permutation(sorted(opts))[:2]]
        out["position"] = [a, b, list(opts[a]) + [int(rng.integers(1, 12))], list(opts[b]) + [int(rng.integers(1, 12))]]
    return out


def random_document(rng, folder, simple=False, mesh=True, max_nodes=4, recorders=True, point_masks=True, lights=None):
    mk = Maker(rng, folder, simple)
    material = lambda comps: {"refractive-index": [1, 1.0, 1.33, 1.5, r(rng.uniform(1, 2.2), 3)][int(rng.integers(0, 5))],
                              **({"components": comps} if comps or rng.random() < 0.2 else {})}
    comps = {}
    for _ in range(int(rng.integers(0, 4))):
        n = mk.name(comps, "comp")
        comps[n] = mk.component()
    nodes = {}
    W = 9.0
    nodes["world"] = {"sphere": {"radius": r(W), "material": {"refractive-index": 1.0}}} if rng.random() < 0.6 else \
        {"box": {"size": [14.0, 15.0, 16.0], "material": {"refractive-index": 1}}}
    spots = [np.array(p, float) for p in ([3, 3, 3], [-3, 3, -3], [3, -3, 0], [-3, -3, 3], [0, 0, -1.2], [3, 3, -3.5], [-3, 3, 3.0])]
    spots = [spots[i] for i in rng.permutation(len(spots))]
    frames = {"world": (np.zeros(3), False)}     # world position, rotated?
    nb = int(rng.integers(1, max_nodes))

    def pick_comps():
        ks = [str(k) for k in rng.permutation(sorted(comps))[:int(rng.integers(0, 3))]]
        return ks

    def oriented(d, p=0.4):
        if rng.random() < p:
            v = [[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, 1, 1], [r(x) for x in rng.normal(size=3)]][int(rng.integers(0, 5))]
            if any(v):
                d["direction"] = v
                return True
        return False

    bodies = []
    for i in range(nb):
        n = mk.name(nodes)
        d = mk.shape(1.4, material(pick_comps()), mesh)
        p = spots.pop()
        parent = "world"
        if rng.random() < 0.5:
            d["parent"] = "world"
        d["location"] = [r(x) for x in p]
        rot = oriented(d)
        if rng.random() < 0.25:
            d["record"] = True
        nodes[n] = d
        frames[n] = (p, rot)
        bodies.append(n)
        R = _inner_radius(d)
        if R > 0.3 and rng.random() < 0.35:
            c = mk.name(nodes)
            e = mk.shape(R * 0.8, material(pick_comps()), False)
            e["parent"] = n
            if rng.random() < 0.5:
                e["location"] = [0, 0, 0]
            oriented(e)
            nodes[c] = e
            frames[c] = (p, True)
            bodies.append(c)
    for i in range(lights if lights is not None else int(rng.integers(1, 4))):
        n = mk.name(nodes, None if rng.random() < 0.3 else "lamp")
        d = {"light": mk.light(point_masks)}
        if rng.random() < 0.3 and bodies:
            b = bodies[int(rng.integers(0, len(bodies)))]
            d["parent"] = b
            if rng.random() < 0.5:
                d["location"] = [0, 0, 0.01]
        else:
            p = spots.pop() if spots else np.array([0, 0, 6.0])
            d["location"] = [r(x) for x in (p + [0, 0, 1.6 if p[2] == -1.2 else 0])]
            if rng.random() < 0.3:
                d["parent"] = "world"
        oriented(d)
        nodes[n] = d
    recs = {}
    if recorders:
        for _ in range(int(rng.integers(0, 4))):
            ev = str(rng.choice(["entering", "escaping", "reflected", "lost", "killed", "reacted"]))
            b = str(rng.choice(bodies))
            d = {"node": b, "event": ev}
            if ev in ("entering", "escaping", "reflected") and rng.random() < 0.5:
                d["facet"] = [[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [0.0, 0.6, 0.8]][int(rng.integers(0, 5))]
                if rng.random() < 0.5:
                    d["atol"] = [1e-6, 0.001, 0.1, 2][int(rng.integers(0, 4))]
            h = histograms(rng)
            if h or rng.random() < 0.5:
                d["histograms"] = h
            recs[mk.name(recs, "rec")] = d
        if rng.random() < 0.3:
            recs[mk.name(recs, "rec")] = {"node": "world", "event": "exit", "histograms": {"wavelength": [300, 1000, 20]}}
    doc = {"version": "1.0", "nodes": nodes}
    if comps or rng.random() < 0.3:
        doc["components"] = comps
    if recs or rng.random() < 0.2:
        doc["recorders"] = recs
    return doc


def shuffled(rng, d):
    return {k: d[k] for k in [list(d)[i] for i in rng.permutation(len(d))]}


def dump(doc):
    import yaml
    return yaml.safe_dump(doc, sort_keys=False, default_flow_style=None)
