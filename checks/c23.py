"""C23: LSC results against the histories of the very rays they were made from."""
import common
common.setup_path()
import contextlib
import functools
import io
import math
import os
import sys
import time

import numpy as np

import stats
import viewer

FACETS = {"left": (0, -1), "right": (0, 1), "near": (1, -1), "far": (1, 1), "bottom": (2, -1), "top": (2, 1)}
CELLS = ("left", "right", "near", "far")
HISTORIES = []


def watch():
    """Record every history, wherever the tracer's function is used from."""
    from pvtrace.algorithm import photon_tracer
    import pvtrace.device.lsc  # noqa: F401
    original = photon_tracer.follow
    if getattr(original, "_verif", False):
        return

    @functools.wraps(original)
    def follow(*a, **k):
        history = original(*a, **k)
        history = list(history)
        HISTORIES.append([(h[0], h[1].name.lower()) for h in history])
        return history
    follow._verif = True
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("pvtrace"):
            for n, v in list(vars(m).items()):
                if v is original:
                    setattr(m, n, follow)


def turn(angle, axis):
    a = np.array(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K


class Dye:
    """A component and what is known of it."""

    def __init__(self, rng, k, x, kind, scale):
        self.kind, self.name = kind, f"{kind}-{k}"
        self.calls = []
        self.qy = 1.0 if rng.random() < 0.5 else float(rng.uniform(0.3, 0.97))
        top = float(scale * 10 ** rng.uniform(-1.2, 1.0))
        if kind == "absorber" and rng.random() < 0.5:
            self.coefficient, self.alpha = top, lambda w: top
        else:
            c, s = rng.uniform(420, 640), rng.uniform(20, 60)
            y = top * np.exp(-((x - c) / s) ** 2) + (top * 0.02 if rng.random() < 0.5 else 0.0)
            self.coefficient = np.column_stack((x, y))
            self.alpha = lambda w: float(np.interp(w, x, y))
        if kind == "luminophore":
            lo = 660.0 + 40 * k
            e = np.where((x >= lo) & (x <= lo + 30), 1.0 + (x - lo) / 30, 0.0)
            self.emission, self.support = np.column_stack((x, e)), (lo - 1, lo + 31)
        self.qy = self.qy if kind == "luminophore" else 1.0
        self.phase = None
        if kind != "absorber" and rng.random() < 0.4:
            self.table = rng.normal(size=(5, 3))
            self.table /= np.linalg.norm(self.table, axis=1)[:, None]

            def phase():
                d = tuple(self.table[len(self.calls) % 5])
                self.calls.append(d)
                return d
            self.phase = phase

    def add(self, lsc):
        if self.kind == "absorber":
            lsc.add_absorber(self.name, self.coefficient)
        elif self.kind == "luminophore":
            lsc.add_luminophore(self.name, self.coefficient, self.emission, self.qy, **({"phase_function": self.phase} if self.phase else {}))
        else:
            lsc.add_scatterer(self.name, self.coefficient, **({"phase_function": self.phase} if self.phase else {}))


class Lamp:
    """A light with logged delegates."""

    def __init__(self, rng, k, size, mirror):
        l, w, d = size
        self.name = f"lamp {k}"
        self.waves, self.dirs, self.spots = [], [], []
        self.base = float(rng.uniform(410, 640))
        self.rotation = None
        narrow = mirror == "lambertian"         # such a mirror only has a top side
        where = str(rng.choice(["above", "above", "above", "inside", "side", "below"] if not narrow else ["above", "inside"]))
        self.where = where
        ax = [1, 0, 0]
        if where == "above":
            self.location = (float(rng.uniform(-0.2, 0.2) * l), float(rng.uniform(-0.2, 0.2) * w), 0.5 * d + float(rng.choice([0.01, d, 5 * d])))
            self.rotation = (math.pi, (1, 0, 0))
        elif where == "below":
            self.location = (0.0, 0.0, -5.0 * d)
        elif where == "inside":
            self.location = (float(rng.uniform(-0.4, 0.4) * l), float(rng.uniform(-0.4, 0.4) * w), float(rng.uniform(-0.4, 0.4) * d))
        else:
            s = float(rng.choice([-1, 1]))
            if rng.random() < 0.5:
                self.location, self.rotation = (s * l, 0.0, 0.0), (-s * math.pi / 2, (0, 1, 0))
            else:
                self.location, self.rotation = (0.0, s * w, 0.0), (s * math.pi / 2, (1, 0, 0))
        self.spread = 0.2 if narrow and where == "above" else 0.45 if where in ("above", "below") and rng.random() < 0.6 else 0.05
        self.lw = (l, w) if where in ("above", "below") else (d, d) if where == "side" else (0.05 * d, 0.05 * d)
        self.has = dict(direction=where == "inside" or not narrow and rng.random() < 0.6, wavelength=rng.random() < 0.9, position=rng.random() < 0.7)

        def wavelength():
            self.waves.append(self.base + 1e-4 * len(self.waves))
            return self.waves[-1]

        def direction():
            if where == "inside":
                v = np.random.normal(size=3)
            else:
                v = np.array([np.random.normal() * 0.3, np.random.normal() * 0.3, 1.0])
            self.dirs.append(tuple(v / np.linalg.norm(v)))
            return self.dirs[-1]

        def position():
            self.spots.append((float(np.random.uniform(-1, 1) * self.spread * self.lw[0]), float(np.random.uniform(-1, 1) * self.spread * self.lw[1]), 0.0))
            return self.spots[-1]
        self.delegates = dict(wavelength=wavelength, direction=direction, position=position)
        self.k = 0

    def add(self, lsc):
        lsc.add_light(self.name, self.location, rotation=self.rotation, **{n: f for n, f in self.delegates.items() if self.has[n]})

    def check(self, ctx, ray, detail):
        """The k-th ray of this light is what its delegates said."""
        R = turn(*self.rotation) if self.rotation else np.eye(3)
        k = self.k
        self.k += 1
        if self.has["wavelength"]:
            ok = k < len(self.waves) and ray.wavelength == self.waves[k]
            ctx.expect(ok, "light:wavelength", f"ray {k} of '{self.name}' has {ray.wavelength} nm, its delegate said {self.waves[k:k + 1]}", **detail)
        spot = np.array(self.spots[k] if self.has["position"] else (0, 0, 0))
        want = np.array(self.location) + R @ spot
        ctx.expect(np.allclose(ray.position, want, atol=1e-9), "light:position", f"ray {k} of '{self.name}' starts at {ray.position}, expected {want}", **detail)
        want = R @ np.array(self.dirs[k] if self.has["direction"] else (0, 0, 1))
        ctx.expect(np.allclose(ray.direction, want, atol=1e-9), "light:direction", f"ray {k} of '{self.name}' goes along {ray.direction}, expected {want}", **detail)


def facet_of(p, size):
    """The facet of the box a point lies on, or None."""
    h = np.array(size) / 2
    p = np.array(p, float)
    tol = 1e-8 * (1 + np.abs(p).max() + h.max())
    if np.any(np.abs(p) > h + tol):
        return None
    near = [n for n, (a, s) in FACETS.items() if abs(p[a] - s * h[a]) <= tol]
    if near:       # so close to an edge that both facets will do
        near = [n for n, (a, s) in FACETS.items() if abs(p[a] - s * h[a]) <= 3e-5 * h[a]]
    return near[0] if len(near) == 1 else (near or None)


def distance_out(p, d, size):
    h = np.array(size) / 2
    t = [((h[i] if d[i] > 0 else -h[i]) - p[i]) / d[i] for i in range(3) if abs(d[i]) > 1e-14]
    return min(t)


class Bench:
    """An LSC under test and everything asked of it."""

    def __init__(self, ctx):
        rng = self.rng = ctx.rng
        from pvtrace.device.lsc import LSC
        self.ctx = ctx
        self.size = tuple(float(np.round(v, 3)) for v in (rng.uniform(0.8, 6), rng.uniform(0.8, 6), rng.uniform(0.1, 1.0)))
        if rng.random() < 0.15:
            self.size = tuple(np.array(self.size)[rng.permutation(3)].tolist())
        self.n0 = float(rng.choice([1.0, 1.0, 1.2])); self.n1 = float(rng.choice([1.5, 1.33, 1.7, 1.9]))
        lo, hi = float(rng.choice([300, 400])), float(rng.choice([800, 900]))
        self.x = np.arange(lo, hi + 1)
        kw = {}
        if rng.random() < 0.7:
            kw["wavelength_range"] = self.x
        else:
            self.x = np.arange(400, 801, dtype=float)
        if self.n0 != 1.0 or rng.random() < 0.3:
            kw["n0"] = self.n0
        if self.n1 != 1.5 or rng.random() < 0.3:
            kw["n1"] = self.n1
        self.lsc = LSC(self.size, **kw)
        self.mirror = [None, None, "specular", "lambertian"][int(rng.integers(0, 4))]
        self.back = bool(rng.random() < 0.3)
        self.cells, self.dyes, self.lamps = set(), [], []
        self.defaults = dict(light=True, components=True)
        self.records = []        # (history, cells in force)
        self.scale = 1.0 / min(self.size)
        self.kt = str(rng.choice(["kT", "redshift", "full"]))
        self.trials = []         # (probability, outcome) of absorption
        self.picks = []
        self.detail = dict(size=self.size, n=(self.n0, self.n1), mirror=self.mirror, back=self.back, emit=self.kt)

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())

    def add(self, what):
        rng, lsc = self.rng, self.lsc
        if what == "dye":
            d = Dye(rng, len(self.dyes), self.x, str(rng.choice(["absorber", "luminophore", "luminophore", "scatterer"])), self.scale)
            d.add(lsc)
            self.dyes.append(d)
        elif what == "lamp":
            p = Lamp(rng, len(self.lamps), self.size, self.mirror)
            p.add(lsc)
            self.lamps.append(p)
        elif what == "cells":
            new = [str(f) for f in rng.permutation(CELLS)[:int(rng.integers(1, 5))]]
            lsc.add_solar_cell([set, list, tuple][int(rng.integers(0, 3))](new))
            self.cells |= set(new)
        elif what == "back" and self.back:
            lsc.add_back_surface_mirror()
        elif what == "mirror" and self.mirror:
            lsc.add_air_gap_mirror(lambertian=self.mirror == "lambertian") if self.mirror == "lambertian" or rng.random() < 0.5 else lsc.add_air_gap_mirror()

    def simulate(self, n):
        ctx = self.ctx
        HISTORIES.clear()
        seen = []
        with self.quiet():
            if self.rng.random() < 0.5:
                self.lsc.simulate(n, progress=seen.append, emit_method=self.kt)
                ctx.expect(seen == list(range(1, n + 1)), "progress", f"progress of {n} rays reported as {seen[:5]}...{seen[-3:]}", **self.detail)
            else:
                self.lsc.simulate(n, emit_method=self.kt)
        new = list(HISTORIES)
        HISTORIES.clear()
        if not new and n:
            raise RuntimeError("no histories observed")
        ctx.expect(len(new) == n, "rays", f"{len(new)} rays traced, {n} asked for", **self.detail)
        ctx.count("rays", len(new))
        for i, h in enumerate(new):
            self.physics(i, h)
        self.records += new

    # -- the device does what was asked for ---------------------------------------

    def physics(self, i, h):
        ctx, d = self.ctx, dict(self.detail, cells=sorted(self.cells), history=[(tuple(np.round(r.position, 6)), e, r.source) for r, e in h][:12])
        h0 = h[0][0]
        if self.lamps:
            lamp = self.lamps[i % len(self.lamps)]
            ctx.expect(h0.source == lamp.name, "light:source", f"ray {i} is from '{h0.source}', expected '{lamp.name}'", **d)
            lamp.check(ctx, h0, d)
        half = np.array(self.size) / 2
        alpha = lambda w: sum(c.alpha(w) for c in self.dyes)
        for (a, ea), (b, eb) in zip(h[:-1], h[1:]):
            pd, p = np.array(a.direction), np.array(b.position)
            mid = 0.5 * (np.array(a.position) + p)
            inside = bool(np.all(np.abs(mid) < half))
            if eb in ("reflect", "transmit"):
                f = facet_of(p, self.size)
                if isinstance(f, str):
                    ctx.count("facet_events")
                    axis, s = FACETS[f]
                    out = pd[axis] * s > 0
                    nd = np.array(b.direction)
                    refl = pd.copy(); refl[axis] = -refl[axis]
                    if f in self.cells and out:
                        ctx.count("cell_hits")
                        ctx.expect(eb == "transmit" and np.allclose(nd, pd, atol=1e-9), "cell", f"{eb} at the solar cell on {f}", **d)
                    elif f == "bottom" and self.back:
                        ctx.count("back_hits")
                        ctx.expect(eb == "reflect", "back-mirror", "a ray goes through the back surface mirror", **d)
                    elif f not in self.cells:
                        n1, n2 = (self.n1, self.n0) if out else (self.n0, self.n1)
                        if eb == "transmit":
                            q = pd * n1 / n2
                            ok = np.allclose(np.delete(nd, axis), np.delete(q, axis), atol=1e-7)
                            ctx.expect(ok, "refraction", f"refraction at {f} from {n1} to {n2} is not that of the requested indices", **d)
                            ctx.count("refractions")
                        elif n1 > n2 and np.linalg.norm(np.delete(pd, axis)) < n2 / n1 - 1e-6:
                            ctx.count("partial_reflections")
                    if eb == "reflect":
                        ctx.expect(np.allclose(nd, refl, atol=1e-9), "specular", f"reflection at {f} is not specular", **d)
                elif f is None and self.mirror:
                    ctx.count("mirror_hits")
                    ctx.expect(eb == "reflect", "air-mirror", f"{eb} at the air gap mirror", **d)
                    top = abs(p[2] + half[2] * 1.25) < 1e-6 * (1 + half[2])
                    if top and eb == "reflect":
                        nd = np.array(b.direction)
                        ctx.expect(nd[2] > 0, "air-mirror-through", f"a ray goes on along {nd} at the air gap mirror", **d)
                        if self.mirror == "specular":
                            ctx.expect(np.allclose(nd, pd * [1, 1, -1], atol=1e-9), "air-mirror-specular", f"reflected from {pd} to {nd}", **d)
            elif f_cell(self, a, ea):
                ctx.expect(eb == "exit", "cell-absorbs", f"a ray which reached a solar cell goes on to {eb}", **d)
            if inside and self.dyes and ea != "absorb":
                L = distance_out(np.array(a.position), pd, self.size)
                self.trials.append((1 - math.exp(-alpha(a.wavelength) * L), eb == "absorb"))
            if ea == "absorb" and self.dyes:
                total = alpha(a.wavelength)
                if not ctx.expect(total > 0, "no-absorption", f"absorbed at {a.wavelength} nm where nothing absorbs", **d):
                    continue
                for c in self.dyes:
                    q = c.alpha(a.wavelength) / total * (0.0 if c.kind == "absorber" else c.qy)
                    hit = eb == {"luminophore": "emit", "scatterer": "scatter", "absorber": "never"}[c.kind] and b.source == c.name
                    self.picks.append((c.name, q, hit))
            if eb == "emit" and self.dyes:
                c = next((c for c in self.dyes if c.name == b.source), None)
                if ctx.expect(c is not None and c.kind == "luminophore", "emit-source", f"emission by '{b.source}'", **d):
                    if a.wavelength < c.support[0]:     # else redshift may leave nothing to emit
                        ctx.count("emissions")
                        ctx.expect(c.support[0] <= b.wavelength <= c.support[1], "emit-spectrum", f"'{c.name}' emits {b.wavelength} nm, its spectrum is {c.support}", **d)
                    self.phase(c, b, d)
            if eb == "scatter" and self.dyes:
                c = next((c for c in self.dyes if c.name == b.source), None)
                if c is not None and c.kind == "scatterer":
                    self.phase(c, b, d)

    def phase(self, c, ray, d):
        if c.phase is not None:
            ok = min(np.abs(c.table - np.array(ray.direction)).max(axis=1)) < 1e-9
            self.ctx.expect(ok, "phase-function", f"'{c.name}' sends a ray along {ray.direction}, its phase function never said that", **d)

    # -- the results are the histories ------------------------------------------------

    def rows(self):
        out = []
        for h in self.records:
            r, e = h[1] if len(h) > 1 else h[0]
            out.append(("first", facet_of(r.position, self.size) if e in ("reflect", "transmit") else None, r.source, e, r.wavelength))
            (r, e), last = (h[-2], True) if h[-1][1] == "exit" else (h[-1], False)
            f = facet_of(r.position, self.size) if e in ("reflect", "transmit") else None
            out.append(("last", f, r.source, e, r.wavelength))
        return out

    def results(self):
        ctx, lsc, rng = self.ctx, self.lsc, self.rng
        rows = self.rows()
        if any(isinstance(r[1], list) for r in rows):     # exactly on an edge: either facet will do
            ctx.count("edge_hits")
            return
        comps, lights = lsc.component_names(), lsc.light_names()
        d = dict(self.detail, cells=sorted(self.cells), rays=len(self.records), dyes=[c.name for c in self.dyes], lamps=[p.name for p in self.lamps])
        if self.dyes:
            ctx.expect(set(comps) == {c.name for c in self.dyes}, "component-names", f"components {sorted(comps)}", **d)
        else:
            ctx.expect(len(comps) > 0, "component-names", "no default components", **d)
        if self.lamps:
            ctx.expect(set(lights) == {p.name for p in self.lamps}, "light-names", f"lights {sorted(lights)}", **d)
        sources = sorted({r[2] for r in rows})
        ctx.expect(set(sources) <= set(comps) | set(lights), "sources", f"rays from {sources}", **d)
        queries = [dict(), dict(kind="first"), dict(kind="last"), dict(kind=None)]
        for f in FACETS:
            queries += [dict(facets={f}), dict(facets=[f], kind="first")]
        for s in sorted(set(comps) | set(lights)):
            queries += [dict(source=s), dict(source=[s], kind="first"), dict(source={s}, facets=set(CELLS))]
        events = ["reflect", "transmit", "absorb", "nonradiative", "scatter", "emit", "exit", "react", "kill", "generate"]
        for e in events:
            queries += [dict(events={e}), dict(events=[e], kind="first")]
        for _ in range(12):
            q = dict(kind=[None, "first", "last"][int(rng.integers(0, 3))], facets=tuple(str(f) for f in rng.permutation(list(FACETS))[:int(rng.integers(0, 4))]),
                     source=set(str(s) for s in rng.permutation(sources)[:int(rng.integers(1, 3))]))
            if rng.random() < 0.5:
                q["events"] = tuple(str(e) for e in rng.permutation(events)[:int(rng.integers(1, 5))])
            queries.append(q)
        for q in queries:
            got = np.sort(np.asarray(lsc.spectrum(**q), float))
            want = np.sort(np.array([r[4] for r in rows if match(r, q)], float))
            ctx.count("spectra")
            ctx.seen("distinct", (tuple(sorted(map(str, q.items()))), len(want), float(want.sum())))
            ctx.expect(np.array_equal(got, want), "spectrum:" + "+".join(sorted(q)), f"spectrum({q}) has {len(got)} rays, the histories {len(want)}", **d)
        count = lambda kind, facet, names: sum(r[0] == kind and r[1] == facet and r[2] in names for r in rows)
        c = lsc.counts()
        table = {"Solar In": ("first", lights), "Solar Out": ("last", lights), "Luminescent Out": ("last", comps), "Luminescent In": ("first", comps)}
        for col, (kind, names) in table.items():
            for f in FACETS:
                n = count(kind, f, names)
                ctx.count("counts")
                ctx.expect(int(c[col][f]) == n, f"counts:{col}", f"{col} at {f} is {c[col][f]}, the histories have {n}", **d)
        self.summary(rows, comps, lights, count, d)
        for bad in (dict(kind="middle"), dict(source="nobody"), dict(source={"nobody", sources[0]}), dict(facets="left"), dict(events="exit"), dict(events={"explode"})):
            try:
                lsc.spectrum(**bad)
                ctx.violation("bad-query", f"spectrum({bad}) is answered", **d)
            except ValueError:
                ctx.count("bad_queries")
        with self.quiet():
            lsc.report()

    def summary(self, rows, comps, lights, count, d):
        ctx = self.ctx
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = self.lsc.summary()
        lum = {f: count("last", f, comps) for f in FACETS}
        collected = sum(lum[f] for f in self.cells)
        escaped = sum(lum.values()) - collected
        incident = sum(count("first", f, lights) for f in FACETS)
        lost = sum(r[0] == "last" and r[3] == "nonradiative" for r in rows)
        l, w, t = self.size
        Cg = w * l / (2 * l * t + 2 * w * t)
        ratio = lambda a, b: a / b if b else (math.nan if a == 0 else math.inf)
        want = {"Optical Efficiency": ratio(collected, incident), "Waveguide Efficiency": ratio(collected, collected + escaped),
                "Waveguide Efficiency (Thermodynamic Prediction)": self.n1**2 / (Cg + self.n1**2), "Non-radiative Loss (fraction):": ratio(lost, incident),
                "Incident": incident, "Geometric Concentration": Cg, "Refractive Index": self.n1}
        for k, v in want.items():
            g = float(s[k])
            ctx.count("summaries")
            ctx.expect(g == v or abs(g - v) <= 1e-12 * (1 + abs(v)) or math.isnan(g) and math.isnan(v), f"summary:{k}", f"{k} is {g}, from the histories {v}", **d)
        ctx.expect(set(s["Cell Surfaces"]) == self.cells and set(s["Components"]) == set(comps) and set(s["Lights"]) == set(lights), "summary:names",
                   f"summary names {s['Cell Surfaces']}, {s['Components']}, {s['Lights']}", **d)


def f_cell(bench, ray, event):
    """The ray has just passed into a solar cell."""
    if event != "transmit":
        return False
    f = facet_of(ray.position, bench.size)
    return isinstance(f, str) and f in bench.cells and ray.direction[FACETS[f][0]] * FACETS[f][1] > 0


def match(r, q):
    kind, facets, source, events = q.get("kind", "last"), q.get("facets", ()), q.get("source", "all"), q.get("events")
    return (kind is None or r[0] == kind) and (not facets or r[1] in facets) and (source == "all" or r[2] in ({source} if isinstance(source, str) else source)) \
        and (events is None or r[3] in events)


def case(ctx, mode):
    watch()
    viewer.install()
    rng = ctx.rng
    b = Bench(ctx)
    steps = ["back", "mirror"]
    if rng.random() < 0.8:
        steps.append("cells")
    if rng.random() < 0.3:
        steps.append("cells")
    user = mode == "user" or mode == "many" and rng.random() < 0.7
    if user:
        steps += ["dye"] * int(rng.integers(1, 4)) + ["lamp"] * int(rng.integers(1, 4))
    elif mode == "many":
        steps += ["lamp"]
    steps = [steps[i] for i in rng.permutation(len(steps))]
    n = common.scale(120, 400)
    if rng.random() < 0.3:      # shown before all is added
        k = int(rng.integers(0, len(steps)))
        for s in steps[:k]:
            b.add(s)
        real, time.sleep = time.sleep, lambda s: None
        try:
            with b.quiet():
                b.lsc.show()
        finally:
            time.sleep = real
        ctx.count("shown")
        steps = steps[k:]
    for s in steps:
        b.add(s)
    try:
        b.lsc.spectrum()
        ctx.violation("early", "a spectrum without a simulation")
    except ValueError:
        pass
    b.simulate(n)
    b.results()
    if mode == "many":
        for _ in range(int(rng.integers(1, 4))):
            if b.dyes and b.lamps and rng.random() < 0.6:
                b.add(str(rng.choice(["dye", "lamp", "cells"])))
                ctx.count("later_additions")
            for p in b.lamps:
                p.k = len(p.waves) if p.has["wavelength"] else len(p.dirs) if p.has["direction"] else len(p.spots)
            if not b.dyes and b.lamps:
                pass
            b.simulate(int(rng.integers(1, n)))
            if rng.random() < 0.7:
                b.results()
            ctx.count("continued")
        b.results()
    if len(b.trials) > 30:
        p, text = stats.bernoulli(b.trials)
        ctx.count("absorption_trials", len(b.trials))
        ctx.expect(p > stats.ALPHA, "absorption", f"absorption in the plate is not that of its components: {text}", **b.detail)
    for name in {t[0] for t in b.picks}:
        t = [(q, h) for n_, q, h in b.picks if n_ == name]
        if len(t) > 30:
            p, text = stats.bernoulli(t)
            ctx.expect(p > stats.ALPHA, "components", f"'{name}' does not have its share: {text}", **b.detail)
    ctx.sample(dict(b.detail, rays=len(b.records), cells=sorted(b.cells)))


def main():
    chk = common.Check("C23", "one LSC, its rays and its results", assumptions=[
        "Lambertian air gap mirrors are reached at their top side only.",
        "A ray has an exit facet when its last crossing or reflection was on the plate; photons lost inside or leaving elsewhere have none.",
        "A cell absorbs what reaches its facet from within the plate."])
    import pvtrace.device.lsc  # noqa: F401
    chk.run_cases(case, "user", common.scale(40, 400), args=("user",))
    chk.run_cases(case, "default", common.scale(16, 100), args=("default",))
    chk.run_cases(case, "many", common.scale(32, 300), args=("many",))
    for k, v in dict(rays=5000, spectra=3000, counts=1000, summaries=400, cell_hits=300, back_hits=50, mirror_hits=50, refractions=1000, shown=5, continued=20,
                     absorption_trials=2000, bad_queries=200, later_additions=5).items():
        chk.require(k, v)
    chk.finish()


main()
