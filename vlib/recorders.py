"""Random recorder sets, and an independent recount of event histories.

The recount shares nothing with pvtrace's tallies: it works from event names,
metadata and this framework's own geometry.
"""
import math

import numpy as np

SURFACE = ("entering", "escaping", "reflected", "exit")
VOLUME = ("lost", "reacted", "killed")
PROPS = ("wavelength", "angle", "duration", "pathlength", "x", "y", "z")
MOMENTS = ("wavelength", "angle", "duration", "pathlength")
MAX_RECORDERS = 256


class RecS:
    def __init__(self, name, node, event, facet=None, atol=1e-6, hists=()):
        self.name, self.node, self.event = name, node, event
        self.facet, self.atol, self.hists = facet, atol, list(hists)

    def spec(self):
        return [self.name, self.node.name, self.event, None if self.facet is None else list(np.round(self.facet, 4)),
                self.atol, [str(h) for h in self.hists]]

    def build(self):
        from pvtrace.engine.recorder import Heatmap, Histogram, Recorder
        hs = []
        for h in self.hists:
            if len(h) == 1:
                hs.append(Histogram(*h[0]))
            else:
                (pa, *ra), (pb, *rb) = h
                hs.append(Heatmap(pa, pb, tuple(ra), tuple(rb)))
        kw = {} if self.facet is None else dict(facet=tuple(self.facet), atol=self.atol)
        return Recorder(self.name, event=self.event, histograms=hs or None, **kw)


def _axis(rng, prop, R):
    bins = int(rng.choice([1, 2, 5, 17, 100]))
    if prop == "wavelength":
        lo = float(rng.uniform(300, 600))
        return (prop, lo, lo + float(rng.uniform(20, 500)), bins)
    if prop == "angle":
        lo = float(rng.uniform(-0.3, 0.9))
        return (prop, lo, lo + float(rng.uniform(0.1, 1.5)), bins)
    if prop == "duration":
        s = float(10 ** rng.uniform(-10.5, -7))
        return (prop, 0.0 if rng.random() < 0.4 else float(rng.uniform(0, 0.5) * s), s, bins)
    if prop == "pathlength":
        s = float(10 ** rng.uniform(-0.5, 2.3))
        return (prop, 0.0 if rng.random() < 0.4 else float(rng.uniform(0, 0.5) * s), s, bins)
    lo = float(rng.uniform(-1.3, 0.6) * R)
    return (prop, lo, lo + float(rng.uniform(0.2, 1.8) * R), bins)


def random_hists(rng, R):
    out = []
    for _ in range(int(rng.choice([0, 1, 1, 2, 4]))):
        a = _axis(rng, str(rng.choice(PROPS)), R)
        if rng.random() < 0.35:
            out.append((a, _axis(rng, str(rng.choice(PROPS)), R)))
        else:
            out.append((a,))
    return out


def attach_recorders(rng, S, n=None, groups=True):
    """Random recorders on the nodes of a SceneSpec."""
    if n is None:
        n = int(rng.choice([1, 3, 6, 12, 25, 64]))
    recs = []
    for k in range(n):
        nd = S.nodes[int(rng.integers(0, len(S.nodes)))]
        if nd is S.root and rng.random() < 0.7:
            nd = S.nodes[int(rng.integers(0, len(S.nodes)))]
        if groups and S.groups and rng.random() < 0.03:
            nd = S.groups[int(rng.integers(0, len(S.groups)))]
        root = nd is S.root
        event = str(rng.choice(("exit", "exit", "killed", "lost", "reacted", "entering", "reflected") if root else
                               ("entering", "entering", "escaping", "escaping", "reflected", "reflected", "lost",
                                "reacted", "killed", "exit")))
        facet, atol = None, 1e-6
        if event in SURFACE and rng.random() < 0.5:
            atol = float(rng.choice([1e-6, 1e-6, 1.3e-9, rng.uniform(0.02, 0.7), rng.uniform(0.02, 0.7)]))
            v = rng.normal(size=3)
            if rng.random() < 0.8:
                v = np.zeros(3)
                v[int(rng.integers(0, 3))] = rng.choice([-1.0, 1.0])
            facet = v / np.linalg.norm(v)
            if rng.random() < 0.9:
                facet = nd.world[:3, :3] @ facet
        R = getattr(getattr(nd, "shape", None), "R", 2.0)
        r = RecS(f"rec{k}" if rng.random() < 0.9 else f"rec {k}'\"", nd, event, facet, atol, random_hists(rng, R))
        nd.recorders.append(r)
        recs.append(r)
    return recs


class Count:
    def __init__(self, rec):
        self.rec = rec
        self.rays = self.crossings = 0
        self.mom = np.zeros((4, 2))
        self.mag = np.zeros((4, 2))
        self.doubt = 0                       # facet decisions at rounding level
        self.lo = [np.zeros(tuple(ax[3] for ax in h), dtype=int) for h in rec.hists]
        self.extra = [np.zeros(tuple(ax[3] for ax in h), dtype=int) for h in rec.hists]


def _candidates(value, ax):
    """Bins a value may be counted in (None: outside). More than one only within
    rounding of an edge."""
    prop, lo, hi, bins = ax
    tol = 1e-9 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
    if prop == "angle":
        tol += 3e-8
    if value == lo:
        return [0]
    x = (value - lo) / (hi - lo) * bins
    w = tol / (hi - lo) * bins
    out = []
    for y in {math.floor(x - w), math.floor(x), math.floor(x + w)}:
        out.append(int(y) if 0 <= y < bins else None)
    return sorted(set(out), key=lambda b: -1 if b is None else b)


def recount(S, recs, histories):
    """{recorder name: Count} from complete histories."""
    counts = {r.name: Count(r) for r in recs}
    by_node = {}
    for r in recs:
        by_node.setdefault((r.node.name, r.event), []).append(counts[r.name])
    for h in histories:
        seen = set()
        prev = None
        for ray, event, meta in h:
            meta = meta or {}
            ev = event.name
            key = None
            if ev == "TRANSMIT":
                hit = meta["hit"]
                if meta["adjacent"] == hit:
                    key = (hit, "entering")
                elif meta["container"] == hit:
                    key = (hit, "escaping")
            elif ev == "REFLECT":
                if meta["adjacent"] == meta["hit"]:
                    key = (meta["hit"], "reflected")
            elif ev == "NONRADIATIVE":
                key = (meta["container"], "lost")
            elif ev == "REACT":
                key = (meta["container"], "reacted")
            elif ev == "KILL":
                key = (meta["container"], "killed")
            elif ev == "EXIT":
                key = (meta["hit"], "exit")
            for c in by_node.get(key, ()):
                nd = c.rec.node
                p = np.array(ray.position)
                nrm = None
                if ev in ("TRANSMIT", "REFLECT", "EXIT"):
                    nrm, amb = S.normal(nd, p)
                    if amb:
                        c.doubt += 1
                    inc = np.array((ray if ev == "EXIT" else prev).direction)
                if c.rec.facet is not None:
                    dev = float(np.max(np.abs(np.asarray(c.rec.facet) - nrm)))
                    if abs(dev - c.rec.atol) < 1e-9:
                        c.doubt += 1
                    if dev > c.rec.atol:
                        continue
                c.crossings += 1
                if c.rec.name in seen:
                    continue
                seen.add(c.rec.name)
                c.rays += 1
                q = nd.inv[:3, :3] @ p + nd.inv[:3, 3]
                ang = 0.0 if nrm is None else math.acos(min(1.0, abs(float(nrm @ inc))))
                vals = dict(wavelength=ray.wavelength, angle=ang, duration=ray.duration, pathlength=ray.travelled,
                            x=q[0], y=q[1], z=q[2])
                for i, m in enumerate(MOMENTS):
                    c.mom[i] += (vals[m], vals[m] ** 2)
                    c.mag[i] += (abs(vals[m]) + (2.0 if m == "angle" else 0.0),
                                 vals[m] ** 2 + (2.0 if m == "angle" else 0.0))
                for hist, lo, extra in zip(c.rec.hists, c.lo, c.extra):
                    cand = [_candidates(vals[ax[0]], ax) for ax in hist]
                    combos = [(b,) for b in cand[0]] if len(hist) == 1 else \
                        [(a, b) for a in cand[0] for b in cand[1]]
                    good = [t for t in combos if None not in t]
                    if len(combos) == 1:
                        if good:
                            lo[good[0]] += 1
                    else:
                        for t in good:
                            extra[t] += 1
            prev = ray
    return counts


def compare(ctx, prefix, counts, results):
    """Judge {name: RecorderResult} against a recount."""
    names = {c.rec.name for c in counts.values()}
    ctx.expect(set(results) == names, f"{prefix}:names", "recorder results do not name exactly the scene's recorders",
               missing=sorted(names - set(results)), extra=sorted(set(results) - names))
    for name, c in counts.items():
        r = results.get(name)
        if r is None:
            continue
        e = c.rec.event + ("+facet" if c.rec.facet is not None else "")
        if c.doubt:
            ctx.count("recorders_ambiguous")
            continue
        ctx.count("recorders_judged")
        ctx.count(f"recorded_{c.rec.event}", c.rays)
        d = dict(recorder=c.rec.spec())
        ok = ctx.expect(r.rays == c.rays, f"{prefix}:rays:{e}",
                        f"recorder ({e}) counted {r.rays} rays, the histories have {c.rays}", **d)
        ok &= ctx.expect(r.crossings == c.crossings, f"{prefix}:crossings:{e}",
                         f"recorder ({e}) counted {r.crossings} crossings, the histories have {c.crossings}", **d)
        if not ok:
            continue
        if c.crossings > c.rays:
            ctx.count("multiple_crossings", c.crossings - c.rays)
        for i, m in enumerate(MOMENTS):
            if c.rays:
                tol = 1e-9 * c.mag[i, 0] + (1e-300)
                mean = c.mom[i, 0] / c.rays
                ctx.expect(abs(r.mean(m) - mean) <= tol / c.rays, f"{prefix}:mean:{m}:{e}",
                           f"mean {m} of recorder ({e}) is {r.mean(m)}, the histories give {mean}", **d)
                var = max(c.mom[i, 1] / c.rays - mean * mean, 0.0)
                # the variance is a difference of squares, judge it on that scale
                vtol = 1e-8 * (c.mag[i, 1] / c.rays + mean * mean)
                ctx.expect(abs(r.std(m) ** 2 - var) <= vtol, f"{prefix}:std:{m}:{e}",
                           f"std of {m} of recorder ({e}) is {r.std(m)}, the histories give {math.sqrt(var)}", **d)
                ctx.expect(abs(r.error(m) ** 2 * c.rays - var) <= vtol, f"{prefix}:error:{m}:{e}",
                           f"standard error of {m} of recorder ({e}) is {r.error(m)}", **d)
            else:
                ctx.expect(math.isnan(r.mean(m)), f"{prefix}:mean-empty", "mean without rays is not NaN", **d)
        for k, (hist, lo, extra) in enumerate(zip(c.rec.hists, c.lo, c.extra)):
            got = r.histogram(k)
            ctx.count("histograms_judged")
            ctx.count("binned", int(lo.sum()))
            edges, n = got[:-1], np.asarray(got[-1])
            for ax, ed in zip(hist, edges):
                want = ax[1] + (ax[2] - ax[1]) * np.arange(ax[3] + 1) / ax[3]
                ctx.expect(len(ed) == ax[3] + 1 and np.allclose(ed, want, rtol=1e-12, atol=1e-12 * (ax[2] - ax[1])),
                           f"{prefix}:edges", "histogram edges are not those asked for", hist=hist, edges=list(ed)[:5])
            if not ctx.expect(n.shape == lo.shape, f"{prefix}:hist-shape", f"histogram has shape {n.shape}", hist=hist):
                continue
            ok = bool(np.all(n >= lo)) and bool(np.all(n <= lo + extra))
            kind = "x".join(ax[0] if ax[0] not in "xyz" else "pos" for ax in hist)
            ctx.expect(ok, f"{prefix}:bins:{kind}:{e}",
                       f"histogram {hist} of recorder ({e}) does not match the histories",
                       got=n.tolist(), want=lo.tolist(), **d)
