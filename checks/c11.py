"""C11: the compiled engine and the Python tracer are statistically interchangeable."""
import collections

import numpy as np
import common
common.setup_path()
import kernelbuild
import stats
import tracework
from scenes import faint_scene, random_scene

TERMINAL = {"EXIT", "NONRADIATIVE", "REACT", "KILL"}


def clusters(a, b):
    """Rank both samples jointly, values equal up to rounding getting one rank."""
    v = np.concatenate([a, b])
    o = np.argsort(v, kind="stable")
    s = v[o]
    tol = 1e-9 * max(1e-300, float(np.abs(s).max())) if len(s) else 0
    step = np.concatenate([[0], (np.diff(s) > tol).cumsum()])
    r = np.empty(len(v))
    r[o] = step
    return r[:len(a)], r[len(a):]


def summary(hist):
    """Everything observed about one photon."""
    names = [e.name for _, e, _ in hist]
    first, last = hist[0][0], hist[-1][0]
    seq = tuple((n, (m or {}).get("container"), (m or {}).get("hit"), (m or {}).get("adjacent"), (m or {}).get("component"))
                for n, (_, _, m) in zip(names, hist))
    out = {
        "terminal": (names[-1], (hist[-1][2] or {}).get("container"), last.source),
        "outcome": (names[-1], (hist[-1][2] or {}).get("component"), (hist[-1][2] or {}).get("hit")),
        "first": seq[:2], "second": seq[:3], "sequence": tuple(names[:7]), "path": tuple(x[:2] for x in seq[:5]),
        "length": len(names), "kinds": tuple(sorted(collections.Counter(names).items())),
        "late": tuple(names[-4:]),
    }
    num = {}
    for k, r in (("last", last), ("step1", hist[1][0]), ("step2", hist[min(3, len(hist) - 1)][0])):
        for i, ax in enumerate("xyz"):
            num[f"{k}.position.{ax}"] = r.position[i]
            num[f"{k}.direction.{ax}"] = r.direction[i]
        num[f"{k}.wavelength"], num[f"{k}.travelled"], num[f"{k}.duration"] = r.wavelength, r.travelled, r.duration
    num["first.wavelength"] = first.wavelength
    for i, ax in enumerate("xyz"):
        num[f"first.position.{ax}"] = first.position[i]
        num[f"first.direction.{ax}"] = first.direction[i]
    num["count"] = len(names)
    for kind in ("REFLECT", "TRANSMIT", "ABSORB", "EMIT", "SCATTER"):
        num["count." + kind] = names.count(kind)
    # what emission and scattering look like
    extra = collections.defaultdict(list)
    for i in range(2, len(hist)):
        if names[i] in ("EMIT", "SCATTER"):
            r, p = hist[i][0], hist[i - 1][0]
            c = (hist[i][2] or {}).get("component")
            extra[f"{names[i]}.{c}.wavelength"].append(r.wavelength)
            extra[f"{names[i]}.{c}.turn"].append(float(np.dot(r.direction, p.direction)))
            extra[f"{names[i]}.{c}.z"].append(r.direction[2])
            extra[f"{names[i]}.{c}.delay"].append(r.duration - p.duration)
        if names[i] in TERMINAL and names[i] == "NONRADIATIVE":
            extra[f"lost.{(hist[i][2] or {}).get('component')}.delay"].append(hist[i][0].duration - hist[i - 1][0].duration)
        if len(extra) and i > 12:
            break
    return out, num, extra


def patterns(hist, into):
    for i, (r, e, m) in enumerate(hist):
        m = m or {}
        # what both document; the Python tracer adds its own call's arguments
        m = {k: v for k, v in m.items() if v is not None and k in ("hit", "container", "adjacent", "component", "normal")}
        shape = tuple(sorted(m))
        types = tuple(sorted((k, type(v).__name__ if isinstance(v, (str, int, float)) else f"vector{np.size(v)}") for k, v in m.items()))
        into[(e.name, shape, types)] += 1


def compare_case(ctx, n_python, n_engine, faint=False):
    from pvtrace.engine import simulate
    rng = ctx.rng
    S = random_scene(rng, max_nodes=int(rng.choice([3, 5, 8])), strength=float(rng.choice([0.5, 1.0, 3.0])))
    steps = int(rng.choice([12, 30, 60]))
    if faint:
        S, steps = faint_scene(rng, -3.5, -2.6), 50
    scene = S.build()
    method = str(rng.choice(["kT", "redshift", "full"]))
    np.random.seed(int(rng.integers(0, 2**31 - 1)))
    data, meta = {}, {}
    for tracer, n in (("python", n_python), ("engine", n_engine)):
        cats, nums, extras = collections.defaultdict(collections.Counter), collections.defaultdict(list), collections.defaultdict(list)
        pat = collections.Counter()
        it = tracework.python_histories(scene, n, steps, np.inf, method) if tracer == "python" else \
            tracework.engine_histories(scene, n, int(rng.integers(0, 2**31)), 4, steps, 2 * steps + 4, method)
        k = 0
        for h in it:
            k += 1
            ctx.count(f"events_{tracer}", len(h))
            patterns(h, pat)
            if len(h) < 2:
                ctx.violation(f"{tracer}:short", "a history without events")
                continue
            c, m, x = summary(h)
            for a, b in c.items():
                cats[a][b] += 1
            for a, b in m.items():
                nums[a].append(b)
            for a, b in x.items():
                extras[a] += b
        ctx.count(f"histories_{tracer}", k)
        data[tracer] = (k, cats, nums, extras)
        meta[tracer] = pat
    (na, ca, va, xa), (nb, cb, vb, xb) = data["python"], data["engine"]
    worst = 1.0
    for k in ca:
        p, desc = stats.two_counts(ca[k], na, cb[k], nb)
        worst = min(worst, p)
        ctx.count("tests")
        ctx.expect(p > stats.ALPHA, f"counts:{k}", f"{k} frequencies differ between the tracers: {desc} p={p:.1e}", scene=S.spec(),
                   python=ca[k].most_common(6), engine=cb[k].most_common(6), method=method, steps=steps)
    for name, A, B in [("num", va, vb), ("extra", xa, xb)]:
        for k in sorted(set(A) & set(B)):
            a, b = np.asarray(A[k], float), np.asarray(B[k], float)
            if len(a) < 100 or len(b) < 100:
                continue
            ctx.expect(bool(np.isfinite(a).all() and np.isfinite(b).all()), f"finite:{k}", f"{k} is not finite")
            p, desc = stats.two_sample(*clusters(a, b), k)
            worst = min(worst, p)
            ctx.count("tests")
            ctx.expect(p > stats.ALPHA, f"distribution:{k.split('.')[0] if name == 'extra' else k}{'' if name == 'num' else '.' + k.split('.')[-1]}",
                       f"{k} is distributed differently by the two tracers: p={p:.1e} n={len(a)},{len(b)} means {a.mean():.6g} {b.mean():.6g} "
                       f"sd {a.std():.4g} {b.std():.4g}", scene=S.spec(), method=method, steps=steps)
    # conventions of the metadata
    for k, v in meta["engine"].items():
        if v >= 60:
            ctx.count("patterns")
            ctx.seen("patterns", k)
            ctx.expect(meta["python"].get(k, 0) > 0, f"metadata:{k[0]}", f"the engine's {k[0]} events carry {k[1]}, the Python tracer's never do",
                       python=[q for q in meta["python"] if q[0] == k[0]])
    for k, v in meta["python"].items():
        if v >= 60:
            ctx.expect(meta["engine"].get(k, 0) > 0, f"metadata:{k[0]}", f"the Python tracer's {k[0]} events carry {k[1]}, the engine's never do",
                       engine=[q for q in meta["engine"] if q[0] == k[0]])
    ctx.seen("distinct", (S.shape_signature(), method, steps))
    ctx.sample({"scene": S.spec(), "smallest p": worst})
    ctx.data.append(worst)


def main():
    chk = common.Check("C11", "one scene traced by both tracers and compared by two-sample tests", assumptions=tracework.BASE_ASSUMPTIONS + [
        "Interchangeability is statistical: differences below the resolution of two samples (about 3% of a probability in the quick tier) are not seen."])
    kernelbuild.use_release_kernel()
    chk.run_cases(compare_case, "compare", common.scale(48, 300), args=(common.scale(1500, 6000), common.scale(4500, 18000)))
    chk.run_cases(compare_case, "faint", common.scale(8, 40), args=(common.scale(300, 2000), common.scale(1500, 8000), True))
    p = np.array([x for x in chk.data if isinstance(x, float)])
    chk.extra["smallest_p_quantiles"] = np.quantile(p, [0, .25, .5, 1]).tolist() if len(p) else []
    chk.require("tests", 1000)
    chk.require("histories_python", 30000)
    chk.require("histories_engine", 90000)
    chk.require("patterns", 100)
    chk.finish()


main()
