"""C10: spectral distributions evaluate, integrate and sample consistently."""
import math

import numpy as np

import common
common.setup_path()

chk = common.Check(
    "C10", "a (table class, mode, query class) combination whose answer was compared with the oracle; one "
           "evaluation is one query judged",
    assumptions=["Tables have at least two points, non-negative values and a positive total.",
                 "A histogram entry y[i] belongs to the points in (x[i-1], x[i]] and is sampled as x[i], "
                 "the convention the existing tests pin."])


def table(rng):
    n = int(rng.choice([2, 3, 5, 12, 60, 400]))
    k = int(rng.integers(0, 6))
    if k == 0:
        x, c = np.linspace(rng.uniform(200, 500), rng.uniform(600, 1200), n), "uniform"
    elif k == 1:
        x, c = np.cumsum(rng.exponential(1.0, n) + 1e-3) * 10.0 ** rng.uniform(-1, 1) + 300, "random"
    elif k == 2:
        x, c = 300 + np.geomspace(1e-3, 500, n), "geometric"
    elif k == 3:
        x, c = np.arange(n) + int(rng.integers(200, 600)), "integer"
    elif k == 4:
        x, c = np.sort(rng.uniform(-5, 5, n)), "signed"
    else:
        x, c = np.concatenate([np.linspace(300, 400, n - n // 2), np.linspace(401, 1000, n // 2)])[:n], "two_scales"
    m = int(rng.integers(0, 6))
    if m == 0:
        y = rng.random(n)
    elif m == 1:
        y = np.exp(-0.5 * ((x - x.mean()) / (np.ptp(x) / 8 + 1e-9)) ** 2)
    elif m == 2:
        y = rng.random(n) * (rng.random(n) < 0.5)
    elif m == 3:
        y = np.where(x < np.median(x), 1.0, 0.0)
    elif m == 4:
        y = rng.integers(0, 50, n)
    else:
        y = 10.0 ** rng.uniform(-9, 9) * rng.random(n)
    y = np.array(y)
    if y.sum() <= 0 or (len(y) > 1 and (y[1:] + y[:-1]).sum() <= 0):
        y = y + 1
    return x, y, c + ":" + ("zeros" if (y == 0).any() else "positive")


def raises(fn):
    try:
        fn()
    except ValueError:
        return True
    return False


def scalar(v):
    return float(np.ravel(np.asarray(v, float))[0])


def case(ctx):
    from pvtrace.material.distribution import Distribution
    rng = ctx.rng
    x, y, cls = table(rng)
    hist = bool(rng.random() < 0.4)
    form = int(rng.integers(0, 4))
    ax, ay = [(x, y), (x, y), (list(map(float, x)), list(map(float, y))), (tuple(x.tolist()), tuple(y.tolist()))][form]
    d = Distribution(ax, ay, hist=hist)
    n = len(x)
    mode = "hist" if hist else "interp"
    ctx.seen("tables", (cls, mode, n))
    ctx.sample({"n": n, "class": cls, "hist": hist, "x": x[:4].tolist(), "y": y[:4].tolist()})
    lo, hi = float(x[0]), float(x[-1])
    span = hi - lo
    w = np.asarray(y, float) if hist else 0.5 * (y[1:] + y[:-1]) * np.diff(x)
    mass = w / w.sum()
    cdf = np.cumsum(mass) if hist else np.concatenate([[0.0], np.cumsum(mass)])
    ymax = float(np.max(y))

    # evaluation
    qs = np.concatenate([rng.uniform(lo, hi, 25), x[rng.integers(0, n, 8)], [lo, hi],
                         np.clip(x[rng.integers(0, n, 4)] + 1e-9 * span, lo, hi)])
    for q in qs:
        q = float(q)
        got = scalar(d(q))
        i = int(np.searchsorted(x, q))
        want = float(y[i]) if hist else float(np.interp(q, x, y))
        ctx.seen("distinct", (cls, mode, "call", q in x))
        ctx.expect(abs(got - want) <= 1e-9 * ymax, f"call:{mode}", "distribution value is not the tabulated one",
                   x=x.tolist(), y=y.tolist(), at=q, got=got, want=want)
    arr = np.asarray(d(qs), float)
    ctx.expect(arr.shape == qs.shape and np.allclose(arr, [scalar(d(float(q))) for q in qs], rtol=0, atol=1e-9 * ymax),
               f"call_array:{mode}", "array evaluation differs from point by point", got=arr.tolist())
    # outside the range
    for q in (lo - 1e-6 * span, hi + 1e-6 * span, lo - 10 * span, hi + span, -math.inf, math.inf):
        ctx.seen("distinct", (cls, mode, "outside", q > hi))
        ctx.expect(raises(lambda: d(q)), f"call_outside:{mode}", "a point outside the table is not rejected", at=q, lo=lo, hi=hi)
        ctx.expect(raises(lambda: d.lookup(q)), f"lookup_outside:{mode}", "lookup outside the table is not rejected", at=q, lo=lo, hi=hi)
    ctx.expect(raises(lambda: d(np.array([0.5 * (lo + hi), hi + span]))), f"call_outside_array:{mode}",
               "an array with a point outside the table is not rejected")
    # cumulative lookup
    grid = np.sort(np.concatenate([qs, rng.uniform(lo, hi, 25)]))
    prev = -1.0
    for q in grid:
        p = scalar(d.lookup(float(q)))
        i = int(np.searchsorted(x, q))
        want = float(cdf[i]) if hist else float(np.interp(q, x, cdf))
        ctx.seen("distinct", (cls, mode, "lookup"))
        ctx.expect(abs(p - want) < 1e-9, f"lookup:{mode}", "cumulative lookup is not the integral of the table",
                   x=x.tolist(), y=y.tolist(), at=float(q), got=p, want=want)
        ctx.expect(p >= prev - 1e-15 and -1e-15 <= p <= 1.0, f"lookup_monotone:{mode}",
                   "cumulative lookup decreases or leaves [0, 1]", at=float(q), got=p, previous=prev)
        prev = p
        # sampling is the inverse
        s = scalar(d.sample(p))
        dens = float(y[i]) if hist else float(np.interp(q, x, y))
        if hist:
            if y[i] > 0:
                ctx.expect(s == x[i], "inverse:hist", "sampling the cumulative of a point does not return its bin",
                           at=float(q), p=p, got=s, want=float(x[i]))
        elif dens > 1e-4 * ymax:
            j = min(max(int(np.searchsorted(x, q)), 1), n - 1)
            if mass[j - 1] > 1e-9:
                ctx.expect(abs(s - q) < 1e-6 * span, "inverse:interp",
                           "sampling the cumulative of a point does not return the point", at=float(q), p=p, got=s)
    ctx.expect(scalar(d.lookup(hi)) == 1.0, f"lookup_end:{mode}", "cumulative lookup does not end at one", got=scalar(d.lookup(hi)))
    if not hist:
        ctx.expect(scalar(d.lookup(lo)) == 0.0, "lookup_start", "cumulative lookup does not start at zero")
    # sampling
    ps = np.concatenate([rng.random(30), [0.0, 1.0, 1e-12, 1 - 1e-12]])
    last = -math.inf
    for p in np.sort(ps):
        s = scalar(d.sample(float(p)))
        ctx.seen("distinct", (cls, mode, "sample", p in (0.0, 1.0)))
        ctx.expect(lo <= s <= hi, f"sample_range:{mode}", "a sample leaves the data range", p=float(p), got=s, lo=lo, hi=hi)
        ctx.expect(s >= last, f"sample_monotone:{mode}", "sampling is not monotone in the probability", p=float(p), got=s, previous=last)
        last = s
        if not hist:
            ctx.expect(abs(scalar(d.lookup(s)) - p) < 1e-9, "sample_inverse", "cumulative of a sample is not its probability",
                       p=float(p), got=scalar(d.lookup(s)), n=n)
        else:
            ctx.expect(s in x, "sample_bin", "a histogram sample is not one of the table points", got=s)
    arr = np.asarray(d.sample(ps), float)
    ctx.expect(arr.shape == ps.shape and np.allclose(arr, [scalar(d.sample(float(p))) for p in ps], rtol=1e-12, atol=0),
               f"sample_array:{mode}", "array sampling differs from point by point", got=str(arr), n=n, total=float(np.sum(y)))
    for p in (-1e-9, 1 + 1e-9, -1.0, 2.0):
        ctx.expect(raises(lambda: d.sample(p)), f"sample_outside:{mode}", "a probability outside [0, 1] is not rejected", p=p)
    # the samples of uniform probabilities follow the table
    m = 4000
    draws = np.asarray(d.sample(rng.random(m)), float)
    if hist:
        edges = np.concatenate([[x[0] - 1], 0.5 * (x[1:] + x[:-1]), [x[-1] + 1]])
        obs = np.histogram(draws, edges)[0]
    else:
        obs = np.histogram(draws, x)[0]
    cum = np.abs(np.cumsum(obs) / m - np.cumsum(mass)).max()
    ctx.count("draws", m)
    ctx.seen("distinct", (cls, mode, "law"))
    # Dvoretzky-Kiefer-Wolfowitz: P(sup > e) <= 2 exp(-2 m e^2) = 1e-10
    ctx.expect(cum < math.sqrt(math.log(2 / 1e-10) / (2 * m)) + 1e-9, f"law:{mode}",
               "samples do not follow the tabulated values", distance=float(cum), x=x.tolist(), y=y.tolist())
    ctx.expect(not np.any(obs[mass == 0]) or hist and False, f"law_zero:{mode}",
               "samples were drawn where the table is zero", x=x.tolist(), y=y.tolist())


def reject(ctx):
    from pvtrace.material.distribution import Distribution
    rng = ctx.rng
    x, y, cls = table(rng)
    hist = bool(rng.random() < 0.4)
    x, y = np.array(x, float), np.array(y, float)
    n = len(x)
    k = int(rng.integers(0, 7))
    j = int(rng.integers(0, n))
    bx, by = x.copy(), y.copy()
    if k == 0:
        kind = "nan_y"; by[j] = np.nan
    elif k == 1:
        kind = "inf_y"; by[j] = np.inf
    elif k == 2:
        kind = "negative_y"; by[j] = -10.0 ** rng.uniform(-12, 3)
    elif k == 3:
        kind = "unsorted_x"
        i = int(rng.integers(0, n - 1))
        bx[i], bx[i + 1] = bx[i + 1], bx[i]
    elif k == 4:
        kind = "repeated_x"; i = int(rng.integers(0, n - 1)); bx[i + 1] = bx[i]
    elif k == 5:
        kind = "nan_x"; bx[j] = np.nan
    else:
        kind = "inf_x"; bx[-1 if rng.random() < 0.5 else 0] = np.inf
    ctx.count("rejects")
    ctx.seen("distinct", ("reject", kind, hist, j == 0, j == n - 1))
    with np.errstate(all="ignore"):
        ctx.expect(raises(lambda: Distribution(bx, by, hist=hist)), f"reject:{kind}",
                   f"a table with {kind} was accepted", x=bx.tolist(), y=by.tolist(), hist=hist)


def constant(ctx):
    from pvtrace.material.distribution import Distribution
    rng = ctx.rng
    c = float(10.0 ** rng.uniform(-6, 6))
    d = Distribution(x=None, y=c)
    q = float(rng.uniform(1, 2000))
    ctx.seen("distinct", ("constant", "scalar"))
    ctx.expect(d(q) == c, "constant", "a constant distribution does not evaluate to its value", got=str(d(q)), want=c)
    a = d(np.array([q, q + 1, 7.0]))
    ctx.expect(np.array_equal(a, [c, c, c]), "constant_array", "array of a constant distribution is wrong", got=str(a))
    # functions
    x = np.linspace(300, 900, int(rng.integers(2, 50)))
    fs = [lambda v: np.sin(v / 100) + 1, lambda v: 1 / (v - x[0])]
    with np.errstate(all="ignore"):
        d = Distribution.from_functions(x, fs)
        want = fs[0](x) + np.where(np.isfinite(fs[1](x)), fs[1](x), 0)
    got = np.asarray(d(x), float)
    ctx.seen("distinct", ("from_functions", len(x)))
    ctx.expect(np.allclose(got, want), "from_functions", "a distribution of functions is not their sum", got=str(got))


chk.run_cases(case, "tables", common.scale(3000, 60000))
chk.run_cases(reject, "reject", common.scale(1500, 20000))
chk.run_cases(constant, "constant", common.scale(50, 500))
chk.require("draws", 100000)
chk.require("rejects", 500)
chk.finish()
