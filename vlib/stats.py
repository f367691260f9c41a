"""Statistical oracles with strict thresholds.

Each returns (p, description). A check treats p < ALPHA as a violation; with
ALPHA = 1e-9 and a few hundred tests per run a false alarm is a ~1e-7 event,
and seeds are fixed anyway.
"""
import math

import numpy as np
from scipy import stats as ss

ALPHA = 1e-9


def bernoulli(pairs):
    """pairs of (expected probability, outcome): z test of the total, and by bins
    of p. Exact-ish: uses the normal approximation only where the variance is
    large enough, otherwise an exact Poisson-binomial tail bound (Chernoff)."""
    p = np.array([a for a, _ in pairs], float)
    x = np.array([1.0 if b else 0.0 for _, b in pairs])
    out = []
    out.append(_bern(p, x, "all"))
    edges = [-1e-12, 0.002, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98, 1 + 1e-12]
    for lo, hi in zip(edges, edges[1:]):
        m = (p > lo) & (p <= hi)
        if m.sum() >= 30:
            out.append(_bern(p[m], x[m], f"p in ({lo:.2f},{hi:.2f}]"))
    return min(out)


def _bern(p, x, label):
    mu = p.sum()
    var = (p * (1 - p)).sum()
    k = x.sum()
    n = len(p)
    if var < 1e-12:
        pv = 1.0 if abs(k - mu) < 0.5 else 0.0
    else:
        z = (k - mu) / math.sqrt(var)
        pv = 2 * ss.norm.sf(abs(z))
        if var < 100:
            # Bernstein bound is valid at any size
            t = abs(k - mu)
            bound = 2 * math.exp(-t * t / (2 * (var + t / 3)))
            pv = max(pv, min(1.0, bound))
    return pv, f"{label}: n={n} expected {mu:.1f} got {k:.0f} (sd {math.sqrt(max(var,0)):.1f})"


def uniform(u, label=""):
    u = np.asarray(u, float)
    if len(u) < 30:
        return 1.0, f"{label} n={len(u)}"
    r = ss.kstest(u, "uniform")
    return float(r.pvalue), f"{label} KS D={r.statistic:.4f} n={len(u)} mean={u.mean():.4f}"


def two_sample(a, b, label=""):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) < 30 or len(b) < 30:
        return 1.0, f"{label} n={len(a)},{len(b)}"
    r = ss.ks_2samp(a, b, method="asymp")
    return float(r.pvalue), f"{label} KS2 D={r.statistic:.4f} n={len(a)},{len(b)} means {a.mean():.6g} {b.mean():.6g}"


def two_counts(ca, na, cb, nb):
    """Homogeneity of categorical counts (dicts) by pooled chi2 with rare merge."""
    keys = sorted(set(ca) | set(cb), key=repr)
    rows, other = [], [0, 0]
    for k in keys:
        a, b = ca.get(k, 0), cb.get(k, 0)
        e = (a + b) * min(na, nb) / (na + nb)
        if e < 25:
            other[0] += a
            other[1] += b
        else:
            rows.append((a, b))
    if sum(other) * min(na, nb) / (na + nb) >= 25:
        rows.append(tuple(other))
        other = [0, 0]
    rest = (na - sum(r[0] for r in rows), nb - sum(r[1] for r in rows))
    if sum(rest) * min(na, nb) / (na + nb) >= 25:
        rows.append(rest)
    if len(rows) < 2:
        return 1.0, "too few categories"
    t = np.array(rows, float).T
    chi2, p, dof, _ = ss.chi2_contingency(t, correction=False)
    return float(p), f"chi2={chi2:.1f} dof={dof} over {len(keys)} categories, n={na},{nb}"
