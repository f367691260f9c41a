"""C02: photon kinematics."""
import numpy as np
import common
common.setup_path()
import tracework


def propagate_case(ctx):
    """Ray.propagate alone, including zero and negative distances."""
    from pvtrace import Ray
    rng = ctx.rng
    for _ in range(200):
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        p = rng.normal(size=3) * 10 ** rng.uniform(-3, 2)
        n = float(rng.choice([1.0, 1.5, rng.uniform(1, 4)]))
        t0, d0 = float(rng.random() * 10), float(rng.random() * 1e-8)
        L = float(rng.choice([0.0, rng.uniform(0, 10), -rng.uniform(0, 5), 10 ** rng.uniform(-12, 2)]))
        r = Ray(tuple(p.tolist()), tuple(d.tolist()), 555.0, travelled=t0, duration=d0, source="s")
        q = r.propagate(L, n)
        s = 1 + np.abs(p).max() + abs(L)
        ctx.count("propagations")
        ctx.seen("distinct", ("prop", L, n))
        ctx.expect(np.abs(np.array(q.position) - (p + L * d)).max() < 1e-13 * s, "propagate:position",
                   f"propagate({L}) moved {p.tolist()} to {q.position}")
        ctx.expect(abs(q.travelled - (t0 + L)) < 1e-13 * s + 1e-14 * t0, "propagate:travelled", f"{q.travelled} != {t0 + L}")
        want = d0 + L * n / 2.99792458e10
        ctx.expect(abs(q.duration - want) < 1e-12 * (abs(want) + d0 + abs(L) * 1e-10) + 1e-26, "propagate:duration",
                   f"{q.duration} != {want} for {L} in n={n}")
        ctx.expect(q.direction == r.direction and q.wavelength == 555.0 and q.source == "s", "propagate:else",
                   "propagate changed direction, wavelength or source")
        ctx.expect(r.position == tuple(p.tolist()) and r.travelled == t0, "propagate:mutated", "the original ray changed")


chk = tracework.standard("C02", "a flight or event whose displacement, path length, clock and direction were judged", "kin")
chk.run_cases(propagate_case, "propagate", common.scale(16, 100))
chk.require("flights_judged", 50000)
chk.require("propagations", 1000)
chk.finish()
