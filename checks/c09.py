"""C09: light sources emit the declared distributions, in the world frame."""
import functools
import math

import numpy as np

import common
common.setup_path()
import kernelbuild
import stats
import tracework
from tracemon import region
from scenes import rigid, rigid_inv, rotation, unit

chk = common.Check(
    "C09", "a (emission path, mask kind, light placement depth, number of lights) combination; one evaluation is "
           "one emitted ray judged",
    assumptions=["Position masks from 1e-5 to 5000 units, cone half-angles in (1e-3, pi/2], |g| <= 0.99, tabulated spectra "
                 "with positive total.",
                 "Sampling laws are judged on probability integral transforms pooled over lights, and on pairwise "
                 "sums modulo one for independence; significance 1e-9."])


class Pos:
    """Description of a position mask: builds the delegate, inverts a local position to uniforms."""

    def __init__(self, rng):
        self.kind = str(rng.choice(["default", "rect", "circle", "cube", "partial_rect", "partial_circle", "custom", "DefaultPosition"]))
        self.a = rng.uniform(0.01, 5, size=3) * np.where(rng.random(3) < 0.2, 1e-3, 1)
        self.log = []

    def build(self):
        from pvtrace.light import light as L
        a = [float(v) for v in self.a]
        if self.kind == "default":
            return None
        if self.kind == "DefaultPosition":
            return L.DefaultPosition()
        if self.kind == "rect":
            return L.RectangularMask(a[0], a[1])
        if self.kind == "circle":
            return L.CircularMask(a[0])
        if self.kind == "cube":
            return L.CubeMask(*a)
        if self.kind == "partial_rect":
            return functools.partial(L.rectangular_mask, a[0], a[1])
        if self.kind == "partial_circle":
            return functools.partial(L.circular_mask, a[0])

        def custom():
            p = tuple(np.random.normal(size=3).tolist())
            self.log.append(p)
            return p
        return custom

    def uniforms(self, p, tol):
        """(inside support?, uniforms)"""
        k = self.kind
        a = self.a
        if k in ("default", "DefaultPosition"):
            return bool(np.abs(p).max() < tol), []
        if k.endswith("rect"):
            ok = abs(p[0]) <= a[0] + tol and abs(p[1]) <= a[1] + tol and abs(p[2]) < tol
            return bool(ok), [(p[0] / a[0] + 1) / 2, (p[1] / a[1] + 1) / 2]
        if k.endswith("circle"):
            r = math.hypot(p[0], p[1])
            return bool(r <= a[0] + tol and abs(p[2]) < tol), [(r / a[0]) ** 2, (math.atan2(p[1], p[0]) / (2 * math.pi)) % 1]
        if k == "cube":
            return bool(np.all(np.abs(p) <= a + tol)), [(p[i] / a[i] + 1) / 2 for i in range(3)]
        return None, []


class Dir:
    def __init__(self, rng):
        self.kind = str(rng.choice(["default", "iso", "lambert", "cone", "partial_cone", "hg", "hg0", "custom", "DefaultDirection"]))
        self.t = float(rng.choice([rng.uniform(1e-3, math.pi / 2), math.pi / 2, rng.uniform(0.01, 0.2)]))
        self.g = float(rng.choice([rng.uniform(-0.99, 0.99), 10.0 ** rng.uniform(-13, -3), -10.0 ** rng.uniform(-13, -3)]))
        self.log = []

    def build(self):
        from pvtrace.light import light as L
        from pvtrace.material import utils as U
        k = self.kind
        if k == "default":
            return None
        if k == "DefaultDirection":
            return L.DefaultDirection()
        if k == "iso":
            return U.isotropic
        if k == "lambert":
            return U.lambertian
        if k == "cone":
            return U.Cone(self.t)
        if k == "partial_cone":
            return functools.partial(U.cone, self.t)
        if k == "hg":
            return U.HenyeyGreenstein(self.g)
        if k == "hg0":
            return U.HenyeyGreenstein(0)

        def custom():
            d = tuple(unit(np.random.normal(size=3)).tolist())
            self.log.append(d)
            return d
        return custom

    def uniforms(self, d):
        k = self.kind
        phi = (math.atan2(d[1], d[0]) / (2 * math.pi)) % 1
        mu = min(1.0, max(-1.0, float(d[2])))
        s2 = float(d[0] ** 2 + d[1] ** 2)
        if k in ("default", "DefaultDirection"):
            return bool(abs(mu - 1) < 1e-12 and s2 < 1e-24), []
        if k in ("iso", "hg0"):
            return True, [(mu + 1) / 2, phi]
        if k == "lambert":
            return mu >= -1e-12, [s2, phi]
        if k.endswith("cone"):
            s = math.sin(self.t) ** 2
            return bool(mu >= -1e-9 and s2 <= s * (1 + 1e-9)), [s2 / s, phi]
        if k == "hg":
            g = self.g
            if abs(g) < 1e-4:
                # (first order in g; the exact expression cancels)
                return True, [(mu + 1) / 2 + g * 0.75 * (mu * mu - 1), phi]
            u = (1 - g * g) / (2 * g) * (1 / math.sqrt(1 + g * g - 2 * g * mu) - 1 / (1 + g))
            return True, [u, phi]
        return None, []


class Wav:
    def __init__(self, rng):
        self.kind = str(rng.choice(["default", "const", "spectrum", "hist", "custom", "DefaultWavelength"]))
        n = int(rng.integers(3, 40))
        self.c = float(rng.uniform(250, 1200))
        self.x = np.sort(rng.uniform(300, 1000, n)) if rng.random() < 0.5 else np.linspace(300, 1000, n)
        self.x = self.x + np.arange(n) * 1e-3
        self.y = rng.random(n) + (rng.random(n) < 0.3) * 2
        self.log = []

    def build(self):
        from pvtrace.light import light as L
        from pvtrace.material.distribution import Distribution
        k = self.kind
        if k == "default":
            return None
        if k == "DefaultWavelength":
            return L.DefaultWavelength()
        if k == "const":
            return L.ConstantWavelengthMask(self.c)
        if k in ("spectrum", "hist"):
            return L.SpectrumWavelengthMask(Distribution(self.x, self.y, hist=k == "hist"))

        def custom():
            w = float(np.random.uniform(300, 900))
            self.log.append(w)
            return w
        return custom

    def uniforms(self, w, rng):
        k = self.kind
        if k in ("default", "DefaultWavelength"):
            return w == 555.0, []
        if k == "const":
            return w == self.c, []
        if k == "spectrum":
            c = np.concatenate([[0], np.cumsum(0.5 * (self.y[1:] + self.y[:-1]) * np.diff(self.x))])
            return bool(self.x[0] <= w <= self.x[-1]), [float(np.interp(w, self.x, c / c[-1]))]
        if k == "hist":
            c = np.concatenate([[0], np.cumsum(self.y)]) / self.y.sum()
            i = int(np.searchsorted(self.x, w))
            if i >= len(self.x) or self.x[i] != w:
                return False, []
            return True, [float(rng.uniform(c[i], c[i + 1]))]
        return None, []


def build(rng):
    from pvtrace import Box, Light, Material, Node, Scene, Sphere
    root = Node(name="world", geometry=Sphere(200.0, material=Material(1.0)))
    nodes = [(root, np.eye(4), 0)]
    if rng.random() < 0.3:
        # world placements are relative to the root: its own pose must not matter
        root.location = tuple(rng.normal(size=3))
        if rng.random() < 0.5:
            root.rotate(1.0, (0, 1, 1))
    lights = []
    nl = int(rng.choice([1, 1, 2, 3, 5]))
    for i in range(nl):
        k = int(rng.integers(0, len(nodes)))
        parent, pw, depth = nodes[k]
        if rng.random() < 0.15 and i == 0:
            n, w = root, np.eye(4)          # a light on the root node
        else:
            if rng.random() < 0.5:          # through a group node
                m = rigid(rotation(rng), rng.uniform(-4, 4, 3))
                g = Node(name=f"group{i}", parent=parent)
                g.pose = m
                parent, pw, depth = g, pw @ m, depth + 1
                nodes.append((g, pw, depth))
            m = rigid(rotation(rng), rng.uniform(-4, 4, 3))
            if rng.random() < 0.2:
                m = rigid(np.eye(3), m[:3, 3])
            n = Node(name=f"lnode{i}", parent=parent)
            n.pose = m
            w, depth = pw @ m, depth + 1
            if rng.random() < 0.3:
                n.geometry = Box((0.5, 0.5, 0.5), material=Material(1.2))
            nodes.append((n, w, depth))
        masks = (Wav(rng), Pos(rng), Dir(rng))
        name = f"light{i}" if rng.random() < 0.8 else f"lämp '{i}' \" %s"
        n.light = Light(wavelength=masks[0].build(), position=masks[1].build(), direction=masks[2].build(), name=name)
        lights.append((n, w, depth, name, masks))
    return Scene(root), root, lights


def judge_rays(ctx, path, rays, lights, order, obs):
    """rays: list of (pos, dir, wavelength, source) in the world frame; order: light index per ray."""
    rng = ctx.rng
    taken = {i: 0 for i in range(len(lights))}
    for (p, d, w, src), li in zip(rays, order):
        node, world, depth, name, (mw, mp, md) = lights[li]
        k = taken[li]
        taken[li] += 1
        inv = rigid_inv(world)
        lp = (inv @ np.append(np.asarray(p, float), 1))[:3]
        ld = inv[:3, :3] @ np.asarray(d, float)
        info = dict(path=path, light=name, masks=(mw.kind, mp.kind, md.kind), local_position=lp.tolist(),
                    local_direction=ld.tolist(), wavelength=w)
        ctx.count("rays")
        ctx.seen("distinct", (path, mw.kind, mp.kind, md.kind, min(depth, 2), len(lights)))
        ctx.expect(src == name, f"source:{path}", "ray does not carry its light's name as source", got=src, **info)
        ctx.expect(np.all(np.isfinite(np.asarray(p, float))) and np.all(np.isfinite(np.asarray(d, float)))
                   and abs(np.linalg.norm(d) - 1) < 1e-9, f"unit:{path}:{md.kind}",
                   "emitted direction is not a finite unit vector", direction=list(d), g=md.g, **info)
        u = []
        ok, up = mp.uniforms(lp, 1e-9)
        if ok is None:
            ctx.expect(k < len(mp.log) and np.allclose(lp, mp.log[k], atol=1e-9), f"custom_position:{path}",
                       "ray does not start where the custom position callable said (in the light's frame)",
                       want=mp.log[k] if k < len(mp.log) else None, **info)
        else:
            ctx.expect(ok, f"position_support:{path}:{mp.kind}", "ray starts outside the light's position mask",
                       size=mp.a.tolist(), **info)
            u += [(f"pos.{mp.kind}.{i}", v) for i, v in enumerate(up)]
        ok, ud = md.uniforms(ld)
        if ok is None:
            ctx.expect(k < len(md.log) and np.allclose(ld, md.log[k], atol=1e-9), f"custom_direction:{path}",
                       "ray does not leave along the custom direction (in the light's frame)",
                       want=md.log[k] if k < len(md.log) else None, **info)
        else:
            ctx.expect(ok, f"direction_support:{path}:{md.kind}", "ray leaves outside the light's angular range",
                       angle=md.t, **info)
            u += [(f"dir.{md.kind}.{i}", v) for i, v in enumerate(ud)]
            if md.kind == "hg" or md.kind.endswith("cone"):
                law = "hg" if md.kind == "hg" else "cone"
                part = region(law, md.g if law == "hg" else md.t)
                for i, v in enumerate(ud):
                    obs.setdefault((path, f"dir.{law}[{part}].{i}"), []).append(v)
        ok, uw = mw.uniforms(w, rng)
        if ok is None:
            ctx.expect(k < len(mw.log) and mw.log[k] == w, f"custom_wavelength:{path}",
                       "ray does not have the wavelength of the custom callable",
                       want=mw.log[k] if k < len(mw.log) else None, **info)
        else:
            ctx.expect(ok, f"wavelength_support:{path}:{mw.kind}", "wavelength outside the light's spectrum", c=mw.c, **info)
            u += [(f"wav.{mw.kind}.{i}", v) for i, v in enumerate(uw)]
        for n, v in u:
            obs.setdefault((path, n), []).append(v)
        for i in range(len(u)):
            for j in range(i):
                obs.setdefault((path, "indep." + u[j][0].split(".")[0] + "-" + u[i][0].split(".")[0]), []).append((u[i][1] + u[j][1]) % 1)


def clear(lights):
    for *_, masks in lights:
        for m in masks:
            m.log.clear()


def case(ctx, engine_available):
    rng = ctx.rng
    scene, root, lights = build(rng)
    # light_nodes order is the rotation order
    found = scene.light_nodes
    ctx.expect(len(found) == len(lights) and {id(f) for f in found} == {id(l[0]) for l in lights}, "light_nodes",
               "the scene does not list exactly its lights")
    by_node = {id(l[0]): i for i, l in enumerate(lights)}
    cycle = [by_node[id(f)] for f in found]
    L = len(cycle)
    n = int(rng.integers(30, 120))
    order = [cycle[i % L] for i in range(n)]
    obs = {}
    ctx.sample({"lights": [[l[3], [m.kind for m in l[4]]] for l in lights], "rays": n})

    # per ray
    clear(lights)
    rays = list(scene.emit(n))
    ctx.expect(len(rays) == n, "count:scene.emit", "scene did not emit the requested number of rays", want=n, got=len(rays))
    srcs = [r.source for r in rays]
    ctx.expect(srcs == [lights[i][3] for i in order], "rotation:scene.emit", "lights do not take strict turns", got=srcs[:12])
    for r in rays:
        ctx.expect(r.travelled == 0 and r.duration == 0, "fresh", "an emitted ray has a history", got=str(r))
    judge_rays(ctx, "per_ray", [(r.position, r.direction, r.wavelength, r.source) for r in rays], lights, order, obs)

    # in bulk
    from pvtrace.engine.emit import emit_bundle
    clear(lights)
    m = int(rng.integers(0, 400))
    pos, dirs, wav, src = emit_bundle(scene, m)
    ctx.expect(len(pos) == len(dirs) == len(wav) == len(src) == m, "count:bundle", "bulk emission of the wrong size")
    border = [cycle[i % L] for i in range(m)]
    ctx.expect(list(src) == [lights[i][3] for i in border], "rotation:bundle", "bulk emission does not rotate the lights", got=list(src)[:12])
    judge_rays(ctx, "bundle", [(pos[i], dirs[i], float(wav[i]), src[i]) for i in range(m)], lights, border, obs)

    # in bulk, a ray or two at a time
    for m in [int(v) for v in rng.choice([1, 1, 2, 3], 12)]:
        clear(lights)
        pos, dirs, wav, src = emit_bundle(scene, m)
        ctx.expect(len(pos) == len(dirs) == len(wav) == len(src) == m, "count:bundle", "bulk emission of the wrong size")
        judge_rays(ctx, "few", [(pos[i], dirs[i], float(wav[i]), src[i]) for i in range(m)], lights, [cycle[i % L] for i in range(m)], obs)
        ctx.count("small_bundles")

    # a single node and its light
    i = int(rng.integers(L))
    node, world, depth, name, masks = lights[i]
    clear(lights)
    k = int(rng.integers(0, 6))
    own = list(node.emit(k))
    ctx.expect(len(own) == k, "count:node.emit", "a light node did not emit the requested number of rays", want=k, got=len(own))
    it = node.light.emit()
    import itertools
    free = list(itertools.islice(it, 5))
    ctx.expect(len(free) == 5, "count:unlimited", "a light asked for unlimited rays stopped", got=len(free))

    if engine_available and rng.random() < 0.5:
        from pvtrace import engine
        clear(lights)
        q = int(rng.integers(1, 150))
        res = engine.simulate(scene, q, seed=int(rng.integers(1 << 31)), workers=1, maxsteps=3, max_events=8)
        gen = [h[0] for h in res.histories()]
        ctx.expect(len(gen) == q, "count:engine", "the engine did not generate the requested rays", got=len(gen), want=q)
        eorder = [cycle[i % L] for i in range(q)]
        judge_rays(ctx, "engine", [(g[0].position, g[0].direction, g[0].wavelength, g[0].source) for g in gen], lights, eorder, obs)
        ctx.count("engine_scenes")
        # streaming continues the rotation
        clear(lights)
        b = int(rng.integers(1, q + 1))
        srcs = []
        for r, t in engine.simulate_stream(scene, q, bundle=b, seed=3, workers=1, maxsteps=3, max_events=8):
            srcs += [h[0][0].source for h in r.histories()]
        ctx.expect(srcs == [lights[i][3] for i in eorder], "rotation:stream", "streamed bundles do not continue the rotation of the lights",
                   bundle=b, got=srcs[:20])
        ctx.count("streams")
    ctx.data.append(obs)


def custom_classes(ctx):
    """Delegates that derive from the built-in ones are the user's own code."""
    from pvtrace import Box, Light, Material, Node, Scene
    from pvtrace.engine.emit import emit_bundle
    from pvtrace.light import light as L
    from pvtrace.material import utils as U
    rng = ctx.rng
    calls = []

    def sub(base, args, value):
        def __call__(self):
            calls.append(base.__name__)
            return value
        return type("My" + base.__name__, (base,), {"__call__": __call__})(*args)
    p = tuple(rng.normal(size=3).tolist())
    d = tuple(unit(rng.normal(size=3)).tolist())
    w = float(rng.uniform(300, 900))
    pos = sub(*[(L.RectangularMask, (1, 1), p), (L.CircularMask, (1,), p), (L.CubeMask, (1, 1, 1), p), (L.DefaultPosition, (), p)][int(rng.integers(4))])
    dr = sub(*[(U.Cone, (0.3,), d), (U.HenyeyGreenstein, (0.3,), d), (L.DefaultDirection, (), d)][int(rng.integers(3))])
    wv = sub(*[(L.ConstantWavelengthMask, (500.0,), w), (L.DefaultWavelength, (), w)][int(rng.integers(2))])
    pick = int(rng.integers(0, 8))

    class MyLight(Light):
        def emit(self, num_rays=None):
            for r in super().emit(num_rays):
                yield r.propagate(2.0, 1.0)
    cls = MyLight if pick == 7 else Light
    light = cls(position=pos if pick & 1 or pick == 0 else None, direction=dr if pick & 2 else None, wavelength=wv if pick & 4 else None, name="mine")
    root = Node(name="w", geometry=Box((50, 50, 50), material=Material(1.0)))
    n = Node(name="l", parent=root, light=light)
    m = rigid(rotation(rng), rng.uniform(-3, 3, 3))
    n.pose = m
    scene = Scene(root)
    k = 7
    a = [(r.position, r.direction, r.wavelength) for r in scene.emit(k)]
    bp, bd, bw, _ = emit_bundle(scene, k)
    for i in range(k):
        ctx.count("custom_rays")
        ctx.seen("distinct", ("subclass", type(pos).__name__, type(dr).__name__, type(wv).__name__, pick))
        ctx.expect(np.allclose(a[i][0], bp[i], atol=1e-9) and np.allclose(a[i][1], bd[i], atol=1e-9) and a[i][2] == bw[i],
                   "subclass", "bulk emission differs from one-at-a-time emission for a user-defined subclass",
                   one=a[i], bulk=(bp[i].tolist(), bd[i].tolist(), float(bw[i])), pick=pick)
    ctx.expect(np.allclose(a[0][1], m[:3, :3] @ (np.array(d) if pick & 2 else np.array([0, 0, 1.0]))), "subclass:direction",
               "ray does not leave along the user-defined direction", got=a[0][1])
    # invalid cones are refused by both
    for t in (0.0, math.pi / 2 + 0.1, 3.0):
        light2 = Light(direction=U.Cone(t))
        n.light = light2
        outcome = []
        for f in (lambda: list(scene.emit(1)), lambda: emit_bundle(scene, 1)):
            try:
                f()
                outcome.append("ok")
            except ValueError:
                outcome.append("refused")
        ctx.expect(outcome == ["refused", "refused"], "cone_range", "an impossible cone is not refused", angle=t, got=outcome)


def tails_case(ctx):
    """Many rays of one light: the far ends of every distribution, and masks of any size."""
    from pvtrace import Box, Light, Material, Node, Scene
    from pvtrace.engine.emit import emit_bundle
    rng = ctx.rng
    mp, md, mw = Pos(rng), Dir(rng), Wav(rng)
    while mp.kind == "custom" or md.kind == "custom" or mw.kind in ("custom", "default", "const", "DefaultWavelength"):
        mp, md, mw = Pos(rng), Dir(rng), Wav(rng)
    mp.a = mp.a * 10.0 ** rng.uniform(-3, 3)
    root = Node(name="w", geometry=Box((50, 50, 50), material=Material(1.0)))
    n = Node(name="l", parent=root, light=Light(wavelength=mw.build(), position=mp.build(), direction=md.build(), name="far"))
    scene = Scene(root)
    np.random.seed(int(rng.integers(1 << 31)))
    k = 6000
    rays = list(scene.emit(k))
    one = ([r.position for r in rays], [r.direction for r in rays], [r.wavelength for r in rays])
    for path, (pos, dirs, wav) in (("per_ray", one), ("bundle", emit_bundle(scene, k)[:3])):
        got = {}
        for p, d, w in zip(pos, dirs, wav):
            for what, (ok, u) in ((f"pos.{mp.kind}", mp.uniforms(p, 1e-9 * max(1.0, mp.a.max()))), (f"dir.{md.kind}", md.uniforms(d)),
                                  (f"wav.{mw.kind}", mw.uniforms(w, rng))):
                ctx.expect(ok, f"support:{path}:{what}", f"a ray lies outside the {what} of its light", size=mp.a.tolist(), at=[list(p), list(d), float(w)])
                for i, v in enumerate(u):
                    got.setdefault(f"{what}.{i}", []).append(v)
        ctx.count("tail_rays", k)
        for what, u in got.items():
            u = np.array(u)
            ctx.data.append((path, what, len(u), int((u < 1e-3).sum()), int((u > 1 - 1e-3).sum())))
            pv, desc = stats.uniform(u)
            ctx.expect(pv > stats.ALPHA, f"one-light:{path}:{what}", f"{what} of one light does not follow its law: {desc} (p={pv:.1e})",
                       size=mp.a.tolist(), angle=md.t, g=md.g)
    ctx.seen("distinct", ("tails", mp.kind, md.kind, mw.kind))


def judge_tails():
    import collections
    from scipy.stats import binomtest
    ctx = chk.ctx("tails", 0)
    sums = collections.Counter()
    for d in chk.data:
        if isinstance(d, tuple):
            path, what, n, low, high = d
            sums[path, what, "n"] += n
            sums[path, what, "lowest"] += low
            sums[path, what, "highest"] += high
    for path, what, end in list(sums):
        if end != "n":
            n, k = sums[path, what, "n"], sums[path, what, end]
            pv = binomtest(k, n, 1e-3).pvalue
            ctx.count("tails_judged")
            ctx.expect(pv > stats.ALPHA, f"tail:{path}:{what}", f"{k} of {n} values of {what} are in the {end} thousandth of their law (p={pv:.1e})")
    chk.absorb(ctx)


kernelbuild.use_release_kernel()
chk.run_cases(tails_case, "tails", common.scale(48, 400))
judge_tails()
chk.require("tail_rays", 200000)
chk.require("tails_judged", 30)
chk.run_cases(case, "scenes", common.scale(1200, 12000), args=(True,))
chk.run_cases(custom_classes, "subclasses", common.scale(80, 800))
tracework.judge(chk, "emission")
chk.require("rays", 50000)
chk.require("engine_scenes", 50)
chk.require("streams", 50)
chk.require("small_bundles", 2000)
chk.require("custom_rays", 100)
chk.finish()
