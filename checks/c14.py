"""C14: recorder tallies equal what the event histories imply."""
import numpy as np
import common
common.setup_path()
import kernelbuild
from recorders import attach_recorders, compare, recount
from scenes import random_scene

KINDS = ("box", "sphere", "cylinder")


def _scene(ctx, meshes):
    rng = ctx.rng
    S = random_scene(rng, allow_tau=True, kinds=KINDS + (("mesh",) if meshes else ()), max_nodes=int(rng.choice([2, 4, 7, 10])),
                     strength=float(rng.choice([0.3, 1.0, 3.0])))
    recs = attach_recorders(rng, S)
    return S, recs, S.build()


def engine_case(ctx):
    from pvtrace.engine import simulate
    from pvtrace.engine.tally import tally_histories
    rng = ctx.rng
    S, recs, scene = _scene(ctx, False)
    n = int(rng.choice([1, 30, 400, 1500]))
    maxsteps = int(rng.choice([2, 5, 20, 100, 400]))
    workers = int(rng.integers(1, 9))
    seed = int(rng.integers(0, 2**31))
    method = str(rng.choice(["kT", "full", "redshift"]))
    r = simulate(scene, n, seed=seed, workers=workers, maxsteps=maxsteps, max_events=2 * maxsteps + 6,
                 emit_method=method)
    hs = list(r.histories())
    ctx.expect(len(hs) == n, "engine:histories", f"{len(hs)} histories of {n} rays")
    ctx.seen("distinct", ("engine", S.shape_signature(), tuple(str(x.spec()) for x in recs)))
    ctx.sample({"recorders": [x.spec() for x in recs][:4], "rays": n, "workers": workers, "maxsteps": maxsteps})
    counts = recount(S, recs, hs)
    compare(ctx, "engine", counts, r.recorders)
    # sub-sampled histories do not change what is tallied
    if rng.random() < 0.5:
        k = int(rng.choice([0, 2, 7, n + 1]))
        np.random.seed(ctx.seedseq[0] * 7 + ctx.idx)
        a = simulate(scene, n, seed=seed, workers=2, maxsteps=maxsteps, max_events=2 * maxsteps + 6,
                     emit_method=method)
        np.random.seed(ctx.seedseq[0] * 7 + ctx.idx)
        b = simulate(scene, n, seed=seed, workers=workers, maxsteps=maxsteps, max_events=2 * maxsteps + 6,
                     emit_method=method, record_every=k)
        compare(ctx, "engine-sampled", recount(S, recs, a.histories()), b.recorders)
        ctx.count("sampled_runs")
    ctx.count("engine_scenes")
    ctx.count("engine_histories", n)
    compare(ctx, "tally-engine", counts, tally_histories(scene, hs))


def python_case(ctx):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.engine.tally import tally_histories
    rng = ctx.rng
    S, recs, scene = _scene(ctx, rng.random() < 0.3)
    n = int(rng.choice([1, 20, 60]))
    maxsteps = int(rng.choice([2, 5, 20, 60, 200]))
    hs = [list(photon_tracer.step_forward(scene, ray, maxsteps=maxsteps)) for ray in scene.emit(n)]
    ctx.seen("distinct", ("python", S.shape_signature(), tuple(str(x.spec()) for x in recs)))
    ctx.count("python_scenes")
    ctx.count("python_histories", n)
    feed = hs if rng.random() < 0.5 else (tuple(h) for h in hs)   # any iterable is accepted
    compare(ctx, "tally-python", recount(S, recs, hs), tally_histories(scene, feed))


def turned_case(ctx):
    """A block turned about the origin of the world, and surfaces of the user's own."""
    from pvtrace import Surface, SurfaceDelegate
    from pvtrace.algorithm import photon_tracer
    from pvtrace.engine import simulate
    from pvtrace.engine.tally import tally_histories
    from scenes import NodeS, LightS, SceneSpec, BoxS, SphereS, rigid, rotation
    rng = ctx.rng
    S = SceneSpec()
    root = S.add(NodeS("world", SphereS(12.0), np.eye(4)))
    M = rigid(rotation(rng), np.zeros(3) if rng.random() < 0.7 else rng.uniform(-1, 1, 3))
    S.add(NodeS("block", BoxS(rng.uniform(1, 4, 3)), M, n=float(rng.uniform(1.1, 2.0)), depth=1, encl=root))
    S.lights.append(LightS("light0", "ln", rigid(rotation(rng), rng.uniform(-0.4, 0.4, 3)), root, 555.0, ("iso",), None))
    recs = attach_recorders(rng, S, n=25)
    own = rng.random() < 0.6

    class Rough(SurfaceDelegate):
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return 0.5

        def scattered(self, normal, sign):
            v = rng.normal(size=3)
            v /= np.linalg.norm(v)
            c = float(np.dot(v, normal))
            if c * sign < 0:
                v = v - 2 * c * np.asarray(normal)
            return tuple(float(x) for x in v / np.linalg.norm(v))

        def reflected_direction(self, surface, ray, geometry, container, adjacent):
            nrm = geometry.normal(ray.position)
            return self.scattered(nrm, -np.sign(np.dot(nrm, ray.direction)))

        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            nrm = geometry.normal(ray.position)
            return self.scattered(nrm, np.sign(np.dot(nrm, ray.direction)))
    scene = S.build(surface_for=(lambda nd: Surface(delegate=Rough()) if nd.name == "block" else None) if own else None)
    hs = [list(photon_tracer.step_forward(scene, ray, maxsteps=60)) for ray in scene.emit(80)]
    compare(ctx, "tally-turned", recount(S, recs, hs), tally_histories(scene, hs))
    if not own:
        r = simulate(scene, 400, seed=int(rng.integers(0, 2**31)), max_events=300, maxsteps=100)
        compare(ctx, "engine-turned", recount(S, recs, list(r.histories())), r.recorders)
    ctx.count("turned_own" if own else "turned_fresnel")
    ctx.seen("distinct", ("turned", own, S.shape_signature(), tuple(str(x.spec()) for x in recs)))


def exact_case(ctx):
    """Faces of unturned boxes: facets match exactly, whatever the tolerance."""
    from pvtrace import Box, Light, Material, Node, Scatterer, Scene, Sphere
    from pvtrace.engine import Recorder, simulate
    from pvtrace.engine.tally import tally_histories
    from pvtrace.material.utils import isotropic
    rng = ctx.rng
    world = Node(name="world", geometry=Sphere(40.0, material=Material(refractive_index=1.0)))
    boxes, faces = [], {}
    for k in range(int(rng.integers(1, 4))):
        size = rng.uniform(1.0, 3.0, 3)
        loc = np.array([9.0 * (k - 1), 0.0, 0.0]) + rng.uniform(-1, 1, 3)
        b = Node(name=f"b{k}", parent=world, geometry=Box(tuple(size), material=Material(
            refractive_index=float(rng.uniform(1.0, 2.0)), components=[Scatterer(float(rng.uniform(0, 0.5)))])))
        b.location = loc
        boxes.append(b)
        for i in range(3):
            for sign in (-1, 1):
                for event in ("entering", "escaping", "reflected"):
                    atol = float(rng.choice([0.0, 0.0, 1e-300, 1e-12, 0.5]))
                    name = f"{k} {i} {sign} {event}"
                    facet = [0, 0, 0]
                    facet[i] = sign
                    b.recorders.append(Recorder(name, event=event, facet=tuple(facet), atol=atol))
                    faces[name] = (b.name, event, i, sign, loc[i] + sign * 0.5 * size[i])
    inner = [b.location for b in boxes]
    Node(name="lamp", parent=world, light=Light(direction=isotropic, position=lambda: tuple(
        inner[np.random.randint(len(inner))] if np.random.uniform() < 0.5 else np.random.uniform(-12, 12, 3))))
    scene = Scene(world)
    n = int(rng.choice([50, 300]))
    r = simulate(scene, n, seed=int(rng.integers(0, 2**31)), max_events=300)
    hs = list(r.histories())
    want = {name: [0, 0] for name in faces}
    for h in hs:
        seen = set()
        for ray, event, meta in h:
            if event.name not in ("REFLECT", "TRANSMIT"):
                continue
            kind = ("reflected" if event.name == "REFLECT" else "entering") if meta["adjacent"] == meta["hit"] else \
                ("" if event.name == "REFLECT" else "escaping")
            for name, (node, ev, i, sign, at) in faces.items():
                if meta["hit"] == node and kind == ev and abs(ray.position[i] - at) < 1e-9:
                    want[name][1] += 1
                    want[name][0] += name not in seen
                    seen.add(name)
    ctx.seen("distinct", ("exact", tuple(faces), n))
    for path, got in (("engine", r.recorders), ("tally", tally_histories(scene, hs))):
        for name, w in want.items():
            ctx.count("exact_facets")
            if w[0]:
                ctx.count("exact_facets_hit")
            ctx.expect([got[name].rays, got[name].crossings] == w, f"{path}:exact-facet",
                       f"recorder of the face {name} counts {got[name].rays} rays, {got[name].crossings} crossings; the histories show {w}")


def main():
    chk = common.Check("C14", "a recorder set and scene whose tallies were recounted from histories", assumptions=[
        "Recorders sit on any node and have unique names; facet matches and histogram values within rounding of "
        "a decision boundary are accepted either way.",
        "The event budget of the engine suffices for every history."])
    kernelbuild.use_release_kernel()
    chk.run_cases(engine_case, "engine", common.scale(160, 1500))
    chk.run_cases(python_case, "python", common.scale(120, 900))
    chk.run_cases(turned_case, "turned", common.scale(32, 300))
    chk.require("turned_own", 8)
    chk.require("turned_fresnel", 5)
    chk.run_cases(exact_case, "exact", common.scale(20, 150))
    chk.require("exact_facets_hit", 200)
    chk.require("recorders_judged", 1500)
    chk.require("histograms_judged", 800)
    chk.require("binned", 10000)
    chk.require("multiple_crossings", 500)
    for e in ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"):
        chk.require(f"recorded_{e}", 100)
    chk.finish()


main()
