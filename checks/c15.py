"""C15: scenes the engine cannot represent are refused; accepted ones are represented faithfully."""
import functools
import math

import numpy as np
import common
common.setup_path()
import kernelbuild
import tracework
from recorders import attach_recorders, compare, recount
from scenes import random_component, random_scene, rotation
from tracemon import Monitor


# ---------------------------------------------------------------- features outside of the subset
def pick_node(rng, S, geometry=True, leaf=False, deep=None):
    c = [n for n in S.nodes]
    if leaf:
        c = [n for n in c if not S.pv[n.name].children] or [S.nodes[-1]]
    n = c[int(rng.integers(0, len(c)))]
    return S.pv[n.name], n


def ensure_component(rng, node, kind):
    """A supported component of this kind in the node's material."""
    mat = node.geometry.material
    c = random_component(rng, f"extra{rng.integers(1e9)}", kind=kind).build()
    mat.components = list(mat.components) + [c]
    if rng.random() < 0.5:      # not always the last one
        mat.components = [mat.components[-1]] + list(mat.components[:-1])
    return c


def f_mesh(rng, S, scene):
    import trimesh
    from pvtrace import Mesh
    node, spec = pick_node(rng, S)
    m = [trimesh.creation.box(extents=(1, 1, 1)), trimesh.creation.icosphere(subdivisions=1)][int(rng.integers(0, 2))]
    m.apply_scale(spec.shape.R)
    node.geometry = Mesh(m, material=node.geometry.material)


def f_shape_subclass(rng, S, scene):
    from pvtrace import Box, Cylinder, Sphere
    node, spec = pick_node(rng, S)
    base = type(node.geometry)
    cls = type("Mine", (base,), {"contains": lambda self, p: False} if rng.random() < 0.5 else {})
    g = node.geometry
    node.geometry = {Box: lambda: cls(tuple(g._size), material=g.material) if hasattr(g, "_size") else cls((1, 1, 1), material=g.material),
                     Sphere: lambda: cls(g.radius, material=g.material),
                     Cylinder: lambda: cls(g.length, g.radius, material=g.material)}[base]()


def f_shape_custom(rng, S, scene):
    from pvtrace.geometry.geometry import Geometry
    node, spec = pick_node(rng, S)
    inner = node.geometry

    class Shell(Geometry):
        @property
        def material(self):
            return inner.material

        @material.setter
        def material(self, m):
            inner.material = m

        def is_on_surface(self, p):
            return inner.is_on_surface(p)

        def contains(self, p):
            return inner.contains(p)

        def intersections(self, p, d):
            return inner.intersections(p, d)

        def normal(self, p):
            return inner.normal(p)

        def is_entering(self, p, d):
            return inner.is_entering(p, d)
    node.geometry = Shell()


def f_delegate(rng, S, scene):
    from pvtrace import FresnelSurfaceDelegate, NullSurfaceDelegate, Surface
    from pvtrace.material.surface import SurfaceDelegate
    node, _ = pick_node(rng, S)

    class Mirror(FresnelSurfaceDelegate):
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return 1.0

    class Plain(NullSurfaceDelegate):
        pass

    class Own(SurfaceDelegate):
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return 0.5

        def reflected_direction(self, surface, ray, geometry, container, adjacent):
            return tuple(-np.array(ray.direction))

        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            return ray.direction
    d = [Mirror, Plain, Own][int(rng.integers(0, 3))]()
    node.geometry.material.surface = Surface(delegate=d)


def f_surface(rng, S, scene):
    from pvtrace import Surface
    from pvtrace.material.surface import BaseSurface
    node, _ = pick_node(rng, S)
    old = node.geometry.material.surface

    class Sub(Surface):
        def is_reflected(self, ray, geometry, container, adjacent):
            return True

    class Own(BaseSurface):
        delegate = property(lambda self: old.delegate)

        def is_reflected(self, *a):
            return old.is_reflected(*a)

        def reflect(self, *a):
            return old.reflect(*a)

        def transmit(self, *a):
            return old.transmit(*a)
    node.geometry.material.surface = Sub(delegate=old.delegate) if rng.random() < 0.5 else Own()


def f_material_subclass(rng, S, scene):
    from pvtrace import Material
    node, _ = pick_node(rng, S)
    m = node.geometry.material

    class Mine(Material):
        def total_attenutation_coefficient(self, wavelength):
            return 0.0
    node.geometry.material = Mine(refractive_index=m.refractive_index, surface=m.surface, components=m.components)


def custom_phase(rng):
    from pvtrace.material.utils import Cone, HenyeyGreenstein, cone, henyey_greenstein, isotropic, lambertian

    class MyHG(HenyeyGreenstein):
        def __call__(self):
            return (0.0, 0.0, 1.0)

    class MyCone(Cone):
        def __call__(self):
            return (0.0, 0.0, 1.0)
    return [lambda: (0.0, 0.0, 1.0), lambertian, functools.partial(cone, 0.3), functools.partial(henyey_greenstein, 0.5),
            MyHG(0.3), MyCone(0.3), lambda: isotropic(), Cone(2.0) if rng.random() < 0.5 else MyCone(0.1)][int(rng.integers(0, 8))]


def f_phase(rng, S, scene):
    from pvtrace import Luminophore, Scatterer
    node, _ = pick_node(rng, S)
    c = ensure_component(rng, node, "scatterer" if rng.random() < 0.5 else "luminophore")
    if rng.random() < 0.5:
        c.phase_function = custom_phase(rng)
    else:
        new = Scatterer(1.0, phase_function=custom_phase(rng), name=c.name)
        mat = node.geometry.material
        mat.components = [new if x is c else x for x in mat.components]


def f_component_subclass(rng, S, scene):
    from pvtrace import Absorber, Luminophore, Reactor, Scatterer
    node, _ = pick_node(rng, S)
    kind = str(rng.choice(["absorber", "reactor", "scatterer", "luminophore"]))
    c = ensure_component(rng, node, kind)
    # the same data, but the behaviour is the subclass' own
    c.__class__ = type("Mine", (type(c),), {"is_radiative": lambda self, ray: True, "coefficient": lambda self, nm: 1.0})


def f_component_custom(rng, S, scene):
    from pvtrace.material.component import Component
    node, _ = pick_node(rng, S)

    class Own(Component):
        def coefficient(self, nm):
            return 0.4
    mat = node.geometry.material
    mat.components = list(mat.components) + [Own(name="own")]


def f_histogram(rng, S, scene):
    from pvtrace import Absorber, Luminophore, Reactor, Scatterer
    node, _ = pick_node(rng, S)
    x = np.linspace(300, 1000, 30)
    y = 0.1 + rng.random(30)
    a = np.column_stack((x, y))
    k = int(rng.integers(0, 5))
    if k == 0:
        c = Absorber(a, hist=True)
    elif k == 1:
        c = Reactor(a, hist=True)
    elif k == 2:
        c = Scatterer(a, hist=True)
    elif k == 3:
        c = Luminophore(a, emission=a, hist=True)
    else:       # constant coefficient, histogram emission
        c = Luminophore(1.0, emission=a, hist=True)
    mat = node.geometry.material
    mat.components = [c] + list(mat.components) if rng.random() < 0.5 else list(mat.components) + [c]


def f_scaled(rng, S, scene):
    names = [n for n in S.nodes if n is not S.root]
    node = S.pv[names[int(rng.integers(0, len(names)))].name]
    k = int(rng.integers(0, 4))
    M = np.eye(4)
    if k == 0:
        M[:3, :3] *= float(rng.choice([2.0, 0.5, 1.001, 0.999, 1.0001]))
    elif k == 1:
        a = int(rng.integers(0, 3))
        M[a, a] = float(rng.choice([2.0, 0.5, 1.001, 1.0001]))
    elif k == 2:
        i, j = rng.choice(3, 2, replace=False)
        M[i, j] = float(rng.choice([0.5, -0.3, 1e-3]))
    else:       # area preserving
        M[0, 0], M[1, 1] = 2.0, 0.5
    # on the node itself or on a group above it
    target = node
    if rng.random() < 0.4:
        from pvtrace import Node
        g = Node(name="scaling group", parent=node.parent)
        node.parent = g
        target = g
    target.pose = np.asarray(target.pose) @ M


def f_no_material(rng, S, scene):
    node, _ = pick_node(rng, S)
    g = node.geometry
    from pvtrace import Box, Cylinder, Sphere
    k = int(rng.integers(0, 3))
    node.geometry = [Box((1, 1, 1)), Sphere(radius=1.0), Cylinder(length=1.0, radius=1.0)][k]


def f_no_root_geometry(rng, S, scene):
    S.pv["world"].geometry = None


def f_duplicate_names(rng, S, scene):
    from pvtrace.engine import Recorder
    nodes = list(S.pv.values()) + [n for n in scene.root.descendants if n.geometry is None and n.light is None]
    a, b = nodes[int(rng.integers(0, len(nodes)))], nodes[int(rng.integers(0, len(nodes)))]
    ev = rng.choice(["entering", "escaping", "lost", "exit"], 2)
    a.recorders.append(Recorder("same name", event=str(ev[0])))
    b.recorders.append(Recorder("same name", event=str(ev[1])))


def f_foreign_recorder(rng, S, scene):
    nodes = list(S.pv.values()) + [n for n in scene.root.descendants if n.geometry is None and n.light is None]
    n = nodes[int(rng.integers(0, len(nodes)))]

    class Duck:
        name, event, facet, atol, histograms = "duck", "entering", None, 1e-6, []
    n.recorders.append(["entering", None, {"name": "x", "event": "entering"}, Duck(), 3][int(rng.integers(0, 5))])


def f_volume_facet(rng, S, scene):
    from pvtrace.engine import Recorder
    n, _ = pick_node(rng, S)
    n.recorders.append(Recorder("vf", event=str(rng.choice(["lost", "reacted", "killed"])), facet=(0.0, 0.0, 1.0)))


def f_many_recorders(rng, S, scene):
    from pvtrace.engine import Recorder
    have = sum(len(n.recorders) for n in [scene.root] + list(scene.root.descendants))
    nodes = list(S.pv.values())
    for i in range(257 - have + int(rng.choice([0, 0, 1, 300]))):
        nodes[int(rng.integers(0, len(nodes)))].recorders.append(Recorder(f"many{i}", event="entering"))


def f_many_nodes(rng, S, scene):
    from pvtrace import Material, Node, Sphere
    have = len(S.nodes)
    parent = scene.root
    for i in range(129 - have + int(rng.choice([0, 0, 1, 100]))):
        n = Node(name=f"many{i}", parent=parent, geometry=Sphere(radius=1e-3 / (i + 1), material=Material(refractive_index=1.0)))
        if rng.random() < 0.3:
            parent = n


FEATURES = [f_mesh, f_shape_subclass, f_shape_custom, f_delegate, f_surface, f_material_subclass, f_phase, f_component_subclass,
            f_component_custom, f_histogram, f_scaled, f_no_material, f_no_root_geometry, f_duplicate_names, f_foreign_recorder,
            f_volume_facet, f_many_recorders, f_many_nodes]


def refusal_case(ctx):
    from pvtrace.engine import UnsupportedSceneError, compile_scene, simulate
    rng = ctx.rng
    for feature in FEATURES:
        for _ in range(30):
            S = random_scene(rng, max_nodes=8)
            if len(S.nodes) > 1:
                break
        attach_recorders(rng, S, n=int(rng.choice([0, 2, 6])))
        scene = S.build()
        try:
            compile_scene(scene)
            ok = True
        except UnsupportedSceneError as e:
            ok = False
            ctx.violation("accept:refused", f"a supported scene was refused: {e}", scene=S.spec())
        if not ok:
            continue
        ctx.count("accepted")
        feature(rng, S, scene)
        name = feature.__name__[2:]
        entry = simulate if rng.random() < 0.3 else None
        try:
            if entry is None:
                compile_scene(scene)
            else:
                simulate(scene, 3, seed=1, workers=1)
            got = "accepted"
        except UnsupportedSceneError:
            got = "refused"
        except Exception as e:      # noqa
            got = f"{type(e).__name__}: {e}"
        ctx.count("refusals" if got == "refused" else "not_refused")
        ctx.seen("distinct", (name, S.shape_signature()))
        ctx.expect(got == "refused", f"refuse:{name}", f"a scene with an unsupported feature ({name}) was not refused with "
                   f"UnsupportedSceneError but {got[:200]}", scene=S.spec())


def limits_case(ctx):
    """Exactly at the limits the scene is supported."""
    from pvtrace import Light, Material, Node, Scene, Sphere
    from pvtrace.engine import Recorder, simulate
    rng = ctx.rng
    n = int(rng.choice([127, 128]))
    world = Node(name="world", geometry=Sphere(radius=10.0, material=Material(refractive_index=1.0)))
    deep = world
    for i in range(n - 1):
        nd = Node(name=f"s{i}", parent=deep, geometry=Sphere(radius=9.0 * (1 - i / n), material=Material(refractive_index=1.0)))
        if rng.random() < 0.5:
            deep = nd
        nd.recorders = [Recorder(f"in{i}", event="entering"), Recorder(f"out{i}", event="escaping")]
    world.recorders = [Recorder("left", event="exit")]
    if n == 127:
        world.recorders += [Recorder(f"more{i}", event="exit") for i in range(256 - 2 * 126 - 1)]
    Node(name="light", parent=world, light=Light())
    r = simulate(Scene(world), 70, seed=1, workers=2, max_events=300)
    for k, rec in r.recorders.items():
        want = 0 if k.startswith("in") else 70
        ctx.expect(rec.rays == want and rec.crossings == want, "limits:tally",
                   f"{n} concentric spheres: recorder {k} counted {rec.rays} rays, {rec.crossings} crossings instead of {want}")
    ctx.count("limit_scenes")
    ctx.seen("distinct", ("limits", n))


# ---------------------------------------------------------------- faithfulness
def share(rng, S, scene):
    """Let several nodes use one material or component object."""
    if len(S.nodes) < 3:
        return
    a, b = [S.nodes[i] for i in rng.choice(np.arange(1, len(S.nodes)), 2, replace=False)]
    b.comps, b.n, b.surface = list(a.comps), a.n, a.surface
    pa, pb = S.pv[a.name], S.pv[b.name]
    if rng.random() < 0.5:
        pb.geometry.material = pa.geometry.material
    else:
        from pvtrace import Material
        m = pa.geometry.material
        pb.geometry.material = Material(refractive_index=m.refractive_index, surface=m.surface, components=list(m.components))


def faithful_case(ctx):
    from pvtrace.engine import simulate
    rng = ctx.rng
    S = random_scene(rng, max_nodes=8, strength=float(rng.choice([1.0, 3.0])))
    recs = attach_recorders(rng, S, n=int(rng.choice([2, 8, 25])))
    if rng.random() < 0.4:          # one name for components of several nodes
        for nd in S.nodes:
            for k, c in zip(rng.permutation(len(nd.comps)), nd.comps):
                c.name = f"stuff{k}"
        names = [c.name for nd in S.nodes for c in nd.comps]
        ctx.count("same_named", len(names) != len(set(names)))
    scene = S.build()
    if rng.random() < 0.4:
        share(rng, S, scene)
        ctx.count("shared_materials")
    method = str(rng.choice(["kT", "redshift", "full"]))
    mon = Monitor(ctx, S, "engine", ("life", "kin", "geo", "optics", "volume", "emit"), maxsteps=300, emit_method=method, max_events=606)
    n = 250
    np.random.seed(int(rng.integers(0, 2**31 - 1)))
    r = simulate(scene, n, seed=int(rng.integers(0, 2**31)), workers=1, maxsteps=300, max_events=606, emit_method=method)
    hs = list(r.histories())
    for h in hs:
        mon.history(h)
        if len(ctx.violations) > 6:
            break
    if mon.obs:
        ctx.data.append({("engine", k): v for k, v in mon.obs.items()})
    compare(ctx, "tally", recount(S, recs, hs), r.recorders)
    ctx.count("faithful_scenes")
    ctx.seen("distinct", ("faithful", S.shape_signature(), method))
    ctx.sample({"scene": S.spec()})


def constant_emission_case(ctx):
    """Luminophores with the default emission line."""
    from pvtrace import Light, Luminophore, Material, Node, Scene, Sphere
    from pvtrace.engine import simulate
    rng = ctx.rng
    x = np.linspace(300, 1000, int(rng.choice([50, 701])))
    c = Luminophore(np.column_stack((x, np.full(len(x), 50.0))), x=x, name="lum", quantum_yield=1.0)
    world = Node(name="world", geometry=Sphere(radius=50.0, material=Material(refractive_index=1.0)))
    Node(name="ball", parent=world, geometry=Sphere(radius=5.0, material=Material(refractive_index=1.0, components=[c])))
    Node(name="light", parent=world, light=Light(wavelength=lambda: 400.0))
    r = simulate(Scene(world), 1500, seed=int(rng.integers(0, 2**31)), workers=1, maxsteps=2, emit_method="full")
    nm = np.array([next(y.wavelength for y, e, _ in h if e.name == "EMIT") for h in r.histories()])
    # exp(-((x-600)/40)^2): mean 600, sd 40/sqrt 2
    ctx.count("default_emissions", len(nm))
    ctx.expect(abs(nm.mean() - 600) < 6.5 * 28.3 / math.sqrt(len(nm)) + 0.5 and abs(nm.std() - 28.3) < 6.5 * 28.3 / math.sqrt(2 * len(nm)) + 0.6,
               "emission:default", f"the default emission line has mean {nm.mean():.1f} and width {nm.std():.1f}")


def main():
    chk = common.Check("C15", "a scene with one unsupported feature somewhere in its graph, or a supported scene traced and judged",
                       assumptions=tracework.BASE_ASSUMPTIONS + [
                           "Foreign recorders are objects that are not Recorder instances; duplicates are equal recorder names.",
                           "Faithfulness is judged on what the compiled scene does (histories and tallies), not on its tables."])
    kernelbuild.use_release_kernel()
    chk.run_cases(refusal_case, "refusal", common.scale(60, 700))
    chk.run_cases(limits_case, "limits", common.scale(4, 20))
    chk.run_cases(faithful_case, "faithful", common.scale(120, 1500))
    chk.run_cases(constant_emission_case, "emission", common.scale(8, 60))
    tracework.judge(chk, "volume")
    chk.require("refusals", 500)
    chk.require("accepted", 500)
    chk.require("limit_scenes", 3)
    chk.require("faithful_scenes", 60)
    chk.require("flights_judged", 20000)
    chk.require("same_named", 10)
    chk.require("shared_materials", 10)
    chk.finish()


main()
