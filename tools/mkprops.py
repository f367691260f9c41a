"""Regenerates /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

PT = "pvtrace/algorithm/photon_tracer.py"
KN = "pvtrace/engine/_kernel.pyx"

prop("C01", "Every photon history is one complete, well-formed life cycle",
 "For every ray emitted inside a closed scene, both the Python tracer and the compiled engine report exactly one generation event first and exactly one terminal event (exit, non-radiative loss, reaction or kill) last, with nothing after it. Every absorption is followed immediately by exactly one outcome, attributed to the same component and container and of a kind that component can produce (scatterer: scatter or loss; luminophore: emit or loss; absorber: loss; reactor: reaction), and no outcome appears without an absorption. Event metadata always names real nodes and components of the scene, with the component belonging to the named container, and the ray's source label is its light until an emission or scattering and that component's name afterwards.",
 ["inputs", "configurations"], "all scenes of nested primitives/meshes, materials, components, lights, ray directions and random draws",
 "Tests trace a handful of rays through one or two fixed boxes and assert specific event lists; they cannot cover the combinations of component kinds, nesting, surfaces and random outcomes.",
 [PT, KN, "pvtrace/engine/api.py"], [("step_forward loop", PT), ("trace_one loop", KN), ("EngineResult.histories", "pvtrace/engine/api.py")],
 ["photon_tracer.step_forward", "photon_tracer.follow", "EngineResult.histories"])

prop("C02", "Photon kinematics: straight flight, path length, clock, unit directions",
 "Between consecutive events a photon moves in a straight line along the direction reported by the earlier event; its travelled distance grows by exactly the displacement and its clock by displacement times the refractive index of the medium traversed divided by c, plus a non-negative delay only when a component with a radiative (emission) or non-radiative (loss) lifetime acts. Position changes only by flight, direction only at reflection, transmission, emission or scattering, and wavelength only at emission. Directions stay unit vectors and every reported number stays finite.",
 ["inputs", "configurations"], "all scenes, rays, refractive indices and lifetimes, in both tracers",
 "Existing tests compare a few travelled distances on axis-aligned boxes; cumulative bookkeeping over long multi-event paths with rotated nodes and mixed media is never checked.",
 [PT, KN, "pvtrace/light/ray.py", "pvtrace/material/component.py"], [("Ray.propagate", "pvtrace/light/ray.py"), ("position/travelled/duration updates", KN)],
 ["event histories of both tracers", "Ray.propagate"])

prop("C03", "Reported media, surfaces and normals match the scene geometry",
 "At every event the reported container is the innermost node that encloses the photon, the reported hit node is the one whose surface is the first met along the flight, and the adjacent node is the medium on the other side of that surface; a photon never crosses any surface without an event and never leaves the world unnoticed. The reported normal is the outward unit normal of the hit surface at that point expressed in the world frame, and an event point on a surface really lies on it. This holds for every arrangement of nested, non-overlapping boxes, spheres, cylinders and closed meshes under any rigid placement, in both tracers where supported.",
 ["inputs", "configurations"], "all scene graphs with nesting and rigid transforms, and all rays",
 "Tests pin containers and hits for a few hand-made nested boxes with axis-aligned rays; arbitrary rotations, nesting depth, siblings and grazing hits are out of reach of example tests.",
 [PT, KN, "pvtrace/scene/scene.py", "pvtrace/scene/node.py"], [("next_hit/find_container", PT), ("Scene.intersections", "pvtrace/scene/scene.py"), ("nearest/second intersection and container search", KN)],
 ["event metadata hit/container/adjacent/normal", "photon_tracer.next_hit"])

prop("C04", "Surfaces obey Fresnel, Snell and total internal reflection",
 "At a Fresnel surface a photon is reflected with the unpolarised Fresnel probability for the two media and its angle of incidence (always beyond the critical angle), a reflected direction is the mirror image in the surface, and a transmitted direction satisfies Snell's law in the plane of incidence; a null surface always transmits undeviated. A custom surface delegate is consulted for the surface actually hit, is given the ray in that node's local frame with the true container and adjacent nodes, and its reflectivity and directions are what happens. Reflected photons stay in their medium and transmitted photons continue into the adjacent one, in both tracers.",
 ["inputs", "configurations"], "all incidence angles, index ratios, orientations and delegates",
 "Tests evaluate the Fresnel formula at a few angles; neither the realised reflection frequency nor the directions produced at arbitrarily oriented curved surfaces are tested.",
 ["pvtrace/material/surface.py", "pvtrace/material/utils.py", PT, KN], [("FresnelSurfaceDelegate", "pvtrace/material/surface.py"), ("fresnel_reflectivity/refraction", "pvtrace/material/utils.py"), ("fresnel_* / specular_reflect", KN)],
 ["surface events of both tracers", "delegate method calls"])

prop("C05", "Absorption follows Beer-Lambert; components act in proportion and by yield",
 "In a medium the free path to absorption is exponentially distributed with the total attenuation coefficient at the photon's wavelength (the sum over the medium's components), independent of how the path is interrupted by surfaces, in every node's medium including the world's own. The absorbing component is chosen with probability proportional to its own coefficient at that wavelength, and a photon captured by a scatterer or luminophore survives with probability equal to the quantum yield (or the yield implied by the two lifetimes). Lifetimes delay the photon's clock by exponentially distributed times with the declared means; both tracers obey the same laws.",
 ["inputs", "configurations"], "all coefficient spectra (constant, interpolated, histogram), component mixtures, yields, lifetimes and wavelengths",
 "The law is a statement about distributions over infinitely many random draws; tests only check single components with trivial coefficients.",
 ["pvtrace/material/material.py", "pvtrace/material/component.py", KN], [("Material.penetration_depth / component", "pvtrace/material/material.py"), ("volume absorption block", KN)],
 ["absorb/emit/scatter/nonradiative events", "Material.penetration_depth", "Material.component"])

prop("C06", "Luminescence respects the emission spectrum and the energy constraint",
 "A re-emitted photon's wavelength lies within the luminophore's emission spectrum and is distributed according to that spectrum: with the full method over all of it, with the redshift method restricted to wavelengths not shorter than the absorbed one, and with the kT method restricted to energies no more than 3/2 kT (300 K) above the absorbed photon's energy. Scattering never changes the wavelength. Emitted and scattered directions follow the component's phase function expressed in the frame of the node containing the component, and both tracers agree.",
 ["inputs", "configurations"], "all emission spectra (uniform and non-uniform grids), absorbed wavelengths, emission methods, phase functions and node orientations",
 "Tests check the mean of a few samples for one spectrum and one absorbed wavelength; truncation, shape and frame of emission over all inputs are not covered.",
 ["pvtrace/material/component.py", "pvtrace/material/distribution.py", KN, "pvtrace/engine/compiler.py"], [("Luminophore.emit", "pvtrace/material/component.py"), ("Scatterer.emit", "pvtrace/material/component.py"), ("emission block of trace_one", KN)],
 ["emit/scatter events of both tracers", "Luminophore.emit"])

prop("C07", "Geometry queries are exact: intersections, containment, normals, entering",
 "For every box, sphere, cylinder and closed mesh, the intersections of a forward ray are exactly the points where it meets the surface, all of them, ordered by distance and lying on the surface; they agree with containment (an odd number of forward crossings exactly when the origin is inside) . A point is reported contained exactly when strictly inside, the normal at a surface point is the outward unit normal there, and entering is true exactly when the direction points against that normal.",
 ["inputs"], "all shape sizes, origins (inside, outside, on the surface), directions and surface points away from edges",
 "Tests probe a dozen axis-aligned rays on unit shapes.",
 ["pvtrace/geometry/box.py", "pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/mesh.py", "pvtrace/geometry/utils.py"],
 [("Sphere.intersections", "pvtrace/geometry/sphere.py"), ("ray_z_cylinder", "pvtrace/geometry/utils.py"), ("Mesh.intersections", "pvtrace/geometry/mesh.py")],
 ["Geometry.intersections/contains/is_on_surface/normal/is_entering"])

prop("C08", "Scene-graph coordinates: placements compose, invert and preserve lengths",
 "Converting a point, vector or ray between any two nodes of a scene equals composing the rigid placements along the path between them, converting back returns the original, vectors ignore translation and lengths are preserved. After any sequence of translate, rotate, look_at and location or pose assignments, a node's location equals the translation part of its pose, translation moves it by exactly the vector, rotation is about its own location by the given angle and axis (an axis of the parent's frame), and look_at turns an unrotated node's +z axis to the given unit direction. Reparenting or moving a node is reflected in every later conversion.",
 ["inputs", "histories"], "all trees of nodes and all sequences of placement operations",
 "Tests apply one or two operations to one or two nodes.",
 ["pvtrace/geometry/transformable.py", "pvtrace/scene/node.py", "pvtrace/geometry/transformations.py", "pvtrace/light/ray.py"],
 [("Node.transformation_to", "pvtrace/scene/node.py"), ("Transformable.translate/rotate", "pvtrace/geometry/transformable.py"), ("Node.look_at", "pvtrace/scene/node.py")],
 ["Node.pose/location", "point_to_node", "vector_to_node", "Ray.representation"])

prop("C09", "Light sources emit the declared distributions, in the world frame",
 "Rays emitted by a scene have the positions, directions and wavelengths described by each light's masks (rectangle, circle, cube, cone, Lambertian, isotropic, Henyey-Greenstein, spectrum, constant or any custom callable), sampled in the light's own frame and then placed by its node's position and orientation in the world, with the light's name as source and unit directions. Rays are taken from the lights in strict rotation, and the requested number of rays is emitted. The engine's bulk emission and the one-at-a-time emission produce the same distributions.",
 ["inputs", "configurations"], "all masks and parameters, light placements, numbers of lights and rays",
 "Tests draw a few dozen rays from single lights and check bounds only.",
 ["pvtrace/light/light.py", "pvtrace/material/utils.py", "pvtrace/engine/emit.py", "pvtrace/scene/scene.py"],
 [("Light.emit", "pvtrace/light/light.py"), ("emit_bundle", "pvtrace/engine/emit.py"), ("Scene.emit", "pvtrace/scene/scene.py")],
 ["Scene.emit", "emit_bundle", "EngineResult generate events"])

prop("C10", "Spectral distributions evaluate, integrate and sample consistently",
 "A tabulated distribution returns the interpolated value (or, as a histogram, the value of the bin containing the point, y[i] serving the points above x[i-1] up to x[i]) for every point of its range and rejects points outside it. Its cumulative lookup rises monotonically from 0 to 1, sampling is its inverse and never leaves the data range, and samples drawn with uniform probabilities follow the tabulated values whatever the spacing of the grid. Tables that are unsorted, negative or non-finite anywhere are rejected.",
 ["inputs"], "all tables (uniform and non-uniform grids, zeros, single peaks, histograms) and all query points",
 "Tests use one uniform-grid Gaussian and one histogram and a few points.",
 ["pvtrace/material/distribution.py"], [("Distribution.__call__/lookup/sample", "pvtrace/material/distribution.py")],
 ["Distribution public methods"])

prop("C11", "Compiled engine and Python tracer are statistically interchangeable",
 "For every scene the engine accepts, the distribution of photon outcomes is the same as the Python tracer's: the probabilities of each terminal event and container, the event-sequence statistics, and the distributions of final position, direction, wavelength, path length and time. The engine's event metadata uses the same names and conventions as the Python tracer.",
 ["inputs", "configurations"], "all supported scenes: nesting, rotations, mixtures, phase functions, lights, emission methods",
 "Existing comparisons use four fixed scenes with loose tolerances.",
 [KN, PT, "pvtrace/engine/compiler.py", "pvtrace/engine/emit.py"], [("trace_one", KN), ("step_forward", PT), ("compile_scene", "pvtrace/engine/compiler.py")],
 ["simulate().histories()", "step_forward"])

prop("C12", "Engine results depend only on the scene and seeds, not on scheduling",
 "With the same scene, emitted rays and seed, the engine produces identical histories for every number of workers and on every repetition, and recorder tallies identical apart from floating-point summation order. Choosing which rays keep histories does not change the tallies or the histories that are kept as long as the event budget suffices, and streaming the same emitted rays in bundles gives the same union of results as one run, for any bundle size. Different rays and different seeds use different random streams.",
 ["schedules", "configurations", "inputs"], "all thread counts, schedules, sampling strides and bundle sizes",
 "Tests compare one worker with four on one scene once; schedule-dependence needs many configurations and load patterns.",
 [KN, "pvtrace/engine/api.py"], [("per-ray RNG seeding and prange", KN), ("simulate_stream", "pvtrace/engine/api.py")],
 ["simulate/simulate_stream results"])

prop("C13", "The native kernel is memory-safe, UB-free and data-race-free",
 "For every scene the compiler accepts (up to the documented limits of nodes, recorders, bins, components and spectra sizes), every ray bundle, event budget, step limit, sampling stride and thread count, tracing performs no out-of-bounds or uninitialised access, no undefined arithmetic and no unsynchronised sharing between threads, and it writes nothing outside the rows it reports. Requests outside the limits are refused with an error rather than traced.",
 ["inputs", "schedules", "configurations"], "all compiled scenes and call parameters, including limits and degenerate values",
 "Memory errors and races are invisible to value assertions on a few small scenes.",
 [KN, "pvtrace/engine/compiler.py"], [("fixed-size hit/recorder arrays and row arithmetic", KN), ("per-thread accumulators", KN)],
 ["ASan/UBSan/TSan reports of instrumented kernel builds", "event arrays"])

prop("C14", "Recorder tallies equal what the event histories imply",
 "For every recorder on any node, event kind, facet filter and histogram, the engine's ray count, crossing count, moments and histogram bins equal those obtained by counting over the full event histories of the same rays: each ray contributes its first matching interaction once and every matching interaction is a crossing; surface selectors mean entering, escaping, externally reflected or exiting that node, volume selectors mean loss, reaction or kill in that node. Positions are in the recorder node's frame, the incidence angle is between incident direction and normal, values outside a histogram's range are counted in no bin, and each value inside falls in the bin whose edges bracket it. A recorder on a node without a shape records nothing. The pure-Python tally gives the same answer.",
 ["inputs", "configurations", "histories"], "all scenes, recorder sets and histories",
 "Tests compare tallies for one slab and one sphere scene.",
 [KN, "pvtrace/engine/tally.py", "pvtrace/engine/recorder.py", "pvtrace/engine/api.py"], [("tally()", KN), ("tally_histories", "pvtrace/engine/tally.py"), ("RecorderResult", "pvtrace/engine/api.py")],
 ["EngineResult.recorders", "tally_histories"])

prop("C15", "Scenes the engine cannot represent are refused, never mis-simulated",
 "Compiling a scene that uses anything outside the supported subset (meshes or custom shapes, custom surface delegates, custom phase functions or components, histogram spectra, scaled or sheared placements, missing materials or geometry, duplicately named or foreign recorders, facets on volume recorders, too many recorders) raises the documented unsupported-scene error wherever in the scene graph the feature occurs, and a scene without such features compiles. A compiled scene describes exactly the shapes, placements, indices, spectra, yields, lifetimes and recorders of the source scene.",
 ["inputs", "configurations"], "all scene graphs, with an unsupported feature at any position",
 "Tests cover one instance of some features at a fixed place in a two-node scene.",
 ["pvtrace/engine/compiler.py", KN], [("CompiledScene", "pvtrace/engine/compiler.py")], ["compile_scene"])

prop("C16", "Parallel simulation delivers every ray exactly once and independently",
 "Simulating N rays with any number of workers yields exactly N histories, each complete and in order, both when results are returned and when they are delivered through a queue; in queue mode the events of each ray arrive complete, in order and under an identity no other ray has. Rays traced by different workers use different random sequences, a fixed seed with one worker reproduces the same histories, and the end-rays option delivers exactly the subset of events a user would count (generation, terminal, entering, escaping and external reflection).",
 ["schedules", "inputs", "configurations"], "all ray counts, worker counts, scheduling orders and delays",
 "Tests run a single small concurrent simulation and check its length.",
 ["pvtrace/scene/scene.py"], [("Scene.simulate", "pvtrace/scene/scene.py"), ("do_simulation_add_to_queue", "pvtrace/scene/scene.py")],
 ["Scene.simulate return value", "queue contents"])

prop("C17", "The simulation database records every event exactly once, per photon",
 "After a command-line simulation finishes, the database holds exactly one ray row and one event row for every event produced (all of them, or exactly the end-ray subset), with the values the tracer reported, and the rows of one photon share a throw id that no other photon has; the number of distinct throw ids equals the number of rays requested. This holds for any number of workers, any interleaving of their events and a slow or fast consumer; the file is created next to the scene and an existing file is only replaced on request. When the database cannot be written (a full disk, a lock that is not released) the command ends with an error instead of hanging or claiming success.",
 ["schedules", "inputs", "histories"], "all interleavings of worker events, consumer speeds, ray and worker counts",
 "No test runs the database writer at all.",
 ["pvtrace/cli/main.py", "pvtrace/scene/scene.py", "pvtrace/data/schema.sql"], [("monitor_queue", "pvtrace/cli/main.py"), ("simulate command", "pvtrace/cli/main.py")],
 ["sqlite database rows", "queue items fed to the writer"])

prop("C18", "Command-line queries report exactly what the photon histories say",
 "For every simulation database, the count, spectrum and time commands for reflected, entering, escaping, lost, reacted and killed rays report exactly the distinct photons (and their wavelengths and durations) whose histories contain that interaction with the given node, restricted to the given normal components within the tolerance, facet and source, and nothing else. An end-rays database gives the same answers as the full database of the same photons. Node and source names are treated as data, never as query text, and queries leave the database unchanged.",
 ["inputs", "histories"], "all databases, node names, filters and output formats",
 "No test executes a query.",
 ["pvtrace/cli/db.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py"], [("SQL builders", "pvtrace/cli/db.py"), ("command handlers", "pvtrace/cli/count.py")],
 ["command output", "SQL results"])

prop("C19", "A scene file builds exactly the scene it describes, or is rejected",
 "Parsing any document that conforms to the scene schema yields a scene whose nodes, parents, placements, shapes, refractive indices, components, spectra, coefficients, yields, phase functions, lights, masks and recorders are those written in the document, with coefficient-plus-spectrum scaled to that peak and relative file names resolved next to the document. Node order in the file does not matter. A document that violates the schema, has an unknown version, or refers to a missing node or component is rejected with an error.",
 ["inputs", "programs"], "all schema-conforming and near-miss documents",
 "Tests parse four fixed files.",
 ["pvtrace/cli/parse.py", "pvtrace/cli/pvtrace-schema-scene-spec.json"], [("parse_v_1_0", "pvtrace/cli/parse.py")], ["parse() result"])

prop("C20", "Studio edits are atomic, faithful and keep document and scene in step",
 "Every edit sent to the studio either succeeds, after which the stored document is the edited text, re-parsing it gives the scene being displayed, and only the addressed part of the document changed (other nodes, comments and values are preserved), or fails with an error response and leaves document and scene exactly as they were. The returned scene description matches the parsed scene. New objects get unused names, moving an object puts it at the requested world position, deleting a component or node removes the references that would dangle (children of a deleted node become children of its parent), and saving writes exactly the current document. Comments outside of the edited part stay where they are.",
 ["histories", "inputs"], "all sequences of edits, valid and invalid, on all documents",
 "The studio has no tests; correctness is about arbitrary edit histories.",
 ["pvtrace/studio/server.py"], [("Studio.apply", "pvtrace/studio/server.py"), ("_patch", "pvtrace/studio/server.py")],
 ["HTTP responses", "GET /api/document", "saved file"])

prop("C21", "Studio streaming: totals are cumulative, complete and match the engine",
 "A studio run streams bundle messages whose traced count increases strictly to the requested number of rays, whose recorder totals are the running sums over exactly the rays traced so far and never decrease, and which end with a single completion message; with a seed, the final totals equal one engine run of the same rays. Streamed paths are real recorded histories, as many as the requested maximum allows and never more, and a stop request or disconnect ends the stream without affecting later runs.",
 ["histories", "schedules", "inputs"], "all run parameters, bundle sizes, stop points and scenes",
 "The studio has no tests.",
 ["pvtrace/studio/server.py", "pvtrace/engine/api.py"], [("websocket run()", "pvtrace/studio/server.py"), ("_recorder_payload/_extract_paths", "pvtrace/studio/server.py")],
 ["websocket messages"])

prop("C22", "Studio only touches its own document folder",
 "Whatever a client sends, the studio writes only the opened document itself (on save) and uploaded .csv or .txt data files placed directly in the document's folder; names with path separators, parent references or absolute paths cannot place a file elsewhere, other file types are refused, and without an opened document nothing is written. Applying or patching a document leaves no files behind, and an edit or upload never alters the saved document file before a save.",
 ["inputs", "histories"], "all upload names and contents, and all request sequences",
 "The studio has no tests.",
 ["pvtrace/studio/server.py"], [("upload_file", "pvtrace/studio/server.py"), ("Studio.apply temporary file", "pvtrace/studio/server.py")],
 ["file system before/after each request"])

prop("C23", "The LSC device accounts for every photon, facet by facet",
 "After simulating n rays (in one or several calls) a luminescent solar concentrator's results contain every ray once on entry and once on leaving: each ray's first interaction and its final fate, labelled with the facet it happened on, the responsible source and the event, so that the facet counts, spectra and summary fractions agree with the underlying histories. Facet names mean the same side everywhere (cells, labels, counts), solar cells absorb everything reaching their facet, mirrors never transmit, user-supplied sizes, spectra, lights and components are the ones simulated, including what is added between two simulations. A ray whose last interaction was not a crossing of or reflection at the plate (lost inside, or last seen at a mirror below it) has no exit facet, and queries for unknown sources, kinds or events are refused.",
 ["inputs", "configurations", "histories"], "all LSC sizes, dyes, cell and mirror arrangements, lights and call sequences",
 "Nothing tests the LSC device.",
 ["pvtrace/device/lsc.py"], [("LSC.simulate/_make_dataframe/label_facets", "pvtrace/device/lsc.py"), ("OptionalMirrorAndSolarCell, AirGapMirror", "pvtrace/device/lsc.py")],
 ["LSC.spectrum/counts/summary"])

prop("C24", "Tracing limits are enforced and otherwise do not disturb the trace",
 "A photon never takes more than the allowed number of steps: it is killed at the first step beyond the step limit (and, in the Python tracer, at the first step after its path exceeds the path-length limit), the kill is its last event, and it happens where the photon already was. A trace that ends within the limits is unaffected by them. In the engine a recorded history never exceeds the event budget (of at least two events) and still ends with a terminal event.",
 ["inputs", "configurations"], "all limits, scenes and rays, including trapped rays",
 "One test kills one trapped ray; the boundary between killed and unaffected is not explored.",
 [PT, KN], [("maxsteps/maxpathlength test", PT), ("event budget and maxsteps tests", KN)], ["event histories"])

prop("C25", "Rendering shows what was traced and keeps a bounded history",
 "For every history handed to the renderer, the drawn path joins exactly the reported event positions in order, each segment coloured by the wavelength carried on it; only the last segment of a ray that exits is shortened to the requested length or left out, and a marker is drawn where the ray was transmitted. Wavelength-to-colour conversion always yields a valid colour, black outside the visible range (380 to 780 nm). Every node with a shape is drawn once, at its world placement and size, also when names are shared or contain slashes, and again at the new placement when it moved and the scene is rendered again. With a history limit set, after any sequence of additions no more than that many ray paths (and their markers) remain displayed, the oldest being removed first, and removal of the scene or rays removes everything that was added for them.",
 ["histories", "inputs"], "all sequences of histories, limits and wavelengths",
 "One test renders a scene and checks nothing about what was displayed.",
 ["pvtrace/scene/renderer.py", "pvtrace/light/utils.py"], [("MeshcatRenderer.add_history/add_ray_path", "pvtrace/scene/renderer.py"), ("wavelength_to_rgb", "pvtrace/light/utils.py")],
 ["commands sent to the viewer", "wavelength_to_hex_int"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
