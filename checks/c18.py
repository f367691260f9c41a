"""C18: command-line queries report exactly what the photon histories say."""
import collections
import io
import json
import os
import re
import shutil
import sqlite3
import tempfile

import numpy as np
import common
common.setup_path()
import docs
import tracework

COMMANDS = ["reflected", "entering", "escaping", "lost", "reacted", "killed"]
KIND = {"reflected": "REFLECT", "entering": "TRANSMIT", "escaping": "TRANSMIT", "lost": "NONRADIATIVE", "reacted": "REACT", "killed": "KILL"}
VOLUME = {"lost", "reacted", "killed"}
NAMES = ["slab", "Slab", "slab ", "it's", 'quo"te', "a%b", "a_b", "axb", "Ünï→", "x; DROP TABLE ray;--", "' OR '1'='1", "0", "NULL", "hit",
         "world", "node.1", "[x]", "a\\b", "*", "?"]
EVENT_NAMES = ["GENERATE", "REFLECT", "TRANSMIT", "ABSORB", "SCATTER", "EMIT", "EXIT", "KILL", "REACT", "NONRADIATIVE"]


def synthetic(ctx, n):
    """Rows (throw, ray values, kind, component, hit, container, adjacent, facet, normal)."""
    rng = ctx.rng
    names = [str(x) for x in rng.permutation(NAMES)[:int(rng.integers(2, 5))]]
    sources = [str(x) for x in rng.permutation(NAMES + ["lamp", "Lamp"])[:int(rng.integers(1, 4))]]
    facets = [None, None, "top", "Top", "left'"]
    normals = [(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, -1.0, 0.0), (0.6, 0.0, 0.8), (0.5999999, 1e-7, 0.8000001), (0.6 + 1e-6, 0.0, 0.8)]
    waves = [555.0, 555.0, 600.25, 1 / 3 * 1000, 700.0]
    near = rng.random() < 0.15          # values a rounding error apart
    if near:
        waves = [float(np.nextafter(555.0, x)) for x in (0, 555, 1000)]
    pick = lambda xs: xs[int(rng.integers(0, len(xs)))]
    photons = []
    for t in range(n):
        evs, dur = [], 1e-11 if near else 0.0
        w, s = pick(waves), pick(sources)

        def row(kind, component=None, hit=None, container=None, adjacent=None, facet=None, normal=(None, None, None)):
            v = rng.normal(size=3)
            d = v / np.linalg.norm(v)
            evs.append((t, tuple(map(float, v)) + tuple(map(float, d)) + (w, s, dur * 2.99e10, dur), kind, component, hit, container, adjacent,
                        facet, normal))
        row("GENERATE")
        for _ in range(int(rng.choice([0, 1, 2, 4, 12]))):
            if rng.random() < 0.8:
                dur = float(np.nextafter(dur, 1)) if near else dur + float(rng.exponential()) * 1e-11
            a, b = pick(names), pick(names)
            k = int(rng.integers(0, 5))
            nn = pick(normals)
            if k == 0:
                row("TRANSMIT", hit=a, container=b, adjacent=a, facet=pick(facets), normal=nn)
            elif k == 1:
                row("TRANSMIT", hit=a, container=a, adjacent=b, facet=pick(facets), normal=nn)
            elif k == 2:
                row("REFLECT", hit=a, container=b, adjacent=a, facet=pick(facets), normal=nn)
            elif k == 3:
                row("REFLECT", hit=a, container=a, adjacent=b, facet=pick(facets), normal=nn)
            else:
                row("ABSORB", component="c", container=a)
                if rng.random() < 0.5:
                    w, s = pick(waves) + (0.0 if near else float(rng.integers(0, 3))), pick(sources)
                row(pick(["EMIT", "SCATTER"]), component="c", container=a)
        k = pick(["EXIT", "KILL", "REACT", "NONRADIATIVE"])
        if k == "EXIT":
            row(k, hit="world", container="world")
        else:
            c = pick(names)
            if k != "KILL":
                row("ABSORB", component="c", container=c)
            row(k, component=None if k == "KILL" else "c", container=c)
        photons.append(evs)
    return photons, names, sources


def real(ctx, n):
    from pvtrace.algorithm import photon_tracer
    from scenes import random_scene
    S = random_scene(ctx.rng, kinds=("box", "sphere", "cylinder"), max_nodes=4, strength=1.0)
    scene = S.build()
    names = [x.name for x in S.nodes]
    photons, sources = [], set()
    for t, ray in enumerate(scene.emit(n)):
        evs = []
        for r, e, m in photon_tracer.step_forward(scene, ray, maxsteps=40):
            m = m or {}
            nn = m.get("normal")
            evs.append((t, tuple(float(x) for x in r.position) + tuple(float(x) for x in r.direction) +
                        (float(r.wavelength), r.source, float(r.travelled), float(r.duration)), e.name, m.get("component"), m.get("hit"),
                        m.get("container"), m.get("adjacent"), None, (None, None, None) if nn is None else tuple(float(x) for x in nn)))
            sources.add(r.source)
        photons.append(evs)
    return photons, names, sorted(sources)


def end_rays(photons):
    keep = lambda e: e[2] in ("GENERATE", "EXIT", "KILL", "REACT", "NONRADIATIVE") or (e[2] == "TRANSMIT" and e[4] in (e[5], e[6])) or \
        (e[2] == "REFLECT" and e[4] == e[6] and e[4] != e[5]) or (e[2] == "REFLECT" and e[4] == e[6])
    return [[e for e in p if keep(e)] for p in photons]


def write_db(path, photons, rng):
    import pvtrace
    schema = open(os.path.join(os.path.dirname(pvtrace.__file__), "data", "schema.sql")).read()
    c = sqlite3.connect(path)
    c.executescript(schema)
    cur = c.cursor()
    live = [list(p) for p in photons]
    # photons of several workers arrive interleaved
    lanes = [list(range(i, len(live), k)) for k in [int(rng.integers(1, 5))] for i in range(k)]
    pos = [0] * len(live)
    while any(lanes):
        lane = [x for x in lanes if x][int(rng.integers(0, sum(1 for x in lanes if x)))]
        t = lane[0]
        e = live[t][pos[t]]
        pos[t] += 1
        if pos[t] == len(live[t]):
            lane.pop(0)
        cur.execute("INSERT INTO ray VALUES (?,?,?,?,?,?,?,?,?,?,?)", (e[0],) + e[1])
        cur.execute("INSERT INTO event VALUES (?,?,?,?,?,?,?,?,?,?)", (cur.lastrowid, e[2], e[3], e[4], e[5], e[6], e[7]) + tuple(e[8]))
    c.commit()
    c.close()


def answer(photons, command, node, column=None, nx=None, ny=None, nz=None, facet=None, source=None, atol=1e-6):
    """Straight from the histories."""
    out = set()
    for p in photons:
        for e in p:
            t, ray, kind, comp, hit, container, adjacent, f, normal = e
            if kind != KIND[command]:
                continue
            if command in VOLUME:
                ok = container == node
            else:
                ok = hit == node and (container if command == "escaping" else adjacent) == node
            for v, x in zip((nx, ny, nz), normal):
                if v is not None:
                    ok = ok and x is not None and abs(v - x) <= atol
            if facet is not None:
                ok = ok and f == facet
            if source is not None:
                ok = ok and ray[7] == source
            if ok:
                out.add(t if column is None else (t, ray[6] if column == "spectrum" else ray[9]))
    return out


def run(args):
    from typer.testing import CliRunner
    from pvtrace.cli.main import app
    return CliRunner().invoke(app, args)


def case(ctx, kind):
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="verif-c18-")
    try:
        np.random.seed(int(rng.integers(0, 2**31)))
        n = int(rng.choice([1, 4, 20, 60, 120, 200])) if kind == "synthetic" else int(rng.choice([5, 40]))
        photons, names, sources = synthetic(ctx, n) if kind == "synthetic" else real(ctx, n)
        full, ends = os.path.join(folder, "full.sqlite3"), os.path.join(folder, "end's.db")
        write_db(full, photons, rng)
        write_db(ends, end_rays(photons), rng)
        before = {p: open(p, "rb").read() for p in (full, ends)}
        ctx.seen("distinct", (kind, n, ctx.idx))
        ctx.count("databases", 2)
        ctx.count("events", sum(map(len, photons)))
        normals = sorted({e[8] for p in photons for e in p if e[8][0] is not None})
        by_command = {}
        for _ in range(common.scale(40, 80)):
            group = str(rng.choice(["count", "spectrum", "time"]))
            command = str(rng.choice(COMMANDS))
            node = str(rng.choice(names)) if rng.random() < 0.9 else str(rng.choice(NAMES + ["nobody"]))
            # most questions are about an interaction which is in the database
            aim = None
            if rng.random() < 0.75:
                side = lambda e: e[5] == node if command in VOLUME else e[4] is not None and e[4] == (e[5] if command == "escaping" else e[6])
                aims = by_command.setdefault(command, [e for p in photons for e in p if e[2] == KIND[command] and
                                                       (command in VOLUME or side(e))])
                if aims:
                    aim = aims[int(rng.integers(0, len(aims)))]
                    node = aim[5] if command in VOLUME else aim[4]
                    ctx.count("queries_aimed")
            opts, args = {}, []
            if rng.random() < 0.35:
                opts["source"] = aim[1][7] if aim and rng.random() < 0.6 else str(rng.choice(sources)) if rng.random() < 0.85 else "nobody' OR 1"
                args += [str(rng.choice(["--source", "-s"])) if group == "count" else "--source", opts["source"]]
            if command not in VOLUME:
                if normals and rng.random() < 0.6:
                    v = aim[8] if aim and aim[8][0] is not None else normals[int(rng.integers(0, len(normals)))]
                    share = float(rng.choice([0.3, 0.6]))
                    for k, x in zip(("nx", "ny", "nz"), v):
                        if rng.random() < share:
                            x = x + float(rng.choice([0, 0, 0, 0, 5e-7, 1e-6, 2e-3, -0.05]))
                            opts[k] = x
                            args += [f"--{k}={x!r}"]
                    if rng.random() < 0.4:
                        opts["atol"] = float(rng.choice([0.0, 1e-9, 1e-3, 0.1, 3.0]))
                        args += ["--atol", repr(opts["atol"])]
            if (command not in VOLUME or (command == "lost" and group == "count")) and rng.random() < 0.25:
                opts["facet"] = aim[7] if aim and aim[7] and rng.random() < 0.5 else str(rng.choice(["top", "Top", "left'", "bottom"]))
                args += ["--facet", opts["facet"]]
            output = str(rng.choice(["csv", "json", "plot", "csv"])) if group != "count" else None
            want = answer(photons, command, node, None if group == "count" else group, **opts)
            for db in (full, ends):
                extra = []
                if output and not (output == "plot" and rng.random() < 0.5):
                    extra = ["--output", output]
                if output == "plot" and rng.random() < 0.3:
                    extra.append("--vertical")
                order = int(rng.integers(0, 2))
                base = [group, command]
                full_args = base + args + extra + ["--", node, db] if order else base + ([] if node.startswith("-") else [node, db]) + args + extra
                if node.startswith("-") and not order:
                    full_args = base + args + extra + ["--", node, db]
                res = run(full_args)
                conf = dict(args=full_args, kind=kind)
                key = f"{group}:{command}" + (f":{output}" if output else "")
                ctx.count("queries")
                ctx.seen("query_forms", (group, command, output, tuple(sorted(opts))))
                if want:
                    ctx.count("queries_nonempty")
                if res.exception is not None and not (isinstance(res.exception, SystemExit) and res.exit_code == 0):
                    rep = len({w[0] for w in want}) < len(want) if group != "count" else False
                    ctx.violation(f"crash:{group}:{output}:{common.exception_key(res.exception)[1] if not isinstance(res.exception, SystemExit) else 'exit'}",
                                  f"`{' '.join(base + extra)}` ended with {res.exit_code}: {type(res.exception).__name__} "
                                  f"{str(res.exception)[:150]} {res.output[-200:]} (several values per photon: {rep})", wanted=sorted(want)[:4], **conf)
                    continue
                text = res.stdout
                if group == "count":
                    m = re.findall(r"-?\d+", text)
                    ctx.expect(len(m) == 1 and int(m[0]) == len(want), key, f"reports {text.strip()!r}, {len(want)} photons did", **conf)
                    continue
                if not want:
                    ctx.expect(not re.search(r"\d", text.replace("0.0", "")), key + ":empty", f"reports {text[:200]!r} for no photon", **conf)
                    continue
                got = collections.Counter()
                if output == "csv":
                    rows = [l.split(",") for l in text.strip().splitlines()][1:]
                    got.update((int(a), float(b)) for a, b in rows)
                elif output == "json":
                    d = json.loads(text)
                    for a, b in list(d.values())[0].items():
                        for x in (b if isinstance(b, list) else [b]):
                            got[(int(a), float(x))] += 1
                else:
                    if "--vertical" not in extra:
                        got = sum(int(x) for x in re.findall(r"\[\s*(\d+)\s*\]", text))
                        ctx.expect(got == len(want), key, f"the histogram counts {got} of {len(want)} values", output=text[:400], **conf)
                    ctx.count("plots")
                    continue
                ctx.count("values_compared", len(want))
                ctx.expect(got == collections.Counter(want), key, f"{sum((got - collections.Counter(want)).values())} values reported that are not in "
                           f"the histories, {sum((collections.Counter(want) - got).values())} missing of {len(want)}",
                           first=(sorted((got - collections.Counter(want)))[:2], sorted(collections.Counter(want) - got)[:2]), **conf)
        ctx.expect(all(open(p, "rb").read() == b for p, b in before.items()) and sorted(os.listdir(folder)) == sorted(os.path.basename(p) for p in before),
                   "database-changed", f"the queries changed the databases or left files: {os.listdir(folder)}")
        res = run(["count", "entering", "x", os.path.join(folder, "nobody.db")])
        ctx.expect(res.exit_code != 0 and not os.path.exists(os.path.join(folder, "nobody.db")), "missing-database", "a missing database is accepted or created")
    finally:
        import gc
        gc.collect()
        shutil.rmtree(folder, ignore_errors=True)


def main():
    chk = common.Check("C18", "one query command against a database", assumptions=[
        "A photon with several different values at one interaction contributes each of them once (distinct pairs).",
        "Source, facet and node arguments are not empty."])
    import pvtrace.cli.main  # noqa: F401
    chk.run_cases(case, "synthetic", common.scale(64, 700), args=("synthetic",))
    chk.run_cases(case, "real", common.scale(16, 150), args=("real",))
    chk.require("queries", 2000)
    chk.require("queries_nonempty", 2500)
    chk.require("values_compared", 2000)
    chk.require("plots", 30)
    chk.finish()


main()
