"""Online checker of photon histories against a SceneSpec.

`Monitor.history(hist)` walks one history of (ray, event, metadata) tuples as
produced by either tracer and evaluates rule groups:

  life   C01   structure, attribution
  kin    C02   kinematics
  geo    C03   media, surfaces, normals
  optics C04   Fresnel/Snell/mirror (deterministic part), collects reflect trials
  volume C05   collects absorption / selection / yield / lifetime observations
  emit   C06   emission constraint, collects spectral and angular observations
  limits C24   step / path limits

Statistical observations are appended to `self.obs[name]` as plain tuples and
judged later over many histories (see stats.py).

Tolerances: a rule is not evaluated where the scene itself is ambiguous at the
code's stated geometric resolution (photon within TINY of another surface, hit
within a rim/edge band, grazing incidence); those skips are counted.
"""
import collections
import math

import numpy as np

from scenes import rigid_inv

C_CM = 2.99792458e10
KT32 = 1.5 * 8.617333e-5 * 300.0     # eV
TINY = 1e-7

TERMINAL = {"EXIT", "NONRADIATIVE", "REACT", "KILL"}
DIRECTED = {"GENERATE", "REFLECT", "TRANSMIT", "EMIT", "SCATTER"}   # a flight starts here


def region(kind, v):
    """Name of the part of its range that a phase function's parameter is in."""
    if kind == "hg":
        return ("-" if v < 0 else "+") + ("strong" if abs(v) > 0.9 else "medium" if abs(v) > 0.3 else "weak")
    return "wide" if v > 1.2 else "medium" if v > 0.3 else "narrow"


class Monitor:
    def __init__(self, ctx, spec, tracer, groups, maxsteps=None, maxpath=None, emit_method="kT",
                 max_events=None, delegates=None):
        self.ctx, self.S, self.tracer = ctx, spec, tracer
        self.groups = set(groups)
        self.obs = collections.defaultdict(list)
        self.maxsteps, self.maxpath, self.emit_method = maxsteps, maxpath, emit_method
        self.max_events = max_events
        self.comp_owner = collections.defaultdict(list)
        for nd in spec.nodes:
            for c in nd.comps:
                self.comp_owner[c.name].append((nd, c))
        self.light_names = {l.name for l in spec.lights}
        self.custom_surface = delegates or {}
        self.has_mesh = any(n.shape.kind == "mesh" for n in spec.nodes)

    # -- helpers
    def bad(self, group, key, what, **kw):
        if group in self.groups:
            self.ctx.violation(f"{self.tracer}:{key}", f"[{self.tracer}] {what}",
                               history=self.dump(), **kw)

    def check(self, group, cond, key, what, **kw):
        if group not in self.groups:
            return bool(cond)
        self.ctx.counters["oracle_evaluations"] += 1
        if not cond:
            self.bad(group, key, what, **kw)
        return bool(cond)

    def dump(self):
        out = []
        for r, e, m in self.hist[max(0, self.k - 3): self.k + 3]:
            out.append((e.name, tuple(round(float(x), 9) for x in r.position),
                        tuple(round(float(x), 6) for x in r.direction), r.wavelength, r.travelled,
                        {k: v for k, v in (m or {}).items()}))
        return out

    def history(self, hist):
        self.hist = hist
        self.k = 0
        ctx, S = self.ctx, self.S
        ctx.count("histories")
        ctx.count("events", len(hist))
        names = [e.name for _, e, _ in hist]
        ctx.seen("event_sequences", (tuple(names), S_id(S)))
        self._life(hist, names)
        if not hist or names[0] != "GENERATE":
            return
        self._walk(hist, names)
        if "limits" in self.groups:
            self._limits(hist, names)

    # -- C01
    def _life(self, hist, names):
        g = "life"
        if g not in self.groups:
            return
        n = len(names)
        if not self.check(g, n >= 2, "life:short", f"history has {n} events: {names}"):
            return
        self.check(g, names[0] == "GENERATE" and names.count("GENERATE") == 1, "life:generate",
                   f"generation event is not exactly the first: {names[:6]}")
        terms = [i for i, x in enumerate(names) if x in TERMINAL]
        self.check(g, terms == [n - 1], "life:terminal",
                   f"terminal events at {terms} of {n}: {names[-6:]}")
        src = hist[0][0].source
        self.check(g, src in self.light_names, "life:source0", f"source {src!r} is not a light of the scene")
        for l in self.S.lights:
            if l.name == src:
                # the label names the light that emitted: the photon starts inside that light's own volume
                q = rigid_inv(l.world) @ np.append(np.array(hist[0][0].position, float), 1.0)
                half = np.array(l.position if l.position is not None else (0.0, 0.0, 0.0)) + 1e-9
                self.check(g, np.all(np.abs(q[:3]) <= half), "life:source-light",
                           f"source is {src!r} but the photon starts {q[:3].tolist()} from that light, "
                           f"outside its emission volume {l.position}")
                self.ctx.count("sources_located")
        for i in range(1, n):
            self.k = i
            ray, ev, meta = hist[i]
            name = names[i]
            prev = names[i - 1]
            meta = meta or {}
            # outcome <-> absorption pairing
            if name in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
                self.check(g, prev == "ABSORB", "life:orphan-outcome", f"{name} after {prev}")
            if prev == "ABSORB":
                if self.check(g, name in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"), "life:absorb-outcome",
                              f"absorption followed by {name}"):
                    pm = hist[i - 1][2] or {}
                    self.check(g, pm.get("component") == meta.get("component"), "life:outcome-component",
                               f"absorbed by {pm.get('component')!r} but {name} by {meta.get('component')!r}")
                    self.check(g, pm.get("container") == meta.get("container"), "life:outcome-container",
                               f"absorbed in {pm.get('container')!r} but {name} in {meta.get('container')!r}")
                    kinds = {c.kind for nd, c in self.comp_owner.get(meta.get("component"), [])
                             if nd.name == meta.get("container")}
                    allowed = {"SCATTER": {"scatterer"}, "EMIT": {"luminophore"},
                               "NONRADIATIVE": {"absorber", "scatterer", "luminophore"},
                               "REACT": {"reactor"}}[name]
                    self.check(g, kinds & allowed, "life:outcome-kind", f"{name} by a {kinds}")
                    ctx_seen = (name, tuple(sorted(kinds)))
                    self.ctx.seen("outcome_kinds", ctx_seen)
            # metadata names
            for field in ("hit", "container", "adjacent"):
                v = meta.get(field)
                if v is not None:
                    self.check(g, v in self.S.by_name, "life:node-name", f"{field}={v!r} is not a node")
            if name in ("REFLECT", "TRANSMIT"):
                self.check(g, meta.get("hit") is not None and meta.get("container") is not None
                           and meta.get("adjacent") is not None, "life:surface-meta",
                           f"{name} without hit/container/adjacent: {meta}")
                self.check(g, meta.get("normal") is not None, "life:surface-normal", f"{name} without normal")
                self.check(g, meta.get("component") is None, "life:surface-component", f"{name} names a component")
            if name == "EXIT":
                self.check(g, meta.get("hit") == self.S.root.name, "life:exit-hit",
                           f"exit through {meta.get('hit')!r}")
            if name in ("ABSORB", "EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
                cn = meta.get("component")
                owners = self.comp_owner.get(cn, [])
                self.check(g, any(nd.name == meta.get("container") for nd, _ in owners), "life:component-owner",
                           f"{name}: component {cn!r} does not belong to node {meta.get('container')!r}")
            if name == "KILL":
                self.check(g, meta.get("container") in self.S.by_name, "life:kill-container",
                           f"kill without a container: {meta}")
            # source label
            if name in ("EMIT", "SCATTER"):
                src = meta.get("component")
                self.check(g, ray.source == src, "life:source-emit",
                           f"source after {name} is {ray.source!r}, component {src!r}")
            else:
                self.check(g, ray.source == src, "life:source-kept",
                           f"source changed to {ray.source!r} from {src!r} at {name}")
                src = ray.source

    # -- C02..C06 walk
    def _walk(self, hist, names):
        S, ctx = self.S, self.ctx
        kin = "kin" in self.groups
        geo = bool(self.groups & {"geo", "optics", "volume", "emit", "kin"})
        r0 = hist[0][0]
        if kin:
            self.check("kin", r0.travelled == 0 and r0.duration == 0, "kin:start",
                       f"ray generated with travelled={r0.travelled} duration={r0.duration}")
        medium = None   # medium claimed by the previous event, or None if unknown
        for i in range(len(hist)):
            self.k = i
            ray, ev, meta = hist[i]
            name = names[i]
            p = np.array(ray.position, float)
            d = np.array(ray.direction, float)
            if kin:
                vals = list(p) + list(d) + [ray.wavelength, ray.travelled, ray.duration]
                if not self.check("kin", all(map(math.isfinite, vals)), "kin:finite",
                                  f"non-finite value at {name}: {vals}"):
                    return
                self.check("kin", abs(np.linalg.norm(d) - 1) < 1e-6, "kin:unit",
                           f"direction norm {np.linalg.norm(d)!r} at {name}")
            if i == 0:
                continue
            pr, pe, pm = hist[i - 1]
            prev = names[i - 1]
            pm = pm or {}
            meta = meta or {}
            pp = np.array(pr.position, float)
            pd = np.array(pr.direction, float)
            disp = p - pp
            L = float(np.linalg.norm(disp))
            dtrav = ray.travelled - pr.travelled
            ddur = ray.duration - pr.duration
            scale = 1e-9 * (1 + float(np.abs(p).max()) + ray.travelled * 1e-3)
            still = prev == "ABSORB" or name == "KILL"
            if kin:
                if still:
                    self.check("kin", L == 0 or L < 1e-12, "kin:moved", f"moved {L} between {prev} and {name}")
                    self.check("kin", abs(dtrav) < 1e-12, "kin:travelled-still",
                               f"travelled changed by {dtrav} between {prev} and {name}")
                else:
                    self.check("kin", float(np.linalg.norm(disp - L * pd)) < max(1e-9 * (1 + L), scale), "kin:straight",
                               f"{prev}->{name} displacement {disp.tolist()} is not along {pd.tolist()}")
                    self.check("kin", abs(dtrav - L) < max(scale, 1e-9 * (1 + L)), "kin:travelled",
                               f"{prev}->{name} travelled grew by {dtrav}, displacement {L}")
                if name in ("ABSORB", "EXIT", "KILL", "NONRADIATIVE", "REACT"):
                    self.check("kin", ray.direction == pr.direction or np.allclose(d, pd, atol=1e-12, rtol=0),
                               "kin:direction", f"direction changed at {name}")
                if name != "EMIT":
                    self.check("kin", ray.wavelength == pr.wavelength, "kin:wavelength",
                               f"wavelength changed from {pr.wavelength} to {ray.wavelength} at {name}")
            # --- clock of volume outcomes
            if prev == "ABSORB":
                comp = self._comp(meta)
                if kin and comp is not None:
                    if name == "EMIT":
                        lifetime = comp.tau_rad
                    elif name in ("NONRADIATIVE",):
                        lifetime = comp.tau_nr
                    else:
                        lifetime = None
                    if lifetime:
                        self.check("kin", ddur >= 0, "kin:delay", f"negative delay {ddur} at {name}")
                    else:
                        self.check("kin", abs(ddur) <= 1e-15 * (1 + abs(ray.duration)) or ddur == 0, "kin:clock-still",
                                   f"clock moved by {ddur} at {name} without a lifetime")
                self._outcome(i, hist, names, comp, pr, ray, meta)
                continue
            if name == "KILL":
                if kin:
                    self.check("kin", ddur == 0, "kin:clock-kill", f"clock moved by {ddur} at KILL")
                if "geo" in self.groups and meta.get("container") in S.by_name:
                    # just ahead along the direction of flight
                    q = p + d * 1e-6
                    m, clear = S.innermost(q)
                    if clear > 2e-7 and m is not None:
                        self.check("geo", m.name == meta.get("container"), "geo:kill-container",
                                   f"killed in {m.name} but container is {meta.get('container')}")
                continue
            # --- a flight prev -> name
            if not geo:
                continue
            self._flight(i, name, pr, ray, meta, pp, pd, p, d, L, ddur, medium, pm, prev)
            if name in ("REFLECT",):
                medium = meta.get("container")
            elif name == "TRANSMIT":
                medium = meta.get("adjacent")
            else:
                medium = meta.get("container")

    def _comp(self, meta):
        for nd, c in self.comp_owner.get(meta.get("component"), []):
            if nd.name == meta.get("container"):
                return c
        return None

    def _flight(self, i, name, pr, ray, meta, pp, pd, p, d, L, ddur, medium, pm, prev):
        S, ctx = self.S, self.ctx
        ctx.count("flights")
        tmin = 1e-10 * (1 + float(np.abs(pp).max()))
        hits = S.all_hits(pp, pd, tmin)
        if not hits:
            ctx.count("flights_no_oracle_hit")
            if "geo" in self.groups:
                m, clear = S.innermost(pp)
                if m is not None and clear > TINY:
                    self.bad("geo", "oracle:nohit", "oracle found no surface ahead")
                elif m is None and clear > 1e-6:
                    self.bad("geo", "geo:outside", f"event {name} after the photon is outside the scene")
            return
        t0, first = hits[0]
        t1 = hits[1][0] if len(hits) > 1 else math.inf
        # ambiguity: two surfaces closer than the geometric resolution
        res = 2e-5 * max([nd.shape.extent for t, nd in hits[:2]])
        ambiguous = (t1 - t0) < res or t0 < 1e-6
        if first.shape.kind == "mesh" and not ambiguous:
            R = first.inv[:3, :3]
            ambiguous = first.shape.near_edge(R @ pp + first.inv[:3, 3], R @ pd)
        if not ambiguous and self.has_mesh:
            # any hit pair on one mesh/box closer than its ray-caster resolution
            for (ta, na), (tb, nb) in zip(hits, hits[1:]):
                if na is nb and na.shape.kind in ("mesh", "box") and tb - ta < 2e-5 * na.shape.extent:
                    ambiguous = True
                if na.shape.kind == "mesh" and na.shape.near_edge(na.inv[:3, :3] @ pp + na.inv[:3, 3], na.inv[:3, :3] @ pd):
                    ambiguous = True
        elif not ambiguous:
            for (ta, na), (tb, nb) in zip(hits, hits[1:]):
                if tb - ta < 2e-5 * max(na.shape.extent, nb.shape.extent):
                    ambiguous = True
        mid = pp + pd * min(0.5 * L if L > 0 else 0.5 * t0, 0.5 * t0)
        true_med, clear = S.innermost(mid)
        if clear < TINY:
            ambiguous = True
        if ambiguous or true_med is None:
            ctx.count("flights_ambiguous")
            return
        ctx.count("flights_judged")
        # clock
        if "kin" in self.groups:
            want = L * true_med.n / C_CM
            # the clock is a running sum: allow its rounding
            self.check("kin", abs(ddur - want) <= 1e-9 * want + 1e-13 * abs(ray.duration) + 1e-22, "kin:clock",
                       f"clock grew by {ddur} over {L} in n={true_med.n}, expected {want}")
        g = "geo"
        container = meta.get("container")
        if g in self.groups:
            self.check(g, container == true_med.name, "geo:container",
                       f"{name}: container {container!r} but the photon flew in {true_med.name!r}", clear=clear)
            if medium is not None and prev in ("REFLECT", "TRANSMIT", "EMIT", "SCATTER"):
                self.check(g, medium == container, "geo:medium",
                           f"photon was in {medium!r} after {prev} and in {container!r} at {name}")
        htol = 1e-7 * (1 + t0)
        if name == "ABSORB":
            if g in self.groups:
                self.check(g, L <= t0 + htol, "geo:absorb-beyond", f"absorbed {L - t0} beyond the surface of {first.name}")
            self._absorb_trial(true_med, pr.wavelength, t0, L, True, first)
            # component selection
            if "volume" in self.groups and len(true_med.comps) > 1:
                al = [c.alpha(pr.wavelength) for c in true_med.comps]
                tot = sum(al)
                if tot > 0:
                    for c, a in zip(true_med.comps, al):
                        self.obs["select"].append((a / tot, meta.get("component") == c.name))
            if "volume" in self.groups:
                comp = self._comp(meta)
                if comp is not None:
                    self.check("volume", comp.alpha(pr.wavelength) > 0, "vol:zero-coefficient",
                               f"absorbed by {comp.name} whose coefficient at {pr.wavelength} nm is zero")
            return
        # surface event
        if g in self.groups:
            ok = self.check(g, abs(L - t0) <= htol, "geo:first-surface",
                            f"{name} at distance {L}, first surface {first.name} at {t0}")
            ok &= self.check(g, meta.get("hit") == first.name, "geo:hit",
                             f"{name}: hit {meta.get('hit')!r} but first surface is {first.name!r}")
            self.check(g, S.surface_gap(first, p) < 1e-8 * (1 + first.shape.extent), "geo:on-surface",
                       f"{name} point is {S.surface_gap(first, p)} off the surface of {first.name}")
        if meta.get("hit") != first.name or abs(L - t0) > htol:
            return
        if name == "EXIT":
            if g in self.groups:
                self.check(g, first is S.root, "geo:exit", f"exit through {first.name}")
            if first is S.root:
                self._absorb_trial(true_med, pr.wavelength, t0, t0, False, first)
            return
        if first is S.root:
            if g in self.groups:
                self.bad(g, "geo:root-surface", f"{name} on the world surface")
            return
        # the absorption trial: survived to t0
        self._absorb_trial(true_med, pr.wavelength, t0, t0, False, first)
        # beyond the surface
        beyond = pp + pd * (t0 + min(1e-5 * first.shape.extent, 0.4 * (t1 - t0)))
        other, oclear = S.innermost(beyond)
        n_true, namb = S.normal(first, p)
        cosi = abs(float(np.dot(n_true, pd)))
        if oclear < 1e-10 or other is None:
            ctx.count("beyond_ambiguous")
            return
        if g in self.groups:
            self.check(g, meta.get("adjacent") == other.name, "geo:adjacent",
                       f"{name}: adjacent {meta.get('adjacent')!r}, true {other.name!r}")
        if namb:
            ctx.count("normal_ambiguous")
            return
        nr = meta.get("normal")
        if g in self.groups and nr is not None:
            nr = np.array(nr, float)
            tol = 1e-5 if first.shape.kind != "mesh" else 1e-5
            self.check(g, float(np.abs(nr - n_true).max()) < tol, "geo:normal",
                       f"normal {nr.tolist()} but outward unit normal is {n_true.tolist()} ({first.shape.kind} {first.name})")
            ctx.seen("normals", (first.shape.kind, tuple(np.round(n_true, 1))))
        ctx.seen("interfaces", (S_id(S), first.name, container, name))
        self._optics(name, first, true_med, other, pr, ray, pd, d, n_true, cosi, meta)

    def _optics(self, name, first, med, other, pr, ray, pd, d, n_true, cosi, meta):
        g = "optics"
        if g not in self.groups:
            return
        ctx = self.ctx
        n1, n2 = med.n, other.n
        if first.name in self.custom_surface:
            return
        if first.surface == "null":
            self.check(g, name == "TRANSMIT", "optics:null-reflect", "null surface reflected")
            self.check(g, float(np.abs(d - pd).max()) < 1e-9, "optics:null-deviate",
                       f"null surface changed the direction by {np.abs(d - pd).max()}")
            return
        R = fresnel(cosi, n1, n2)
        crit = n2 < n1 and abs(math.sqrt(max(0.0, 1 - cosi * cosi)) - n2 / n1) < 1e-6
        if cosi < 1e-5:
            ctx.count("grazing_skipped")
            return
        if name == "REFLECT":
            m = pd - 2 * float(np.dot(pd, n_true)) * n_true
            self.check(g, float(np.abs(m - d).max()) < 1e-6, "optics:mirror",
                       f"reflected direction {d.tolist()} is not the mirror image {m.tolist()}")
        else:
            nn = n_true if np.dot(n_true, pd) > 0 else -n_true
            eta = n1 / n2
            st2 = eta * eta * (1 - cosi * cosi)
            if st2 < 1 and not crit:
                ct = math.sqrt(1 - st2)
                want = eta * pd + (ct - eta * cosi) * nn
                tol = 1e-6 if ct > 1e-2 else 1e-4 / max(ct, 1e-6)
                self.check(g, float(np.abs(want - d).max()) < tol, "optics:snell",
                           f"transmitted direction {d.tolist()} violates Snell's law (expected {want.tolist()}, n1={n1}, n2={n2})")
        if crit:
            return
        if R >= 1.0:
            ctx.count("tir_events")
            self.check(g, name == "REFLECT", "optics:tir", f"transmitted beyond the critical angle (n1={n1}, n2={n2}, cos={cosi})")
        elif n1 == n2:
            ctx.count("matched_events")
            self.check(g, name == "TRANSMIT", "optics:matched", f"reflected at an index-matched surface n={n1}")
        else:
            # a reflected photon of a grazing hit may repeat: each event is one trial
            self.obs["reflect"].append((R, name == "REFLECT"))
            ctx.seen("reflect_config", (round(R, 2), round(n1, 2), round(n2, 2)))

    def _absorb_trial(self, med, nm, t0, L, absorbed, first):
        if "volume" not in self.groups:
            return
        alpha = sum(c.alpha(nm) for c in med.comps)
        if alpha <= 2e-8:
            if absorbed:
                self.bad("volume", "vol:transparent", f"absorbed in {med.name} where attenuation is {alpha}")
            return
        if alpha < 1e-7:
            return
        x = alpha * t0
        pabs = -math.expm1(-x)
        self.obs["absorb"].append((pabs, absorbed))
        if first is self.S.root:
            self.ctx.count("trials_at_root")
        for c in med.comps:
            self.ctx.count(f"trials_of_{c.form}")
        if absorbed and pabs > 0:
            u = -math.expm1(-alpha * L) / pabs
            self.obs["freepath"].append(min(max(u, 0.0), 1.0))

    def _outcome(self, i, hist, names, comp, pr, ray, meta):
        if comp is None:
            return
        name = names[i]
        ctx = self.ctx
        if "volume" in self.groups and comp.kind in ("scatterer", "luminophore"):
            q = comp.survival
            self.obs["yield"].append((q, name in ("SCATTER", "EMIT")))
            dd = ray.duration - pr.duration
            if name == "EMIT" and comp.tau_rad:
                self.obs["tau_rad"].append(-math.expm1(-dd / comp.tau_rad))
                if ray.duration > 1e6 * comp.tau_rad:
                    self.obs["tau_rad"].pop()
        if "volume" in self.groups and name == "NONRADIATIVE" and comp.tau_nr:
            dd = ray.duration - pr.duration
            if ray.duration < 1e6 * comp.tau_nr:
                self.obs["tau_nr"].append(-math.expm1(-dd / comp.tau_nr))
        if "emit" not in self.groups or name not in ("EMIT", "SCATTER"):
            return
        g = "emit"
        if name == "SCATTER":
            self.check(g, ray.wavelength == pr.wavelength, "emit:scatter-wavelength", "scattering changed the wavelength")
        else:
            x = comp.emission[0]
            lam, lam0 = ray.wavelength, pr.wavelength
            self.check(g, x[0] - 1e-6 <= lam <= x[-1] + 1e-6, "emit:range",
                       f"emitted {lam} nm outside the emission spectrum [{x[0]}, {x[-1]}]")
            lim = x[0]
            if self.emit_method == "redshift":
                lim = lam0
                self.check(g, lam >= lam0 - 1e-6, "emit:redshift", f"emitted {lam} nm after absorbing {lam0} nm")
            elif self.emit_method == "kT":
                ev = 1240.0 / lam0 + KT32
                lim = 1240.0 / ev
                self.check(g, 1240.0 / lam <= ev + 1e-6, "emit:kT",
                           f"emitted {1240.0 / lam} eV from {1240.0 / lam0} eV, more than 3/2 kT above")
            p1 = comp.lookup(lim) if self.emit_method != "full" else 0.0
            if p1 < 1 - 1e-6 and x[0] <= lam <= x[-1]:
                u = comp.quantile(lam, p1, ctx.rng)
                if self.check(g, u is not None, "emit:value", f"{lam} nm is not a value of the emission histogram above {lim} nm"):
                    self.obs["spectrum"].append(u)
            ctx.count(f"emissions_of_{comp.form}")
            ctx.seen("emission_states", (comp.name, self.emit_method, round(lam0 / 25), round(lam / 25)))
        # direction in the container frame
        nd = self.S.by_name[meta["container"]]
        v = nd.inv[:3, :3] @ np.array(ray.direction)
        c = float(v[2])
        ph = math.atan2(v[1], v[0]) / (2 * math.pi) + 0.5
        kind = comp.phase[0]
        if kind == "iso":
            u = (c + 1) / 2
        elif kind == "cone":
            s = math.sin(comp.phase[1])
            sin2 = 1 - c * c
            if not self.check(g, c > 0 and sin2 <= s * s + 1e-9, "emit:cone",
                              f"direction at cos={c} outside the cone of half angle {comp.phase[1]} about the node's axis"):
                return
            u = sin2 / (s * s)
        else:
            gg = comp.phase[1]
            if abs(gg) < 1e-3:
                return
            # CDF of HG in mu from -1
            u = (1 - gg * gg) / (2 * gg) * (1 / math.sqrt(1 + gg * gg - 2 * gg * c) - 1 / (1 + gg))
        self.obs[f"phase_{kind}"].append(min(max(u, 0.0), 1.0))
        if kind != "iso":
            # also by region of the parameter: a law can fail in a part of its range only
            self.obs[f"phase_{kind}[{region(kind, comp.phase[1])}]"].append(min(max(u, 0.0), 1.0))
        self.obs[f"phi_{kind}"].append(ph)

    # -- C24
    def _limits(self, hist, names):
        g = "limits"
        steps = sum(1 for n in names[1:] if n not in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT", "KILL"))
        if self.maxsteps is not None:
            self.k = len(hist) - 1
            if names[-1] == "KILL":
                # killed at the first step beyond the limit (or by the path limit / event budget)
                reasons = []
                if steps == self.maxsteps:
                    reasons.append("steps")
                if self.maxpath is not None and hist[-1][0].travelled > self.maxpath:
                    reasons.append("path")
                if self.max_events is not None and len(hist) >= self.max_events - 1:
                    # an absorption needs room for its outcome as well
                    reasons.append("budget")
                self.check(g, bool(reasons), "limits:early-kill",
                           f"killed after {steps} steps, travelled {hist[-1][0].travelled}, "
                           f"{len(hist)} events (maxsteps={self.maxsteps}, maxpath={self.maxpath}, budget={self.max_events})")
                self.ctx.count("kills_" + ("+".join(reasons) or "none"))
            self.check(g, steps <= self.maxsteps, "limits:steps",
                       f"{steps} steps taken, limit {self.maxsteps}, ended with {names[-1]}")
        if self.maxpath is not None:
            for i in range(1, len(hist)):
                if hist[i - 1][0].travelled > self.maxpath and names[i] in ("REFLECT", "TRANSMIT", "ABSORB", "EXIT"):
                    self.k = i
                    self.check(g, False, "limits:path",
                               f"step {names[i]} taken after travelling {hist[i-1][0].travelled} > {self.maxpath}")
                    break
            else:
                self.check(g, True, "limits:path", "")
        if self.max_events is not None:
            self.check(g, len(hist) <= self.max_events, "limits:budget",
                       f"{len(hist)} events recorded with a budget of {self.max_events}")
            self.check(g, names[-1] in TERMINAL, "limits:budget-terminal", f"history ends with {names[-1]}")


_ids = {}


def S_id(S):
    return id(S) % 1000003


def fresnel(cosi, n1, n2):
    s2 = 1 - cosi * cosi
    st2 = (n1 / n2) ** 2 * s2
    if st2 >= 1:
        return 1.0
    ct = math.sqrt(1 - st2)
    rs = (n1 * cosi - n2 * ct) / (n1 * cosi + n2 * ct)
    rp = (n1 * ct - n2 * cosi) / (n1 * ct + n2 * cosi)
    return 0.5 * (rs * rs + rp * rp)
