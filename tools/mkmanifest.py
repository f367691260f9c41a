"""Regenerates /verif/MANIFEST.json: a property is claimed when its check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitor: event-log life-cycle checker over both tracers",
 "C02": "runtime monitor: per-segment kinematics oracle over both tracers",
 "C03": "runtime monitor: independent geometry oracle judging every event",
 "C04": "runtime monitor: Fresnel/Snell oracle, delegate call monitor, frequency tests",
 "C05": "runtime monitor: distribution tests of observed free paths, outcomes, delays",
 "C06": "runtime monitor: distribution tests of observed emissions",
 "C07": "runtime monitor: analytic geometry oracle over hostile queries",
 "C08": "runtime monitor: shadow scene graph tracking every operation",
 "C09": "runtime monitor: distribution and frame tests of emitted rays",
 "C10": "runtime monitor: invariant and sampling tests of distributions",
 "C11": "differential runtime monitor: two tracers on one scene, two-sample tests",
 "C12": "differential runtime monitor: repeated runs under varied schedules",
 "C13": "sanitizers (ASan, UBSan, TSan) and guard-page/canary monitors on the kernel",
 "C14": "runtime monitor: recount of event histories against tallies",
 "C15": "runtime monitor: refusal and faithfulness oracle over mutated scenes",
 "C16": "runtime monitor: exactly-once/order checker over queue logs with injected delays",
 "C17": "runtime monitor: database log against recorded queue, with faults and delays",
 "C18": "runtime monitor: command output against an independent evaluation of the rows",
 "C19": "runtime monitor: parsed scene against an independent reading of the document",
 "C20": "runtime monitor: state-machine oracle over random edit sequences",
 "C21": "runtime monitor: websocket message log checker",
 "C22": "runtime monitor: file-system write monitor under hostile requests",
 "C23": "runtime monitor: conservation checker of LSC results against traced histories",
 "C24": "runtime monitor: limit checker over long traces in both tracers",
 "C25": "runtime monitor: recorded viewer commands against histories",
}
TITLES = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); TITLES[d["id"]] = d["title"]
checks, na = [], []
for pid in sorted(TECH):
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"./run.sh {pid}",
            thorough_cmd=f"VERIF_TIER=thorough ./run.sh {pid}",
            technique=TECH[pid], level="exploration",
            level_note="Seeded diverse workloads on the real code; oracles judge every observed "
                       "event. Nothing is claimed about executions that were not run."))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
         notes="No hooks: every monitor works from outside /repo (public API, stand-ins, "
               "an out-of-tree instrumented build of the kernel).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
