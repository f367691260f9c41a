"""Shared machinery of the checks: case runner, verdicts, evidence, known findings.

Every check is a program `checks/cNN.py` that
  * builds what it needs from /repo's current working tree,
  * drives the real code with seeded workloads ("cases"),
  * lets monitors watch what the code did and record violations,
  * ends with a three-valued verdict: held / violated / inconclusive.

Cases are addressed by (label, index) and every random choice of a case is
derived from (VERIF_SEED, property, label, index), so a replay file needs only
those to reproduce the case:  VERIF_ONLY=label:index ./run.sh CNN
"""
import collections
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
ONLY = os.environ.get("VERIF_ONLY")
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)

CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


def setup_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def scale(quick, thorough):
    """Workload size for the current tier (VERIF_SCALE multiplies both)."""
    f = float(os.environ.get("VERIF_SCALE", "1"))
    return max(1, int(round((thorough if THOROUGH else quick) * f)))


def exception_key(exc):
    """(is_sut, key): does the innermost harness/SUT frame belong to pvtrace?"""
    frames = traceback.extract_tb(exc.__traceback__)
    last = None
    root = os.path.join(REPO, "pvtrace") + os.sep
    for f in frames:
        if f.filename.startswith(root) or "_kernel" in os.path.basename(f.filename):
            last = ("sut", f)
        elif f.filename.startswith(VERIF + os.sep):
            last = ("harness", f)
    # the kernel is a C extension: its frames carry the .pyx file name
    if last is None or last[0] != "sut":
        return False, None
    f = last[1]
    return True, f"exception:{type(exc).__name__}:{os.path.basename(f.filename)}:{f.name}"


class Ctx:
    """What a case sees: its random stream and the recording interface."""

    def __init__(self, check, label, idx):
        import numpy as np
        self.check = check
        self.label = label
        self.idx = idx
        self.seedseq = [SEED, zlib.crc32(check.pid.encode()), zlib.crc32(label.encode()), idx]
        self.rng = np.random.default_rng(self.seedseq)
        np.random.seed(int(self.rng.integers(0, 2**31 - 1)))
        self.counters = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.violations = []
        self.samples = []
        self.data = []          # free-form payload returned to the parent

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def seen(self, name, value):
        """Remember a distinct observation (hashed)."""
        h = hashlib.blake2b(repr(value).encode(), digest_size=8).digest()
        self.sets[name].add(h)
        if name == "distinct":
            self.counters["evaluations"] += 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, what, **detail):
        n = sum(1 for v in self.violations if v["key"] == key)
        self.counters["violations_raw"] += 1
        if n < 2:
            self.violations.append(
                {"key": key, "what": what, "case": [self.label, self.idx],
                 "detail": {k: _short(v) for k, v in detail.items()}})

    def expect(self, cond, key, what, **detail):
        """One oracle evaluation."""
        self.counters["oracle_evaluations"] += 1
        if not cond:
            self.violation(key, what, **detail)
        return bool(cond)


def _short(v, n=1500):
    s = v if isinstance(v, (int, float, bool, type(None))) else str(v)
    return s if not isinstance(s, str) or len(s) <= n else s[:n] + "..."


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=(), wall_limit=None):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.counters = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.violations = []
        self.samples = []
        self.requirements = []
        self.problems = []       # reasons for an inconclusive verdict
        self.extra = {}
        self.data = []
        self.wall_limit = wall_limit or (6600 if THOROUGH else 840)
        if int(os.environ.get("VERIF_WALL", "0")):
            self.wall_limit = int(os.environ["VERIF_WALL"])

    # recording directly on the check (parent process)
    def ctx(self, label="main", idx=0):
        return Ctx(self, label, idx)

    def absorb(self, ctx):
        self._merge(ctx.counters, ctx.sets, ctx.violations, ctx.samples, ctx.data)

    def _merge(self, counters, sets, violations, samples, data):
        self.counters.update(counters)
        for k, v in sets.items():
            self.sets[k] |= v
        self.violations.extend(violations)
        if len(self.samples) < 6:
            self.samples.extend(samples[: 6 - len(self.samples)])
        self.data.extend(data)

    def remaining(self):
        return self.wall_limit - (time.time() - self.t0)

    def _one(self, fn, label, idx, args):
        ctx = Ctx(self, label, idx)
        ctx.count("cases")
        try:
            fn(ctx, *args)
        except Exception as exc:  # noqa
            is_sut, key = exception_key(exc)
            tb = traceback.format_exc()
            if is_sut:
                ctx.violation(key, f"{type(exc).__name__}: {exc}"[:300] + " raised by pvtrace in a legal workload",
                              traceback=tb[-1500:])
            else:
                return ctx, tb
        return ctx, None

    def run_cases(self, fn, label, n, args=(), procs=None):
        """Run fn(ctx, *args) for indices 0..n-1 of `label`, forked over processes.

        A process that dies on a crash signal is a violation of the case it was
        running; one that is killed or does not finish in time is inconclusive.
        """
        if ONLY:
            lab, _, i = ONLY.partition(":")
            if lab != label:
                return
            indices = [int(i)]
        else:
            indices = list(range(n))
        procs = min(procs or NPROC, len(indices))
        if procs <= 1 and os.environ.get("VERIF_INLINE"):
            for i in indices:
                ctx, tb = self._one(fn, label, i, args)
                self.absorb(ctx)
                if tb:
                    self.problems.append(f"harness error in {label}:{i}\n{tb}")
            return
        import multiprocessing as mp
        todo = list(indices)
        tmp = tempfile.mkdtemp(prefix="verif-cases-")
        counter = mp.Value("i", 0)
        attempts = 0
        running = {}

        def spawn(w):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    out = open(os.path.join(tmp, f"w{w}"), "ab")
                    while True:
                        with counter.get_lock():
                            k = counter.value
                            counter.value += 1
                        if k >= len(todo):
                            break
                        i = todo[k]
                        pickle.dump(("start", i), out)
                        out.flush()
                        ctx, tb = self._one(fn, label, i, args)
                        payload = (dict(ctx.counters), {a: b for a, b in ctx.sets.items()},
                                   ctx.violations, ctx.samples, ctx.data, tb)
                        pickle.dump(("done", i, payload), out)
                        out.flush()
                    out.close()
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[pid] = w

        for w in range(procs):
            spawn(w)
        nextw = procs
        while running:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if self.remaining() < 0:
                    for p in list(running):
                        try:
                            os.kill(p, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                    for p in list(running):
                        os.waitpid(p, 0)
                    self.problems.append(f"watchdog: {label} cases did not finish in {self.wall_limit} s")
                    running.clear()
                    break
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            w = running.pop(pid)
            if status != 0:
                cur = None
                for rec in _read_records(os.path.join(tmp, f"w{w}")):
                    cur = rec[1] if rec[0] == "start" else None
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                if sig in {int(s) for s in CRASH_SIGNALS}:
                    self.violations.append({
                        "key": f"crash:signal{sig}",
                        "what": f"process died with signal {sig} inside case {label}:{cur}",
                        "case": [label, cur], "detail": {}})
                else:
                    self.problems.append(f"worker of {label} ended with status {status} in case {cur}")
                attempts += 1
                if attempts < 6 and counter.value < len(todo):
                    spawn(nextw)
                    nextw += 1
        for w in range(nextw):
            for rec in _read_records(os.path.join(tmp, f"w{w}")):
                if rec[0] == "done":
                    counters, sets, violations, samples, data, tb = rec[2]
                    self._merge(counters, sets, violations, samples, data)
                    if tb:
                        self.problems.append(f"harness error in {label}:{rec[1]}\n{tb}")
            try:
                os.unlink(os.path.join(tmp, f"w{w}"))
            except FileNotFoundError:
                pass
        os.rmdir(tmp)

    def require(self, counter, minimum):
        """The verdict is inconclusive unless the monitors observed this much."""
        self.requirements.append((counter, minimum))

    def known(self):
        """mechanism key -> description for this property's known findings."""
        out = {}
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith(f"known: property={self.pid} "):
                    rest = line.split(" ", 2)[2]
                    assert rest.startswith("key=")
                    key, _, what = rest[4:].partition(" ")
                    out[key] = what
        return out

    def finish(self, distinct="distinct"):
        known = self.known()
        unknown = [v for v in self.violations if v["key"] not in known]
        hit = {v["key"] for v in self.violations if v["key"] in known}
        for key, what in known.items():
            if key in hit:
                print(f"KNOWN-FINDING: property={self.pid} [{key}] {what}")
        for k, v in self.sets.items():
            self.counters[f"distinct_{k}"] = len(v)
        if not ONLY:
            for name, minimum in self.requirements:
                if self.counters[name] < minimum:
                    self.problems.append(
                        f"monitor observed {self.counters[name]} of {name}, needs {minimum}")
        by_key = collections.OrderedDict()
        for v in unknown:
            by_key.setdefault(v["key"], []).append(v)
        wall = time.time() - self.t0
        evaluations = self.counters.get("evaluations", 0) or self.counters.get("cases", 0)
        dn = self.counters.get(f"distinct_{distinct}", 0)
        coverage = {
            "evaluations": int(evaluations),
            "distinct_nontrivial": int(dn),
            "rule": self.rule,
            "samples": self.samples[:6] or ["no sample recorded"],
            "observed": {k: int(v) for k, v in sorted(self.counters.items())},
            "known_findings_seen": sorted(hit),
            "violation_keys": list(by_key)[:50],
            "inconclusive": [p[:400] for p in self.problems][:10],
        }
        coverage.update(self.extra)
        evidence = {
            "property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
            "level": self.level, "coverage": coverage, "assumptions": self.assumptions,
            "wall_s": round(wall, 2), "violations": len(by_key),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        obs = ", ".join(f"{k}={v}" for k, v in sorted(self.counters.items())
                        if k not in ("violations_raw",))
        print(f"{self.pid} tier={TIER} seed={SEED} wall={wall:.1f}s observed: {obs}"[:3000])
        if by_key:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for n, (key, vs) in enumerate(by_key.items()):
                v = vs[0]
                path = os.path.join(VERIF, "replays", f"{self.pid}-{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "tier": TIER, "seed": SEED, "key": key,
                               "what": v["what"], "case": v["case"], "detail": v["detail"],
                               "count": len(vs),
                               "rerun": f"VERIF_SEED={SEED} VERIF_TIER={TIER} "
                                        f"VERIF_ONLY={v['case'][0]}:{v['case'][1]} ./run.sh {self.pid}"},
                              f, indent=1, default=str)
                if n < 12:
                    print(f"VIOLATION property={self.pid} replay={path}")
                    print(f"  [{key}] {v['what'][:400]} (case {v['case']}, {len(vs)}x)")
            if self.problems:
                print("  (also: " + self.problems[0][:300] + ")")
            sys.stdout.flush()
            os._exit(1) if os.environ.get("VERIF_FASTEXIT") else sys.exit(1)
        if self.problems:
            print(f"INCONCLUSIVE property={self.pid}")
            for p in self.problems[:5]:
                print("  " + p[:3000])
            sys.exit(2)
        print(f"HELD property={self.pid} on everything explored")
        sys.exit(0)


def _read_records(path):
    out = []
    try:
        with open(path, "rb") as f:
            while True:
                try:
                    out.append(pickle.load(f))
                except EOFError:
                    break
                except Exception:
                    break
    except FileNotFoundError:
        pass
    return out
