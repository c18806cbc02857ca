#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]     decides one property by seeded simulation

Exit 0: no simulated run broke the property (known findings are listed).
Exit 1: a run broke it; the last line is VIOLATION property=<id> replay=<path>.
Exit 2: the check itself failed (build, determinism, irreproducible finding).
"""
import collections
import json
import os
import re
import resource
import shlex
import subprocess
import sys
import tempfile
import threading
import time
from pathlib import Path

import build as builder

HERE = Path(__file__).resolve().parent
WORKERS = min(8, os.cpu_count() or 1)

# property -> (runs per worker in the quick tier, what every batch must have met)
PLANS = {
    "S01": (2600, ["runs", "cancels", "polls", "nested", "outcome.error", "stat.switches"]),
    "S02": (2400, ["runs", "cancels", "polls", "nested", "fault.solver_exception", "stat.switches"]),
    "S03": (3200, ["runs", "outcome.ok", "outcome.error", "candidate.good"]),
    "S04": (3200, ["runs", "deliveries", "moves", "nested", "stat.switches"]),
    "S05": (2600, ["runs", "deliveries", "paced", "stat.coarse_reads", "stat.switches"]),
    "S06": (2000, ["runs", "deliveries", "cancels", "stat.switches"]),
    "S07": (2400, ["runs", "moves", "builder.dropped", "builder.touched", "deliveries"]),
    "S08": (4500, ["runs", "cancels", "fault.alloc", "fault.callback_exception", "fault.solver_exception"]),
    "S09": (5500, ["runs", "fault.alloc", "builder.abandoned", "builder.retried"]),
    "S10": (2600, ["runs", "fault.alloc", "fault.callback_exception", "fault.solver_exception",
                   "construction.failed", "run.retried"]),
    "S11": (60000, ["runs", "fault.throw", "failed.assign", "failed.assign_error", "failed.emplace", "failed.swap",
                    "failed.copy", "failed.move", "failed.convert_copy", "failed.map", "failed.or_else"]),
    "S12": (2300, ["runs", "outcome.ok", "outcome.error", "deliveries", "candidate.good"]),
    "S13": (4800, ["runs", "candidate.good", "candidate.bad", "candidate.refused", "candidate.permitted"]),
    "S14": (5000, ["runs", "candidate.good", "candidate.bad", "candidate.refused", "candidate.permitted"]),
    "S15": (5000, ["runs", "candidate.good", "candidate.bad", "candidate.refused", "candidate.permitted"]),
    "S16": (7000, ["runs", "candidate.good", "candidate.permitted"]),
    "S17": (2300, ["runs", "moves", "construction.failed", "stat.switches"]),
    "S18": (4200, ["runs", "candidate.good", "candidate.bad", "candidate.refused", "candidate.permitted"]),
    "S19": (2600, ["runs", "polls", "residual.refused", "residual.accepted", "outcome.ok", "stat.switches"]),
    "S21": (2300, ["runs", "construction.failed", "stat.switches"]),
    "S24": (3000, ["runs", "probe.finite", "outcome.ok", "stat.switches"]),
}
LEVEL = {"S09": "fault_enumeration", "S11": "fault_enumeration"}
REAL = ["src/SwerveTrajectoryGenerator.cpp", "src/path/SwervePathBuilder.cpp", "src/util/Cancellation.cpp",
        "src/RustFFI.cpp", "src/lib.rs (uninstrumented)", "every header under include/trajopt they use (compiled from the working tree)"]
STUB = ["Sleipnir (sim/stub/sleipnir: expression graph and problem are executed numerically; the interior-point "
        "solver is replaced by a scripted, adversarial one that chooses iterates, exit codes and final points)",
        "cxx: its C++ runtime header (sim/stub/rust), and the code it would generate from src/lib.rs on both sides of "
        "the bridge (build.py, sim/rust: values travel in a byte format instead of by layout)",
        "threads, mutexes, condition variables, clocks, sleeping, malloc/new and memory accesses (sim/rt)"]
RULE = ("One run = one seed: a generated scenario (paths, builder calls, generators, threads, cancel requests, "
        "callbacks, solver scripts, fault points) executed under a seeded scheduler. It is non-trivial if it met at "
        "least one thread switch, stall, injected fault, cancel request, delivered update or judged solver choice; "
        "distinct runs are counted by the hash of the whole event trace (every scheduling decision, shared access, "
        "clock read, solver and callback event).")
RULE11 = ("One run = one seed: a random sequence of operations on expected objects whose element operations are "
          "counted and, one fault position after another, made to throw. Non-trivial if at least one injected throw "
          "reached the library; distinct by the hash of the operation and element-event trace.")


class CheckError(Exception):
    pass


def fail(msg):
    sys.stderr.write("check error: %s\n" % msg)
    sys.exit(2)


def symbolise(out, text):
    def one(m):
        try:
            r = subprocess.run(["addr2line", "-C", "-f", "-e", str(out / "libcut.so"), m.group(1)],
                               capture_output=True, text=True, timeout=20).stdout.split("\n")
            where = re.sub(r".*/(include|src)/", r"\1/", r[1])
            return "%s (%s)" % (r[0].split("(")[0], where)
        except Exception:
            return m.group(0)
    return re.sub(r"lib\+(0x[0-9a-f]+)", one, text)


def known_findings(prop):
    out = []
    for line in (HERE / "known_findings.txt").read_text().splitlines():
        if line.startswith("known:"):
            d = dict(t.split("=", 1) for t in shlex.split(line[6:]))
            if d["property"] == prop:
                out.append(d)
    return out


class Check:
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.out = builder.build()
        self.exe = str(self.out / ("expected_sim" if prop == "S11" else "engine"))
        self.base = self.seed * 1000000007 % (1 << 62) + 1
        self.runs_each, self.needs = PLANS[prop]
        self.cap = 120.0
        if thorough:
            self.runs_each, self.cap = 10 ** 9, float(os.environ.get("SIM_THOROUGH_S", "600"))

    # ------------------------------------------------------------------ search
    def batch(self, workers, base, runs, cap, maxviol=1):
        tmp = tempfile.mkdtemp(prefix="sim.")
        procs, lines = [], [[] for _ in range(workers)]
        stop = threading.Event()

        def reader(k, p):
            for l in p.stdout:
                lines[k].append(l)
                if '"violation"' in l[:14]:
                    stop.set()
        ts = []
        for k in range(workers):
            p = subprocess.Popen([self.exe, "batch", self.prop, str(base + k), str(workers), str(cap), str(runs),
                                  str(maxviol), "1" if self.thorough else "0", "%s/h%d" % (tmp, k)],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 env=dict(os.environ, SIM_CPU=str(k)))
            procs.append(p)
            t = threading.Thread(target=reader, args=(k, p))
            t.start()
            ts.append(t)
        cut = None
        end = time.time() + cap + 150
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            if stop.is_set() and cut is None:
                cut = time.time() + 3
            if (cut and time.time() > cut) or time.time() > end:
                for p in procs:
                    if p.poll() is None:
                        p.kill()
        for t in ts:
            t.join()
        viols, harness, sums = [], [], []
        for k, p in enumerate(procs):
            err = p.stderr.read()
            got = False
            for l in lines[k]:
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "violation" in j:
                    viols.append(j)
                elif "harness" in j:
                    harness.append(j)
                elif "summary" in j:
                    sums.append(j["summary"])
                    got = True
            if not got and not cut:
                harness.append({"harness": "worker ended with %s: %s" % (p.returncode, err[-500:]), "seed": base + k})
        hashes = {}
        for k in range(workers):
            try:
                for l in open("%s/h%d" % (tmp, k)):
                    f = l.split()
                    if len(f) == 3:
                        hashes[int(f[0])] = (f[1], f[2] == "1")
                os.unlink("%s/h%d" % (tmp, k))
            except OSError:
                pass
        os.rmdir(tmp)
        tot = collections.Counter()
        for s in sums:
            tot["runs_total"] += s["runs"]
            tot["multi"] += s["multi"]
            for k, v in s["counts"].items():
                tot[k] += v
            for k, v in s["stats"].items():
                tot["stat." + k] += v
        return sorted(viols, key=lambda v: v["seed"]), harness, tot, hashes

    # -------------------------------------------------------------- violations
    def replay(self, path, verbose=False):
        r = subprocess.run([self.exe, "replay", str(path)] + (["-v"] if verbose else []),
                           capture_output=True, text=True, timeout=200)
        tags = re.findall(r"^VIOLATED (\S+): (.*)$", r.stdout, re.M)
        h = re.findall(r"^hash (\d+)$", r.stdout, re.M)
        return r.returncode, tags, h[-1] if h else None, r.stdout

    def gate(self, v):
        """Reproduces a finding in fresh processes; returns the replay file."""
        rdir = HERE / "replays"
        rdir.mkdir(exist_ok=True)
        raw = rdir / ("%s-%d.full.plan" % (self.prop, v["seed"]))
        plan = subprocess.run([self.exe, "gen", self.prop, str(v["seed"])] + (["1"] if self.thorough else []),
                              capture_output=True, text=True).stdout
        raw.write_text(plan)
        a, b = self.replay(raw), self.replay(raw)
        for r in (a, b):
            if r[0] != 1 or v["tag"] not in [t for t, _ in r[1]]:
                return None
        if a[2] != b[2] or a[2] != str(v["hash"]):
            return None
        small = rdir / ("%s-%d.plan" % (self.prop, v["seed"]))
        try:
            subprocess.run([self.exe, "minimise", str(raw), str(small), v["tag"], "40"],
                           capture_output=True, text=True, timeout=240)
        except subprocess.TimeoutExpired:
            pass
        if small.exists():
            a, b = self.replay(small), self.replay(small)
            if a[0] == b[0] == 1 and a[2] == b[2] and v["tag"] in [t for t, _ in a[1]]:
                raw.unlink()
                return small, a
        return raw, self.replay(raw)

    # ---------------------------------------------------------------- evidence
    def evidence(self, tot, hashes, det, viols, known, wall):
        distinct = len({h for h, _ in hashes.values()})
        nontrivial = len({h for h, busy in hashes.values() if busy})
        samples = []
        for s in sorted(hashes)[:3]:
            f = tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False)
            f.write(subprocess.run([self.exe, "gen", self.prop, str(s)] + (["1"] if self.thorough else []),
                                   capture_output=True, text=True).stdout)
            f.close()
            try:
                out = self.replay(f.name, True)[3]
            except subprocess.TimeoutExpired:
                out = ""
            os.unlink(f.name)
            samples.append({"seed": s, "trace": [l.strip()[:160] for l in out.split("\n") if l.startswith("  ")][:40]})
        faults = {k: v for k, v in sorted(tot.items()) if k.startswith("fault.")}
        faults.update({"stalled_threads": tot["stat.stalls"], "wall_clock_jumps": tot["stat.wall_jumps"],
                       "coarse_clock_reads": tot["stat.coarse_reads"], "cancel_requests": tot["cancels"],
                       "failed_allocations": tot["stat.alloc_faults"]})
        runs = tot["runs_total"]
        real = list(REAL)
        rust = (self.out / "rust").read_text() if (self.out / "rust").exists() else ""
        if rust:
            real.remove("src/lib.rs (uninstrumented)")
        cov = {
            "evaluations": runs, "distinct_nontrivial": nontrivial,
            "rule": RULE11 if self.prop == "S11" else RULE, "samples": samples,
            "distinct_execution_hashes": distinct, "runs_with_several_threads": tot["multi"],
            "runs_per_hour": int(runs / max(wall, 1e-3) * 3600), "seeds_per_hour": int(runs / max(wall, 1e-3) * 3600),
            "simulated_seconds": round(tot["stat.sim_ns"] / 1e9, 3),
            "faults_injected": {k: v for k, v in faults.items() if v},
            "scheduling": {"thread_switches": tot["stat.switches"], "synchronisation_points": tot["stat.sync_points"],
                           "instrumented_points": tot["stat.points"], "clock_reads": tot["stat.clock_reads"],
                           "allocations": tot["stat.allocs"]},
            "met": {k: v for k, v in sorted(tot.items()) if not k.startswith(("stat.", "fault.")) and k not in
                    ("runs_total", "multi")},
            "determinism": det,
            "components_real": real if self.prop != "S11" else
            ["include/trajopt/util/expected (compiled from the working tree)"],
            "components_stub": STUB if self.prop != "S11" else
            ["the contained value and error types (sim/expected: they count, own memory and throw on request)"],
            "known_findings_seen": known,
        }
        if rust and self.prop != "S11":
            cov["rust_half"] = "not built, its cases ran on the C++ layer below: " + rust[-400:]
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
              "level": LEVEL.get(self.prop, "exploration"), "coverage": cov,
              "assumptions": ["a clean batch is evidence, not proof: schedules, faults and inputs are sampled",
                              "the simulated Sleipnir evaluates the posed constraints like the real one",
                              "interleavings are explored at instrumented memory accesses and synchronisation calls, "
                              "under sequential consistency"],
              "wall_s": round(time.time() - self.t0, 2), "violations": viols}
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / (self.prop + ".json")).write_text(json.dumps(ev, indent=1) + "\n")

    # --------------------------------------------------------------------- run
    def run(self):
        print("property %s seed %d build %s" % (self.prop, self.seed, self.out.name), flush=True)
        seen = []
        for k in known_findings(self.prop):
            rc, tags, _, txt = self.replay(HERE / k["replay"])
            if rc == 2:
                raise CheckError("known finding %s does not replay: %s" % (k["replay"], txt[-300:]))
            others = [t for t in tags if t[0] != k["tag"] or k["match"] not in t[1]]
            if others:
                self.evidence(collections.Counter(runs_total=1), {}, {}, 1, seen, 1)
                print(symbolise(self.out, "%s: %s" % others[0]))
                print("VIOLATION property=%s replay=%s" % (self.prop, HERE / k["replay"]))
                return 1
            if tags:
                seen.append(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        t = time.time()
        viols, harness, tot, hashes = self.batch(WORKERS, self.base, self.runs_each, self.cap)
        wall = time.time() - t
        if viols:
            tried = []
            for v in viols[:4]:
                got = self.gate(v)
                if got:
                    path, rep = got
                    self.evidence(tot, hashes, {}, 1, seen, wall)
                    for tag, text in rep[1][:4]:
                        print("%s: %s" % (tag, symbolise(self.out, text)))
                    print("VIOLATION property=%s replay=%s" % (self.prop, path))
                    return 1
                tried.append(v["seed"])
            raise CheckError("violations at seeds %s do not reproduce" % tried)
        if harness:
            raise CheckError("%d harness problems, first: %s" % (len(harness), harness[0]))
        # the same seeds again, in other processes and another number of them
        n = 25 if not self.thorough else 250
        _, h2, _, again = self.batch(3, self.base, n, 60.0)
        differ = [s for s in again if s in hashes and again[s][0] != hashes[s][0]]
        both = sum(1 for s in again if s in hashes)
        if differ or h2:
            raise CheckError("not deterministic: seeds %s %s" % (differ[:5], h2[:1]))
        missing = [k for k in self.needs if not tot["outcome.ok" if k == "runs" and not tot["runs"] else k]]
        if missing or both < n or tot["runs_total"] < 200:
            raise CheckError("coverage too low: never met %s in %d runs" % (missing, tot["runs_total"]))
        self.evidence(tot, hashes, {"seeds_run_twice": both, "differing_traces": 0,
                                    "worker_counts": [WORKERS, 3]}, 0, seen, wall)
        print("held in %d simulated runs (%d distinct), %.0f s" %
              (tot["runs_total"], len({h for h, _ in hashes.values()}), time.time() - self.t0))
        return 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if len(args) != 1 or args[0] not in PLANS:
        fail("usage: check.py PROPERTY [--thorough]")
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        sys.exit(Check(args[0], thorough).run())
    except builder.BuildError as e:
        fail("build: %s" % e)
    except CheckError as e:
        fail(str(e))


if __name__ == "__main__":
    main()
