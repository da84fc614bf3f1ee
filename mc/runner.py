"""Spread the cases of a check over worker processes and report.

The parent never imports the code under test.  Workers do, each on its own, so
a hang or a crash of the code under test costs one case and is reported as a
violation of the property instead of stopping the run.
"""
import argparse
import collections
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

NWORK = int(os.environ.get("VMC_WORKERS", "8"))


def worker_env(scratch):
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        TMPDIR=scratch,
        VMC_SCRATCH=scratch,
        JOBLIB_TEMP_FOLDER=scratch,
    )
    env.pop("PYTHONPATH", None)
    return env


class Worker:
    def __init__(self, here, prop, tier, scratch):
        self.args = (here, prop, tier, scratch)
        self.proc = None

    def start(self):
        here, prop, tier, scratch = self.args
        scratch = tempfile.mkdtemp(prefix="w", dir=scratch)  # one for each worker
        self.err = tempfile.TemporaryFile(dir=scratch)
        self.proc = subprocess.Popen(
            [sys.executable, "-B", os.path.join(here, "mc", "worker.py"), prop, tier],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            env=worker_env(scratch),
            cwd=scratch,
        )
        self.buf = b""

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.err.close()
            self.proc = None

    def tail(self):
        try:
            self.err.seek(0, 2)
            n = self.err.tell()
            self.err.seek(max(0, n - 2000))
            return self.err.read().decode(errors="replace")
        except Exception:
            return ""

    def call(self, index, timeout):
        """Run a case; returns (kind, payload): ok / timeout / died."""
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(("%d\n" % index).encode())
            self.proc.stdin.flush()
        except OSError:
            pass
        end = time.time() + timeout
        fd = self.proc.stdout.fileno()
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                return "ok", json.loads(line)
            left = end - time.time()
            if left <= 0:
                t = self.tail()
                self.stop()
                return "timeout", t
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    t = self.tail()
                    self.stop()
                    return "died", t
                self.buf += chunk


def known_findings(here, prop):
    out = {}
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                assert key.startswith("key=")
                out[key[4:]] = desc
    return out


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--only", type=int, default=None)
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    mod = importlib.import_module("mc." + prop.lower())
    cases = mod.cases(tier)
    indices = list(range(len(cases)))
    if a.replay:
        rep = json.load(open(a.replay))
        tier = rep["tier"]
        cases = mod.cases(tier)
        indices = [cases.index(rep["case"])]
    if a.only is not None:
        indices = [a.only]
    timeout = getattr(mod, "CASE_TIMEOUT", 240)

    scratch = tempfile.mkdtemp(prefix="vmc_%s_" % prop, dir="/tmp")
    os.chmod(scratch, 0o755)
    todo = collections.deque(indices)
    lock = threading.Lock()
    tot = collections.Counter()
    keys, states, outcomes = set(), set(), set()
    samples, violations, errors = [], [], []
    extra = {}
    stop = threading.Event()

    def absorb(i, kind, res):
        with lock:
            if kind != "ok":
                tot["evaluations"] += 1
                violations.append(
                    dict(
                        key=kind,
                        msg={
                            "timeout": "the case did not finish in %d s" % timeout,
                            "died": "the process running the case died",
                        }[kind],
                        detail=res[-1500:],
                        index=i,
                    )
                )
                return
            if res.get("error"):
                errors.append((i, res["error"]))
                return
            for k, v in res["counts"].items():
                tot[k] += v
            keys.update(res["keys"])
            states.update(res["states"])
            outcomes.update(res.get("outcomes", []))
            for s in res["samples"]:
                if len(samples) < 12:
                    samples.append(s)
            for k, v in res.get("extra", {}).items():
                extra[k] = extra.get(k, 0) + v
            for v in res["violations"]:
                v["index"] = i
                violations.append(v)
            if len(violations) > int(os.environ.get("VMC_STOP", 60)):
                stop.set()

    def loop():
        w = Worker(here, prop, tier, scratch)
        try:
            while not stop.is_set():
                with lock:
                    if not todo:
                        break
                    i = todo.popleft()
                t = time.time()
                kind, res = w.call(i, timeout)
                if kind == "died":
                    kind, res = w.call(i, timeout)  # once more, from a fresh process
                absorb(i, kind, res)
                if a.verbose:
                    print("case %d %s %.2fs %s" % (i, kind, time.time() - t, json.dumps(cases[i])[:150]), flush=True)
        finally:
            w.stop()

    threads = [threading.Thread(target=loop) for _ in range(max(1, min(NWORK, len(indices))))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    shutil.rmtree(scratch, ignore_errors=True)

    if errors:
        for i, e in errors[:3]:
            print("ERROR of the check, case %d:\n%s" % (i, e))
        if not violations:
            return 2

    known = known_findings(here, prop)
    new, old = [], {}
    for v in violations:
        if v["key"] in known:
            old.setdefault(v["key"], v)
        else:
            new.append(v)

    if not a.replay and a.only is None:
        cov = dict(getattr(mod, "COVERAGE", {}))
        cov["cases"] = len(indices)
        cov["evaluations"] = tot["evaluations"]
        cov["distinct_nontrivial"] = len(keys)
        cov["rule"] = mod.RULE
        cov["samples"] = samples or [cases[0]]
        cov["bounds"] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
        if states:
            cov["states"] = len(states)
            cov["transitions"] = tot["transitions"]
            cov["traces_validated_against_impl"] = tot["traces"]
        if outcomes:
            cov["distinct_outcomes"] = len(outcomes)
        for k, v in extra.items():
            cov[k] = v
        cov["exhaustive"] = not stop.is_set() and not todo
        ev = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level=mod.LEVEL,
            coverage=cov,
            assumptions=getattr(mod, "ASSUMPTIONS", []),
            wall_s=round(time.time() - t0, 2),
            violations=len(new),
        )
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print(
        "%s tier=%s cases=%d evaluations=%d distinct=%d states=%d transitions=%d wall=%.1fs"
        % (prop, tier, len(indices), tot["evaluations"], len(keys), len(states), tot["transitions"], time.time() - t0)
    )
    if new:
        new.sort(key=lambda v: (v["index"], v["key"]))
        v = new[0]
        outdir = os.path.join(here, "out")
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, prop + ".replay.json")
        if not a.replay:
            with open(path, "w") as f:
                json.dump(
                    dict(property=prop, tier=tier, case=cases[v["index"]], violation=v,
                         others=new[1:20],
                         how="python3 check.py %s --replay %s" % (prop, path)),
                    f, indent=1,
                )
        else:
            path = a.replay
        for w in new[:5]:
            print("  [%s] %s %s" % (w["key"], w["msg"], (w.get("detail") or "")[-600:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
