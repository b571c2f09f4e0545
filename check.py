#!/usr/bin/env python3
"""Decide one property:  check.py <property> [--tier quick|thorough] [--only INSTANCE...]
   Re-run one reported violation:  check.py <property> --replay FILE

Explores the harness instances of the property symbolically over the current source of /repo (engine/run_sym.py, Jython),
replays every counterexample and a sample of path witnesses on the real code (engine/run_real.py), and
prints VIOLATION lines (exit 1), or exits 0 when every assertion holds on every path, or 2 when the run is inconclusive."""
import argparse
import fnmatch
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
JYDEPS = "/opt/jydeps/site"
HOME = "/usr/share/jython"


def jython_home():
    p = subprocess.run(["sh", "-c", "readlink -f $(command -v jython)"], capture_output=True, text=True).stdout.strip()
    return os.path.dirname(os.path.dirname(p)) if p else HOME


def jython(heap="1200m"):
    return ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-jar", "/usr/share/java/jython.jar",
            "-Dpython.home=" + jython_home(), "-Dpython.cachedir.skip=true", "-B"]


def env(known):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "JYTHONPATH": JYDEPS, "PYTHONHASHSEED": "0", "SX_KNOWN": json.dumps(known)})
    e.setdefault("VERIF_SEED", "1")
    return e


class Worker:
    def __init__(self, script, module, tier, known, heap="1200m"):
        self.proc = subprocess.Popen(jython(heap) + [os.path.join(HERE, "engine", script), REPO, module, tier],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(known),
                                     cwd=HERE, bufsize=0)
        self.err = b""
        self.buf = b""
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for line in self.proc.stderr:
            self.err = (self.err + line)[-4000:]

    def send(self, s):
        self.proc.stdin.write((s + "\n").encode())
        self.proc.stdin.flush()

    def recv(self, timeout):
        """next answer, None when the process ended, "timeout" when it took too long"""
        end = time.time() + timeout
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                if line.startswith(b"@@"):
                    return json.loads(line[2:])
            left = end - time.time()
            if left <= 0:
                return "timeout"
            r, _, _ = select.select([self.proc.stdout], [], [], left)
            if not r:
                return "timeout"
            d = os.read(self.proc.stdout.fileno(), 1 << 16)
            if not d:
                return None
            self.buf += d

    def close(self):
        try:
            self.proc.stdin.close()
        except Exception:
            pass
        try:
            self.proc.wait(3)
        except Exception:
            self.proc.kill()
            self.proc.wait()


class Real:
    """runs inputs on the real code, with a time limit per run"""
    def __init__(self, module, tier, known):
        self.args = (module, tier, known)
        self.w = None
        self.lock = threading.Lock()

    def start(self):
        self.w = Worker("run_real.py", *self.args)
        r = self.w.recv(120)
        if not isinstance(r, dict) or "load_error" in r:
            e = self.w.err.decode("utf8", "replace")
            self.w = None
            raise RuntimeError("real code does not load: %s %s" % (r, e))

    def run(self, instance, inputs, limit=20):
        with self.lock:
            if self.w is None:
                self.start()
            self.w.send(json.dumps({"instance": instance, "inputs": inputs}))
            r = self.w.recv(limit)
            if isinstance(r, dict):
                return r
            e = self.w.err.decode("utf8", "replace")[-500:]
            self.w.proc.kill()
            self.w = None
            if r == "timeout":
                return {"status": "fail", "label": "does not terminate within %d s" % limit, "obs": None}
            return {"status": "fail", "label": "process ended", "trace": e, "obs": None}

    def close(self):
        if self.w:
            self.w.close()


def known_findings(prop):
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = line.strip().split(" ", 3)
                # KNOWN-FINDING: property=<id> id=<kid> <text>
                r[rest[2].split("=", 1)[1]] = rest[3]
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", nargs="*", default=[])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    module = prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(prop)
    t0 = time.time()
    evid = os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)

    if a.replay:
        job = json.load(open(a.replay))
        real = Real(module, job.get("tier", tier), sorted(known))
        r = real.run(job["instance"], job["inputs"])
        real.close()
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] == "fail" else 0)

    limit = float(os.environ.get("SX_LIMIT", "800" if tier == "quick" else "5400"))
    workers = [Worker("run_sym.py", module, tier, sorted(known)) for _ in range(a.jobs)]
    first = workers[0].recv(180)
    if not isinstance(first, dict) or "load_error" in first:
        print("INCONCLUSIVE property=%s harness does not load: %s %s" %
              (prop, first.get("load_error") if isinstance(first, dict) else first, workers[0].err.decode("utf8", "replace")))
        for w in workers:
            w.proc.kill()
        sys.exit(2)
    insts = first["instances"]
    if a.only:
        insts = [i for i in insts if any(fnmatch.fnmatch(i[0], p) for p in a.only)]
    # the expensive ones first
    insts.sort(key=lambda i: -i[1].get("weight", 1))
    todo = queue.Queue()
    for i in insts:
        todo.put(i)
    done = queue.Queue()
    stop = threading.Event()

    def drive(k, w):
        if k:
            r = w.recv(180)
            if not isinstance(r, dict) or "load_error" in r:
                return
        while not stop.is_set():
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            w.send(i[0])
            r = w.recv(limit)
            if not isinstance(r, dict):
                done.put({"instance": i[0], "error": "worker %s: %s" % ("timed out" if r == "timeout" else "ended", w.err.decode("utf8", "replace")[-1500:])})
                w.proc.kill()
                return
            done.put(r)

    threads = [threading.Thread(target=drive, args=(k, w), daemon=True) for k, w in enumerate(workers)]
    for t in threads:
        t.start()

    real = Real(module, tier, sorted(known))
    try:
        real.start()
    except RuntimeError as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        sys.exit(2)

    violations, problems, results = [], [], []
    partial = set()      # instances not explored to the end
    validated = 0
    samples = []
    known_seen = {}
    labels = {}

    def violation(inst, label, inputs, r, source):
        n = len(violations) + 1
        path = os.path.join(evid, "replay-%s-%d.json" % (prop, n))
        json.dump({"property": prop, "instance": inst, "tier": tier, "label": label, "real_label": r["label"], "inputs": inputs,
                   "trace": r.get("trace"), "source": source, "run": "python3 check.py %s --replay %s" % (prop, path)},
                  open(path, "w"), indent=1, sort_keys=True)
        violations.append(path)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s %s" % (inst, r["label"], json.dumps(inputs, sort_keys=True)[:600]))
        if r.get("trace"):
            print("  " + r["trace"].strip().splitlines()[-1])
        sys.stdout.flush()

    seen = 0
    while seen < len(insts):
        if time.time() - t0 > limit:
            problems.append("time limit of %d s: %d instances not finished" % (limit, len(insts) - seen))
            partial.update(i[0] for i in insts if i[0] not in [x["instance"] for x in results])
            break
        try:
            r = done.get(timeout=1)
        except queue.Empty:
            if not any(t.is_alive() for t in threads) and done.empty():
                problems.append("workers ended early: " + " | ".join(w.err.decode("utf8", "replace")[-300:] for w in workers))
                break
            continue
        seen += 1
        results.append(r)
        name = r["instance"]
        before = len(problems)
        if a.v:
            print("  [%s] %s" % (name, {k: r.get(k) for k in ("seconds", "paths", "dead", "forks", "checks", "checks_solver", "queries", "solver_seconds", "poison", "cexcount", "complete")}))
            if r.get("error"):
                print(r["error"])
            for k, v in (r.get("crashes") or {}).items():
                print("   crash %s\n%s" % (k, v))
            sys.stdout.flush()
        if r.get("error"):
            problems.append("%s: %s" % (name, r["error"]))
            partial.add(name)
            continue
        for k, v in r["reached"].items():
            labels[name + "/" + k] = v
        unreproduced = []
        for c in r["cex"]:
            if len(violations) >= 5:
                break
            q = real.run(name, c["inputs"])
            if q["status"] == "fail":
                violation(name, c["label"], c["inputs"], q, "counterexample")
            else:
                unreproduced.append((c["label"], c["inputs"], q["status"]))
        for l, i, s in unreproduced:
            problems.append("%s: counterexample to %s not reproduced on the real code (%s): %s" % (name, l, s, json.dumps(i, sort_keys=True)[:400]))
        for kid, label, inputs in r["known"]:
            q = real.run(name, inputs)
            if q["status"] == "skip" and kid in q.get("known_hit", []):
                known_seen[kid] = inputs
            else:
                problems.append("%s: known finding %s not reproduced" % (name, kid))
        for w in r["witnesses"]:
            q = real.run(name, w["inputs"])
            if q["status"] == "ok":
                if w["obs"] is not None and q.get("obs") is not None and w["obs"] != q["obs"]:
                    problems.append("%s: encoding and real code differ on %s: %s / %s" %
                                    (name, json.dumps(w["inputs"], sort_keys=True)[:300], json.dumps(w["obs"])[:300], json.dumps(q["obs"])[:300]))
                else:
                    validated += 1
                if len(samples) < 12 and w["inputs"]:
                    samples.append({"instance": name, "inputs": w["inputs"]})
            elif q["status"] == "fail":
                if len(violations) < 5:
                    violation(name, "witness", w["inputs"], q, "path witness")
            elif q.get("known_hit"):
                pass   # inside the region of a listed finding
            else:
                problems.append("%s: witness not accepted by the real run: %s" % (name, json.dumps(w["inputs"], sort_keys=True)[:300]))
        for k, v in r["poison"].items():
            problems.append("%s: %s (%d)" % (name, k, v))
        if not r["complete"] and not r["poison"] and not r["cex"]:
            problems.append("%s: exploration stopped early" % name)
        if not [k for k in r["reached"]] and not (r.get("cex")):
            problems.append("%s: no assertion was reached" % name)
        if len(problems) > before:
            partial.add(name)
        if violations and (len(violations) >= 3 or time.time() - t0 > 240):
            break
    stop.set()
    for w in workers:
        w.proc.kill()
    real.close()

    def total(k):
        return sum(r.get(k) or 0 for r in results)

    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    cov = {
        "states": total("paths"), "transitions": total("decisions"), "traces_validated_against_impl": validated, "samples": samples,
        "instances": len(results), "instances_planned": len(insts), "assertions_checked": total("checks"),
        "assertions_decided_by_solver": total("checks_solver"), "assertion_labels": len(labels),
        "solver_queries": total("queries"), "sat": total("sat"), "unsat": total("unsat"), "unknown": total("unknown"),
        "solver_seconds": round(total("solver_seconds"), 2), "infeasible_or_assumed_away_paths": total("dead"), "forks": total("forks"),
        "functions_encoded": [f.replace(REPO + "/", "") for f in funcs], "bounds": (first.get("doc") or "").strip(),
        "solver": os.environ.get("SX_SOLVER", "z3 -in (4.8.12)"),
        "inconclusive": problems[:20], "instances_not_complete": sorted(partial), "known_findings_seen": sorted(known_seen),
        "per_instance": [{k: r.get(k) for k in ("instance", "paths", "checks", "queries", "solver_seconds", "seconds", "complete")} for r in results],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["library models (struct, bitstring, cerberus, crcmod, jsonpickle, math.log; for the modem: serial port, clock, threads, locks, where also replays use the model) match the installed libraries; every run replays path witnesses on the real ones",
                          "bounds as stated in coverage.bounds; nothing is claimed outside them"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1, sort_keys=True)
    for kid, text in sorted(known.items()):
        if kid in known_seen:
            print("KNOWN-FINDING: property=%s %s (e.g. %s)" % (prop, text, json.dumps(known_seen[kid], sort_keys=True)[:300]))
    print("%s %s: %d instances, %d paths, %d assertions (%d by solver), %d queries, %.1f s solver, %d witnesses replayed, %.1f s" %
          (prop, tier, len(results), cov["states"], cov["assertions_checked"], cov["assertions_decided_by_solver"], cov["solver_queries"],
           cov["solver_seconds"], validated, time.time() - t0))
    if violations:
        sys.exit(1)
    # What could not be explored to the end is named, here and in the evidence: the property held on everything else.  Without most of the instances that says too little.
    enough = len(results) and len(partial) * 2 <= len(insts) and (partial or not problems)
    for p in problems[:12]:
        print("%s property=%s %s" % ("INCOMPLETE" if enough else "INCONCLUSIVE", prop, p))
    sys.exit(0 if enough else 2)


main()
