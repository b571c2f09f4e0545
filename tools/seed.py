#!/usr/bin/env python3
"""seed.py try ID...   apply a planted change to a scratch copy of /repo, run the demo with and without it, and the stable tests
   seed.py check ID... run the property's check against the scratch copy holding the change (SX_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, **env):
    e = dict(os.environ); e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=1000)


def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            copy = os.path.join(w, "repo")
            shutil.copytree("/repo", copy)
            place = os.path.join(w, "demo")
            shutil.copytree(d, place)
            if mode == "try":
                before = run(["bash", os.path.join(place, "demo.sh")], copy)
                a = run(["git", "apply", os.path.join(d, "patch.diff")], copy)
                after = run(["bash", os.path.join(place, "demo.sh")], copy)
                src = open("/opt/vp/run_tests.py").read().replace('REPO = "/repo"', 'REPO = %r\nsys.path.insert(0, %r)' % (copy, HERE + "/stubs"))
                t = os.path.join(w, "t.py"); open(t, "w").write(src)
                run(["jython", "-B", "-Dpython.cachedir.skip=true", t, os.path.join(w, "lines")], copy, JYTHONPATH="/opt/jydeps/site", PYTHONDONTWRITEBYTECODE="1")
                lines = open(os.path.join(w, "lines")).read().splitlines()
                stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                bad = [l for l in lines if not l.startswith("PASS")]
                ok = before.returncode == 0 and a.returncode == 0 and after.returncode != 0 and all("PASS " + s in lines for s in stable)
                print(i, "OK" if ok else "BAD", "demo %d -> %d" % (before.returncode, after.returncode), "tests %d, failing %s" % (len(lines), bad[:4]))
                if not ok: print(a.stderr, before.stdout[-800:], before.stderr[-800:], "--", after.stdout[-500:], after.stderr[-300:])
            else:
                run(["git", "apply", os.path.join(d, "patch.diff")], copy)
                for p in sys.argv[3:] and [] or [meta["property"]]:
                    r = run([sys.executable, os.path.join(HERE, "check.py"), p], HERE, SX_REPO=copy)
                    first = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][:2]
                    print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), " | ".join(first)[:300])
            sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
