# Worker: explores harness instances symbolically.  jython run_sym.py REPO MODULE TIER
# reads one instance name per line, answers one line "@@" + JSON.
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from engine import explore, models, points, program, rewrite, rt, solver, sym, terms
from engine.snapshot import Snapshot
from engine.ctx import SymCtx, plain

REPO, MODULE, TIER = sys.argv[1], sys.argv[2], sys.argv[3]
SEED = int(os.environ.get("VERIF_SEED", "1"))
KNOWN = json.loads(os.environ.get("SX_KNOWN", "[]"))


def say(o):
  sys.stdout.write("@@" + json.dumps(o) + "\n")
  sys.stdout.flush()


class NullOut(object):
  def write(self, s): pass
  def flush(self): pass


def load():
  program.BASE[0] = REPO
  models.register()
  stats = {}
  sys.meta_path.insert(0, rewrite.Loader(REPO, ("d7a",) + points.ROOTS, stats))
  sys.meta_path.insert(0, rewrite.Loader(HERE, ("harness",), {}))
  m = __import__("harness." + MODULE, fromlist=["x"])
  return m, stats


def eval_leaf(X):
  def ev(v):
    if isinstance(v, sym.SymInt): return terms.sgn(X.eval(v.t), v.t.width)
    if isinstance(v, sym.SymBool): return bool(X.eval(v.t))
    if isinstance(v, sym.SymBytearray): return bytearray([ev(x) for x in v.e])
    if isinstance(v, sym.SymText) and v._e is None:
      r = ""
      for p in v.parts:
        if isinstance(p, tuple):
          n = ev(p[0])
          q = sym.render(n, *p[1:])
          r += "".join([chr(c) for c in q])
        elif isinstance(p, sym.Later): r += str(bool(ev(p.v)))
        else: r += ev(p)
      return r
    if isinstance(v, sym.SymStr): return "".join([chr(ev(x)) for x in v.e])
    if isinstance(v, sym.SymEnum): return v.cls(ev(v.value))
    if isinstance(v, sym.SymFloat): return float(ev(v.n)) / (1 << v.k)
    if isinstance(v, models.LogValue): return v.f(ev(v.v))
    return v
  return ev


def run_instance(name, func, args, opts, snap):
  t0 = time.time()
  terms.reset()
  z = solver.Solver(timeout_ms=int(opts.get("solver_ms", 60000)))
  X = explore.Explorer(z, max_paths=opts.get("max_paths", 200000), max_seconds=opts.get("seconds", 240),
                       max_steps=opts.get("max_steps", 60000))
  X.known = KNOWN
  sym.setx(X)
  rt.ENTERED.clear()
  rng = random.Random(SEED)
  wit = []
  nwit = opts.get("witnesses", 25)
  ctx = SymCtx(X)
  crashes = {}

  def once():
    snap.restore()
    ctx.randoms = 0
    models.random.source = ctx.next_random
    try:
      func(ctx, *args)
    except Exception as e:
      label = "uncaught " + e.__class__.__name__
      X.reached[label] = 1
      if label not in crashes: crashes[label] = traceback.format_exc()[-1800:]
      X.counterexample(label, X.model)
      raise explore.PathDead()

  def onpath(X, status):
    if status != "ok": return
    if len(wit) < nwit: k = len(wit)
    else:
      k = rng.randrange(X.paths)
      if k >= nwit: return
    ev = eval_leaf(X)
    try:
      obs = [[n, plain(v, ev)] for n, v in X.obs]
    except Exception:
      obs = None
    w = {"inputs": X.inputs(X.model), "obs": obs}
    if k == len(wit): wit.append(w)
    else: wit[k] = w

  err = None
  out = sys.stdout
  sys.stdout = NullOut()
  try:
    X.explore(once, onpath)
  except BaseException as e:
    err = traceback.format_exc()[-3000:]
  finally:
    sys.stdout = out
  z.close()
  r = {
    "instance": name, "seconds": round(time.time() - t0, 2), "paths": X.paths, "dead": X.dead, "decisions": X.decisions,
    "forks": X.forks, "checks": X.checks, "checks_solver": X.checks_solver, "reached": X.reached, "complete": X.complete,
    "poison": X.poison, "queries": z.queries, "sat": z.sat, "unsat": z.unsat, "unknown": z.unknown,
    "solver_seconds": round(z.seconds, 2), "cex": [{"label": l, "inputs": i} for l, i in X.cex], "cexcount": X.cexlabels,
    "crashes": crashes, "witnesses": wit, "steps": X.steps_max_seen, "error": err, "known": X.known_found,
    "functions": sorted(set([rt.FUNCS[k] for k in rt.ENTERED if rt.FUNCS[k].startswith(REPO)])),
  }
  return r


def main():
  t0 = time.time()
  out = sys.stdout
  sys.stdout = NullOut()
  try:
    m, stats = load()
    inst = m.instances(TIER)
  except BaseException:
    sys.stdout = out
    say({"load_error": traceback.format_exc()[-3000:]})
    return
  snap = Snapshot(("d7a",) + points.ROOTS)
  sys.stdout = out
  table = dict([(i[0], i) for i in inst])
  say({"instances": [[i[0], i[3] if len(i) > 3 else {}] for i in inst], "load_seconds": round(time.time() - t0, 2),
       "modules": sorted(stats.keys()), "doc": m.__doc__})
  while True:
    line = sys.stdin.readline()
    if not line or not line.strip(): break
    i = table[line.strip()]
    say(run_instance(i[0], i[1], i[2], i[3] if len(i) > 3 else {}, snap))


main()
