# Worker: runs harness instances on the real code with concrete inputs.
# jython run_real.py REPO MODULE TIER; one JSON job per line on stdin, one "@@" + JSON answer per line.
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "stubs"))
REPO, MODULE, TIER = sys.argv[1], sys.argv[2], sys.argv[3]
sys.path.insert(0, REPO)
from engine import points
sys.meta_path.insert(0, points.Loader(REPO))
from engine import program
program.BASE[0] = REPO
KNOWN = json.loads(os.environ.get("SX_KNOWN", "[]"))

from engine.ctx import RealCtx, Fail, Skip, plain
from engine.snapshot import Snapshot


def say(o):
  OUT.write("@@" + json.dumps(o) + "\n")
  OUT.flush()


class NullOut(object):
  def write(self, s): pass
  def flush(self): pass


OUT = sys.stdout
sys.stdout = NullOut()
try:
  m = __import__("harness." + MODULE, fromlist=["x"])
  table = dict([(i[0], i) for i in m.instances(TIER)])
  snap = Snapshot(("d7a",) + points.ROOTS)
except BaseException:
  say({"load_error": traceback.format_exc()[-3000:]})
  sys.exit(0)
say({"ready": len(table)})
while True:
  line = sys.stdin.readline()
  if not line or not line.strip(): break
  job = json.loads(line)
  i = table[job["instance"]]
  c = RealCtx(job["inputs"], KNOWN)
  r = {"label": None, "status": "ok"}
  snap.restore()
  c.patch_random()
  try:
    i[1](c, *i[2])
  except Fail as e:
    r = {"label": e.label, "status": "fail"}
  except Skip:
    r = {"label": None, "status": "skip"}
  except Exception as e:
    r = {"label": "uncaught " + e.__class__.__name__, "status": "fail", "trace": traceback.format_exc()[-1500:]}
  except BaseException as e:
    r = {"label": "uncaught " + str(e.__class__), "status": "fail", "trace": traceback.format_exc()[-1500:]}
  try:
    r["obs"] = [[n, plain(v, lambda x: x)] for n, v in c.obs]
  except Exception:
    r["obs"] = None
  r["known_hit"] = c.known_hit
  say(r)
