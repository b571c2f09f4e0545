# Runs the repository's own tests on the rewritten modules and the library models (no symbolic values):
# the translation must agree with the real code on every one of them.
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import explore, models, rewrite, rt, solver, sym
REPO = sys.argv[1]
models.register()
sys.meta_path.insert(0, rewrite.Loader(REPO, ("d7a", "modem"), {}))
z = solver.Solver()
X = explore.Explorer(z)
X.pos = X.steps = 0
X.max_steps = 10 ** 9
sym.setx(X)
import random
models.random.source = random.randint
import unittest2
os.chdir(REPO)
files = []
for top, dirs, names in os.walk("d7a"):
  for n in sorted(names):
    p = os.path.join(top, n)
    if n.endswith(".py") and "TestCase" in open(p).read(): files.append(p)
suite = unittest2.TestSuite()
for p in sorted(files):
  m = p[:-3].replace("/", ".")
  __import__(m)
  suite.addTests(unittest2.defaultTestLoader.loadTestsFromModule(sys.modules[m]))
r = unittest2.TextTestRunner(verbosity=0).run(suite)
z.close()
print r.testsRun, "tests,", len(r.failures), "failures,", len(r.errors), "errors", X.poison
sys.exit(0 if r.wasSuccessful() else 1)
