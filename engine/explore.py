# Path exploration by re-execution: every run of the harness follows a recorded prefix of decisions
# and extends it; the solver decides which sides of each new decision are feasible.
import os
import sys
import time

from engine import terms as T


class Stop(BaseException):
  """unwinds the current run (never derived from Exception, so the code under test does not catch it)"""


class PathDead(Stop):
  pass


class StepLimit(Stop):
  pass


class NoFork(BaseException):
  """a fork was requested while evaluating speculatively"""


PROFILE = os.environ.get("SX_PROFILE")     # file: where paths fork
_profile = {}


def profile(kind):
  f = sys._getframe(2)
  at = []
  while f is not None and len(at) < 5:
    n = f.f_code.co_filename
    if "/engine/" not in n: at.append("%s:%d" % (n.split("/")[-1], f.f_lineno))
    f = f.f_back
  k = kind + " " + " < ".join(at)
  _profile[k] = _profile.get(k, 0) + 1
  if sum(_profile.values()) % 50 == 0:
    o = open(PROFILE, "w")
    for n, k in sorted([(n, k) for k, n in _profile.items()], reverse=True): o.write("%6d %s\n" % (n, k))
    o.close()


class Entry(object):
  __slots__ = ("kind", "key", "val", "alt", "term", "seen", "flipped", "pushed")

  def __init__(self, kind, key, val=None, pushed=False, alt=None, term=None):
    self.kind = kind
    self.key = key
    self.val = val
    self.alt = alt
    self.term = term
    self.pushed = pushed
    self.flipped = False
    self.seen = None


class Explorer(object):
  def __init__(self, solver, max_paths=200000, max_seconds=600, max_steps=60000, max_values=70000, max_cex=3):
    self.solver = solver
    self.vars = []
    self.varinfo = {}
    self.max_paths = max_paths
    self.deadline = time.time() + max_seconds
    self.max_steps = max_steps
    self.max_values = max_values
    self.max_cex = max_cex
    self.trail = []
    self.model = {}
    self.mcache = {}
    self.spec = 0
    self.paths = 0
    self.dead = 0
    self.decisions = 0
    self.forks = 0
    self.checks = 0
    self.checks_solver = 0
    self.cex = []
    self.cexlabels = {}
    self.known = []
    self.known_found = []
    self.poison = {}
    self.reached = {}
    self.functions = {}
    self.witnesses = []
    self.complete = False
    self.steps_max_seen = 0

  # ------------------------------------------------------------ the current path
  def eval(self, t):
    return T.evaluate(t, self.model, self.mcache)

  def setmodel(self, m):
    self.model = m
    self.mcache = {}

  def poisoned(self, why):
    self.poison[why] = self.poison.get(why, 0) + 1

  def newvar(self, name, w, info):
    t = T.var(name, w)
    if name not in self.varinfo:
      self.varinfo[name] = info
      self.vars.append(t)
    return t

  def replay(self, key):
    if self.pos < len(self.trail):
      e = self.trail[self.pos]
      if e.key != key:
        self.poisoned("nondeterministic re-execution")
        raise PathDead()
      self.pos += 1
      return e
    return None

  def append(self, e):
    self.trail.append(e)
    self.pos += 1

  def ask(self, t):
    return self.solver.check(t, self.vars)

  def branch(self, c):
    """decide a Bool term; forks when both sides are feasible"""
    if c is T.TRUE: return True
    if c is T.FALSE: return False
    if self.spec: raise NoFork()
    self.decisions += 1
    e = self.replay(("B", c.id))
    if e is not None: return e.val
    self.tick()
    v = bool(self.eval(c))
    here, other = (c, T.lnot(c)) if v else (T.lnot(c), c)
    ans, m = self.ask(other)
    if ans == "unsat":
      self.append(Entry("F", ("B", c.id), v))
      return v
    if ans == "unknown":
      self.poisoned("solver answered unknown on a branch")
      self.append(Entry("F", ("B", c.id), v))
      return v
    self.forks += 1
    if PROFILE: profile("branch")
    self.solver.push()
    self.solver.add(here)
    self.append(Entry("B", ("B", c.id), v, True, m, c))
    return v

  def concretize(self, t):
    """a concrete value (unsigned int) of bit-vector t; explores every feasible value"""
    if t.op == "const": return t.par
    if self.spec: raise NoFork()
    self.decisions += 1
    e = self.replay(("N", t.id))
    if e is not None: return e.val
    self.tick()
    v = self.eval(t)
    c = T.eq(t, T.const(v, t.width))
    ans, m = self.ask(T.lnot(c))
    if ans == "unsat":
      self.append(Entry("F", ("N", t.id), v))
      return v
    if ans == "unknown":
      self.poisoned("solver answered unknown on a concretisation")
      self.append(Entry("F", ("N", t.id), v))
      return v
    self.forks += 1
    if PROFILE: profile("concretize")
    self.solver.push()
    self.solver.add(c)
    e = Entry("N", ("N", t.id), v, True, m, t)
    e.seen = [v]
    self.append(e)
    return v

  def assume(self, c):
    if c is T.TRUE: return
    if c is T.FALSE: raise PathDead()
    e = self.replay(("A", c.id))
    if e is not None:
      if not e.val: raise PathDead()
      return
    if not self.eval(c):
      ans, m = self.ask(c)
      if ans != "sat":
        if ans == "unknown": self.poisoned("solver answered unknown on an assumption")
        self.append(Entry("A", ("A", c.id), False))
        raise PathDead()
      self.setmodel(m)
    self.solver.push()
    self.solver.add(c)
    self.append(Entry("A", ("A", c.id), True, True))

  def check(self, c, label):
    """assert c: the solver either shows it for every value on this path or gives a counterexample"""
    e = self.replay(("K", c.id, label))
    if e is not None:
      if not e.val: raise PathDead()
      if e.term is not None: pass
      return
    self.checks += 1
    self.reached[label] = self.reached.get(label, 0) + 1
    if c is T.TRUE:
      self.append(Entry("K", ("K", c.id, label), True))
      return
    if c is T.FALSE:
      self.counterexample(label, self.model)
      self.append(Entry("K", ("K", c.id, label), False))
      raise PathDead()
    self.checks_solver += 1
    ans, m = self.ask(T.lnot(c))
    if ans == "unsat":
      self.append(Entry("K", ("K", c.id, label), True))
      return
    if ans == "unknown":
      self.poisoned("solver answered unknown on assertion " + label)
      self.append(Entry("K", ("K", c.id, label), True))
      return
    self.counterexample(label, m)
    if not self.eval(c):
      ans, m = self.ask(c)
      if ans != "sat":
        self.append(Entry("K", ("K", c.id, label), False))
        raise PathDead()
      self.setmodel(m)
    self.solver.push()
    self.solver.add(c)
    self.append(Entry("K", ("K", c.id, label), True, True))

  def note_known(self, kid, t, label):
    """record one input of a listed finding, when there is one on this path"""
    if [k for k in self.known_found if k[0] == kid]: return
    if t is T.FALSE: return
    ans, m = self.ask(t)
    if ans == "sat": self.known_found.append([kid, label, self.inputs(m)])

  def counterexample(self, label, model):
    n = self.cexlabels.get(label, 0)
    self.cexlabels[label] = n + 1
    if n < self.max_cex:
      self.cex.append((label, self.inputs(model)))

  def inputs(self, model):
    r = {}
    for name, inner in self.used:
      r[name] = self.varinfo[inner](model.get(inner, 0))
    return r

  def tick(self):
    self.steps += 1
    if self.steps > self.max_steps:
      raise StepLimit()
    if time.time() > self.deadline:
      raise Timeout()

  # ------------------------------------------------------------ all paths
  def backtrack(self):
    tr = self.trail
    while tr:
      e = tr[-1]
      if e.pushed: self.solver.pop()
      if e.kind == "B" and not e.flipped:
        e.flipped = True
        e.val = not e.val
        self.solver.push()
        self.solver.add(e.term if e.val else T.lnot(e.term))
        self.setmodel(e.alt)
        e.alt = None
        return True
      if e.kind == "N":
        if e.alt is not None:
          m = e.alt
          e.alt = None
        else:
          ans, m = self.ask(T.conj([T.lnot(T.eq(e.term, T.const(v, e.term.width))) for v in e.seen]))
          if ans == "unknown":
            self.poisoned("solver answered unknown while enumerating values")
            m = None
        if m is not None and len(e.seen) >= self.max_values:
          self.poisoned("more than %d values to enumerate" % self.max_values)
          m = None
        if m is not None:
          self.setmodel(m)
          e.val = self.eval(e.term)
          e.seen.append(e.val)
          self.solver.push()
          self.solver.add(T.eq(e.term, T.const(e.val, e.term.width)))
          return True
      tr.pop()
    return False

  def explore(self, run, onpath=None):
    """run() executes the harness once. Returns when every path has been followed"""
    self.trail = []
    self.setmodel({})
    while True:
      self.pos = 0
      self.steps = 0
      self.spec = 0
      self.used = []
      self.obs = []
      self.tokens = 0
      status = "ok"
      try:
        run()
      except PathDead:
        status = "dead"
      except StepLimit:
        status = "steps"
      except Timeout:
        self.poisoned("time limit reached")
        return
      if self.steps > self.steps_max_seen: self.steps_max_seen = self.steps
      if status == "dead":
        self.dead += 1
      else:
        self.paths += 1
        if status == "steps":
          self.counterexample("terminates", self.model)
        if onpath: onpath(self, status)
      if self.pos < len(self.trail):
        self.poisoned("run ended inside its prefix")
        while len(self.trail) > self.pos:
          e = self.trail.pop()
          if e.pushed: self.solver.pop()
      if self.paths >= self.max_paths:
        self.poisoned("path limit reached")
        return
      if time.time() > self.deadline:
        self.poisoned("time limit reached")
        return
      if sum(self.cexlabels.values()) >= 12:
        return
      if not self.backtrack(): break
    self.complete = True


class Timeout(Stop):
  pass
