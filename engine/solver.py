# One incremental SMT solver process (z3, SMT-LIB2 over a pipe).
import os
import time

from java.io import BufferedReader, InputStreamReader, BufferedWriter, OutputStreamWriter, File
from java.lang import ProcessBuilder

from engine import terms


class SolverError(Exception):
  pass


class Solver(object):
  def __init__(self, cmd=None, timeout_ms=60000, log=None):
    self.cmd = cmd or os.environ.get("SX_SOLVER", "z3 -in").split()
    self.timeout_ms = timeout_ms
    self.defined = set()
    self.levels = 0
    self.queries = 0
    self.sat = 0
    self.unsat = 0
    self.unknown = 0
    self.seconds = 0.0
    self.log = log
    self.start()

  def start(self):
    pb = ProcessBuilder(self.cmd)
    pb.redirectErrorStream(True)
    self.proc = pb.start()
    self.out = BufferedWriter(OutputStreamWriter(self.proc.getOutputStream()))
    self.inp = BufferedReader(InputStreamReader(self.proc.getInputStream()))
    self.send("(set-option :global-declarations true)")
    self.send("(set-option :produce-models true)")
    self.send("(set-option :timeout %d)" % self.timeout_ms)
    self.send("(set-logic QF_BV)")

  def send(self, s):
    if self.log: self.log.write(s + "\n")
    self.out.write(s)
    self.out.write("\n")

  def ref(self, t):
    """text naming t; emits definitions for the subterms not yet known to the solver"""
    if t.op == "const":
      if t.width == 0: return "true" if t.par else "false"
      if t.width % 4 == 0: return ("#x%0" + str(t.width // 4) + "x") % t.par
      return "#b" + bin(t.par)[2:].zfill(t.width)
    if t.op == "var":
      if t.id not in self.defined:
        self.defined.add(t.id)
        self.send("(declare-const |%s| %s)" % (t.par, self.sort(t)))
      return "|%s|" % t.par
    if t.id in self.defined:
      return "t%d" % t.id
    stack = [t]
    while stack:
      x = stack[-1]
      if x.id in self.defined:
        stack.pop()
        continue
      todo = [a for a in x.args if a.op not in ("const", "var") and a.id not in self.defined]
      if todo:
        stack.extend(todo)
        continue
      stack.pop()
      refs = " ".join([self.ref(a) for a in x.args])
      op = x.op
      if op == "extract": op = "(_ extract %d %d)" % x.par
      elif op == "sext": op = "(_ sign_extend %d)" % x.par
      elif op == "xor1":
        op = "bvxor"
        if x.par: refs += " #b1"
      self.defined.add(x.id)
      self.send("(define-fun t%d () %s (%s %s))" % (x.id, self.sort(x), op, refs))
    return "t%d" % t.id

  def sort(self, t):
    return "Bool" if t.width == 0 else "(_ BitVec %d)" % t.width

  def push(self):
    self.send("(push 1)")
    self.levels += 1

  def pop(self, n=1):
    if n:
      self.send("(pop %d)" % n)
      self.levels -= n

  def add(self, t):
    r = self.ref(t)
    self.send("(assert %s)" % r)

  def check(self, extra=None, want_model=None):
    """satisfiability of the asserted stack and `extra`.
    Returns (answer, model); model is {name: int} over want_model when sat"""
    t0 = time.time()
    if extra is not None:
      r = self.ref(extra)
      self.send("(push 1)")
      self.send("(assert %s)" % r)
    self.send("(check-sat)")
    self.out.flush()
    ans = self.readline()
    model = None
    if ans == "sat" and want_model:
      names = [v for v in want_model]
      for v in names: self.ref(v)
      self.send("(get-value (%s))" % " ".join(["|%s|" % v.par for v in names]))
      self.out.flush()
      model = self.read_values(names)
    elif ans == "sat":
      model = {}
    if extra is not None:
      self.send("(pop 1)")
    self.queries += 1
    self.seconds += time.time() - t0
    if ans == "sat": self.sat += 1
    elif ans == "unsat": self.unsat += 1
    else:
      self.unknown += 1
      ans = "unknown"
    return ans, model

  def readline(self):
    line = self.inp.readLine()
    if line is None: raise SolverError("solver process ended")
    line = str(line).strip()
    if line.startswith("(error"):
      raise SolverError(line)
    return line

  def read_values(self, names):
    text = ""
    depth = 0
    quoted = False
    while True:
      line = self.readline()
      for ch in line:
        if ch == "|": quoted = not quoted
        elif not quoted:
          if ch == "(": depth += 1
          elif ch == ")": depth -= 1
      text += line + " "
      if depth == 0: break
    # text: ((|name| value) ...)
    model = {}
    i = 0
    n = len(text)
    while True:
      i = text.find("(", i)
      if i < 0: break
      if text[i + 1] in "( ":
        i += 1
        continue
      # at "(name value)"
      j = i + 1
      if text[j] == "|":
        k = text.index("|", j + 1)
        name = text[j + 1:k]
        k += 1
      else:
        k = text.index(" ", j)
        name = text[j:k]
      e = text.index(")", k)
      v = text[k:e].strip()
      if v.startswith("#x"): model[name] = int(v[2:], 16)
      elif v.startswith("#b"): model[name] = int(v[2:], 2)
      elif v == "true": model[name] = 1
      elif v == "false": model[name] = 0
      else: raise SolverError("cannot read value %r" % v)
      i = e + 1
    return model

  def close(self):
    try:
      self.send("(exit)")
      self.out.flush()
    except Exception:
      pass
    self.proc.destroy()
