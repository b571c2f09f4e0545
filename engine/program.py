# Runs a file of the repository as a program: with arguments, collecting what it prints.
import sys
import argparse as _argparse

BASE = [None]
CODE = {}


def leave(*a): raise SystemExit(*a)      # the interpreter's own would close our input


class Out(object):
  """standard output or error of the program"""
  def __init__(self): self.parts = []
  def write(self, s): self.parts.append(s)
  def write_text(self, t): self.parts.append(t)
  def flush(self): pass


def run(argv, namespace, code):
  """(exit code or exception, what was printed)"""
  old, sys.argv = sys.argv, argv
  out, err, o = sys.stdout, sys.stderr, Out()
  sys.stdout, sys.stderr = o, Out()
  try:
    try:
      exec code in namespace
      r = 0
    except SystemExit as e: r = e.code or 0
    except Exception as e: r = e
  finally:
    sys.argv, sys.stdout, sys.stderr = old, out, err
  return r, o.parts


def real(path, argv):
  f = BASE[0] + "/" + path
  if f not in CODE: CODE[f] = compile(open(f).read() + "\n", f, "exec")
  r, parts = run(argv, {"__name__": "__main__", "__file__": f, "exit": leave, "quit": leave}, CODE[f])
  return r, "".join(parts)


def symbolic(path, argv):
  from engine import rewrite, rt, sym
  f = BASE[0] + "/" + path
  if f not in CODE: CODE[f] = rewrite.script(open(f).read(), f)
  code, k = CODE[f]
  rt.sx_enter(k)
  ns = {"__name__": "__main__", "__file__": f, "exit": leave, "quit": leave}
  ns.update(rt.NAMES)
  r, parts = run(argv, ns, code)
  return r, sym.mktext(parts)


class ArgumentParser(_argparse.ArgumentParser):
  """the real one; symbolic arguments are handed through"""
  def parse_args(self, args=None, namespace=None):
    from engine.sym import SymStr
    args = list(sys.argv[1:] if args is None else args)
    held = {}
    for k, a in enumerate(args):
      if isinstance(a, SymStr):
        args[k] = "<argument %d>" % k
        held[args[k]] = a
    n = _argparse.ArgumentParser.parse_args(self, args, namespace)
    for k, v in vars(n).items():
      if isinstance(v, str) and v in held: setattr(n, k, held[v])
      elif isinstance(v, list): setattr(n, k, [held.get(x, x) if isinstance(x, str) else x for x in v])
    return n
