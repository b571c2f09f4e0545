# Loads the modem for replays: the real code, except that threads may change over before every statement and that the modules around it are those of engine.world.
import ast
import imp
import os
import sys

from engine import world


class Points(ast.NodeTransformer):
  """a call of _sx_point before every statement of every function"""
  def body(self, b):
    out = []
    for s in b:
      doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Str)
      s = self.visit(s)
      if not doc and not isinstance(s, (ast.Global, ast.Pass)):
        out.append(ast.copy_location(ast.Expr(value=ast.Call(func=ast.Name(id="_sx_point", ctx=ast.Load()), args=[], keywords=[], starargs=None, kwargs=None)), s))
      out.append(s)
    return out

  infunction = 0

  def generic_visit(self, n):
    if isinstance(n, ast.FunctionDef): self.infunction += 1
    if isinstance(n, ast.stmt) and (self.infunction):
      for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b: setattr(n, f, self.body(b))
      for h in getattr(n, "handlers", None) or []: h.body = self.body(h.body)
    else:
      ast.NodeTransformer.generic_visit(self, n)
    if isinstance(n, ast.FunctionDef): self.infunction -= 1
    return n


class Redirect(ast.NodeTransformer):
  def name(self, n):
    return ast.Call(func=ast.Name(id="_sx_world", ctx=ast.Load()), args=[ast.Str(s=n)], keywords=[], starargs=None, kwargs=None)

  def visit_Import(self, n):
    out = []
    for a in n.names:
      if a.name.split(".")[0] in world.MODULES:
        out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=a.asname or a.name.split(".")[0], ctx=ast.Store())],
                                                value=self.name(a.name if a.asname else a.name.split(".")[0])), n))
      else: out.append(ast.copy_location(ast.Import(names=[a]), n))
    return out

  def visit_ImportFrom(self, n):
    if n.module and not n.level and n.module.split(".")[0] in world.MODULES:
      return [ast.copy_location(ast.Assign(targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                                           value=ast.Attribute(value=self.name(n.module), attr=a.name, ctx=ast.Load())), n) for a in n.names]
    return n


def lookup(n):
  m = world.MODULES[n.split(".")[0]]
  for p in n.split(".")[1:]: m = getattr(m, p)
  return m


ROOTS = ("modem", "tools", "util")      # what runs in surroundings of ours


class Loader(object):
  def __init__(self, base): self.base = base

  def file(self, full):
    p = os.path.join(self.base, *full.split("."))
    if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py"), True
    if os.path.isfile(p + ".py"): return p + ".py", False
    return None, os.path.isdir(p)

  def find_module(self, full, path=None):
    return self if full.split(".")[0] in ROOTS and self.file(full) != (None, False) else None

  def load_module(self, full):
    if full in sys.modules: return sys.modules[full]
    f, pkg = self.file(full)
    m = imp.new_module(full)
    m.__file__ = f or "<namespace>"
    m.__loader__ = self
    if pkg: m.__path__ = [os.path.join(self.base, *full.split("."))]
    sys.modules[full] = m
    if not f: return m
    try:
      tree = Redirect().visit(Points().visit(ast.parse(open(f).read() + "\n", f)))
      ast.fix_missing_locations(tree)
      m.__dict__.update({"_sx_point": world.point, "_sx_world": lookup})
      exec compile(tree, f, "exec") in m.__dict__
    except:
      del sys.modules[full]
      raise
    return m
