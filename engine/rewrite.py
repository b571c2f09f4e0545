# Loads Python modules from source with every operation that could meet a symbolic value routed
# through engine.rt.  The rewriting does not depend on what the code does: it is the same for every
# module, and is applied to the current source on every run.
import ast
import imp
import os
import sys

from engine import points, rt, world

NARROW = set(["ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "ReadError", "ParseError", "Exception", "AssertionError"])
LEAVE = set(["super", "locals", "globals", "vars", "dir", "__import__", "reload", "_sx_call"])


def name(id):
  return ast.Name(id=id, ctx=ast.Load())


def call(f, *args):
  return ast.Call(func=name(f), args=list(args), keywords=[], starargs=None, kwargs=None)


def lam(body):
  return ast.Lambda(args=ast.arguments(args=[], vararg=None, kwarg=None, defaults=[]), body=body)


SIMPLE = (ast.Name, ast.Num, ast.Str, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp)


def simple(e):
  """an expression whose evaluation has no effect (attribute access included)"""
  if isinstance(e, (ast.Name, ast.Num, ast.Str)): return True
  if isinstance(e, ast.Attribute): return simple(e.value)
  if isinstance(e, ast.BinOp): return simple(e.left) and simple(e.right)
  if isinstance(e, ast.UnaryOp): return simple(e.operand)
  if isinstance(e, ast.Compare): return simple(e.left) and all([simple(c) for c in e.comparators])
  if isinstance(e, ast.BoolOp): return all([simple(v) for v in e.values])
  if isinstance(e, ast.Call):
    # our own helpers over simple operands
    return isinstance(e.func, ast.Name) and e.func.id in ("_sx_is", "_sx_in", "_sx_mod", "_sx_not", "_sx_and", "_sx_or") \
      and all([simple(a) for a in e.args])
  if isinstance(e, ast.Lambda): return simple(e.body)
  return False


class Rewriter(ast.NodeTransformer):
  def __init__(self, filename):
    self.filename = filename
    self.fn = []          # enclosing scopes: "f", "c" or "l"
    self.cls = []
    self.tmp = 0

  # ---- scopes
  def visit_FunctionDef(self, n):
    n.decorator_list = [self.visit(d) for d in n.decorator_list]
    n.args = self.visit(n.args)
    self.fn.append("f")
    n.body = self.stmts(n.body)
    self.fn.pop()
    rt.FUNCS.append("%s:%s" % (self.filename, ".".join(self.cls + [n.name])))
    enter = ast.copy_location(ast.Expr(value=call("_sx_enter", ast.Num(n=len(rt.FUNCS) - 1))), n)
    k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Str) else 0
    n.body.insert(k, enter)
    return n

  def visit_ClassDef(self, n):
    n.bases = [self.visit(b) for b in n.bases]
    n.decorator_list = [self.visit(d) for d in n.decorator_list]
    self.fn.append("c")
    self.cls.append(n.name)
    n.body = self.stmts(n.body)
    self.cls.pop()
    self.fn.pop()
    return n

  def visit_Lambda(self, n):
    n.args = self.visit(n.args)
    self.fn.append("f")
    n.body = self.visit(n.body)
    self.fn.pop()
    return n

  def stmts(self, body):
    out = []
    for s in body:
      r = self.visit(s)
      if r is None: continue
      if isinstance(r, list): out.extend(r)
      else: out.append(r)
    return out or [ast.Pass()]

  def infn(self):
    return bool(self.fn) and self.fn[-1] == "f"

  # ---- expressions
  def visit_Call(self, n):
    if isinstance(n.func, ast.Name) and n.func.id == "sum" and self.infn() and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
      # what a condition leaves out of a sum is as good as zero
      for g in n.args[0].generators[-1:]:
        if g.ifs and not isinstance(n.args[0].elt, (ast.Str, ast.List, ast.Tuple)):
          test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
          n.args[0].elt = ast.IfExp(test=test, body=n.args[0].elt, orelse=ast.Num(n=0))
          g.ifs = []
          ast.copy_location(n.args[0].elt, n)
          ast.fix_missing_locations(n)
    self.generic_visit(n)
    f = n.func
    if isinstance(f, ast.Name) and (f.id in LEAVE or f.id.startswith("_sx_")):
      return n
    if isinstance(f, ast.Attribute) and not (f.attr.startswith("__") and not f.attr.endswith("__")):
      return ast.copy_location(ast.Call(func=name("_sx_callm"), args=[f.value, ast.Str(s=f.attr)] + list(n.args),
                                        keywords=n.keywords, starargs=n.starargs, kwargs=n.kwargs), n)
    return ast.copy_location(ast.Call(func=name("_sx_call"), args=[f] + list(n.args), keywords=n.keywords,
                                      starargs=n.starargs, kwargs=n.kwargs), n)

  def visit_Compare(self, n):
    self.generic_visit(n)
    if len(n.ops) == 1:
      op, l, r = n.ops[0], n.left, n.comparators[0]
      if isinstance(op, ast.Is): return ast.copy_location(call("_sx_is", l, r), n)
      if isinstance(op, ast.IsNot): return ast.copy_location(call("_sx_not", call("_sx_is", l, r)), n)
      if isinstance(op, ast.In): return ast.copy_location(call("_sx_in", l, r), n)
      if isinstance(op, ast.NotIn): return ast.copy_location(call("_sx_not", call("_sx_in", l, r)), n)
    elif len(n.ops) == 2 and self.infn() and simple(n.comparators[0]):
      a = ast.Compare(left=n.left, ops=[n.ops[0]], comparators=[n.comparators[0]])
      b = ast.Compare(left=n.comparators[0], ops=[n.ops[1]], comparators=[n.comparators[1]])
      return ast.copy_location(call("_sx_and", a, lam(b), ast.Num(n=1 if simple(n.comparators[1]) else 0)), n)
    return n

  def visit_UnaryOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Not): return ast.copy_location(call("_sx_not", n.operand), n)
    return n

  def visit_BoolOp(self, n):
    self.generic_visit(n)
    if not self.infn(): return n
    f = "_sx_and" if isinstance(n.op, ast.And) else "_sx_or"
    vs = list(n.values)
    r = vs[-1]
    for v in reversed(vs[:-1]):
      r = call(f, v, lam(r), ast.Num(n=1 if simple(r) else 0))
    return ast.copy_location(r, n)

  def visit_IfExp(self, n):
    self.generic_visit(n)
    if not self.infn(): return n
    if simple(n.body) and simple(n.orelse):
      return ast.copy_location(call("_sx_ifexp", n.test, lam(n.body), lam(n.orelse)), n)
    return n

  def visit_BinOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Mod): return ast.copy_location(call("_sx_mod", n.left, n.right), n)
    return n

  def visit_AugAssign(self, n):
    n.value = self.visit(n.value)
    return n

  def visit_Subscript(self, n):
    self.generic_visit(n)
    if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Index):
      return ast.copy_location(call("_sx_getitem", n.value, n.slice.value), n)
    return n

  # ---- statements
  def merge_assign(self, s):
    """(name, new value expression) when s only rebinds one local name to a simple expression"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and simple(s.value):
      return s.targets[0].id, s.value
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and simple(s.value):
      return s.target.id, ast.BinOp(left=name(s.target.id), op=s.op, right=s.value)
    return None

  def visit_If(self, n):
    self.generic_visit_if(n)
    if not self.infn(): return n
    if len(n.body) == 1 and len(n.orelse) <= 1:
      a = self.merge_assign(n.body[0])
      b = self.merge_assign(n.orelse[0]) if n.orelse else None
      if a and (not n.orelse or (b and b[0] == a[0])):
        self.tmp += 1
        t = "_sx_t%d" % self.tmp
        other = b[1] if b else name(a[0])
        pre = ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=n.test)
        merged = ast.Assign(
          targets=[ast.Tuple(elts=[ast.Name(id=t, ctx=ast.Store()), ast.Name(id=t + "v", ctx=ast.Store())], ctx=ast.Store())],
          value=call("_sx_merge", name(t), lam(a[1]), lam(other)))
        # t: None (merged into tv) or the truth of the test
        tail = ast.If(test=ast.Compare(left=name(t), ops=[ast.Is()], comparators=[name("None")]),
                      body=[ast.Assign(targets=[ast.Name(id=a[0], ctx=ast.Store())], value=name(t + "v"))],
                      orelse=[ast.If(test=name(t), body=n.body, orelse=n.orelse)])
        return [ast.copy_location(x, n) for x in (pre, merged, tail)]
    return n

  def generic_visit_if(self, n):
    n.test = self.visit(n.test)
    n.body = self.stmts(n.body)
    n.orelse = self.stmts(n.orelse) if n.orelse else []

  def loop(self, n):
    n.body = [ast.Expr(value=call("_sx_tick"))] + self.stmts(n.body)
    n.orelse = self.stmts(n.orelse) if n.orelse else []
    return n

  def visit_While(self, n):
    n.test = self.visit(n.test)
    return self.loop(n)

  def visit_For(self, n):
    n.target = self.visit(n.target)
    n.iter = self.visit(n.iter)
    return self.loop(n)

  def visit_TryExcept(self, n):
    n.body = self.stmts(n.body)
    wide = False
    for h in n.handlers:
      if h.type is not None: h.type = self.visit(h.type)
      if h.type is None or not (isinstance(h.type, ast.Name) and h.type.id in NARROW): wide = True
      h.body = self.stmts(h.body)
    if wide:
      # the engine's own unwinding passes through every handler
      n.handlers.insert(0, ast.copy_location(ast.ExceptHandler(type=name("_sx_Stop"), name=None, body=[ast.Raise(type=None, inst=None, tback=None)]), n))
    n.orelse = self.stmts(n.orelse) if n.orelse else []
    return n

  def visit_TryFinally(self, n):
    n.body = self.stmts(n.body)
    n.finalbody = self.stmts(n.finalbody)
    return n

  def visit_With(self, n):
    n.context_expr = self.visit(n.context_expr)
    n.body = self.stmts(n.body)
    return n

  def visit_Print(self, n):
    self.generic_visit(n)
    return ast.copy_location(ast.Expr(value=call("_sx_print", n.dest or name("None"), ast.Num(n=int(n.nl)), *n.values)), n)

  def visit_Import(self, n):
    out = []
    for a in n.names:
      if a.name.split(".")[0] in rt.MODELED:
        top = a.name.split(".")[0]
        if a.asname:
          v = call("_sx_import", ast.Str(s=a.name))
        else:
          v = call("_sx_import", ast.Str(s=top))
        out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=a.asname or top, ctx=ast.Store())], value=v), n))
      else:
        out.append(ast.copy_location(ast.Import(names=[a]), n))
    return out

  def visit_ImportFrom(self, n):
    if n.module and not n.level and n.module.split(".")[0] in rt.MODELED:
      out = []
      for a in n.names:
        out.append(ast.copy_location(ast.Assign(
          targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
          value=ast.Attribute(value=call("_sx_import", ast.Str(s=n.module)), attr=a.name, ctx=ast.Load())), n))
      return out
    return n


def script(src, filename):
  """code of a file run as a program"""
  rw = Rewriter(filename)
  rw.fn.append("f")
  tree = ast.parse(src + "\n", filename)
  tree.body = rw.stmts(tree.body)
  ast.fix_missing_locations(tree)
  rt.FUNCS.append("%s:<program>" % filename)
  return compile(tree, filename, "exec"), len(rt.FUNCS) - 1


def transform(src, filename, interruptible=False):
  tree = ast.parse(src, filename)
  if interruptible: tree = points.Points().visit(tree)
  doc = []
  body = tree.body
  rw = Rewriter(filename)
  # keep "from __future__" first
  fut = [s for s in body if isinstance(s, ast.ImportFrom) and s.module == "__future__"]
  rest = [s for s in body if not (isinstance(s, ast.ImportFrom) and s.module == "__future__")]
  tree.body = fut + rw.stmts(rest)
  ast.fix_missing_locations(tree)
  return tree


class Loader(object):
  """meta_path hook: packages `roots` are loaded rewritten from directory `base`"""
  def __init__(self, base, roots, stats):
    self.base = base
    self.roots = roots
    self.stats = stats

  def locate(self, full):
    p = os.path.join(self.base, *full.split("."))
    if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py"), True
    if os.path.isfile(p + ".py"): return p + ".py", False
    if os.path.isdir(p): return None, True
    return None, False

  def find_module(self, full, path=None):
    if full.split(".")[0] in self.roots:
      f, pkg = self.locate(full)
      if f or pkg: return self
    return None

  def load_module(self, full):
    if full in sys.modules: return sys.modules[full]
    f, pkg = self.locate(full)
    m = imp.new_module(full)
    m.__loader__ = self
    m.__file__ = f or "<namespace>"
    if pkg: m.__path__ = [os.path.join(self.base, *full.split("."))]
    sys.modules[full] = m
    try:
      if f:
        src = open(f).read()
        if not src.endswith("\n"): src += "\n"
        co = compile(transform(src, f, full.split(".")[0] in points.ROOTS), f, "exec")
        m.__dict__.update(rt.NAMES)
        m.__dict__["_sx_point"] = world.point
        exec co in m.__dict__
        self.stats[full] = f
    except:
      del sys.modules[full]
      raise
    return m
