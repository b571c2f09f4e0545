# Mutable state that outlives a call (module globals, class attributes, default arguments): recorded
# once after loading and put back before every run, so that runs are independent of each other.
import sys
import types

SKIP = (types.ModuleType,)


class Snapshot(object):
  def __init__(self, roots):
    self.lists = []
    self.dicts = []
    self.attrs = []
    self.classes = []
    self.globs = []
    seen = set()
    self.seen = seen
    self.keep = []
    for name, m in sorted(sys.modules.items()):
      if m is None or name.split(".")[0] not in roots: continue
      d = m.__dict__
      self.globs.append((d, dict(d)))
      for v in d.values():
        mod = getattr(v, "__module__", None)
        if mod is not None and isinstance(mod, str) and mod.split(".")[0] not in roots: continue
        self.visit(v)

  def visit(self, v):
    t = type(v)
    if t in (int, long, str, unicode, bool, float, type(None)): return
    if id(v) in self.seen: return
    self.seen.add(id(v))
    self.keep.append(v)
    if t is list:
      self.lists.append((v, list(v)))
      for x in v: self.visit(x)
    elif t is dict:
      self.dicts.append((v, dict(v)))
      for x in v.values(): self.visit(x)
    elif t is set:
      self.attrs.append((v, None, set(v)))
    elif t is tuple:
      for x in v: self.visit(x)
    elif t is types.FunctionType:
      for x in v.func_defaults or (): self.visit(x)
      for c in v.func_closure or ():
        try:
          self.visit(c.cell_contents)
        except (ValueError, AttributeError):
          pass
    elif t is staticmethod or t is classmethod:
      self.visit(v.__get__(None, object))
    elif t is types.MethodType:
      self.visit(v.im_func)
    elif t is types.ClassType or isinstance(v, type):
      if not self.ours(v): return
      d = dict(v.__dict__)
      if not hasattr(v, "__members__"): self.classes.append((v, d))
      for x in d.values(): self.visit(x)
    elif t is types.InstanceType or (hasattr(v, "__dict__") and self.ours(t)):
      if hasattr(t, "__members__"): return
      d = v.__dict__
      self.attrs.append((v, d, dict(d)))
      for x in d.values(): self.visit(x)

  def ours(self, c):
    return getattr(c, "__module__", "__builtin__").split(".")[0] in ("d7a", "modem", "engine")

  def restore(self):
    for o, items in self.lists:
      if len(o) != len(items) or not same(o, items): o[:] = items
    for o, items in self.dicts + self.globs:
      if len(o) != len(items) or not samed(o, items):
        for k in list(o.keys()):
          if k not in items: del o[k]
        o.update(items)
    for o, d, items in self.attrs:
      if d is None:
        o.clear()
        o.update(items)
      elif len(d) != len(items) or not samed(d, items):
        for k in list(d.keys()):
          if k not in items: delattr(o, k)
        for k, x in items.items(): setattr(o, k, x)
    for c, items in self.classes:
      d = c.__dict__
      for k in d.keys():
        if k not in items:
          try:
            delattr(c, k)
          except Exception:
            pass
      for k, x in items.items():
        if d.get(k) is not x:
          try:
            setattr(c, k, x)
          except Exception:
            pass


def same(a, b):
  for i in range(len(b)):
    if a[i] is not b[i]: return False
  return True


def samed(a, b):
  for k, x in b.items():
    if a.get(k, b) is not x: return False
  return True
