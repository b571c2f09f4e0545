# Hash-consed SMT terms over Bool and fixed-width bit-vectors (Python 2 / Jython).
#
# A term is Bool (width 0) or a bit-vector (width > 0).  Constants hold a non-negative Python int.
# The factory functions only fold constants and a few trivial identities; everything else goes to
# the solver.


class Term(object):
  __slots__ = ("id", "op", "args", "width", "par", "sup")

  def __init__(self, id, op, args, width, par):
    self.id = id
    self.op = op
    self.args = args
    self.width = width
    self.par = par
    self.sup = None

  def __repr__(self):
    return "<%s>" % show(self)


_table = {}
_vars = {}
_count = [0]


def reset():
  """forget every term but the constants true and false"""
  _table.clear()
  _vars.clear()
  for t in (TRUE, FALSE): _table[(t.op, t.width, t.par)] = t


def _mk(op, args, width, par=None):
  key = (op, width, par) + tuple([a.id for a in args])
  t = _table.get(key)
  if t is None:
    t = Term(_count[0], op, args, width, par)
    _count[0] += 1
    _table[key] = t
  return t


def show(t, depth=6):
  if t.op == "const":
    return str(t.par) if t.width else ("true" if t.par else "false")
  if t.op == "var":
    return t.par
  if depth == 0:
    return "..."
  return "(%s%s %s)" % (t.op, "" if t.par is None else str(t.par), " ".join([show(a, depth - 1) for a in t.args]))


TRUE = _mk("const", (), 0, 1)
FALSE = _mk("const", (), 0, 0)


def const(v, w):
  return _mk("const", (), w, v & ((1 << w) - 1))


def boolc(b):
  return TRUE if b else FALSE


def var(name, w):
  t = _vars.get(name)
  if t is None:
    t = _mk("var", (), w, name)
    _vars[name] = t
  assert t.width == w, "variable %s redeclared" % name
  return t


def _c(t):
  return t.op == "const"


def sgn(v, w):
  return v - (1 << w) if v >> (w - 1) else v


def add(a, b):
  w = a.width
  if _c(a) and _c(b): return const(a.par + b.par, w)
  if _c(a) and a.par == 0: return b
  if _c(b) and b.par == 0: return a
  return _mk("bvadd", (a, b), w)


def sub(a, b):
  w = a.width
  if _c(a) and _c(b): return const(a.par - b.par, w)
  if _c(b) and b.par == 0: return a
  return _mk("bvsub", (a, b), w)


def mul(a, b):
  w = a.width
  if _c(a) and _c(b): return const(a.par * b.par, w)
  if _c(a): a, b = b, a
  if _c(b):
    v = b.par
    if v == 0: return b
    if v == 1: return a
    if v & (v - 1) == 0: return shl(a, v.bit_length() - 1)
  return _mk("bvmul", (a, b), w)


def band(a, b):
  w = a.width
  if _c(a): a, b = b, a
  if _c(b):
    if _c(a): return const(a.par & b.par, w)
    if b.par == 0: return b
    if b.par == (1 << w) - 1: return a
    rs = runs(b.par, w)
    if len(rs) <= 5:
      r = None
      for hi, lo, one in rs:
        x = extract(hi, lo, a) if one else const(0, hi - lo + 1)
        r = x if r is None else concat(r, x)
      return r
  if a is b: return a
  return _mk("bvand", (a, b), w)


def runs(v, w):
  """[(highest bit, lowest bit, value)] of the runs of equal bits of v, from the highest"""
  out = []
  hi = w - 1
  while hi >= 0:
    one = (v >> hi) & 1
    lo = hi
    while lo > 0 and (v >> (lo - 1)) & 1 == one: lo -= 1
    out.append((hi, lo, one))
    hi = lo - 1
  return out


def bor(a, b):
  w = a.width
  if _c(a): a, b = b, a
  if _c(b):
    if _c(a): return const(a.par | b.par, w)
    if b.par == 0: return a
    if b.par == (1 << w) - 1: return b
  if a is b: return a
  if b.op == "concat" and a.op != "concat": a, b = b, a
  if a.op == "concat" and b.op in ("const", "concat"):
    k = a.args[1].width
    return concat(bor(a.args[0], extract(w - 1, k, b)), bor(a.args[1], extract(k - 1, 0, b)))
  return _mk("bvor", (a, b), w)


def parity(t):
  """(atoms, constant) with t = constant xor the xor of the atoms; t has width 1"""
  if t.op == "xor1": return t.args, t.par
  if t.op == "const": return (), t.par
  return (t,), 0


def mkparity(atoms, k):
  atoms = sorted(atoms, key=lambda x: x.id)
  if not atoms: return const(k, 1)
  if len(atoms) == 1 and k == 0: return atoms[0]
  return _mk("xor1", tuple(atoms), 1, k)


def bxor1(a, b):
  x, k = parity(a)
  y, l = parity(b)
  return mkparity(set(x) ^ set(y), k ^ l)


def bxor(a, b):
  w = a.width
  if w == 1: return bxor1(a, b)
  if _c(a): a, b = b, a
  if _c(b):
    if _c(a): return const(a.par ^ b.par, w)
    if b.par == 0: return a
  if a is b: return const(0, w)
  if b.op == "concat" and a.op != "concat": a, b = b, a
  if a.op == "concat" and (b.op in ("const", "concat", "bvxor") or a.args[0].op == "const" or a.args[1].op == "const"):
    # bit by bit as far as that is free
    k = a.args[1].width
    return concat(bxor(a.args[0], extract(w - 1, k, b)), bxor(a.args[1], extract(k - 1, 0, b)))
  return _mk("bvxor", (a, b), w)


def bnot(a):
  if a.width == 1: return bxor1(a, const(1, 1))
  if _c(a): return const(~a.par, a.width)
  return _mk("bvnot", (a,), a.width)


def neg(a):
  if _c(a): return const(-a.par, a.width)
  return _mk("bvneg", (a,), a.width)


def shl(a, k):
  w = a.width
  if k == 0: return a
  if k >= w: return const(0, w)
  if _c(a): return const(a.par << k, w)
  return concat(extract(w - k - 1, 0, a), const(0, k))


def ashr(a, k):
  w = a.width
  if k == 0: return a
  if k >= w: k = w - 1
  return sext(extract(w - 1, k, a), k)


def extract(hi, lo, a):
  w = hi - lo + 1
  if w == a.width: return a
  if _c(a): return const(a.par >> lo, w)
  if a.op == "extract":
    return extract(hi + a.par[1], lo + a.par[1], a.args[0])
  if a.op == "concat":
    x, y = a.args
    if lo >= y.width: return extract(hi - y.width, lo - y.width, x)
    if hi < y.width: return extract(hi, lo, y)
    return concat(extract(hi - y.width, 0, x), extract(y.width - 1, lo, y))
  if a.op == "bvxor":
    return bxor(extract(hi, lo, a.args[0]), extract(hi, lo, a.args[1]))
  if a.op == "sext":
    x = a.args[0]
    if hi < x.width: return extract(hi, lo, x)
    if lo < x.width: return sext(extract(x.width - 1, lo, x), w - (x.width - lo))
  return _mk("extract", (a,), w, (hi, lo))


def concat(a, b):
  w = a.width + b.width
  if _c(a) and _c(b): return const((a.par << b.width) | b.par, w)
  if a.op == "extract" and b.op == "extract" and a.args[0] is b.args[0] and a.par[1] == b.par[0] + 1:
    return extract(a.par[0], b.par[1], a.args[0])
  if b.op == "concat" and _c(a) and _c(b.args[0]):
    return concat(concat(a, b.args[0]), b.args[1])
  if b.op == "concat" and a.op == "extract" and b.args[0].op == "extract" and a.args[0] is b.args[0].args[0] \
     and a.par[1] == b.args[0].par[0] + 1:
    return concat(concat(a, b.args[0]), b.args[1])
  if a.op == "concat" and a.args[1].op == "extract" and b.op == "extract" and a.args[1].args[0] is b.args[0] \
     and a.args[1].par[1] == b.par[0] + 1:
    return concat(a.args[0], concat(a.args[1], b))
  return _mk("concat", (a, b), w)


def zext(a, k):
  if k == 0: return a
  return concat(const(0, k), a)


def sext(a, k):
  if k == 0: return a
  if _c(a): return const(sgn(a.par, a.width), a.width + k)
  if a.op == "concat" and _c(a.args[0]) and a.args[0].par >> (a.args[0].width - 1) == 0:
    return zext(a, k)
  if a.op == "sext":
    return sext(a.args[0], k + a.width - a.args[0].width)
  return _mk("sext", (a,), a.width + k, k)


def udiv(a, b):
  if _c(a) and _c(b) and b.par: return const(a.par // b.par, a.width)
  return _mk("bvudiv", (a, b), a.width)


def urem(a, b):
  if _c(a) and _c(b) and b.par: return const(a.par % b.par, a.width)
  return _mk("bvurem", (a, b), a.width)


def eq(a, b):
  if a is b: return TRUE
  if a.width == 1 and (a.op == "xor1" or b.op == "xor1"):
    z = bxor1(a, b)
    if z.op == "const": return boolc(z.par == 0)
    x, k = parity(z)
    z, k = mkparity(x, 0), const(k, 1)
    return _mk("=", (z, k) if z.op == "xor1" else (min(z, k, key=lambda t: t.id), max(z, k, key=lambda t: t.id)), 0)
  if _c(a): a, b = b, a
  if b.op == "concat" and b.args[1].op == "xor1": a, b = b, a
  if a.op == "concat" and a.args[1].op == "xor1":
    return land(eq(a.args[0], extract(b.width - 1, 1, b)), eq(a.args[1], extract(0, 0, b)))
  if _c(b):
    if _c(a): return boolc(a.par == b.par)
    if a.width == 0: return a if b.par else lnot(a)
    if a.op == "concat":
      x, y = a.args
      if _c(x) or _c(y):
        return land(eq(x, const(b.par >> y.width, x.width)), eq(y, const(b.par, y.width)))
    if a.op == "ite" and _c(a.args[1]) and _c(a.args[2]):
      return lite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
  if a.op == "concat" and b.op == "concat" and a.args[0].width == b.args[0].width:
    return land(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
  if b.id < a.id: a, b = b, a
  return _mk("=", (a, b), 0)


def slt(a, b):
  if a is b: return FALSE
  if _c(a) and _c(b): return boolc(sgn(a.par, a.width) < sgn(b.par, b.width))
  return _mk("bvslt", (a, b), 0)


def ult(a, b):
  if a is b: return FALSE
  if _c(a) and _c(b): return boolc(a.par < b.par)
  return _mk("bvult", (a, b), 0)


def lnot(a):
  if _c(a): return boolc(not a.par)
  if a.op == "not": return a.args[0]
  return _mk("not", (a,), 0)


def land(a, b):
  if a is FALSE or b is FALSE: return FALSE
  if a is TRUE: return b
  if b is TRUE: return a
  if a is b: return a
  return _mk("and", (a, b), 0)


def lor(a, b):
  if a is TRUE or b is TRUE: return TRUE
  if a is FALSE: return b
  if b is FALSE: return a
  if a is b: return a
  return _mk("or", (a, b), 0)


def lite(c, a, b):
  return lor(land(c, a), land(lnot(c), b))


def ite(c, a, b):
  if c is TRUE: return a
  if c is FALSE: return b
  if a is b: return a
  if a.width == 0: return lite(c, a, b)
  r = linear(c, a, b)
  return _mk("ite", (c, a, b), a.width) if r is None else r


def bit_of(c):
  """the 1-bit term that is 1 when c holds, if c is about one bit"""
  if c.op == "not":
    r = bit_of(c.args[0])
    return None if r is None else bxor1(r, const(1, 1))
  if c.op == "=" and c.args[0].width == 1:
    return bxor1(bxor1(c.args[0], c.args[1]), const(1, 1))
  return None


def linear(c, a, b):
  """one of two values whose difference is a constant, chosen by a bit: the bit is added where they differ"""
  w = a.width
  if w > 64: return None
  t = bit_of(c)
  if t is None: return None
  diff = 0
  bs = []
  for i in range(w - 1, -1, -1):
    x, y = extract(i, i, a), extract(i, i, b)
    d = bxor1(x, y)
    if d.op != "const": return None
    diff = diff * 2 + d.par
    bs.append(y)
  r = None
  for hi, lo, one in runs(diff, w):
    if one:
      for i in range(hi, lo - 1, -1):
        x = bxor1(bs[w - 1 - i], t)
        r = x if r is None else concat(r, x)
    else:
      x = extract(hi, lo, b)
      r = x if r is None else concat(r, x)
  return r


def conj(ts):
  r = TRUE
  for t in ts: r = land(r, t)
  return r


# ---------------------------------------------------------------- evaluation

def evaluate(t, model, cache):
  """value of t (int) under model: {var name: int}; variables not in the model are 0"""
  v = cache.get(t.id)
  if v is not None: return v
  stack = [t]
  while stack:
    x = stack[-1]
    if x.id in cache:
      stack.pop()
      continue
    op = x.op
    if op == "const":
      cache[x.id] = x.par
      stack.pop()
      continue
    if op == "var":
      cache[x.id] = model.get(x.par, 0)
      stack.pop()
      continue
    todo = [a for a in x.args if a.id not in cache]
    if todo:
      stack.extend(todo)
      continue
    stack.pop()
    cache[x.id] = _eval1(x, [cache[a.id] for a in x.args])
  return cache[t.id]


def _eval1(x, v):
  op = x.op
  w = x.width
  m = (1 << w) - 1
  if op == "bvadd": return (v[0] + v[1]) & m
  if op == "bvsub": return (v[0] - v[1]) & m
  if op == "bvmul": return (v[0] * v[1]) & m
  if op == "bvand": return v[0] & v[1]
  if op == "bvor": return v[0] | v[1]
  if op == "bvxor": return v[0] ^ v[1]
  if op == "xor1":
    r = x.par
    for y in v: r ^= y
    return r
  if op == "bvnot": return ~v[0] & m
  if op == "bvneg": return -v[0] & m
  if op == "extract": return (v[0] >> x.par[1]) & m
  if op == "concat": return (v[0] << x.args[1].width) | v[1]
  if op == "sext": return sgn(v[0], x.args[0].width) & m
  if op == "bvudiv": return v[0] // v[1] if v[1] else m
  if op == "bvurem": return v[0] % v[1] if v[1] else v[0]
  if op == "=": return int(v[0] == v[1])
  if op == "bvslt":
    aw = x.args[0].width
    return int(sgn(v[0], aw) < sgn(v[1], aw))
  if op == "bvult": return int(v[0] < v[1])
  if op == "not": return int(not v[0])
  if op == "and": return int(v[0] and v[1])
  if op == "or": return int(v[0] or v[1])
  if op == "ite": return v[1] if v[0] else v[2]
  raise Exception("eval " + op)


def support(t):
  """names of the variables in t"""
  if t.sup is not None: return t.sup
  if t.op == "var":
    t.sup = frozenset([t.par])
  elif not t.args:
    t.sup = frozenset()
  else:
    stack = [t]
    while stack:
      x = stack[-1]
      todo = [a for a in x.args if a.sup is None]
      if todo:
        for a in todo:
          if a.op == "var": a.sup = frozenset([a.par])
          elif not a.args: a.sup = frozenset()
          else: stack.append(a)
        continue
      s = x.args[0].sup
      for a in x.args[1:]:
        if a.sup is not s: s = s | a.sup
      x.sup = s
      stack.pop()
  return t.sup
