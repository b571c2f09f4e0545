# Run-time support of the rewritten code: every call, comparison and subscript of the code under
# test arrives here, and is modelled when a symbolic value is involved.
import __builtin__
import enum as _enum
import math as _math
import re
import string as _string
import sys
import types as _types

from engine import sym as S
from engine import terms as T
from engine.explore import NoFork, Stop

MODELED = {}              # module name -> model module, see engine.models
FUNCS = []
ENTERED = set()

SymInt, SymBool, SymStr, SymBytearray, SymEnum, SymFloat, SymText, Sym = \
  S.SymInt, S.SymBool, S.SymStr, S.SymBytearray, S.SymEnum, S.SymFloat, S.SymText, S.Sym

MISSING = object()


def sx_import(n):
  m = MODELED[n.split(".")[0]]
  for p in n.split(".")[1:]: m = getattr(m, p)
  return m


def sx_tick():
  if S.X is not None: S.X.tick()


def sx_enter(k):
  ENTERED.add(k)
  if S.X is not None: S.X.tick()


def has_sym(v, depth=2):
  if isinstance(v, Sym): return True
  if depth and isinstance(v, (list, tuple)):
    for x in v:
      if has_sym(x, depth - 1): return True
  return False


def shows_sym(v):
  """a text of v would hold something symbolic"""
  if isinstance(v, Sym): return True
  if type(v) in (list, tuple): return any([shows_sym(x) for x in v])
  if type(v) is dict: return any([shows_sym(x) for x in v.keys()]) or any([shows_sym(x) for x in v.values()])
  return False


def conc(v, depth=3):
  """a fully concrete native value for v (forks over the feasible values)"""
  if isinstance(v, SymBytearray): return bytearray([S._conc(x) for x in v.e])
  if isinstance(v, SymStr): return v.concrete() if not v.uni else unicode(v.concrete())
  if isinstance(v, (SymInt, SymFloat)): return v.concretize()
  if isinstance(v, SymBool): return bool(v)
  if isinstance(v, SymEnum): return v.member()
  if depth:
    if type(v) is list: return [conc(x, depth - 1) for x in v]
    if type(v) is tuple: return tuple([conc(x, depth - 1) for x in v])
    if type(v) is dict: return dict([(conc(k, depth - 1), conc(x, depth - 1)) for k, x in v.items()])
  return v


# ------------------------------------------------------------------ operators

def sx_is(a, b):
  if isinstance(a, Sym) or isinstance(b, Sym):
    if a is b: return True
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)): return a == b
    if isinstance(b, SymBool) and isinstance(a, bool): return b == a
    if isinstance(a, (SymEnum, _enum.Enum)) and isinstance(b, (SymEnum, _enum.Enum)): return a == b
    if isinstance(a, SymInt) and isinstance(b, (int, SymInt)) and not isinstance(b, bool): return a == b
    if isinstance(b, SymInt) and isinstance(a, int) and not isinstance(a, bool): return b == a
    return False
  return a is b


def sx_in(x, c):
  if isinstance(c, (SymStr, SymBytearray)): return c.contains(x)
  if isinstance(x, Sym):
    if isinstance(c, (list, tuple, set, frozenset)) or type(c) is dict or type(c).__name__ in ("listiterator", "xrange"):
      r = T.FALSE
      for y in c:
        if y is x: return True
        r = T.lor(r, S.bterm(x == y))
      return S.mkbool(r)
    if isinstance(c, str):
      return S.SymBytearray([ord(k) for k in c]).contains(x)
  elif type(c) in (list, tuple) and has_sym(c, 1):
    r = T.FALSE
    for y in c:
      if y is x: return True
      r = T.lor(r, S.bterm(x == y))
    return S.mkbool(r)
  return x in c


def sx_not(v):
  if isinstance(v, SymBool): return S.mkbool(T.lnot(v.t))
  if isinstance(v, SymInt): return v == 0
  return not v


def _spec(f):
  x = S.X
  x.spec += 1
  try:
    return f()
  finally:
    x.spec -= 1


def sx_and(a, f, simple):
  if isinstance(a, SymBool) and simple:
    try:
      b = _spec(f)
      if isinstance(b, (bool, SymBool)): return S.mkbool(T.land(a.t, S.bterm(b)))
    except Stop:
      raise
    except (Exception, NoFork):
      pass
  if not a: return a if not isinstance(a, SymBool) else False
  return f()


def sx_or(a, f, simple):
  if isinstance(a, SymBool) and simple:
    try:
      b = _spec(f)
      if isinstance(b, (bool, SymBool)): return S.mkbool(T.lor(a.t, S.bterm(b)))
    except Stop:
      raise
    except (Exception, NoFork):
      pass
  if a: return a if not isinstance(a, SymBool) else True
  return f()


def sx_ifexp(c, f, g):
  if isinstance(c, (SymBool, SymInt)):
    try:
      return _spec(lambda: S.ite(c, f(), g()))
    except Stop:
      raise
    except (Exception, NoFork):
      pass
  return f() if c else g()


def sx_merge(c, f, g):
  """(None, merged value) or (truth of c, None)"""
  if isinstance(c, (SymBool, SymInt)):
    try:
      return None, _spec(lambda: S.ite(c, f(), g()))
    except Stop:
      raise
    except (Exception, NoFork):
      pass
  return (True, None) if c else (False, None)


def sx_getitem(o, k):
  if isinstance(k, Sym) and isinstance(o, dict):
    r = dict_get(o, k)
    if r is MISSING: raise KeyError(k)
    return r
  if isinstance(k, SymInt) and type(o) in (list, tuple) and o:
    vals = o
    if all([S.as_int(x) is not None and not isinstance(x, _enum.Enum) and not isinstance(x, bool) for x in vals]):
      return SymListView(o)[k]
    return o[k.concretize()]
  if isinstance(k, SymInt) and isinstance(o, str):
    return S.mkstr([S.SymBytearray([ord(c) for c in o])._index(k)])
  if isinstance(k, SymEnum) or isinstance(k, SymStr):
    return o[conc(k)]
  return o[k]


TABLES = {}


def affine_table(o, k):
  """an element of a table whose entries are the exclusive or of those of the set bits of their number (one of a checksum, say)"""
  n = len(o)
  if n < 16 or n & (n - 1) or not all([isinstance(x, (int, long)) and 0 <= x < 1 << 64 for x in o]): return None
  key = tuple(o)
  if key not in TABLES:
    z = o[0]
    ok = all([o[i] == o[i & (i - 1)] ^ o[i & -i] ^ z for i in range(1, n)])
    TABLES[key] = ok
  if not TABLES[key]: return None
  bits = n.bit_length() - 1
  w = max([x.bit_length() for x in o] + [1])
  return affine_element(o, k, bits, w)


def affine_element(o, k, bits, w):
  t = T.extract(bits - 1, 0, S._tw(k, bits + 1))
  r = None
  for j in range(w - 1, -1, -1):
    x = T.const((o[0] >> j) & 1, 1)
    for i in range(bits):
      if ((o[1 << i] ^ o[0]) >> j) & 1: x = T.bxor1(x, T.extract(i, i, t))
    r = x if r is None else T.concat(r, x)
  return S.mkuint(r)


class SymListView(object):
  def __init__(self, o): self.o = o

  def __getitem__(self, k):
    n = len(self.o)
    if k.lo >= 0 and k.hi < n:
      r = affine_table(self.o, k)
      if r is not None: return r
    if S.X.branch(T.lnot(T.land(T.lnot(S._ltt(k, -n)), S._ltt(k, n)))): raise IndexError("index out of range")
    if k.lo < 0: return self.o[k.concretize()]
    r = self.o[-1]
    for i in range(n - 2, -1, -1): r = S.ite_int(S._eqt(k, i), S.as_int(self.o[i]), S.as_int(r))
    return r


def dict_get(d, k):
  for key in sorted_keys(d):
    if S.X.branch(S.bterm(k == key)): return d[key]
  return MISSING


def sorted_keys(d):
  ks = list(d.keys())
  try:
    return sorted(ks, key=lambda x: x.value if isinstance(x, _enum.Enum) else x)
  except Exception:
    return ks


# ------------------------------------------------------------------ text

def is_user(o):
  """an instance of a class written in Python"""
  t = type(o)
  return t is _types.InstanceType or getattr(t, "__module__", "__builtin__") not in ("__builtin__", "exceptions")


def user_str(o):
  for n in ("__str__", "__repr__"):
    m = getattr(type(o) if type(o) is not _types.InstanceType else o.__class__, n, None)
    if m is not None and isinstance(m, _types.MethodType) and hasattr(m, "im_func") and isinstance(m.im_func, _types.FunctionType):
      return m(o)
  return None


def to_text(o):
  """str(o), possibly symbolic"""
  if isinstance(o, SymText): return o
  if isinstance(o, SymStr): return o
  if isinstance(o, SymBytearray): return S.mkstr(o.e)
  if isinstance(o, SymInt): return S.mktext([(o, 10, " ", 0, ">")])
  if isinstance(o, SymBool): return S.mktext([S.Later(o)])
  if isinstance(o, SymEnum): return to_text(o.member())
  if isinstance(o, SymFloat): return str(o.concretize())
  if isinstance(o, Exception) and has_sym(getattr(o, "args", ())):
    if len(o.args) == 1: return to_text(o.args[0])
    return "<exception args>"
  if shows_sym(o): return sx_repr(o)
  if isinstance(o, _enum.Enum):
    u = user_str(o)
    return u if u is not None else str(o)
  if is_user(o):
    u = user_str(o)
    if u is not None: return u
  return str(o)


_SPEC = None


def fmt_value(o, spec):
  global _SPEC
  if isinstance(spec, SymStr): spec = conc(spec)
  if isinstance(o, (SymInt, SymBool)):
    if isinstance(o, SymBool):
      if spec == "": return S.mktext([S.Later(o)])
      o = o.toint()
    if _SPEC is None: _SPEC = re.compile(r"^(?:(.)?([<>=^]))?(#?)(0?)(\d*)([dxXb]?)$")
    m = _SPEC.match(spec)
    if m and not m.group(3) and m.group(6) != "X":
      fill, align, _, zero, width, ty = m.groups()
      if zero and not align: fill, align = "0", "="
      return S.mktext([(o, {"": 10, "d": 10, "x": 16, "b": 2}[ty], fill or " ", int(width or 0), align or ">")])
    return format(conc(o), spec)
  if isinstance(o, (SymStr, SymBytearray, SymEnum)) or (is_user(o) and not hasattr(type(o), "__format_user__")):
    t = to_text(o)
    if spec == "": return t
    if isinstance(t, str): return format(t, spec)
    m = re.match(r"^(?:(.)?([<>^]))?(\d*)s?$", spec)
    if m:
      w = int(m.group(3) or 0)
      f = m.group(1) or " "
      if m.group(2) == ">": return t.rjust(w, f)
      if m.group(2) != "^": return t.ljust(w, f)
    return format(conc(t), spec)
  if shows_sym(o): return sx_repr(o)
  return format(o, spec)


def str_format(fmt, args, kw):
  out = []
  auto = [0]
  for lit, field, spec, conv in _string.Formatter().parse(fmt):
    if lit: out.append(lit)
    if field is None: continue
    if "{" in (spec or ""): 
      spec = str_format(spec, args[auto[0]:] if field == "" else args, kw)
    m = re.match(r"^([^.\[]*)(.*)$", field)
    first, rest = m.group(1), m.group(2)
    if first == "":
      o = args[auto[0]]
      auto[0] += 1
    elif first.isdigit(): o = args[int(first)]
    else: o = kw[first]
    for a, i in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
      if a: o = getattr(o, a)
      else: o = o[int(i) if i.isdigit() else i]
    if conv == "r": o = sx_repr(o)
    elif conv == "s": o = to_text(o)
    out.append(fmt_value(o, spec or ""))
  return S.mktext(out)


def sx_repr(o):
  if not shows_sym(o): return repr(o)
  if isinstance(o, (SymInt, SymBool, SymFloat)): return to_text(o)
  if type(o) in (list, tuple):
    out = []
    for x in o: out += [", ", sx_repr(x)]
    return S.mktext(["[" if type(o) is list else "("] + out[1:] + ["]" if type(o) is list else ",)" if len(o) == 1 else ")"])
  if type(o) is dict:
    out = []
    for k, x in o.items(): out += [", ", sx_repr(k), ": ", sx_repr(x)]
    return S.mktext(["{"] + out[1:] + ["}"])
  if isinstance(o, SymEnum): return repr(o.member())
  if isinstance(o, SymStr):
    parts = o.parts if S._lazy(o) else [o]
    t = T.TRUE
    for p in parts:
      if isinstance(p, (tuple, S.Later)): continue
      for x in S.bytelist(p):
        if isinstance(x, (int, long)): ok = T.boolc(32 <= x < 127 and x not in (39, 92))
        else: ok = T.land(T.land(T.lnot(S._ltt(x, 32)), S._ltt(x, 127)), T.lnot(T.lor(S._eqt(x, 39), S._eqt(x, 92))))
        t = T.land(t, ok)
    if t is T.TRUE or S.X.branch(t): return S.mktext(["'"] + parts + ["'"])
    return repr(o.concrete())
  return "<repr>"


def sx_mod(a, b):
  if isinstance(a, (str, unicode)):
    vals = list(b) if isinstance(b, tuple) else [b]
    if not any([isinstance(v, Sym) or is_user(v) or has_sym(v) for v in vals]) and not isinstance(b, dict): return a % b
    if isinstance(b, dict): return a % conc(b)
    out, pos, k = [], 0, 0
    for m in re.finditer(r"%([-#0 +]*)(\d*)(?:\.\d+)?([sdxXriuc%])", a):
      out.append(a[pos:m.start()])
      pos = m.end()
      if m.group(3) == "%":
        out.append("%")
        continue
      v = vals[k]
      k += 1
      if not isinstance(v, Sym) and not is_user(v):
        out.append(m.group(0) % (v,) if not has_sym(v, 3) else "<%s>" % type(v).__name__)
        continue
      c = m.group(3)
      if c == "s": out.append(to_text(v)) if not m.group(2) else out.append(m.group(0) % conc(v))
      elif c in "dixu" and isinstance(v, (SymInt, SymBool)) and set(m.group(1)) <= set("0"):
        w = int(m.group(2) or 0)
        z = "0" in m.group(1)
        out.append(S.mktext([(S.as_int(v), 16 if c == "x" else 10, "0" if z else " ", w, "=" if z else ">")]))
      elif c == "r": out.append("<repr>")
      else: out.append(m.group(0) % (conc(v),))
    out.append(a[pos:])
    if k != len(vals): raise TypeError("not all arguments converted during string formatting")
    return S.mktext(out)
  if isinstance(a, SymStr): return conc(a) % conc(b)
  return a % b


# ------------------------------------------------------------------ builtins

INTS = (int, long)


def type_of(v):
  if isinstance(v, SymInt): return int
  if isinstance(v, SymBool): return bool
  if isinstance(v, SymStr): return unicode if v.uni else str
  if isinstance(v, SymBytearray): return bytearray
  if isinstance(v, SymEnum): return v.cls
  if isinstance(v, SymFloat): return float
  return type(v)


def m_type(*a):
  if len(a) == 1: return type_of(a[0])
  return type(*a)


def m_isinstance(v, c):
  if isinstance(v, Sym):
    if isinstance(c, tuple):
      for x in c:
        if m_isinstance(v, x): return True
      return False
    t = type_of(v)
    if isinstance(v, SymInt) and c is long: return False
    if c is t: return True
    try:
      return issubclass(t, c)
    except TypeError:
      return False
  return isinstance(v, c)


def m_int(*a, **k):
  if not a: return 0
  v = a[0]
  if len(a) > 1 or k:
    if isinstance(v, SymStr): return parse_int(v, S._conc(a[1]) if len(a) > 1 else S._conc(k["base"]))
    return int(*conc(list(a)), **k)
  if isinstance(v, SymInt): return v
  if isinstance(v, SymBool): return v.toint()
  if isinstance(v, SymFloat): return v.trunc()
  if isinstance(v, SymStr): return parse_int(v, 10)
  if isinstance(v, SymBytearray): return parse_int(v, 10)
  if isinstance(v, SymEnum): return int(v.member())
  if is_user(v) and not isinstance(v, (int, long, str, float)) and hasattr(v, "__int__"): return v.__int__()
  return int(v)


def parse_int(v, base):
  if isinstance(v, SymText) and v._e is None and len(v.parts) == 1 and isinstance(v.parts[0], tuple) \
     and v.parts[0][1] == base and v.parts[0][2] in "0 ":
    return v.parts[0][0]
  if base not in (10, 16): return int(conc(v), base)
  es = v.e
  # white space, sign and digits
  r = 0
  if not es: raise ValueError("invalid literal for int()")
  i, j = 0, len(es)
  def isspace(x):
    if not isinstance(x, SymInt): return x in (9, 10, 11, 12, 13, 32)
    return S.X.branch(T.lor(S._eqt(x, 32), T.land(T.lnot(S._ltt(x, 9)), T.lnot(S._ltt(13, x)))))
  while i < j and isspace(es[i]): i += 1
  while j > i and isspace(es[j - 1]): j -= 1
  neg = False
  if i < j:
    if es[i] == 45:
      neg = True
      i += 1
    elif es[i] == 43: i += 1
  if i >= j: raise ValueError("invalid literal for int()")
  for x in es[i:j]:
    d = T.land(T.lnot(S._ltt(x, 48)), T.lnot(S._ltt(57, x)))
    if S.X.branch(d):
      r = r * base + clip(x - 48, 0, 9)
    elif base == 16:
      try:
        r = r * base + S._unhex(x if isinstance(x, SymInt) else x)
      except TypeError:
        raise ValueError("invalid literal for int()")
    else:
      raise ValueError("invalid literal for int() with base 10")
  return -r if neg else r


def clip(v, lo, hi):
  """v on a path where lo <= v <= hi is known"""
  if not isinstance(v, SymInt): return v
  return S.mkint(v.t, max(lo, v.lo), min(hi, v.hi))


def m_bool(v=False):
  if isinstance(v, SymBool): return v
  t = S.truth(v) if isinstance(v, Sym) else None
  if t is not None: return S.mkbool(t)
  return bool(v)


def m_float(v=0.0):
  if isinstance(v, (SymInt, SymBool, SymFloat)):
    f = S.tofloat(v)
    return S.mkfloat(f.n, f.k)
  if isinstance(v, SymStr): return float(conc(v))
  return float(v)


def m_str(*a):
  if not a: return ""
  return to_text(a[0])


def sx_print(dest, newline, *vs):
  parts = []
  for v in vs: parts += [" ", to_text(v)]
  t = S.mktext(parts[1:] + ["\n" if newline else " "])
  out = sys.stdout if dest is None else dest
  if hasattr(out, "write_text"): out.write_text(t)
  else: out.write(t if isinstance(t, str) else "<text>\n")


def m_unicode(*a):
  if a and isinstance(a[0], SymStr):
    return S.mkstr(a[0].e, True) if len(a) == 1 else a[0].decode(*a[1:])
  return unicode(*conc(list(a)))


def m_len(v):
  if is_user(v):
    m = getattr(v, "__len__", None)
    if m is not None:
      r = m()
      if isinstance(r, Sym): return r
      return r
  return len(v)


def m_ord(c):
  if isinstance(c, (SymStr, SymBytearray)):
    if len(c.e) != 1: raise TypeError("ord() expected a character, but string of length %d found" % len(c.e))
    return c.e[0]
  return ord(conc(c))


def m_chr(v):
  i = S.as_int(v)
  if isinstance(i, SymInt):
    if S.X.branch(T.lor(S._ltt(i, 0), S._ltt(255, i))): raise ValueError("chr() arg not in range(256)")
    return S.mkstr([clip(i, 0, 255)])
  return chr(v)


def m_bytearray(*a, **k):
  if not a: return SymBytearray()
  v = a[0]
  i = S.as_int(v)
  if i is not None: return SymBytearray([0] * S._conc(i))
  if isinstance(v, unicode): return SymBytearray(list(bytearray(*a, **k)))
  if isinstance(v, SymStr) and v.uni:
    if len(a) < 2: raise TypeError("string argument without an encoding")
    return SymBytearray(list(v.encode(a[1]).e))
  b = S.bytelist(v)
  if b is not None: return SymBytearray(list(b))
  return SymBytearray([SymBytearray.byte(x) for x in v])


def m_map(f, *its):
  if f is None: return map(f, *its)
  if len(its) == 1: return [sx_call(f, x) for x in its[0]]
  n = max([len(list(i)) for i in its])
  return [sx_call(f, *xs) for xs in map(None, *its)]


def m_filter(f, it):
  r = [x for x in it if (x if f is None else sx_call(f, x))]
  if isinstance(it, tuple): return tuple(r)
  if isinstance(it, str): return "".join(r)
  return r


def m_reduce(f, it, *init):
  it = iter(it)
  acc = init[0] if init else next(it)
  for x in it: acc = sx_call(f, acc, x)
  return acc


def m_sum(it, start=0):
  r = start
  for x in it: r = r + x
  return r


def m_any(it):
  r = T.FALSE
  for x in it:
    t = S.truth(x)
    if t is None: t = T.boolc(bool(x))
    if t is T.TRUE: return True
    r = T.lor(r, t)
  return S.mkbool(r)


def m_all(it):
  r = T.TRUE
  for x in it:
    t = S.truth(x)
    if t is None: t = T.boolc(bool(x))
    if t is T.FALSE: return False
    r = T.land(r, t)
  return S.mkbool(r)


def _minmax(better):
  def f(*a, **k):
    key = k.get("key")
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs: raise ValueError("empty sequence")
    if not any([isinstance(x, Sym) for x in xs]) and key is None:
      return (min if better is _lt else max)(*a, **k)
    best = xs[0]
    kb = sx_call(key, best) if key else best
    for x in xs[1:]:
      kx = sx_call(key, x) if key else x
      c = better(kx, kb)
      try:
        best, kb = S.ite(c, x, best), S.ite(c, kx, kb)
      except NoFork:
        if c: best, kb = x, kx
    return best
  return f


def _lt(a, b): return a < b
def _gt(a, b): return a > b


def m_range(*a): return range(*conc(a))
def m_xrange(*a): return xrange(*conc(a))


def m_abs(v):
  return abs(v)


def m_divmod(a, b): return divmod(a, b) if not (isinstance(a, Sym) or isinstance(b, Sym)) else (a // b, a % b)


def m_pow(*a):
  if len(a) == 2:
    if isinstance(a[0], Sym) or isinstance(a[1], Sym): return a[0] ** a[1]
  return pow(*conc(a))


def m_hex(v):
  if isinstance(v, SymInt):
    return S.mktext(["0x" if v.lo >= 0 or not (v < 0) else "-0x", (abs(v), 16, " ", 0, ">")])
  return hex(conc(v))


def m_bin(v): return bin(conc(v))


def m_round(v, *a):
  return round(conc(v), *conc(a))


def m_format(v, spec=""):
  return fmt_value(v, spec)


def m_hash(v): return hash(v)


def m_list(*a): return list(*a)


def m_repr(v): return sx_repr(v)


def m_id(v): return id(v)


def m_sorted(it, **k):
  return sorted(it, **k)


MODELS = {
  isinstance: m_isinstance, type: m_type, int: m_int, long: m_int, bool: m_bool, float: m_float,
  str: m_str, unicode: m_unicode, len: m_len, ord: m_ord, chr: m_chr, bytearray: m_bytearray,
  map: m_map, filter: m_filter, reduce: m_reduce, sum: m_sum, any: m_any, all: m_all,
  min: _minmax(_lt), max: _minmax(_gt), range: m_range, xrange: m_xrange, abs: m_abs, divmod: m_divmod, pow: m_pow,
  hex: m_hex, bin: m_bin, round: m_round, format: m_format, repr: m_repr,
}

# natives that only store, iterate or compare what they are given
PASS = set([list, tuple, dict, set, frozenset, enumerate, zip, reversed, iter, next, getattr, setattr, hasattr, delattr,
            object, property, staticmethod, classmethod, sorted, id, callable, cmp, issubclass, hash, slice, vars])

USERTYPES = (_types.FunctionType, _types.ClassType, _types.GeneratorType)


def python_level(f):
  t = type(f)
  if t is _types.FunctionType: return True
  if t is _types.MethodType:
    return isinstance(f.im_func, _types.FunctionType)
  if t is _types.ClassType or t is _types.InstanceType: return True
  if isinstance(f, type): return is_user_class(f) or issubclass(f, BaseException)
  return is_user(f)


def is_user_class(c):
  return getattr(c, "__module__", "__builtin__") not in ("__builtin__", "exceptions")


def sx_call(*a, **k):
  f, a = a[0], a[1:]   # no names a keyword argument could clash with
  try:
    m = MODELS.get(f)
  except TypeError:
    m = None
  if m is not None: return m(*a, **k)
  if isinstance(f, _enum.EnumMeta):
    if a and isinstance(a[0], Sym): return S.enum_call(f, a[0])
    return f(*a, **k)
  if python_level(f): return f(*a, **k)
  try:
    if f in PASS: return f(*a, **k)
  except TypeError:
    pass
  for x in a:
    if has_sym(x): break
  else:
    for x in k.values():
      if has_sym(x): break
    else:
      return f(*a, **k)
  s = getattr(f, "__self__", None)
  if isinstance(s, (list, set)) : return f(*a, **k)
  if isinstance(s, (str, unicode, dict)): return sx_callm(s, f.__name__, *a, **k)
  return f(*[conc(x) for x in a], **dict([(n, conc(x)) for n, x in k.items()]))


def sx_callm(*a, **k):
  o, attr, a = a[0], a[1], a[2:]
  t = type(o)
  if t is str or t is unicode:
    if attr == "format":
      for x in list(a) + k.values():
        if isinstance(x, Sym) or is_user(x) or has_sym(x): return str_format(o, a, k)
      return o.format(*a, **k)
    if attr == "join":
      xs = list(a[0]) if not isinstance(a[0], Sym) else list(a[0])
      if any([isinstance(x, Sym) for x in xs]):
        if all([isinstance(x, (str, SymStr)) for x in xs]):
          parts = []
          for i, x in enumerate(xs):
            if i and o: parts.append(o)
            parts.append(x)
          if any([isinstance(x, SymText) for x in xs]): return S.mktext(parts)
          es = []
          for p in parts: es += S.bytelist(p)
          return S.mkstr(es)
        raise TypeError("sequence item: expected string")
      return o.join(xs)
    if attr == "encode" or attr == "decode" or not any([has_sym(x) for x in a]):
      return getattr(o, attr)(*a, **k)
    w = SymStr.__new__(SymStr)
    w._e = [ord(c) for c in o]
    w.hexof = None
    w.uni = t is unicode
    if hasattr(w, attr): return getattr(w, attr)(*a, **k)
    return getattr(o, attr)(*conc(a), **k)
  if o is bytearray and attr == "fromhex" and isinstance(a[0], Sym): return S.fromhex(a[0])
  if t is dict and a and isinstance(a[0], Sym) and attr in ("get", "has_key", "pop"):
    if attr == "get":
      r = dict_get(o, a[0])
      return (a[1] if len(a) > 1 else None) if r is MISSING else r
    if attr == "has_key": return dict_get(o, a[0]) is not MISSING
    return o.pop(conc(a[0]), *a[1:])
  if isinstance(o, SymStr) and attr == "format": return str_format(conc(o), a, k)
  f = getattr(o, attr)
  if isinstance(o, Sym): return f(*a, **k)
  if t is list or t is set or t is dict: return f(*a, **k)
  return sx_call(f, *a, **k)


NAMES = {
  "_sx_call": sx_call, "_sx_callm": sx_callm, "_sx_is": sx_is, "_sx_in": sx_in, "_sx_not": sx_not, "_sx_and": sx_and,
  "_sx_or": sx_or, "_sx_ifexp": sx_ifexp, "_sx_merge": sx_merge, "_sx_getitem": sx_getitem, "_sx_mod": sx_mod,
  "_sx_tick": sx_tick, "_sx_print": sx_print, "_sx_enter": sx_enter, "_sx_import": sx_import, "_sx_Stop": (Stop, NoFork),
}
