# What a harness sees.  The same harness runs symbolically (SymCtx, one run per path) and on the
# real code with concrete inputs (RealCtx, to replay counterexamples and witnesses).
import enum as _enum
import traceback
from engine import program


class Fail(BaseException):
  """a check failed in a real run"""
  def __init__(self, label, detail=""):
    self.label = label
    self.detail = detail


class Skip(BaseException):
  """an assumption does not hold in a real run"""


def crc_bitwise(bs, poly, init):
  r = init
  for b in bs:
    r ^= b << 8
    for _ in range(8):
      r = ((r << 1) ^ poly) & 0xFFFF if r & 0x8000 else r << 1
  return r


_crc_effects = {}


class Base(object):
  def crc16(self, bs, poly, init):
    """reference 16 bit checksum, most significant bit first; affine, so the contribution of each symbolic bit is fixed"""
    n = len(bs)
    if all([isinstance(b, (int, long)) for b in bs]): return crc_bitwise(bs, poly, init)
    key = (n, poly, init)
    if key not in _crc_effects:
      e = []
      for k in range(n):
        for j in range(8): e.append(crc_bitwise([0] * k + [128 >> j] + [0] * (n - k - 1), poly, 0))
      _crc_effects[key] = crc_bitwise([0] * n, poly, init), e
    zero, effects = _crc_effects[key]
    return self.affine(bs, effects, zero, 16)

  def byte(self, name): return self.int(name, 0, 255)

  def bytes(self, name, n):
    """list of n byte values"""
    return [self.int("%s[%d]" % (name, i), 0, 255) for i in range(n)]

  randoms = 0

  def next_random(self, lo, hi):
    if self.hold(lo > hi): raise ValueError("empty range")
    self.randoms += 1
    return self.int("random%d" % self.randoms, lo, hi)

  def attempt(self, f, *a, **k):
    """(value, None) or (None, exception)"""
    try:
      return f(*a, **k), None
    except Exception as e:
      return None, e

  def fail(self, label, detail=""):
    self.check(False, label)

  def same(self, a, b, label):
    self.check(self.eq(a, b), label)


class SymCtx(Base):
  symbolic = True

  def __init__(self, X):
    global S, T, rt                # not in the functions: importing is slow
    from engine import sym as S, terms as T, rt
    self.X = X

  def int(self, name, lo, hi):
    if lo == hi: return lo
    X = self.X
    # the same name may be used with another range on another path: another variable
    inner = "%s/%d..%d" % (name, lo, hi)
    X.used.append((name, inner))
    if lo == 0 and hi & (hi + 1) == 0:
      return S.mkuint(X.newvar(inner, hi.bit_length(), lambda v: v))
    w = S._bits_for(lo, hi)
    t = X.newvar(inner, w, lambda v: T.sgn(v, w))
    v = S.mkint(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    X.assume(T.land(T.lnot(S._ltt(v, lo)), T.lnot(S._ltt(hi, v))))
    return S.mkint(t, lo, hi)

  def bool(self, name):
    X = self.X
    X.used.append((name, name))
    return S.mkbool(X.newvar(name, 0, lambda v: bool(v)))

  def choice(self, name, options):
    options = list(options)
    if len(options) == 1: return options[0]
    i = self.int(name, 0, len(options) - 1)
    return options[S._conc(i)]

  def pick(self, name, lo, hi):
    """a concrete int, every value explored"""
    return self.choice(name, range(lo, hi + 1)) if lo != hi else lo

  def enum(self, name, cls, exclude=()):
    """a member of an Enum with integer values"""
    ms = [m for m in cls if m not in exclude]
    vals = sorted(set([m.value for m in ms]))
    if issubclass(cls, int) or not all([isinstance(v, int) and not isinstance(v, bool) for v in vals]):
      return self.choice(name, sorted(ms, key=lambda m: str(m.value)))
    v = self.int(name, vals[0], vals[-1])
    if isinstance(v, S.Sym):
      t = T.FALSE
      for x in vals: t = T.lor(t, S._eqt(v, x))
      self.X.assume(t)
    return S.mkenum(cls, v)

  def str(self, name, n):
    return S.mkstr(self.bytes(name, n))

  def bytearray(self, name, n):
    return S.SymBytearray(self.bytes(name, n))

  def tostr(self, bs):
    return S.mkstr(list(bs))

  def assume(self, c):
    self.X.assume(S.bterm(c))

  def check(self, c, label, known=None):
    t = S.bterm(c)
    if known is not None:
      kid, region = known
      if kid in self.X.known:
        r = S.bterm(region)
        self.X.note_known(kid, T.land(r, T.lnot(t)), label)
        self.X.check(T.lor(r, t), label)
        self.X.assume(t)   # as in a real run, nothing is checked beyond a listed failure
        return
    self.X.check(t, label)

  def known(self, kid, region, label):
    """declare that in this region the code is known to fail (a listed finding): true when it is to be skipped"""
    return False

  def eq(self, a, b):
    return S.mkbool(deep_eq(a, b))

  def both(self, *cs):
    return S.mkbool(T.conj([S.bterm(c) for c in cs]))

  def either(self, *cs):
    r = T.FALSE
    for c in cs: r = T.lor(r, S.bterm(c))
    return S.mkbool(r)

  def no(self, c):
    return S.s_not(c)

  def ite(self, c, a, b):
    return S.ite(c, a, b)

  def hold(self, v):
    """a concrete value (explores every feasible one)"""
    return rt.conc(v)

  def affine(self, bs, effects, zero, width):
    """zero xor the effects of the set bits of bs"""
    return S.mkuint(S.affine(bs, effects, zero, width))

  def observe(self, name, v):
    self.X.obs.append((name, v))

  def program(self, path, argv):
    """runs a program of the repository: (exit code or exception, what it printed)"""
    return program.symbolic(path, argv)

  def text(self, v):
    """what printing v shows"""
    return rt.to_text(v)

  def isint(self, v):
    return S.as_int(v) is not None and not isinstance(v, S.SymEnum)


def deep_eq(a, b):
  """Bool term of structural equality"""
  if a is b and not isinstance(a, S.Sym): return T.TRUE
  if isinstance(a, (S._Bytes, str, unicode, bytearray)) and isinstance(b, (S._Bytes, str, unicode, bytearray)):
    if isinstance(a, S.SymText) and isinstance(b, S.SymText): return S.text_eq(a, b)
    ba = isinstance(a, (bytearray, S.SymBytearray))
    bb = isinstance(b, (bytearray, S.SymBytearray))
    if ba != bb: return T.FALSE
    x, y = S.bytelist(a), S.bytelist(b)
    if x is None or y is None: return T.boolc(a == b)
    return S.bterm(S._seq_eq(x, y))
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) != len(b): return T.FALSE
    t = T.TRUE
    for x, y in zip(a, b):
      t = T.land(t, deep_eq(x, y))
      if t is T.FALSE: return t
    return t
  if isinstance(a, dict) and isinstance(b, dict):
    if set(a.keys()) != set(b.keys()): return T.FALSE
    t = T.TRUE
    for k in a: t = T.land(t, deep_eq(a[k], b[k]))
    return t
  if isinstance(a, S.Sym) or isinstance(b, S.Sym):
    if isinstance(a, S._Bytes) or isinstance(b, S._Bytes): return T.FALSE
    return S.bterm(a == b)
  if isinstance(a, _enum.Enum) or isinstance(b, _enum.Enum):
    return T.boolc(a == b)
  if has_dict(a) and has_dict(b):
    if a.__class__ is not b.__class__: return T.FALSE
    return deep_eq(a.__dict__, b.__dict__)
  return S.bterm(a == b)


def has_dict(o):
  return hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o)


def real_eq(a, b):
  if a is b: return True
  if isinstance(a, (str, unicode, bytearray)) and isinstance(b, (str, unicode, bytearray)):
    return isinstance(a, bytearray) == isinstance(b, bytearray) and a == b
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all([real_eq(x, y) for x, y in zip(a, b)])
  if isinstance(a, dict) and isinstance(b, dict):
    return set(a.keys()) == set(b.keys()) and all([real_eq(a[k], b[k]) for k in a])
  if isinstance(a, _enum.Enum) or isinstance(b, _enum.Enum): return a == b
  if type(a).__name__ in ("Bits", "ConstBitStream"): return bool(a == b)
  if has_dict(a) and has_dict(b):
    return a.__class__ is b.__class__ and real_eq(a.__dict__, b.__dict__)
  return bool(a == b)


class RealCtx(Base):
  symbolic = False

  def __init__(self, inputs, known=()):
    self.inputs = inputs
    self.knowns = known
    self.obs = []
    self.checked = []
    self.known_hit = []

  def _in(self, name, default):
    return self.inputs.get(name, default)

  def int(self, name, lo, hi):
    if lo == hi: return lo
    v = self._in(name, lo)
    if not lo <= v <= hi: raise Skip()
    return int(v)

  def bool(self, name): return bool(self._in(name, False))

  def choice(self, name, options):
    options = list(options)
    if len(options) == 1: return options[0]
    return options[self.int(name, 0, len(options) - 1)]

  def pick(self, name, lo, hi):
    return self.choice(name, range(lo, hi + 1)) if lo != hi else lo

  def enum(self, name, cls, exclude=()):
    ms = [m for m in cls if m not in exclude]
    vals = sorted(set([m.value for m in ms]))
    if issubclass(cls, int) or not all([isinstance(v, int) and not isinstance(v, bool) for v in vals]):
      return self.choice(name, sorted(ms, key=lambda m: str(m.value)))
    v = self.int(name, vals[0], vals[-1])
    if v not in vals: raise Skip()
    return cls(v)

  def str(self, name, n): return "".join([chr(x) for x in self.bytes(name, n)])
  def bytearray(self, name, n): return bytearray(self.bytes(name, n))
  def tostr(self, bs): return "".join([chr(x) for x in bs])

  def assume(self, c):
    if not c: raise Skip()

  def check(self, c, label, known=None):
    self.checked.append(label)
    if not c:
      if known is not None and known[0] in self.knowns and known[1]:
        self.known_hit.append(known[0])
        raise Skip()
      raise Fail(label)

  def eq(self, a, b): return real_eq(a, b)
  def both(self, *cs): return all([bool(c) for c in cs])
  def either(self, *cs): return any([bool(c) for c in cs])
  def no(self, c): return not c
  def ite(self, c, a, b): return a if c else b
  def hold(self, v): return v

  def affine(self, bs, effects, zero, width):
    for i, x in enumerate(bs):
      for k in range(8):
        if (x >> (7 - k)) & 1: zero ^= effects[i * 8 + k]
    return zero

  def observe(self, name, v): self.obs.append((name, v))

  def patch_random(self):
    """random numbers are inputs"""
    import random
    source = self.next_random
    random.randint = lambda a, b: source(a, b)
    random.randrange = lambda a, b=None: source(0, a - 1) if b is None else source(a, b - 1)
    random.getrandbits = lambda n: source(0, (1 << n) - 1)
    random.choice = lambda xs: xs[source(0, len(xs) - 1)]

  def program(self, path, argv): return program.real(path, argv)
  def text(self, v): return str(v)
  def isint(self, v): return isinstance(v, (int, long))


def plain(v, ev):
  """JSON value of an observation; ev evaluates symbolic leaves"""
  v = ev(v)
  if v is None or isinstance(v, (bool, int, long, float)): return v if not isinstance(v, _enum.Enum) else str(v)
  if isinstance(v, bytearray): return ["bytearray"] + list(v)
  if isinstance(v, (str, unicode)): return "s:" + repr(str(v)) if all([ord(c) < 256 for c in v]) else "u"
  if isinstance(v, (list, tuple)): return [plain(x, ev) for x in v]
  if isinstance(v, dict): return dict([(str(plain(k, ev)), plain(x, ev)) for k, x in v.items()])
  if isinstance(v, _enum.Enum): return str(v)
  return "<%s>" % v.__class__.__name__
