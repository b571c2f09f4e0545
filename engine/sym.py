# Symbolic values.  A value is symbolic in its contents only: lengths and shapes are concrete (forked).
import enum as _enum

from engine import terms as T
from engine.explore import NoFork

X = None          # the running Explorer


def setx(x):
  global X
  X = x


class Sym(object):
  """base class of every symbolic value"""
  __slots__ = ()


def is_sym(v):
  return isinstance(v, Sym)


def _bits_for(lo, hi):
  # width of a signed bit-vector that holds lo..hi
  w = 1
  if hi > 0: w = max(w, hi.bit_length() + 1)
  if lo < 0: w = max(w, (-lo - 1).bit_length() + 1)
  return w


def mkint(term, lo, hi):
  """term is read as a signed bit-vector; lo..hi is a sound range for it"""
  if term.op == "const":
    return T.sgn(term.par, term.width)
  if lo == hi: return lo
  w = _bits_for(lo, hi)
  if w < term.width: term = T.extract(w - 1, 0, term)
  if term.op == "const":
    return T.sgn(term.par, term.width)
  r = SymInt.__new__(SymInt)
  r.t = term
  r.lo = lo
  r.hi = hi
  return r


def mkuint(term):
  """term read as an unsigned bit-vector"""
  if term.op == "const": return term.par
  return mkint(T.zext(term, 1), 0, (1 << term.width) - 1)


def mkbool(term):
  if term is T.TRUE: return True
  if term is T.FALSE: return False
  r = SymBool.__new__(SymBool)
  r.t = term
  return r


def as_int(v):
  """int or SymInt for a numeric value, None when it is not an integer"""
  if isinstance(v, SymInt): return v
  if isinstance(v, SymBool): return v.toint()
  if isinstance(v, bool): return int(v)
  if isinstance(v, (int, long)): return v
  if isinstance(v, SymEnum) and v.is_int(): return v.value
  return None


def _tw(v, w):
  """bit-vector term of width w (signed) for int/SymInt v"""
  if isinstance(v, SymInt):
    return T.sext(v.t, w - v.t.width)
  return T.const(v, w)


def _rng(v):
  if isinstance(v, SymInt): return v.lo, v.hi
  return v, v


def truth(v):
  """Bool term for the truth value of v when it can be expressed without forking, else None"""
  if isinstance(v, SymBool): return v.t
  if isinstance(v, SymInt): return T.lnot(_eqt(v, 0))
  if isinstance(v, SymFloat): return T.lnot(_eqt(v.n, 0))
  if v is None or isinstance(v, (bool, int, long, str, list, tuple, dict, float)):
    return T.boolc(bool(v))
  return None


def _eqt(a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  if ah < bl or bh < al: return T.FALSE
  w = _bits_for(min(al, bl), max(ah, bh))
  return T.eq(_tw(a, w), _tw(b, w))


def _ltt(a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  if ah < bl: return T.TRUE
  if al >= bh: return T.FALSE
  w = _bits_for(min(al, bl), max(ah, bh))
  return T.slt(_tw(a, w), _tw(b, w))


def _arith(f, a, b, lo, hi):
  w = _bits_for(lo, hi)
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  w = max(w, _bits_for(al, ah), _bits_for(bl, bh))
  return mkint(f(_tw(a, w), _tw(b, w)), lo, hi)


MAXW = 700


def i_add(a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  return _arith(T.add, a, b, al + bl, ah + bh)


def i_sub(a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  return _arith(T.sub, a, b, al - bh, ah - bl)


def i_mul(a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  ps = [al * bl, al * bh, ah * bl, ah * bh]
  return _arith(T.mul, a, b, min(ps), max(ps))


def i_and(a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  if al >= 0 and bl >= 0: lo, hi = 0, min(ah, bh)
  elif al >= 0: lo, hi = 0, ah
  elif bl >= 0: lo, hi = 0, bh
  else:
    w = max(_bits_for(al, ah), _bits_for(bl, bh))
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
  w = max(_bits_for(al, ah), _bits_for(bl, bh))
  return mkint(T.band(_tw(a, w), _tw(b, w)), lo, hi)


def i_or(a, b, f=T.bor):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  w = max(_bits_for(al, ah), _bits_for(bl, bh))
  if al >= 0 and bl >= 0:
    lo, hi = (max(al, bl) if f is T.bor else 0), (1 << max(ah.bit_length(), bh.bit_length())) - 1
  else:
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
  return mkint(f(_tw(a, w), _tw(b, w)), lo, hi)


def i_xor(a, b):
  return i_or(a, b, T.bxor)


def ite_int(c, a, b):
  (al, ah), (bl, bh) = _rng(a), _rng(b)
  lo, hi = min(al, bl), max(ah, bh)
  w = _bits_for(lo, hi)
  return mkint(T.ite(c, _tw(a, w), _tw(b, w)), lo, hi)


def cases(v, limit=32):
  """values of SymInt v to build a case split over, None when there may be more than `limit`"""
  if v.hi - v.lo < limit: return range(v.lo, v.hi + 1)
  return None


def by_cases(v, f):
  """f applied to every possible value of SymInt v, merged into one value when the range is small"""
  cs = cases(v)
  if cs is None: return f(v.concretize())
  try:
    rs = [f(c) for c in cs]
    r = rs[-1]
    for c, x in zip(cs, rs)[-2::-1]:
      r = ite(_eqt(v, c), x, r)
    return r
  except (Exception, NoFork):
    return f(v.concretize())


def i_shl(a, b):
  if isinstance(b, SymInt):
    if X.branch(_ltt(b, 0)): raise ValueError("negative shift count")
    return by_cases(b, lambda k: i_shl(a, k) if k >= 0 else 0)
  if b < 0: raise ValueError("negative shift count")
  if not isinstance(a, SymInt): return a << b
  if b > MAXW: a.concretize()
  return mkint(T.concat(a.t, T.const(0, b)) if b else a.t, a.lo << b, a.hi << b)


def i_shr(a, b):
  if isinstance(b, SymInt):
    if X.branch(_ltt(b, 0)): raise ValueError("negative shift count")
    return by_cases(b, lambda k: i_shr(a, k) if k >= 0 else 0)
  if b < 0: raise ValueError("negative shift count")
  if not isinstance(a, SymInt): return a >> b
  return mkint(T.ashr(a.t, b), a.lo >> b, a.hi >> b)


def i_divmod(a, b):
  """floor division and modulo"""
  if isinstance(b, SymInt):
    b = b.concretize()
  if b == 0: raise ZeroDivisionError("integer division or modulo by zero")
  if not isinstance(a, SymInt): return divmod(a, b)
  if b < 0:
    q, r = i_divmod(-a, -b)
    return q, -r
  if b & (b - 1) == 0:
    k = b.bit_length() - 1
    return i_shr(a, k), i_and(a, b - 1)
  if a.lo < 0:
    if X.branch(_ltt(a, 0)):
      # floor semantics for a negative dividend
      n = -a - 1
      q, r = i_divmod(n, b)
      return -q - 1, (b - 1) - r
    a = mkint(a.t, 0, a.hi)
    if not isinstance(a, SymInt): return divmod(a, b)
  w = max(a.t.width, _bits_for(0, b))
  ta, tb = _tw(a, w), T.const(b, w)
  return mkint(T.udiv(ta, tb), a.lo // b, a.hi // b), mkint(T.urem(ta, tb), 0, min(b - 1, a.hi))


def _cmp_other(o):
  # numeric other operand of a comparison: int/SymInt, or ("f", SymFloat)
  i = as_int(o)
  if i is not None: return i
  return None


class SymInt(Sym):
  """an exact Python int: a signed bit-vector wide enough for its range, so nothing ever wraps"""
  __slots__ = ("t", "lo", "hi")

  def concretize(self):
    return T.sgn(X.concretize(self.t), self.t.width)

  def _bin(self, o, f, swap=False):
    if isinstance(o, (float, SymFloat)):
      return NotImplemented
    o = as_int(o)
    if o is None: return NotImplemented
    return f(o, self) if swap else f(self, o)

  def __add__(self, o):
    if isinstance(o, float): return tofloat(self) + o
    return self._bin(o, i_add)
  def __radd__(self, o):
    if isinstance(o, float): return o + tofloat(self)
    return self._bin(o, i_add, True)
  def __sub__(self, o):
    if isinstance(o, float): return tofloat(self) - o
    return self._bin(o, i_sub)
  def __rsub__(self, o):
    if isinstance(o, float): return tofloat(o) - tofloat(self)
    return self._bin(o, i_sub, True)
  def __mul__(self, o):
    if isinstance(o, float): return tofloat(self) * o
    if isinstance(o, (str, list, tuple, unicode)): return o * self.concretize()
    return self._bin(o, i_mul)
  def __rmul__(self, o):
    if isinstance(o, float): return tofloat(self) * o
    if isinstance(o, (str, list, tuple, unicode)): return o * self.concretize()
    return self._bin(o, i_mul, True)
  def __and__(self, o): return self._bin(o, i_and)
  def __rand__(self, o): return self._bin(o, i_and, True)
  def __or__(self, o): return self._bin(o, i_or)
  def __ror__(self, o): return self._bin(o, i_or, True)
  def __xor__(self, o): return self._bin(o, i_xor)
  def __rxor__(self, o): return self._bin(o, i_xor, True)
  def __lshift__(self, o): return self._bin(o, i_shl)
  def __rlshift__(self, o): return self._bin(o, i_shl, True)
  def __rshift__(self, o): return self._bin(o, i_shr)
  def __rrshift__(self, o): return self._bin(o, i_shr, True)
  def __floordiv__(self, o):
    if isinstance(o, float): return tofloat(self) // o
    return self._bin(o, lambda a, b: i_divmod(a, b)[0])
  def __rfloordiv__(self, o): return self._bin(o, lambda a, b: i_divmod(a, b)[0], True)
  def __div__(self, o):
    if isinstance(o, float): return tofloat(self) / o
    return self._bin(o, lambda a, b: i_divmod(a, b)[0])
  def __rdiv__(self, o):
    if isinstance(o, float): return o / self.concretize()
    return self._bin(o, lambda a, b: i_divmod(a, b)[0], True)
  def __truediv__(self, o): return tofloat(self) / o
  def __rtruediv__(self, o): return tofloat(o) / self
  def __mod__(self, o):
    if isinstance(o, float): return tofloat(self) % o
    return self._bin(o, lambda a, b: i_divmod(a, b)[1])
  def __rmod__(self, o):
    if isinstance(o, float): return o % self.concretize()
    return self._bin(o, lambda a, b: i_divmod(a, b)[1], True)
  def __divmod__(self, o): return self._bin(o, i_divmod)
  def __rdivmod__(self, o): return self._bin(o, i_divmod, True)
  def __pow__(self, o, m=None):
    if m is not None: return pow(self.concretize(), _conc(o), _conc(m))
    if isinstance(o, float): return tofloat(self) ** o
    o = as_int(o)
    if o is None: return NotImplemented
    o = _conc(o)
    if o < 0: return self.concretize() ** o
    r = 1
    for _ in range(o): r = i_mul(r, self)
    return r
  def __rpow__(self, o):
    if isinstance(o, (int, long, float)): return by_cases(self, lambda k: o ** k)
    return NotImplemented
  def __neg__(self): return i_sub(0, self)
  def __pos__(self): return self
  def __invert__(self): return i_sub(-1, self)
  def __abs__(self): return ite(_ltt(self, 0), i_sub(0, self), self)

  def _cmp(self, o, f, g):
    if isinstance(o, float) or isinstance(o, SymFloat):
      return g(tofloat(self), tofloat(o))
    i = as_int(o)
    if i is None: return NotImplemented
    return mkbool(f(self, i))

  def __eq__(self, o):
    r = self._cmp(o, _eqt, f_eq)
    return False if r is NotImplemented else r
  def __ne__(self, o):
    r = self._cmp(o, _eqt, f_eq)
    return True if r is NotImplemented else s_not(r)
  def __lt__(self, o): return self._ord(o, lambda a, b: _ltt(a, b), f_lt, -1)
  def __ge__(self, o): return s_not(self._ord(o, lambda a, b: _ltt(a, b), f_lt, -1))
  def __gt__(self, o): return self._ord(o, lambda a, b: _ltt(b, a), lambda a, b: f_lt(b, a), 1)
  def __le__(self, o): return s_not(self._ord(o, lambda a, b: _ltt(b, a), lambda a, b: f_lt(b, a), 1))

  def _ord(self, o, f, g, sign):
    r = self._cmp(o, f, g)
    if r is NotImplemented:
      # Python 2 orders unrelated types by type name; an int is smaller than anything but None
      if o is None: return sign > 0
      return sign < 0
    return r

  def __nonzero__(self):
    return X.branch(T.lnot(_eqt(self, 0)))

  def __hash__(self): return hash(self.concretize())
  def __index__(self): return self.concretize()
  def __int__(self): return self.concretize()
  def __long__(self): return long(self.concretize())
  def __float__(self): return float(self.concretize())
  def __str__(self): return str(self.concretize())
  def __hex__(self): return hex(self.concretize())
  def __oct__(self): return oct(self.concretize())
  def __repr__(self): return "<sym>"
  def __format__(self, spec): return format(self.concretize(), spec)
  def __coerce__(self, o): return None
  def __copy__(self): return self
  def __deepcopy__(self, memo): return self

  def bit_length(self):
    if self.lo < 0: return self.concretize().bit_length()
    r = 0
    for k in range(self.hi.bit_length(), 0, -1):
      pass
    for k in range(1, self.hi.bit_length() + 1):
      r = ite(s_not(mkbool(_ltt(self, 1 << (k - 1)))), k, r)
    return r

  @property
  def real(self): return self
  @property
  def imag(self): return 0
  @property
  def numerator(self): return self
  @property
  def denominator(self): return 1
  def conjugate(self): return self


def _conc(v):
  if isinstance(v, SymInt): return v.concretize()
  if isinstance(v, SymBool): return bool(v)
  return v


class SymBool(Sym):
  __slots__ = ("t",)

  def toint(self):
    return mkint(T.ite(self.t, T.const(1, 2), T.const(0, 2)), 0, 1)

  def __nonzero__(self): return X.branch(self.t)

  def __eq__(self, o):
    if isinstance(o, SymBool): return mkbool(T.eq(self.t, o.t))
    if isinstance(o, (bool, int, long)):
      if o == 1: return self
      if o == 0: return mkbool(T.lnot(self.t))
      return False
    if isinstance(o, (SymInt, float, SymFloat)): return self.toint() == o
    return False

  def __ne__(self, o): return s_not(self == o)
  def __and__(self, o):
    if isinstance(o, SymBool): return mkbool(T.land(self.t, o.t))
    if isinstance(o, bool): return self if o else False
    return self.toint() & o
  __rand__ = __and__
  def __or__(self, o):
    if isinstance(o, SymBool): return mkbool(T.lor(self.t, o.t))
    if isinstance(o, bool): return True if o else self
    return self.toint() | o
  __ror__ = __or__
  def __xor__(self, o):
    if isinstance(o, SymBool): return mkbool(T.lnot(T.eq(self.t, o.t)))
    if isinstance(o, bool): return s_not(self) if o else self
    return self.toint() ^ o
  __rxor__ = __xor__
  def __hash__(self): return hash(bool(self))
  def __index__(self): return int(bool(self))
  def __int__(self): return int(bool(self))
  def __float__(self): return float(bool(self))
  def __str__(self): return str(bool(self))
  def __repr__(self): return "<symbool>"
  def __format__(self, spec): return format(bool(self), spec)
  def __coerce__(self, o): return None
  def __copy__(self): return self
  def __deepcopy__(self, memo): return self
  def __invert__(self): return ~self.toint()
  def __neg__(self): return -self.toint()
  def __pos__(self): return self.toint()
  def __abs__(self): return self.toint()


def _boolfwd(name):
  def f(self, *a):
    v = self.toint()
    if isinstance(v, SymInt): return getattr(v, name)(*a)
    r = getattr(v, name)(*a)
    return r
  return f


for _n in ("add", "sub", "mul", "lshift", "rshift", "floordiv", "div", "mod", "divmod", "truediv", "pow"):
  setattr(SymBool, "__%s__" % _n, _boolfwd("__%s__" % _n))
  setattr(SymBool, "__r%s__" % _n, _boolfwd("__r%s__" % _n))
for _n in ("lt", "le", "gt", "ge"):
  setattr(SymBool, "__%s__" % _n, _boolfwd("__%s__" % _n))


def s_not(v):
  if isinstance(v, SymBool): return mkbool(T.lnot(v.t))
  if isinstance(v, bool): return not v
  t = truth(v)
  if t is not None: return mkbool(T.lnot(t))
  return not v


def bterm(v):
  """Bool term of a condition (forks when the value has no symbolic truth value)"""
  t = truth(v)
  if t is None: return T.boolc(bool(v))
  return t


def ite(c, a, b):
  """merge of two values under condition c (Bool term or condition value); raises NoFork when it cannot"""
  if not isinstance(c, T.Term): c = bterm(c)
  if c is T.TRUE: return a
  if c is T.FALSE: return b
  if a is b: return a
  if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
    return mkbool(T.ite(c, bterm(a), bterm(b)))
  if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
    raise NoFork()
  ia, ib = as_int(a), as_int(b)
  if ia is not None and ib is not None and not isinstance(a, SymEnum) and not isinstance(b, SymEnum) \
     and not isinstance(a, _enum.Enum) and not isinstance(b, _enum.Enum):
    return ite_int(c, ia, ib)
  if isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat)):
    fa, fb = tofloat(a), tofloat(b)
    if fa is None or fb is None: raise NoFork()
    k = max(fa.k, fb.k)
    return mkfloat(ite_int(c, i_shl(fa.n, k - fa.k), i_shl(fb.n, k - fb.k)), k)
  if isinstance(a, (_enum.Enum, SymEnum)) and isinstance(b, (_enum.Enum, SymEnum)):
    ca, cb = enum_class(a), enum_class(b)
    if ca is cb and not issubclass(ca, int):
      return mkenum(ca, ite_int(c, a.value, b.value))
  raise NoFork()


# ------------------------------------------------------------------ floats (exact dyadic rationals)

def mkfloat(n, k):
  """the float n / 2**k, exact: |n| < 2**53 is enforced"""
  lo, hi = _rng(n)
  if not isinstance(n, SymInt): return float(n) / (1 << k)
  if max(abs(lo), abs(hi)) >= 1 << 53:
    X.poisoned("float arithmetic outside the exact range of doubles")
  r = SymFloat.__new__(SymFloat)
  r.n = n
  r.k = k
  return r


def tofloat(v):
  """float or int or SymInt as an exact dyadic, with attributes n and k"""
  if isinstance(v, SymFloat): return v
  i = as_int(v)
  if i is not None:
    r = SymFloat.__new__(SymFloat)
    r.n = i
    r.k = 0
    return r
  if isinstance(v, float):
    if v != v or v in (float("inf"), float("-inf")): return None
    n, d = v.as_integer_ratio()
    r = SymFloat.__new__(SymFloat)
    r.n = n
    r.k = d.bit_length() - 1
    return r
  return None


def _align(a, b):
  k = max(a.k, b.k)
  return i_shl(a.n, k - a.k), i_shl(b.n, k - b.k), k


def f_eq(a, b):
  if a is None or b is None: return False
  x, y, _ = _align(a, b)
  return mkbool(_eqt(x, y))


def f_lt(a, b):
  if a is None or b is None: raise NotImplementedError("infinite float")
  x, y, _ = _align(a, b)
  return mkbool(_ltt(x, y))


class SymFloat(Sym):
  __slots__ = ("n", "k")

  def concretize(self): return float(_conc(self.n)) / (1 << self.k)

  def _two(self, o):
    o = tofloat(o)
    return o

  def __add__(self, o):
    o = tofloat(o)
    if o is None: return NotImplemented
    x, y, k = _align(self, o)
    return mkfloat(i_add(x, y), k)
  __radd__ = __add__
  def __sub__(self, o):
    o = tofloat(o)
    if o is None: return NotImplemented
    x, y, k = _align(self, o)
    return mkfloat(i_sub(x, y), k)
  def __rsub__(self, o): return -(self - o)
  def __neg__(self): return mkfloat(i_sub(0, self.n), self.k)
  def __abs__(self): return mkfloat(abs(self.n), self.k)
  def __mul__(self, o):
    o = tofloat(o)
    if o is None: return NotImplemented
    return mkfloat(i_mul(self.n, o.n), self.k + o.k)
  __rmul__ = __mul__
  def __div__(self, o):
    d = tofloat(o)
    if d is None: return NotImplemented
    n = _conc(d.n)
    if n == 0: raise ZeroDivisionError("float division")
    if n < 0: return (-self) / mkfloat(-n, d.k)
    if n & (n - 1) == 0:
      e = n.bit_length() - 1 - d.k       # divide by 2**e
      if e >= 0: return mkfloat(self.n, self.k + e)
      return mkfloat(i_shl(self.n, -e), self.k)
    return self.concretize() / (float(n) / (1 << d.k))
  __truediv__ = __div__
  def __rdiv__(self, o): return o / self.concretize()
  __rtruediv__ = __rdiv__
  def __mod__(self, o):
    d = tofloat(o)
    if d is None: return NotImplemented
    x, y, k = _align(self, d)
    return mkfloat(i_divmod(x, y)[1], k)
  def __rmod__(self, o): return o % self.concretize()
  def __floordiv__(self, o):
    d = tofloat(o)
    x, y, k = _align(self, d)
    return mkfloat(i_divmod(x, y)[0], 0)
  def __pow__(self, o): return self.concretize() ** _conc(o)
  def __eq__(self, o):
    o = tofloat(o)
    return False if o is None else f_eq(self, o)
  def __ne__(self, o): return s_not(self == o)
  def __lt__(self, o): return f_lt(self, tofloat(o))
  def __ge__(self, o): return s_not(f_lt(self, tofloat(o)))
  def __gt__(self, o): return f_lt(tofloat(o), self)
  def __le__(self, o): return s_not(f_lt(tofloat(o), self))
  def __nonzero__(self): return X.branch(T.lnot(_eqt(self.n, 0)))
  def __hash__(self): return hash(self.concretize())
  def __float__(self): return self.concretize()
  def __int__(self): return int(self.concretize())
  def __str__(self): return str(self.concretize())
  def __repr__(self): return "<symfloat>"
  def __format__(self, s): return format(self.concretize(), s)
  def __coerce__(self, o): return None
  def trunc(self):
    n = self.n
    if self.k == 0: return n
    lo, hi = _rng(n)
    if lo >= 0: return i_shr(n, self.k)
    return ite(_ltt(n, 0), i_sub(0, i_shr(i_sub(0, n), self.k)), i_shr(n, self.k))
  def floor(self): return i_shr(self.n, self.k)
  def ceil(self): return i_sub(0, i_shr(i_sub(0, self.n), self.k))
  def is_integer(self):
    return mkbool(_eqt(i_and(self.n, (1 << self.k) - 1), 0))


# ------------------------------------------------------------------ enums

def enum_class(v):
  if isinstance(v, SymEnum): return v.cls
  return v.__class__


def mkenum(cls, value):
  """member of cls with this (valid) integer value"""
  if not isinstance(value, SymInt): return cls(value)
  r = SymEnum.__new__(SymEnum)
  object.__setattr__(r, "cls", cls)
  object.__setattr__(r, "value", value)
  return r


def enum_call(cls, v):
  """cls(v) for a symbolic v"""
  if isinstance(v, SymEnum): 
    if v.cls is cls: return v
    raise ValueError("not a valid %s" % cls.__name__)
  vals = [m.value for m in cls.__members__.values()]
  i = as_int(v)
  ints = [x for x in vals if isinstance(x, (int, long))]
  if i is None or len(ints) != len(vals):
    for m in cls:
      if m.value == v: return m
    raise ValueError("not a valid %s" % cls.__name__)
  ok = T.FALSE
  for x in ints: ok = T.lor(ok, _eqt(i, x))
  # contiguous ranges are common: an interval test reads better to the solver
  us = sorted(set(ints))
  if us == range(us[0], us[-1] + 1):
    ok = T.land(T.lnot(_ltt(i, us[0])), T.lnot(_ltt(us[-1], i)))
  if not X.branch(ok):
    raise ValueError("not a valid %s" % cls.__name__)
  if issubclass(cls, int):
    return cls(i.concretize() if isinstance(i, SymInt) else i)
  if isinstance(i, SymInt):
    i = mkint(i.t, max(i.lo, us[0]), min(i.hi, us[-1]))
  return mkenum(cls, i)


class SymEnum(Sym):
  """a member of an Enum class whose value is symbolic"""
  __slots__ = ("cls", "value")

  def is_int(self): return False

  def member(self):
    return self.cls(self.value.concretize())

  def __getattr__(self, name):
    if name.startswith("__"): raise AttributeError(name)
    return getattr(self.member(), name)

  def __setattr__(self, name, v):
    raise AttributeError("can't set attribute")

  def __eq__(self, o):
    if isinstance(o, SymEnum):
      return (self.value == o.value) if o.cls is self.cls else False
    if isinstance(o, _enum.Enum):
      return (self.value == o.value) if o.__class__ is self.cls else False
    return False

  def __ne__(self, o): return s_not(self == o)
  def __hash__(self): return hash(self.member())
  def __str__(self): return str(self.member())
  def __repr__(self): return "<symenum>"
  def __format__(self, s): return format(self.member(), s)
  def __copy__(self): return self
  def __deepcopy__(self, memo): return self
  def __coerce__(self, o): return None
  def __iter__(self): return iter(self.member())
  def __call__(self, *a, **k): return self.member()(*a, **k)


# ------------------------------------------------------------------ byte strings

def bytelist(v):
  """list of byte values (int/SymInt) of a byte-string-like value, else None"""
  if isinstance(v, (SymStr, SymBytearray)): return v.e
  if isinstance(v, str): return [ord(c) for c in v]
  if isinstance(v, bytearray): return list(v)
  if isinstance(v, unicode):
    r = [ord(c) for c in v]
    return r if all([x < 128 for x in r]) else None
  return None


def mkstr(es, uni=False):
  for x in es:
    if isinstance(x, SymInt):
      r = SymStr.__new__(SymStr)
      r._e = list(es)
      r.hexof = None
      r.uni = uni
      return r
  s = "".join([chr(x) for x in es])
  return unicode(s) if uni else s


def _seq_eq(a, b):
  if len(a) != len(b): return False
  t = T.TRUE
  for x, y in zip(a, b):
    t = T.land(t, _eqt(x, y))
    if t is T.FALSE: return False
  return mkbool(t)


class _Bytes(Sym):
  __slots__ = ()

  def _slice(self, i):
    st, sp, step = i.start, i.stop, i.step
    return self.e[slice(_conc(st) if st is not None else None, _conc(sp) if sp is not None else None,
                        _conc(step) if step is not None else None)]

  def _index(self, i):
    if isinstance(i, (SymInt, SymBool)):
      n = len(self.e)
      if X.branch(T.lnot(T.land(T.lnot(_ltt(i, -n)), _ltt(i, n)))): raise IndexError("index out of range")
      if isinstance(i, SymInt) and i.lo >= 0:
        r = self.e[-1]
        for k in range(n - 2, -1, -1): r = ite_int(_eqt(i, k), self.e[k], r)
        return r
      i = _conc(i)
    return self.e[i]

  def __len__(self): return len(self.e)
  def __nonzero__(self): return len(self.e) > 0

  def __eq__(self, o):
    b = bytelist(o)
    if b is None: return False
    return _seq_eq(self.e, b)

  def __ne__(self, o): return s_not(self == o)

  def __lt__(self, o):
    b = bytelist(o)
    t = T.FALSE
    for k in range(min(len(self.e), len(b)) - 1, -1, -1):
      pass
    # lexicographic
    t = T.boolc(len(self.e) < len(b))
    for k in range(min(len(self.e), len(b)) - 1, -1, -1):
      x, y = self.e[k], b[k]
      t = T.lor(_ltt(x, y), T.land(_eqt(x, y), t))
    return mkbool(t)

  def __gt__(self, o):
    b = bytelist(o)
    t = T.boolc(len(self.e) > len(b))
    for k in range(min(len(self.e), len(b)) - 1, -1, -1):
      x, y = self.e[k], b[k]
      t = T.lor(_ltt(y, x), T.land(_eqt(x, y), t))
    return mkbool(t)

  def __le__(self, o): return s_not(self > o)
  def __ge__(self, o): return s_not(self < o)

  def _needle(self, x):
    b = bytelist(x)
    if b is None: b = [x]
    return b

  def match_at(self, b, k):
    if k + len(b) > len(self.e): return False
    return _seq_eq(self.e[k:k + len(b)], b)

  def __contains__(self, x):
    return bool(self.contains(x))

  def contains(self, x):
    b = self._needle(x)
    t = T.FALSE
    for k in range(0, len(self.e) - len(b) + 1):
      t = T.lor(t, bterm(self.match_at(b, k)))
    return mkbool(t)

  def find(self, x, start=0, end=None):
    b = self._needle(x)
    n = len(self.e) if end is None else min(_conc(end), len(self.e))
    for k in range(_conc(start), n - len(b) + 1):
      if self.match_at(b, k): return k
    return -1

  def rfind(self, x):
    b = self._needle(x)
    for k in range(len(self.e) - len(b), -1, -1):
      if self.match_at(b, k): return k
    return -1

  def index(self, x, *a):
    r = self.find(x, *a)
    if r < 0: raise ValueError("subsection not found")
    return r

  def count(self, x):
    b = self._needle(x)
    n = k = 0
    while k + len(b) <= len(self.e):
      if self.match_at(b, k):
        n += 1
        k += len(b)
      else: k += 1
    return n

  def startswith(self, x): return self.match_at(self._needle(x), 0)
  def endswith(self, x):
    b = self._needle(x)
    return len(b) <= len(self.e) and self.match_at(b, len(self.e) - len(b))

  def _strip(self, chars, left, right):
    cs = bytelist(chars) if chars is not None else [9, 10, 11, 12, 13, 32]
    i, j = 0, len(self.e)
    def hit(x):
      t = T.FALSE
      for c in cs: t = T.lor(t, _eqt(x, c))
      return X.branch(t)
    while left and i < j and hit(self.e[i]): i += 1
    while right and j > i and hit(self.e[j - 1]): j -= 1
    return self._new(self.e[i:j])

  def strip(self, chars=None): return self._strip(chars, True, True)
  def lstrip(self, chars=None): return self._strip(chars, True, False)
  def rstrip(self, chars=None): return self._strip(chars, False, True)

  def ljust(self, n, c=" "):
    n = _conc(n)
    return self._new(self.e + bytelist(c) * (n - len(self.e)))

  def rjust(self, n, c=" "):
    n = _conc(n)
    return self._new(bytelist(c) * (n - len(self.e)) + self.e)

  def zfill(self, n): return self.rjust(n, "0")

  def split(self, sep=None, maxsplit=-1):
    if sep is None:
      parts, k, n = [], 0, len(self.e)
      while True:
        while k < n and _space(self.e[k]): k += 1
        if k == n: return parts
        if maxsplit == 0: return parts + [self._new(self.e[k:])]
        i = k
        while k < n and not _space(self.e[k]): k += 1
        parts.append(self._new(self.e[i:k]))
        maxsplit -= 1
    b = bytelist(sep)
    parts, cur, k = [], [], 0
    while k < len(self.e):
      if maxsplit != 0 and bool(self.match_at(b, k)):
        parts.append(self._new(cur))
        cur = []
        k += len(b)
        maxsplit -= 1
      else:
        cur.append(self.e[k])
        k += 1
    parts.append(self._new(cur))
    return parts

  def translate(self, table, delete=""):
    if self.__class__ is SymStr and self.is_uni(): return self.concrete().translate(table)
    out, gone = [], bytelist(delete)
    for x in self.e:
      t = T.FALSE
      for d in gone: t = T.lor(t, _eqt(x, d))
      if t is not T.FALSE and X.branch(t): continue
      if table is not None:
        r = ord(table[255])
        for k in range(254, -1, -1): r = ite_int(_eqt(x, k), ord(table[k]), r)
        x = r
      out.append(x)
    return self._new(out)

  def splitlines(self): return self.concrete().splitlines()

  def replace(self, a, b, n=-1):
    a, b = bytelist(a), bytelist(b)
    out, k = [], 0
    while k < len(self.e):
      if n != 0 and a and bool(self.match_at(a, k)):
        out += b
        k += len(a)
        n -= 1
      else:
        out.append(self.e[k])
        k += 1
    return self._new(out)

  def join(self, xs):
    out = None
    for x in xs:
      b = bytelist(x)
      if b is None: raise TypeError("sequence item: expected string")
      out = b[:] if out is None else out + self.e + b
    return self._new(out or [])

  def _case(self, lo, hi, d):
    out = []
    for x in self.e:
      if isinstance(x, SymInt):
        out.append(ite_int(T.land(T.lnot(_ltt(x, lo)), T.lnot(_ltt(hi, x))), x + d, x))
      else:
        out.append(x + d if lo <= x <= hi else x)
    return self._new(out)

  def upper(self): return self._case(97, 122, -32)
  def lower(self): return self._case(65, 90, 32)

  def _all(self, ranges):
    if not self.e: return False
    t = T.TRUE
    for x in self.e:
      o = T.FALSE
      for lo, hi in ranges: o = T.lor(o, T.land(T.lnot(_ltt(x, lo)), T.lnot(_ltt(hi, x))))
      t = T.land(t, o)
    return mkbool(t)

  def isspace(self): return self._all([(9, 13), (32, 32)])
  def isdigit(self): return self._all([(48, 57)])
  def isalpha(self): return self._all([(65, 90), (97, 122)])
  def isalnum(self): return self._all([(48, 57), (65, 90), (97, 122)])

  def concrete(self):
    return "".join([chr(_conc(x)) for x in self.e])

  def encode(self, enc="ascii", errors="strict"):
    enc = enc.lower().replace("_", "-")
    if enc in ("hex", "hex-codec"): return hexlify(self)
    if enc in ("ascii", "us-ascii", "utf-8", "utf8", "latin-1", "latin1", "iso-8859-1"):
      if enc in ("ascii", "us-ascii", "utf-8", "utf8") or not self.is_uni():
        self._ascii(UnicodeDecodeError, enc)
      return mkstr(self.e)
    return self.concrete().encode(enc, errors)

  def is_uni(self): return False

  def _ascii(self, exc, enc):
    t = T.TRUE
    for x in self.e: t = T.land(t, _ltt(x, 128))
    if not X.branch(t):
      raise UnicodeDecodeError("ascii", "?", 0, 1, "ordinal not in range(128)")

  def decode(self, enc="ascii", errors="strict"):
    enc = enc.lower().replace("_", "-")
    if enc in ("hex", "hex-codec"): return unhexlify(self)
    if enc in ("latin-1", "latin1", "iso-8859-1"): return mkstr(self.e, True)
    if errors == "strict" and enc in ("ascii", "us-ascii", "utf-8", "utf8"):
      if enc.startswith("u") and enc != "us-ascii":
        t = T.TRUE
        for x in self.e: t = T.land(t, _ltt(x, 128))
        if not X.branch(t): return self.concrete().decode(enc, errors)
      else:
        self._ascii(UnicodeDecodeError, enc)
      return mkstr(self.e, True)
    return self.concrete().decode(enc, errors)

  def __coerce__(self, o): return None
  def __copy__(self): return self


def _hexdigit(x):
  # x: 0..15
  if not isinstance(x, SymInt): return ord("0123456789abcdef"[x])
  return ite_int(_ltt(x, 10), x + 48, x + 87)


def hexlify(v):
  b = bytelist(v)
  out = []
  for x in b:
    out.append(_hexdigit(x >> 4))
    out.append(_hexdigit(x & 15))
  r = mkstr(out)
  if isinstance(r, SymStr): r.hexof = b[:]
  return r


def _unhex(x):
  if not isinstance(x, SymInt):
    return int(chr(x), 16)
  d = T.land(T.lnot(_ltt(x, 48)), T.lnot(_ltt(57, x)))
  l = T.land(T.lnot(_ltt(x, 97)), T.lnot(_ltt(102, x)))
  u = T.land(T.lnot(_ltt(x, 65)), T.lnot(_ltt(70, x)))
  if not X.branch(T.lor(d, T.lor(l, u))): raise TypeError("Non-hexadecimal digit found")
  return ite_int(d, x - 48, ite_int(l, x - 87, x - 55)) & 15


def _space(x):
  if not isinstance(x, SymInt): return x in (9, 10, 11, 12, 13, 32)
  return X.branch(T.lor(T.land(T.lnot(_ltt(x, 9)), T.lnot(_ltt(13, x))), _eqt(x, 32)))


def fromhex(v):
  """bytearray.fromhex: blanks only between bytes"""
  b, out, k = bytelist(v), [], 0
  try:
    while k < len(b):
      if not isinstance(b[k], SymInt) and b[k] == 32 or isinstance(b[k], SymInt) and X.branch(_eqt(b[k], 32)):
        k += 1
        continue
      if k + 1 == len(b): raise TypeError("")
      out.append((_unhex(b[k]) << 4) | _unhex(b[k + 1]))
      k += 2
  except (TypeError, ValueError): raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % k)
  r = SymBytearray.__new__(SymBytearray)
  r.e = out
  return r


def unhexlify(v):
  if isinstance(v, SymStr) and v.hexof is not None: return mkstr(v.hexof)
  b = bytelist(v)
  if len(b) % 2: raise TypeError("Odd-length string")
  return mkstr([(_unhex(b[i]) << 4) | _unhex(b[i + 1]) for i in range(0, len(b), 2)])


class SymStr(_Bytes):
  """a str with symbolic characters"""
  __slots__ = ("_e", "hexof", "uni")

  @property
  def e(self): return self._e

  def is_uni(self): return self.uni
  def _new(self, es): return mkstr(es, self.uni)

  def __getitem__(self, i):
    if isinstance(i, slice): return self._new(self._slice(i))
    return self._new([self._index(i)])

  def __getslice__(self, i, j): return self[slice(i, j)]

  def __iter__(self):
    for x in self.e: yield self._new([x])

  def __add__(self, o):
    if isinstance(o, SymBytearray) or isinstance(o, bytearray):
      return SymBytearray(self.e + bytelist(o))
    if (_lazy(self) or _lazy(o)) and isinstance(o, (str, SymStr)): return mktext([self, o])
    b = bytelist(o)
    if b is None: return NotImplemented
    return mkstr(self.e + b, self.uni or isinstance(o, unicode))

  def __radd__(self, o):
    if _lazy(self) and isinstance(o, (str, SymStr)): return mktext([o, self])
    b = bytelist(o)
    if b is None: return NotImplemented
    return mkstr(b + self.e, self.uni or isinstance(o, unicode))

  def __mul__(self, n): return self._new(self.e * _conc(n))
  __rmul__ = __mul__
  def __mod__(self, a): return self.concrete() % a
  def __hash__(self): return hash(self.concrete())
  def __str__(self): return self.concrete()
  def __repr__(self): return "<symstr>"
  def __format__(self, spec): return format(self.concrete(), spec)
  def __int__(self): return int(self.concrete())
  def __deepcopy__(self, memo): return self

  def format(self, *a, **k): return self.concrete().format(*a, **k)


class SymText(SymStr):
  """text with symbolic numbers in it, rendered to characters only when something looks at them"""
  __slots__ = ("parts",)

  @property
  def e(self):
    if self._e is None:
      out = []
      for p in self.parts:
        if isinstance(p, Later): out += p.render()
        else: out += bytelist(p) if not isinstance(p, tuple) else render(*p)
      self._e = out
    return self._e


class Later(object):
  """part of a text: "True" or "False" """
  __slots__ = ("v",)
  def __init__(self, v): self.v = v
  def render(self): return [ord(x) for x in str(bool(self.v))]


def text_parts(o):
  return o.parts if isinstance(o, SymText) else [o]


def text_eq(a, b):
  """Bool term; texts of the same make are equal when their numbers are"""
  p, q = text_parts(a), text_parts(b)
  if len(p) == len(q):
    t = T.TRUE
    for x, y in zip(p, q):
      if type(x) is not type(y): break
      if isinstance(x, tuple):
        if x[1:] != y[1:]: break
        t = T.land(t, _eqt(x[0], y[0]))
      elif isinstance(x, Later): t = T.land(t, bterm(x.v == y.v))
      else: t = T.land(t, bterm(_seq_eq(bytelist(x), bytelist(y))))
      if t is T.FALSE: break
    else:
      if t is T.TRUE or X.branch(t): return t
  return bterm(_seq_eq(bytelist(a), bytelist(b)))


def _lazy(o):
  return isinstance(o, SymText) and o._e is None


def mktext(parts):
  """parts: str, SymStr, or (SymInt, base, pad char, min width, upper)"""
  flat = []
  for p in parts:
    if isinstance(p, SymText) and p._e is None: flat.extend(p.parts)
    elif isinstance(p, str) and not p: pass
    elif isinstance(p, str) and flat and isinstance(flat[-1], str): flat[-1] = flat[-1] + p
    else: flat.append(p)
  if all([isinstance(p, (str, unicode)) for p in flat]): return "".join(flat)
  r = SymText.__new__(SymText)
  r._e = None
  r.hexof = None
  r.uni = False
  r.parts = flat
  return r


def render(v, base, fill, width, align):
  """digits of SymInt v; forks on sign and number of digits"""
  sign = []
  if not isinstance(v, SymInt):
    neg, n = v < 0, abs(v)
    s = {10: "%d", 16: "%x", 2: None}[base]
    s = bin(n)[2:] if s is None else s % n
    digits = [ord(c) for c in s]
    if neg: sign = [45]
  else:
    if v.lo < 0:
      if X.branch(_ltt(v, 0)):
        sign = [45]
        v = -v
      else:
        v = mkint(v.t, 0, v.hi)
    n = width if fill == "0" and align in ("=", ">") and not sign and width and v.lo >= 0 and v.hi < base ** width else 1
    while _rng(v)[1] >= base ** n and not X.branch(_ltt(v, base ** n)): n += 1
    digits = []
    for k in range(n):
      if base in (2, 16):
        sh = {2: 1, 16: 4}[base] * (n - 1 - k)
        digits.append(_hexdigit(mkint_and(i_shr(v, sh), base - 1)))
      else:
        q = i_divmod(v, base ** (n - 1 - k))[0]
        digits.append(_hexdigit(i_divmod(q, base)[1]))
  pad = width - len(sign) - len(digits)
  if pad > 0:
    f = [ord(fill)] * pad
    if align == "<": return sign + digits + f
    if align == "=": return sign + f + digits
    if align == "^": return f[:pad // 2] + sign + digits + f[pad // 2:]
    return f + sign + digits
  return sign + digits


def mkint_and(a, m):
  return a & m


class SymBytearray(_Bytes):
  """bytearray of the rewritten code (contents may be symbolic or not)"""
  __slots__ = ("e",)

  def __init__(self, e=None):
    self.e = e if e is not None else []

  def _new(self, es): return SymBytearray(list(es))

  @staticmethod
  def byte(x):
    i = as_int(x)
    if isinstance(x, SymEnum): i = None
    if isinstance(i, SymInt):
      if X.branch(T.lor(_ltt(i, 0), _ltt(255, i))): raise ValueError("byte must be in range(0, 256)")
      return mkint(i.t, max(0, i.lo), min(255, i.hi))
    if i is None:
      b = bytelist(x) if isinstance(x, (str, SymStr)) else None
      if b is not None and len(b) == 1: return b[0]
    return bytearray([x])[0]          # the real type decides (and raises)

  def __getitem__(self, i):
    if isinstance(i, slice): return SymBytearray(self._slice(i))
    if isinstance(i, (int, long)): return self.e[i]
    return self._index(i)

  def __getslice__(self, i, j): return SymBytearray(self.e[i:j])

  def __setitem__(self, i, v):
    if isinstance(i, slice):
      self.e[i] = SymBytearray.listof(v)
    else:
      self.e[_conc(i)] = SymBytearray.byte(v)

  def __setslice__(self, i, j, v): self.e[i:j] = SymBytearray.listof(v)
  def __delitem__(self, i):
    if isinstance(i, slice): del self.e[i]
    else: del self.e[_conc(i)]
  def __delslice__(self, i, j): del self.e[i:j]

  @staticmethod
  def listof(v):
    b = bytelist(v)
    if b is not None: return list(b)
    if isinstance(v, (int, long, SymInt)): raise TypeError("can't set bytearray slice from int")
    return [SymBytearray.byte(x) for x in v]

  def __iter__(self):
    i = 0
    while i < len(self.e):
      yield self.e[i]
      i += 1

  def append(self, x): self.e.append(SymBytearray.byte(x))
  def extend(self, xs): self.e.extend(SymBytearray.listof(xs))
  def insert(self, i, x): self.e.insert(_conc(i), SymBytearray.byte(x))
  def reverse(self): self.e.reverse()

  def pop(self, i=-1):
    if not self.e: raise IndexError("pop from empty list")
    return self.e.pop(_conc(i))

  def remove(self, x):
    x = SymBytearray.byte(x)
    for k in range(len(self.e)):
      if self.e[k] == x:
        del self.e[k]
        return
    raise ValueError("value not found in bytearray")

  def __add__(self, o):
    b = bytelist(o)
    if b is None: raise TypeError("can't concat %s to bytearray" % type(o).__name__)
    return SymBytearray(self.e + b)

  def __radd__(self, o):
    b = bytelist(o)
    if b is None: return NotImplemented
    return SymBytearray(b + self.e)

  def __iadd__(self, o):
    self.e.extend(SymBytearray.listof(o))
    return self

  def __mul__(self, n): return SymBytearray(self.e * _conc(n))
  __rmul__ = __mul__
  __hash__ = None
  def __repr__(self): return "<bytearray of %d>" % len(self.e)
  def __str__(self): return self.concrete()
  def __deepcopy__(self, memo): return SymBytearray(list(self.e))
  def copy(self): return SymBytearray(list(self.e))


def affine(bs, effects, zero, width):
  """bit-vector term: zero xor the effects of the set bits of the bytes bs (most significant bit of each byte first)"""
  atoms = [{} for _ in range(width)]
  const = zero
  for i, x in enumerate(bs):
    for k in range(8):
      e = effects[i * 8 + k]
      if isinstance(x, Sym):
        t = x.t
        bit = T.extract(7 - k, 7 - k, t) if t.width > 7 - k else T.const(0, 1)
        ts, par = T.parity(bit)
        if par: const ^= e
        for a in ts:
          for j in range(width):
            if (e >> j) & 1:
              if a in atoms[j]: del atoms[j][a]
              else: atoms[j][a] = True
      elif (x >> (7 - k)) & 1:
        const ^= e
  out = None
  for j in range(width - 1, -1, -1):
    p = T.mkparity(atoms[j].keys(), (const >> j) & 1)
    out = p if out is None else T.concat(out, p)
  return out
