# Models of the libraries the code under test uses, for values that may be symbolic.
# Every model falls back to the real library on concrete values where one exists, and to an
# inconclusive path (never to silence) on operations it does not cover.
import binascii as _binascii
import math as _math
import re as _re
import pprint as _pprint
import struct as _struct
import sys
import types

import crcmod as _crcmod
import crcmod.predefined as _crcmod_predefined

from engine import program
from engine import rt
from engine import sym as S
from engine import terms as T
from engine import world
from engine.explore import PathDead, NoFork, Stop


def unsupported(what):
  S.X.poisoned("not modelled: " + what)
  raise PathDead()


class Module(object):
  def __init__(self, name, **attrs):
    self.__name__ = name
    self.__dict__.update(attrs)

  def __getattr__(self, n):
    if n.startswith("__"): raise AttributeError(n)
    unsupported("%s.%s" % (self.__name__, n))


class Through(Module):
  """real module with some functions replaced"""
  def __init__(self, real, **attrs):
    Module.__init__(self, real.__name__, **attrs)
    self._real = real

  def __getattr__(self, n):
    return getattr(self._real, n)


def anysym(xs):
  for x in xs:
    if rt.has_sym(x): return True
  return False


# ------------------------------------------------------------------ bit ranges over byte lists

def bits_term(d, pos, n):
  """(constant int) or BV term of width n for bits pos..pos+n of byte list d"""
  t = None
  end = pos + n
  k = pos // 8
  while k * 8 < end:
    lo = max(pos, k * 8) - k * 8
    hi = min(end, k * 8 + 8) - k * 8
    x = d[k]
    if isinstance(x, S.SymInt):
      w = x.t.width
      b = T.extract(7, 0, x.t) if w >= 8 else T.zext(x.t, 8 - w)
    else:
      b = T.const(x, 8)
    part = T.extract(7 - lo, 8 - hi, b)
    t = part if t is None else T.concat(t, part)
    k += 1
  return t


def byte_values(t):
  """list of byte values (msb first) of a BV term whose width is a multiple of 8"""
  return [S.mkuint(T.extract(i + 7, i, t)) for i in range(t.width - 8, -1, -8)]


# ------------------------------------------------------------------ struct

_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def _fmt(fmt):
  fmt = rt.conc(fmt)
  m = _re.match(r"^([<>=!@]?)((?:\d*[a-zA-Z?]\s*)*)$", fmt)
  if not m: return None
  items = []
  for n, c in _re.findall(r"(\d*)([a-zA-Z?])", m.group(2)):
    if c == "s":
      items.append(("s", int(n or 1)))
    elif c == "x":
      items.append(("x", int(n or 1)))
    elif c in _SIZES or c in "c?":
      items.extend([(c, _SIZES.get(c, 1))] * int(n or 1))
    else:
      return None
  order = m.group(1)
  if order in ("", "@") and len([i for i in items if i[1] > 1]) and len(items) > 1: return None   # native alignment
  return order, items


def s_pack(fmt, *vals):
  if not anysym(vals) and not anysym([fmt]): return _struct.pack(fmt, *vals)
  f = _fmt(fmt)
  if f is None: return _struct.pack(rt.conc(fmt), *rt.conc(list(vals)))
  order, items = f
  if len([i for i in items if i[0] != "x"]) != len(vals):
    return _struct.pack(rt.conc(fmt), *rt.conc(list(vals)))
  out = []
  vals = list(vals)
  for c, n in items:
    if c == "x":
      out += [0] * n
      continue
    v = vals.pop(0)
    if c == "s":
      b = S.bytelist(v)
      if b is None: raise _struct.error("argument for 's' must be a string")
      out += (b + [0] * n)[:n]
      continue
    i = S.as_int(v)
    if c in "c?" or not isinstance(i, S.SymInt):
      out += [ord(x) for x in _struct.pack((order or "=") + c, rt.conc(v))]
      continue
    out += pack_int(c, n, i, order)
  return S.mkstr(out)


def pack_int(c, n, i, order):
  # Jython truncates the smaller formats and range-checks the signed 32-bit and the 64-bit ones
  if c in ("b", "B", "h", "H", "I", "L"): lo, hi = -(1 << 31), (1 << 62)
  elif c in ("i", "l"): lo, hi = -(1 << 31), (1 << 31) - 1
  elif c == "q": lo, hi = -(1 << 63), (1 << 63) - 1
  else: lo, hi = 0, (1 << 64) - 1
  if not S.X.branch(T.land(T.lnot(S._ltt(i, lo)), T.lnot(S._ltt(hi, i)))):
    if c in ("i", "l", "q", "Q"): raise _struct.error("long int too long to convert")
    return [ord(x) for x in _struct.pack((order or "=") + c, i.concretize())]
  w = max(i.t.width, n * 8)
  bs = byte_values(T.extract(n * 8 - 1, 0, S._tw(i, w)))
  if order not in (">", "!"): bs.reverse()
  return bs


def s_unpack(fmt, data):
  b = S.bytelist(data)
  if not anysym([fmt, data]): return _struct.unpack(fmt, data)
  f = _fmt(fmt)
  if f is None: return _struct.unpack(rt.conc(fmt), rt.conc(data))
  if b is None: raise _struct.error("unpack of a non-string argument")
  order, items = f
  if sum([n for _, n in items]) != len(b): raise _struct.error("unpack str size does not match format")
  r, k = [], 0
  for c, n in items:
    part = b[k:k + n]
    k += n
    if c == "x": continue
    if c == "s" or c == "c":
      r.append(S.mkstr(part))
      continue
    if order not in (">", "!"): part = part[::-1]
    t = bits_term(part, 0, n * 8)
    if c == "?": r.append(S.mkbool(T.lnot(T.eq(t, T.const(0, 8)))))
    elif c.islower(): r.append(S.mkint(t, -(1 << (n * 8 - 1)), (1 << (n * 8 - 1)) - 1))
    else: r.append(S.mkuint(t))
  return tuple(r)


def s_unpack_from(fmt, data, offset=0):
  if not anysym([fmt, data, offset]): return _struct.unpack_from(fmt, data, offset)
  o = S._conc(offset)
  n = _struct.calcsize(rt.conc(fmt))
  if o < 0: o += len(data)
  return s_unpack(fmt, data[o:o + n])


def s_pack_into(fmt, buf, offset, *vals):
  b = S.bytelist(s_pack(fmt, *vals))
  o = S._conc(offset)
  if o + len(b) > len(buf): raise _struct.error("pack_into requires a larger buffer")
  for k, x in enumerate(b): buf[o + k] = x


class StructObject(object):
  def __init__(self, fmt):
    self.format = rt.conc(fmt)
    self.size = _struct.calcsize(self.format)

  def pack(self, *v): return s_pack(self.format, *v)
  def unpack(self, d): return s_unpack(self.format, d)
  def unpack_from(self, d, offset=0): return s_unpack_from(self.format, d, offset)
  def pack_into(self, b, o, *v): return s_pack_into(self.format, b, o, *v)


# ------------------------------------------------------------------ binascii

def b_hexlify(d):
  if isinstance(d, S.Sym): return S.hexlify(d)
  return _binascii.hexlify(d)


def b_unhexlify(d):
  if isinstance(d, S.SymStr): return S.unhexlify(d)
  return _binascii.unhexlify(rt.conc(d))


# ------------------------------------------------------------------ math

def m_floor(v):
  if isinstance(v, S.SymFloat): return rt.m_float(v.floor())
  if isinstance(v, (S.SymInt, S.SymBool)): return rt.m_float(v)
  return _math.floor(v)


def m_ceil(v):
  if isinstance(v, S.SymFloat): return rt.m_float(v.ceil())
  if isinstance(v, (S.SymInt, S.SymBool)): return rt.m_float(v)
  return _math.ceil(v)


def _mfun(f):
  def g(v, *a):
    if isinstance(v, S.SymInt) and not anysym(a): return S.by_cases(v, lambda k: f(k, *a))
    return f(rt.conc(v), *rt.conc(a))
  return g


def m_log(v, *a):
  """exact values of log for the range; large ranges are split where the result can matter"""
  if isinstance(v, S.SymInt) and not anysym(a): return log_of(v, a)
  return _math.log(rt.conc(v), *rt.conc(a))


class LogValue(S.Sym):
  """log(v, base) of a symbolic int, exact through its preimages: floor/ceil/int/comparisons with
  numbers are decided by binary search for the smallest argument that reaches the number"""
  __slots__ = ("v", "f")

  def reaches(self, x, strict):
    """Bool term: f(v) >= x (or > x); f is monotone"""
    lo, hi = self.v.lo, self.v.hi + 1
    f = self.f
    while lo < hi:
      mid = (lo + hi) // 2
      y = f(mid)
      if (y > x) if strict else (y >= x): hi = mid
      else: lo = mid + 1
    return T.lnot(S._ltt(self.v, lo))

  def rounded(self, g):
    a, b = int(g(self.f(self.v.lo))), int(g(self.f(self.v.hi)))
    r = a
    for k in range(a + 1, b + 1):
      # g(f(v)) >= k
      lo, hi = self.v.lo, self.v.hi + 1
      while lo < hi:
        mid = (lo + hi) // 2
        if g(self.f(mid)) >= k: hi = mid
        else: lo = mid + 1
      r = S.ite(T.lnot(S._ltt(self.v, lo)), k, r)
    return r

  def trunc(self): return self.rounded(int)
  def floor(self): return self.rounded(_math.floor)
  def ceil(self): return self.rounded(_math.ceil)
  def concretize(self): return self.f(self.v.concretize())

  def _map(self, g, increasing=True):
    f = self.f
    return LogValue.make(self.v, lambda k: g(f(k)))

  @staticmethod
  def make(v, f):
    r = LogValue.__new__(LogValue)
    r.v = v
    r.f = f
    return r

  def _arith(self, o, g):
    if isinstance(o, (int, long, float)): return self._map(lambda y: g(y, o))
    return g(self.concretize(), rt.conc(o))

  def __div__(self, o):
    if isinstance(o, (int, long, float)) and o > 0: return self._map(lambda y: y / o)
    return self.concretize() / rt.conc(o)
  __truediv__ = __div__
  def __mul__(self, o):
    if isinstance(o, (int, long, float)) and o > 0: return self._map(lambda y: y * o)
    return self.concretize() * rt.conc(o)
  __rmul__ = __mul__
  def __add__(self, o): return self._arith(o, lambda a, b: a + b)
  __radd__ = __add__
  def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
  def __rsub__(self, o): return rt.conc(o) - self.concretize()
  def __ge__(self, o): return S.mkbool(self.reaches(rt.conc(o), False))
  def __gt__(self, o): return S.mkbool(self.reaches(rt.conc(o), True))
  def __lt__(self, o): return S.mkbool(T.lnot(self.reaches(rt.conc(o), False)))
  def __le__(self, o): return S.mkbool(T.lnot(self.reaches(rt.conc(o), True)))
  def __eq__(self, o): return self.concretize() == rt.conc(o)
  def __ne__(self, o): return not self == o
  def __hash__(self): return hash(self.concretize())
  def __nonzero__(self): return bool(self.concretize())
  def __float__(self): return self.concretize()
  def __int__(self): return int(self.concretize())
  def __str__(self): return str(self.concretize())
  def __coerce__(self, o): return None


def log_of(v, a):
  if v.lo <= 0:
    if S.X.branch(S._ltt(v, 1)): raise ValueError("math domain error")
    v = S.mkint(v.t, 1, v.hi)
    if not isinstance(v, S.SymInt): return _math.log(v, *a)
  if v.hi - v.lo < 32: return S.by_cases(v, lambda k: _math.log(k, *a))
  if a and a[0] <= 1: return _math.log(v.concretize(), *a)
  return LogValue.make(v, lambda k: _math.log(k, *a))


def m_pow(a, b):
  if isinstance(a, S.SymInt) and isinstance(b, (int, long)) and b >= 0: return rt.m_float(a ** b)
  if isinstance(b, S.SymInt) and not isinstance(a, S.Sym): return S.by_cases(b, lambda k: _math.pow(a, k))
  return _math.pow(rt.conc(a), rt.conc(b))


# ------------------------------------------------------------------ bitstring

class BitError(Exception):
  def __init__(self, *params):
    self.msg = params[0] if params else ""
    self.params = params[1:]

  def __str__(self):
    return self.msg.format(*self.params) if self.params else self.msg


class ReadError(BitError, IndexError):
  def __init__(self, *params): BitError.__init__(self, *params)


class InterpretError(BitError, ValueError):
  def __init__(self, *params): BitError.__init__(self, *params)


class ByteAlignError(BitError):
  def __init__(self, *params): BitError.__init__(self, *params)


class CreationError(BitError, ValueError):
  def __init__(self, *params): BitError.__init__(self, *params)


_NAMES = "uintbe|uintle|intbe|intle|uint|int|bits|bytes|bin|hex|pad|bool|filler"
_TOKEN = _re.compile(r"^(%s)(?::?(\w+))?$" % _NAMES)


class Bits(object):
  def __init__(self, auto=None, length=None, offset=None, bytes=None, **kw):
    if kw or offset: unsupported("Bits(%s)" % ",".join(kw.keys() + ["offset"]))
    src = bytes if bytes is not None else auto
    if src is None: src = []
    if isinstance(src, Bits):
      self._d, self._off, self._len = src._d, src._off, src._len
    else:
      if isinstance(src, (str, unicode, S.SymStr)) and bytes is None: unsupported("Bits(auto string)")
      i = S.as_int(src)
      if i is not None:
        if bytes is None: self._d = [0] * ((S._conc(i) + 7) // 8)
        else: raise TypeError("bytes")
        self._len = S._conc(i)
      else:
        b = S.bytelist(src)
        if b is None and bytes is None: unsupported("Bits(auto)")
        self._d = list(b) if b is not None else list(rt.m_bytearray(src).e)
        self._len = len(self._d) * 8
      self._off = 0
    if length is not None:
      n = S._conc(length)
      if n < 0: raise CreationError("bitstring length cannot be negative")
      if n > self._len: raise CreationError("Not enough data present")
      self._len = n
    self._pos = 0

  @classmethod
  def _make(cls, d, off, n):
    r = cls.__new__(cls)
    r._d, r._off, r._len, r._pos = d, off, n, 0
    return r

  def _term(self, pos, n):
    return bits_term(self._d, self._off + pos, n)

  def _byts(self, pos, n):
    """byte values of n bits at pos (zero padded at the end)"""
    out = []
    k = 0
    while k < n:
      w = min(8, n - k)
      t = self._term(pos + k, w)
      if w < 8: t = T.concat(t, T.const(0, 8 - w))
      out.append(S.mkuint(t))
      k += 8
    return out

  # --- properties
  @property
  def len(self): return self._len
  length = len

  def __len__(self): return self._len

  def _getuint(self, n=None, pos=0):
    n = self._len - pos if n is None else n
    if not n: raise InterpretError("Cannot interpret a zero length bitstring as an integer.")
    return S.mkuint(self._term(pos, n))

  def _getint(self, n=None, pos=0):
    n = self._len - pos if n is None else n
    if not n: raise InterpretError("Cannot interpret bitstring without a length as an integer.")
    return S.mkint(self._term(pos, n), -(1 << (n - 1)), (1 << (n - 1)) - 1)

  @property
  def uint(self): return self._getuint()
  @property
  def uintbe(self): return self._getuint()
  @property
  def int(self): return self._getint()

  def _getbytes(self, n=None, pos=0):
    n = self._len - pos if n is None else n
    if n % 8: raise InterpretError("Cannot interpret as bytes unambiguously - not multiple of 8 bits.")
    return S.mkstr(self._byts(pos, n))

  @property
  def bytes(self): return self._getbytes()

  def tobytes(self): return S.mkstr(self._byts(0, self._len))

  def _gethex(self, n=None, pos=0):
    n = self._len - pos if n is None else n
    if n % 4: raise InterpretError("Cannot convert to hex unambiguously - not multiple of four bits.")
    return S.mkstr([S._hexdigit(S.mkuint(self._term(pos + k, 4))) for k in range(0, n, 4)])

  @property
  def hex(self): return self._gethex()

  def _getbin(self, n=None, pos=0):
    n = self._len - pos if n is None else n
    return S.mkstr([S.mkuint(self._term(pos + k, 1)) + 48 for k in range(n)])

  @property
  def bin(self): return self._getbin()

  def _bit(self, k):
    return S.mkbool(T.eq(self._term(k, 1), T.const(1, 1)))

  def __getitem__(self, k):
    if isinstance(k, slice):
      a, b, st = k.indices(self._len) if not anysym([k.start, k.stop, k.step]) else \
        slice(*[rt.conc(x) for x in (k.start, k.stop, k.step)]).indices(self._len)
      if st != 1: unsupported("bit slice with a step")
      return self._make(self._d, self._off + a, max(0, b - a))
    k = S._conc(k)
    if k < 0: k += self._len
    if not 0 <= k < self._len: raise IndexError("Slice index out of range.")
    return self._bit(k)

  def __getslice__(self, a, b):
    return self[slice(a, b)]

  def __iter__(self):
    for k in range(self._len): yield self._bit(k)

  def __eq__(self, o):
    if not isinstance(o, Bits):
      if o is None or isinstance(o, (bool, int, long)): return False
      try:
        o = Bits(o)
      except Exception:
        return False
    if o._len != self._len: return False
    if not self._len: return True
    return S.mkbool(T.eq(self._term(0, self._len), o._term(0, o._len)))

  def __ne__(self, o): return S.s_not(self == o)
  def __nonzero__(self): return self._len > 0
  def __hash__(self): return hash(self._len)
  def __copy__(self): return self._make(self._d, self._off, self._len)
  copy = __copy__

  def __add__(self, o):
    o = o if isinstance(o, Bits) else Bits(o)
    n = self._len + o._len
    if not self._len: return self._make(o._d, o._off, n)
    if not o._len: return self._make(self._d, self._off, n)
    t = T.concat(self._term(0, self._len), o._term(0, o._len))
    pad = -n % 8
    if pad: t = T.concat(t, T.const(0, pad))
    return self._make(byte_values(t), 0, n)

  def __str__(self): return "<bits>"
  def __repr__(self): return "<bits>"
  def __coerce__(self, o): return None

  def __getattr__(self, n):
    if n.startswith("__"): raise AttributeError(n)
    unsupported("bitstring attribute " + n)

  def unpack(self, fmt, **kw):
    return self._readlist(fmt, 0, kw)[0]

  # --- token reading
  def _tokens(self, fmt, kw):
    """list of (name, length in bits or None or (key))"""
    if isinstance(fmt, S.SymText) and fmt._e is None:
      p = fmt.parts
      if len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], tuple) and p[1][1] == 10:
        m = _re.match(r"^\s*(%s)\s*:\s*$" % _NAMES, p[0])
        if m:
          n = p[1][0]
          if S.X.branch(S._ltt(n, 0)) if isinstance(n, S.SymInt) else n < 0:
            raise ValueError("Can't read a token with a negative length.")
          return [(m.group(1), n * 8 if m.group(1) == "bytes" else n)]
    fmt = rt.conc(fmt)
    out = []
    for tok in ["".join(f.split()) for f in fmt.split(",")]:
      if not tok: continue
      factor = 1
      m = _re.match(r"^(\d+)\*(.+)$", tok)
      if m: factor, tok = int(m.group(1)), m.group(2)
      if tok in kw:
        out += [(tok, None)] * factor
        continue
      m = _TOKEN.match(tok)
      if m:
        name, n = m.group(1), m.group(2)
      else:
        m = _re.match(r"^:?(\w+)$", tok)
        if not m or _re.match(r"^[a-zA-Z_]", m.group(1)) and m.group(1) not in kw:
          if _re.match(r"^:?-?\w+(:-\d+)?$", tok) and "-" in tok: raise ValueError("Don't understand token '%s'." % tok)
          if _re.match(r"^(ue|se|uie|sie|float.*|oct.*|0[xob].*|.*=.*|.*ne.*)$", tok): unsupported("bitstring token " + tok)
          raise ValueError("Don't understand token '%s'." % tok)
        name, n = "uint", m.group(1)
      if name == "bool":
        if n not in (None, "1"): raise ValueError("You can only specify one bit sized bool tokens or leave unspecified.")
        n = 1
      elif n is not None:
        if n.isdigit():
          n = int(n)
          if name == "bytes": n *= 8
        elif n not in kw:
          raise ValueError("Don't understand length '%s' of token." % n)
      out += [(name, n)] * factor
    return out

  def _readtoken(self, name, pos, n):
    if isinstance(n, S.SymInt):
      if S.X.branch(S._ltt(self._len - pos, n)): raise ReadError("Reading off the end of the data.")
      n = n.concretize()
    n = int(n)
    if n > self._len - pos:
      raise ReadError("Reading off the end of the data. Tried to read {0} bits when only {1} available.", n, self._len - pos)
    if n < 0: unsupported("negative token length")
    if name in ("uint", "uintbe", "uintle"):
      if name != "uint" and n % 8: raise InterpretError("whole-byte")
      if name == "uintle":
        if not n: raise InterpretError("zero")
        v = S.mkuint(bits_term(self._byts(pos, n)[::-1], 0, n))
      else: v = self._getuint(n, pos)
    elif name in ("int", "intbe", "intle"):
      if name != "int" and n % 8: raise InterpretError("whole-byte")
      if name == "intle":
        if not n: raise InterpretError("zero")
        v = S.mkint(bits_term(self._byts(pos, n)[::-1], 0, n), -(1 << (n - 1)), (1 << (n - 1)) - 1)
      else: v = self._getint(n, pos)
    elif name == "bool": v = self._bit(pos)
    elif name == "bytes": v = self._getbytes(n, pos)
    elif name == "bits": v = ConstBitStream._make(self._d, self._off + pos, n)
    elif name == "hex": v = self._gethex(n, pos)
    elif name == "bin": v = self._getbin(n, pos)
    elif name == "pad": v = None
    else: unsupported("bitstring token " + name)
    return v, pos + n

  def _read1(self, fmt, pos):
    i = S.as_int(fmt)
    if i is not None:
      if isinstance(i, S.SymInt):
        if S.X.branch(S._ltt(i, 0)): raise ValueError("Cannot read negative amount.")
        if S.X.branch(S._ltt(self._len - pos, i)): raise ReadError("Cannot read that many bits")
        i = i.concretize()
      if i < 0: raise ValueError("Cannot read negative amount.")
      if i > self._len - pos: raise ReadError("Cannot read {0} bits, only {1} available.", i, self._len - pos)
      return self._make(self._d, self._off + pos, i), pos + i
    toks = self._tokens(fmt, {})
    if len(toks) != 1: raise ValueError("Format string should be a single token")
    name, n = toks[0]
    if n is None: n = self._len - pos
    return self._readtoken(name, pos, n)

  def _readlist(self, fmt, pos, kw):
    fmts = fmt if isinstance(fmt, (list, tuple)) else [fmt]
    toks = []
    for f in fmts:
      if S.as_int(f) is not None: toks.append(("bits", S.as_int(f)))
      else: toks += self._tokens(f, kw)
    known = 0
    stretchy = [k for k, (name, n) in enumerate(toks) if n is None and name not in kw]
    if stretchy: 
      if len(toks) != 1: unsupported("stretchy token in a list")
    out = []
    for name, n in toks:
      if isinstance(n, str):
        n = kw[n]
        if name == "bytes": n = n * 8
      if n is None:
        if name in kw:
          name, n = "uint", kw[name]
        else: n = self._len - pos
      i = S.as_int(n)
      if i is None: raise TypeError("length")
      if not isinstance(i, S.SymInt) and i < 0: unsupported("negative token length")
      if isinstance(i, S.SymInt) and i.lo < 0 and S.X.branch(S._ltt(i, 0)): unsupported("negative token length")
      v, pos = self._readtoken(name, pos, i)
      if v is not None: out.append(v)
    return out, pos


class ConstBitStream(Bits):
  def __init__(self, auto=None, length=None, offset=None, bytes=None, pos=0, **kw):
    Bits.__init__(self, auto, length, offset, bytes, **kw)
    self._pos = 0

  @property
  def len(self): return self._len
  length = len

  def _getpos(self): return self._pos

  def _setpos(self, p):
    p = S._conc(p)
    if p < 0: raise ValueError("Bit position cannot be negative.")
    if p > self._len: raise ValueError("Cannot seek past the end of the data.")
    self._pos = p

  pos = property(_getpos, _setpos)
  bitpos = property(_getpos, _setpos)

  def _getbytepos(self):
    if self._pos % 8: raise ByteAlignError("Not byte aligned in _getbytepos().")
    return self._pos // 8

  bytepos = property(_getbytepos, lambda self, p: self._setpos(p * 8))

  def read(self, fmt):
    v, self._pos = self._read1(fmt, self._pos)
    return v

  def peek(self, fmt):
    return self._read1(fmt, self._pos)[0]

  def readlist(self, fmt, **kw):
    v, self._pos = self._readlist(fmt, self._pos, kw)
    return v

  def peeklist(self, fmt, **kw):
    return self._readlist(fmt, self._pos, kw)[0]

  def bytealign(self):
    skip = -self._pos % 8
    self._setpos(self._pos + skip)
    return skip


bitstring = Module("bitstring", Bits=Bits, ConstBitStream=ConstBitStream, BitStream=ConstBitStream, BitArray=Bits,
                   Error=BitError, ReadError=ReadError, InterpretError=InterpretError, ByteAlignError=ByteAlignError,
                   CreationError=CreationError)


# ------------------------------------------------------------------ cerberus

class SchemaError(Exception):
  pass


def is_seq(v):
  return isinstance(v, (list, tuple, xrange)) or False


def is_iter(v):
  return isinstance(v, (str, unicode, S.SymStr, list, tuple, dict, set, frozenset)) or hasattr(type(v), "__iter__") and not isinstance(v, (S.Sym, bytearray))


_TYPES = {
  "boolean": lambda v: isinstance(v, (bool, S.SymBool)),
  "integer": lambda v: S.as_int(v) is not None and not (isinstance(v, S.SymEnum)),
  "float": lambda v: isinstance(v, (float, S.SymFloat)) or S.as_int(v) is not None,
  "number": lambda v: (isinstance(v, (float, S.SymFloat)) or S.as_int(v) is not None) and not isinstance(v, (bool, S.SymBool)),
  "list": is_seq,
  "dict": lambda v: isinstance(v, dict),
  "string": lambda v: isinstance(v, (str, unicode, S.SymStr)),
  "binary": lambda v: isinstance(v, (str, bytearray, S.SymStr, S.SymBytearray)),
  "set": lambda v: isinstance(v, set),
}

_IGNORED = ("required", "allow_unknown", "coerce", "default", "rename", "purge_unknown", "readonly", "nullable", "type")


class Validator(object):
  """the rules of cerberus 1.1 used here; the verdict of the built-in rules is one formula per document"""
  def __init__(self, schema=None, ignore_none_values=False, allow_unknown=False, **kw):
    self._schema = schema
    self.schema = schema
    self.allow_unknown = allow_unknown
    self._bad = T.FALSE
    self.document = None
    self._errs = []

  @property
  def errors(self):
    return dict([(f, ["invalid"]) for f in self._errs] or [("item", ["invalid"])])

  def _error(self, field, *what):
    self._bad = T.TRUE
    if isinstance(field, (str, int)): self._errs.append(field)

  def _fail(self, field, t):
    self._bad = T.lor(self._bad, t)
    if t is T.TRUE: self._errs.append(field)

  def validate(self, document, schema=None, update=False, normalize=True):
    schema = schema if schema is not None else self._schema
    self.document = document
    t = self._check(document, schema, self.allow_unknown)
    self._errs = self._errs
    return S.mkbool(T.lnot(t))

  __call__ = validate

  def _check(self, document, schema, allow_unknown):
    """Bool term: the document breaks the schema"""
    saved = self._bad
    self._bad = T.FALSE
    for field in document:
      rules = schema.get(field)
      if rules is None:
        if not allow_unknown: self._fail(field, T.TRUE)
        continue
      self._field(rules, field, document[field], allow_unknown, document)
    for field, rules in schema.items():
      if rules.get("required") and field not in document: self._fail(field, T.TRUE)
    bad, self._bad = self._bad, saved
    return bad

  def _field(self, rules, field, value, allow_unknown, document):
    if value is None:
      if not rules.get("nullable"): self._fail(field, T.TRUE)
      return
    if "type" in rules:
      ts = rules["type"]
      if isinstance(ts, str): ts = [ts]
      for t in ts:
        if t not in _TYPES: unsupported("cerberus type " + t)
      if not [t for t in ts if _TYPES[t](value)]:
        self._fail(field, T.TRUE)
        return
    for rule in sorted(rules):
      if rule in _IGNORED: continue
      arg = rules[rule]
      m = getattr(type(self), "_validate_" + rule, None)
      if m is not None:
        m(self, arg, field, value)
      elif hasattr(self, "_rule_" + rule.split("_")[0]) and (rule in ("min", "max", "allowed", "forbidden", "minlength", "maxlength", "empty", "schema") or rule.split("_")[0] in ("oneof", "anyof", "allof", "noneof")):
        getattr(self, "_rule_" + rule.split("_")[0])(arg, field, value, rule, rules, allow_unknown, document)
      else:
        unsupported("cerberus rule " + rule)

  def _rule_min(self, arg, field, value, *_):
    self._fail(field, S.bterm(value < arg))

  def _rule_max(self, arg, field, value, *_):
    self._fail(field, S.bterm(value > arg))

  def _rule_allowed(self, arg, field, value, *_):
    if is_iter(value) and not isinstance(value, (str, unicode, S.SymStr)):
      for x in value: self._fail(field, T.lnot(S.bterm(rt.sx_in(x, arg))))
    else:
      self._fail(field, T.lnot(S.bterm(rt.sx_in(value, arg))))

  def _rule_forbidden(self, arg, field, value, *_):
    if is_seq(value):
      for x in value: self._fail(field, S.bterm(rt.sx_in(x, arg)))
    else:
      self._fail(field, S.bterm(rt.sx_in(value, arg)))

  def _rule_minlength(self, arg, field, value, *_):
    if is_iter(value): self._fail(field, T.boolc(len(value) < arg))

  def _rule_maxlength(self, arg, field, value, *_):
    if is_iter(value): self._fail(field, T.boolc(len(value) > arg))

  def _rule_empty(self, arg, field, value, *_):
    if is_iter(value) and len(value) == 0 and not arg: self._fail(field, T.TRUE)

  def _rule_schema(self, arg, field, value, rule, rules, allow_unknown, document):
    if arg is None: return
    if is_seq(value):
      doc = dict(enumerate(value))
      self._fail(field, self._check(doc, dict([(k, arg) for k in doc]), allow_unknown))
    elif isinstance(value, dict):
      self._fail(field, self._check(value, arg, rules.get("allow_unknown", allow_unknown)))

  def _valids(self, arg, field, value, rule, rules, allow_unknown, document):
    sub = rule.split("_", 1)[1] if "_" in rule else None
    out = []
    for d in arg:
      d = {sub: d} if sub else dict(d)
      for r in ("allow_unknown", "type"):
        if r not in d and r in rules: d[r] = rules[r]
      if "allow_unknown" not in d: d["allow_unknown"] = allow_unknown
      bad = self._check(document, {field: d}, True)
      out.append(T.lnot(bad))
    return out

  def _rule_oneof(self, *a):
    vs = self._valids(*a)
    one, none = T.FALSE, T.TRUE
    for v in vs:
      one = T.lor(T.land(one, T.lnot(v)), T.land(none, v))
      none = T.land(none, T.lnot(v))
    self._fail(a[1], T.lnot(one))

  def _rule_anyof(self, *a): self._fail(a[1], T.lnot(_any(self._valids(*a))))
  def _rule_allof(self, *a): self._fail(a[1], T.lnot(T.conj(self._valids(*a))))
  def _rule_noneof(self, *a): self._fail(a[1], _any(self._valids(*a)))


def _any(ts):
  r = T.FALSE
  for t in ts: r = T.lor(r, t)
  return r


cerberus = Module("cerberus", Validator=Validator, SchemaError=SchemaError)


# ------------------------------------------------------------------ crcmod

_crc_cache = {}


def crc_effects(f, n, key):
  """the real function as an affine map over GF(2): value at zero and the effect of every input bit"""
  c = _crc_cache.get((key, n))
  if c is None:
    z = f("\0" * n)
    eff = []
    for i in range(n):
      for b in range(8):
        d = ["\0"] * n
        d[i] = chr(128 >> b)
        eff.append(f("".join(d)) ^ z)
    # the map is affine: checked on patterns that set several bits
    seed = 0x1234567
    for _ in range(6):
      bs, want = [], z
      for i in range(n):
        seed = (seed * 1103515245 + 12345) & 0x7fffffff
        v = (seed >> 16) & 255
        bs.append(chr(v))
        for b in range(8):
          if v & (128 >> b): want ^= eff[i * 8 + b]
      if f("".join(bs)) != want: unsupported("checksum is not affine")
    c = (z, eff)
    _crc_cache[(key, n)] = c
  return c


class CrcFun(object):
  def __init__(self, real, width, key):
    self.real = real
    self.width = width
    self.key = key

  def __call__(self, data, *a):
    b = S.bytelist(data)
    if b is None: return self.real(data, *a)
    if not anysym([data]) and not anysym(b): return self.real("".join([chr(x) for x in b]), *a)
    if a: return self.real(rt.conc(data), *rt.conc(a))
    z, eff = crc_effects(self.real, len(b), self.key)
    return S.mkuint(S.affine(b, eff, z, self.width))


def mkCrcFun(name):
  real = _crcmod_predefined
  f = real.mkCrcFun(rt.conc(name))
  z = f("\0\0\0\0")
  d = real._crc_definitions_by_name if hasattr(real, "_crc_definitions_by_name") else {}
  w = 64
  k = real._simplify_name(rt.conc(name)) if hasattr(real, "_simplify_name") else None
  if k in d: w = d[k]["poly"].bit_length() - 1
  return CrcFun(f, w, rt.conc(name))


def mkCrcFun0(poly, initCrc=~0, rev=True, xorOut=0):
  f = _crcmod.mkCrcFun(poly, initCrc, rev, xorOut)
  return CrcFun(f, poly.bit_length() - 1, (poly, initCrc, rev, xorOut))


crcmod = Module("crcmod", mkCrcFun=mkCrcFun0,
                predefined=Module("crcmod.predefined", mkCrcFun=mkCrcFun, mkPredefinedCrcFun=mkCrcFun))


# ------------------------------------------------------------------ environment stubs

class _Null(object):
  def __call__(self, *a, **k): return None
  def __getattr__(self, n):
    if n.startswith("__"): raise AttributeError(n)
    return _Null()


def pp_format(o, *a, **k):
  """what is shown, without the arrangement in lines"""
  if not rt.shows_sym(o): return _pprint.pformat(o)
  if type(o) is dict:
    out = []
    for x in sorted(o.keys(), key=lambda x: str(rt.conc(x))): out += [", ", rt.sx_repr(x), ": ", pp_format(o[x])]
    return S.mktext(["{"] + out[1:] + ["}"])
  return rt.sx_repr(o)


def pp_print(o, stream=None, *a, **k):
  out = sys.stdout if stream is None else stream
  if hasattr(out, "write_text"): rt.sx_print(out, True, pp_format(o))


class _Printer(object):
  def __init__(self, *a, **k): pass
  def pprint(self, o): pp_print(o)
  def pformat(self, o): return pp_format(o)


pprint = Module("pprint", pprint=pp_print, pformat=pp_format, PrettyPrinter=_Printer)


class Rand(object):
  """random numbers are inputs: the harness supplies them"""
  def __init__(self): self.source = None

  def _int(self, lo, hi):
    if self.source is None: unsupported("random without a source")
    return self.source(lo, hi)

  def randint(self, a, b): return self._int(a, b)
  def randrange(self, a, b=None): return self._int(0, a - 1) if b is None else self._int(a, b - 1)
  def getrandbits(self, n): return self._int(0, (1 << n) - 1)
  def seed(self, *a): pass
  def choice(self, xs): return xs[S._conc(self._int(0, len(xs) - 1))]
  def SystemRandom(self, *a): return self
  def Random(self, *a): return self


random = Rand()


# ------------------------------------------------------------------ jsonpickle (1.4.1): values to a tree and back

class _Handler(object):
  def __init__(self, context):
    self.context = context

  def __call__(self, context):
    self.context = context
    return self

  def flatten(self, obj, data): raise NotImplementedError("flatten")
  def restore(self, obj): raise NotImplementedError("restore")


class _Handlers(Module):
  def __init__(self):
    Module.__init__(self, "jsonpickle.handlers")
    self.BaseHandler = _Handler
    self.one, self.bases = {}, []

  def register(self, cls, handler=None, base=False):
    if handler is None:
      def deco(h):
        self.register(cls, h, base)
        return h
      return deco
    self.one[cls] = handler
    if base: self.bases.append((cls, handler))

  def get(self, cls):
    h = self.one.get(cls)
    if h is None and isinstance(cls, type):
      for b, bh in self.bases:
        if issubclass(cls, b): return bh
    return h


class Pickled(object):
  """the text of an encoded value, kept as its tree"""
  def __init__(self, tree):
    self.tree = tree


def _cname(cls): return cls.__module__ + "." + cls.__name__


def _load(name):
  m, n = name.rsplit(".", 1)
  if m == "__builtin__" or m == "builtins": return None
  try:
    __import__(m)
    return getattr(sys.modules[m], n)
  except (ImportError, AttributeError, KeyError): return None


_PRIMITIVE = (int, long, float, bool, str, unicode, type(None))


class _Flatten(object):
  def __init__(self):
    self.ids, self.keep = {}, []

  def ref(self, o):
    if id(o) in self.ids: return True
    self.ids[id(o)] = len(self.ids) + 1
    self.keep.append(o)
    return False

  def do(self, o):
    if isinstance(o, S.SymEnum): o = o.member()
    if isinstance(o, S.Sym):
      if isinstance(o, S.SymBytearray): unsupported("jsonpickle of a bytearray")
      return o
    if type(o) in _PRIMITIVE: return o
    if type(o) is list:
      if self.ref(o): return {"py/id": self.ids[id(o)]}
      return [self.do(x) for x in o]
    if type(o) is tuple: return {"py/tuple": [self.do(x) for x in o]}
    if type(o) is dict:
      if self.ref(o): return {"py/id": self.ids[id(o)]}
      for k in o.keys():
        if type(k) not in (str, unicode): unsupported("jsonpickle of keys which are no text")
      return dict([(k, self.do(x)) for k, x in o.items()])
    if isinstance(o, (type, types.ClassType)): return {"py/type": _cname(o)}
    cls = getattr(o, "__class__", None)
    if cls is None or isinstance(o, (bytearray, set, frozenset, complex, types.FunctionType, types.MethodType, types.ModuleType, types.GeneratorType)) \
       or isinstance(o, (list, dict, tuple, str, unicode, int, long, float)) and handlers.get(cls) is None:
      unsupported("jsonpickle of " + type(o).__name__)
    if self.ref(o): return {"py/id": self.ids[id(o)]}
    h = handlers.get(cls)
    if h is not None: return h(self).flatten(o, {"py/object": _cname(cls)})
    for m in ("__getstate__", "__getnewargs__", "__getinitargs__"):
      if hasattr(o, m): unsupported("jsonpickle with " + m)
    if getattr(cls, "__slots__", None): unsupported("jsonpickle with slots")
    if isinstance(cls, type) and cls.__reduce__ is not object.__reduce__: unsupported("jsonpickle with __reduce__")
    d = {"py/object": _cname(cls)}
    for k, x in sorted(o.__dict__.items()): d[k] = self.do(x)
    return d


class _Restore(object):
  def __init__(self): self.objs = []

  def do(self, t):
    if isinstance(t, S.Sym) or type(t) in _PRIMITIVE: return unicode(t) if type(t) is str else t
    if type(t) is list:
      r = []
      self.objs.append(r)
      for x in t: r.append(self.do(x))
      return r
    if "py/tuple" in t: return tuple([self.do(x) for x in t["py/tuple"]])
    if "py/id" in t: return self.objs[t["py/id"] - 1]
    if "py/type" in t: return _load(t["py/type"])
    if "py/object" in t:
      cls = _load(t["py/object"])
      if cls is None: return dict([(unicode(k), self.do(x)) for k, x in t.items()])
      h = handlers.get(cls)
      if h is not None:
        n = len(self.objs)
        self.objs.append(None)
        self.objs[n] = h(self).restore(t)
        return self.objs[n]
      if isinstance(cls, types.ClassType):
        o = types.InstanceType(cls)
      else:
        o = cls.__new__(cls)
      self.objs.append(o)
      for k, x in sorted(t.items()):
        if k != "py/object": setattr(o, k, self.do(x))
      return o
    r = {}
    self.objs.append(r)
    for k, x in sorted(t.items()): r[unicode(k)] = self.do(x)
    return r


def jp_encode(value, unpicklable=True, *a, **k):
  if not unpicklable or a or k: unsupported("jsonpickle options")
  return Pickled(_Flatten().do(value))


def jp_decode(text, *a, **k):
  if not isinstance(text, Pickled) or a or k: unsupported("jsonpickle.decode of a text")
  return _Restore().do(text.tree)


handlers = _Handlers()
jsonpickle = Module("jsonpickle", encode=jp_encode, dumps=jp_encode, decode=jp_decode, loads=jp_decode, handlers=handlers)


def register():
  import binascii, math, struct
  rt.MODELED.update({
    "struct": Through(struct, pack=s_pack, unpack=s_unpack, unpack_from=s_unpack_from, pack_into=s_pack_into, Struct=StructObject),
    "binascii": Through(binascii, hexlify=b_hexlify, b2a_hex=b_hexlify, unhexlify=b_unhexlify, a2b_hex=b_unhexlify),
    "math": Through(math, floor=m_floor, ceil=m_ceil, log=m_log, pow=m_pow, log10=_mfun(_math.log10), sqrt=_mfun(_math.sqrt)),
    "bitstring": bitstring,
    "jsonpickle": jsonpickle,
    "cerberus": cerberus,
    "crcmod": crcmod,
    "pprint": pprint,
    "random": random,
  })
  rt.MODELED["argparse"] = Through(program._argparse, ArgumentParser=program.ArgumentParser)
  rt.MODELED.update(world.MODULES)
