"""Length operand: every value -1000..2^31 (in-range 0..2^30-1); every 1..4 byte operand image, followed by 0..2 more bytes, and
every truncation of it.  Offset operand: every file id 0..255 with every length value; every 2..5 byte image and
every truncation of it; operands of the wrong kind."""
from bitstring import ConstBitStream
from d7a.alp.operands.length import Length
from d7a.alp.operands.offset import Offset


def raw(o):
  return list(bytearray(o))


def expected(v):
  """reference: two tag bits (bytes - 1), then the value, big endian, in the shortest form"""
  if v < 1 << 6: n = 1
  elif v < 1 << 14: n = 2
  elif v < 1 << 22: n = 3
  else: n = 4
  w = v + ((n - 1) << (8 * n - 2))
  return [(w >> (8 * (n - 1 - k))) & 0xFF for k in range(n)]


def length_encode(c):
  v = c.int("value", 0, (1 << 30) - 1)
  b = raw(Length(v))
  c.observe("bytes", b)
  c.same(b, expected(v), "shortest form, big endian")
  s = ConstBitStream(bytearray(b + [0xA5]))
  p = Length.parse(s)
  c.check(c.both(p.value == v, s.pos == 8 * len(b)), "parses back, consuming its own bytes")
  c.check(p == Length(v), "equal")
  c.check(c.no(p != Length(v)), "not unequal")


def length_range(c):
  v = c.int("value", -1000, 1 << 31)
  _, e = c.attempt(Length, v)
  if e is None: c.check(c.both(v >= 0, v < 1 << 30), "out of range value accepted")
  else:
    c.check(isinstance(e, ValueError), "rejected with ValueError")
    c.check(c.either(v < 0, v >= 1 << 30), "in range value rejected")


def length_decode(c, tail):
  size = c.pick("size", 1, 4)
  top = c.int("top", 0, 63)
  b = [((size - 1) << 6) + top] + c.bytes("rest", size - 1)
  s = ConstBitStream(bytearray(b + c.bytes("tail", tail)))
  p = Length.parse(s)
  v = top
  for x in b[1:]: v = v * 256 + x
  c.observe("value", p.value)
  c.check(p.value == v, "value of any image")
  c.check(s.pos == 8 * size, "consumes exactly the image")
  again = Length.parse(ConstBitStream(bytearray(raw(p))))
  c.check(again.value == v, "re-encoded value")
  c.check(len(raw(p)) <= size, "re-encoded no longer than the image")


def length_truncated(c):
  size = c.pick("size", 1, 4)
  have = c.pick("have", 0, 3)
  c.assume(have < size)
  b = [((size - 1) << 6) + c.int("top", 0, 63)] + c.bytes("rest", size - 1)
  _, e = c.attempt(Length.parse, ConstBitStream(bytearray(b[:have])))
  c.check(e is not None, "truncated image accepted")
  c.check(e.__class__.__name__ == "ReadError", "reported as missing data")


def length_eq(c):
  a, b = c.int("a", 0, (1 << 30) - 1), c.int("b", 0, (1 << 30) - 1)
  x, y = Length(a), Length(b)
  c.same(bool(x == y), bool(a == b), "equality is value equality")
  c.same(bool(x != y), bool(a != b), "inequality is its negation")
  c.same(bool(x == b), bool(a == b), "equality with a number")


def offset_encode(c):
  i = c.byte("id")
  v = c.int("offset", 0, (1 << 30) - 1)
  o = Offset(id=i, offset=Length(v))
  b = raw(o)
  c.observe("bytes", b)
  c.same(b, [i] + expected(v), "file id then offset")
  s = ConstBitStream(bytearray(b + [0xFF]))
  p = Offset.parse(s)
  c.check(c.both(p.id == i, p.offset.value == v, s.pos == 8 * len(b)), "parses back, consuming its own bytes")


def offset_range(c):
  i = c.int("id", -300, 600)
  _, e = c.attempt(Offset, id=i, offset=Length(1))
  if e is None: c.check(c.both(i >= 0, i <= 255), "out of range id accepted")
  else:
    c.check(isinstance(e, ValueError), "rejected with ValueError")
    c.check(c.either(i < 0, i > 255), "in range id rejected")


def offset_default(c):
  a = Offset(id=c.byte("a"))
  b = Offset(id=c.byte("b"))
  a.offset = Length(c.int("v", 0, 1000))
  c.check(c.both(Offset().id == 0, Offset().offset.value == 0, b.offset.value == 0), "defaults")


def offset_decode(c):
  size = c.pick("size", 1, 4)
  i, top = c.byte("id"), c.int("top", 0, 63)
  b = [i, ((size - 1) << 6) + top] + c.bytes("rest", size - 1)
  s = ConstBitStream(bytearray(b))
  p = Offset.parse(s)
  v = top
  for x in b[2:]: v = v * 256 + x
  c.check(c.both(p.id == i, p.offset.value == v, s.pos == 8 * len(b)), "fields of any image")


def offset_truncated(c):
  size = c.pick("size", 1, 4)
  have = c.pick("have", 0, 4)
  c.assume(have < size + 1)
  b = [c.byte("id"), ((size - 1) << 6) + c.int("top", 0, 63)] + c.bytes("rest", size - 1)
  _, e = c.attempt(Offset.parse, ConstBitStream(bytearray(b[:have])))
  c.check(e is not None, "truncated image accepted")
  c.check(e.__class__.__name__ == "ReadError", "reported as missing data")


def offset_kinds(c):
  """the offset of an operand is a length"""
  bad = c.choice("bad", [None, c.byte("n"), "x", [1], Offset(id=1), Length(3)])
  _, e = c.attempt(lambda: Offset(id=1, offset=bad))
  if isinstance(bad, Length): c.check(e is None, "a length refused")
  else: c.check(isinstance(e, ValueError), "refused with a value error")


def length_kinds(c):
  """only integers are lengths"""
  bad = c.choice("bad", [None, "x", [1], Length(3)])
  _, e = c.attempt(Length, bad)
  c.check(isinstance(e, ValueError), "refused with a value error")


def instances(tier):
  r = [("length-encode", length_encode, ()), ("length-range", length_range, ()), ("length-truncated", length_truncated, ()),
       ("length-eq", length_eq, ()), ("offset-encode", offset_encode, ()), ("offset-range", offset_range, ()),
       ("offset-default", offset_default, ()), ("offset-decode", offset_decode, ()), ("offset-truncated", offset_truncated, ()),
       ("offset-kinds", offset_kinds, ()), ("length-kinds", length_kinds, ())]
  for t in range(0, 3 if tier == "quick" else 9): r.append(("length-decode-%d" % t, length_decode, (t,)))
  return r
