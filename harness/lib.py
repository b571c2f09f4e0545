from bitstring import ConstBitStream


def stream(b):
  return ConstBitStream(bytearray(b))


def raw(o):
  """the bytes an object serialises to"""
  return list(bytearray(o))


def be(v, n):
  """v as n bytes, big endian"""
  return [(v >> (8 * (n - 1 - k))) & 0xFF for k in range(n)]


def le(v, n):
  return be(v, n)[::-1]


def num(bs):
  v = 0
  for x in bs: v = v * 256 + x
  return v


def sint8(v):
  """byte of a two's complement value"""
  return v & 0xFF


class Spec(object):
  """an object, the bytes it must serialise to, and what a parsed copy must look like"""
  def __init__(self, obj, bytes, match, name=""):
    self.obj = obj
    self.bytes = bytes
    self.match = match
    self.name = name


def codec(c, spec, parse, tail=1, consumes=True):
  """serialises to the reference bytes; parses back to the same fields, consuming its own bytes only"""
  b = raw(spec.obj)
  c.observe("bytes", b)
  c.same(b, spec.bytes, "serialises to the documented bytes")
  s = stream(b + c.bytes("tail", tail))
  p = parse(s)
  c.check(spec.match(p), "parses back to the same fields")
  if consumes: c.check(s.pos == 8 * len(b), "parsing consumes exactly its own bytes")
  c.same(raw(p), spec.bytes, "the parsed copy serialises to the same bytes")
  return p


def rejects(c, f, ok, what):
  """f() must succeed exactly when ok holds, and fail with ValueError otherwise"""
  _, e = c.attempt(f)
  if e is None:
    c.check(ok, "out of range %s accepted" % what)
  else:
    c.check(isinstance(e, ValueError), "out of range %s rejected with ValueError" % what)
    c.check(c.no(ok), "in range %s rejected" % what)


def truncated(c, b, parse, what="image"):
  """every proper prefix of b is reported as missing data"""
  k = c.pick("have", 0, len(b) - 1)
  _, e = c.attempt(parse, stream(b[:k]))
  c.check(e is not None, "truncated %s accepted" % what)
  c.check(e.__class__.__name__ == "ReadError", "truncated %s reported as missing data" % what)


def codes(c, *tables):
  """enumerations have the codes of the specification: tables of (class, "name=code name=code ...")"""
  cls, t = c.choice("enumeration", list(tables))
  n, v = c.choice("member", t.split()).split("=")
  v = int(v, 16)
  m, e = c.attempt(getattr, cls, n)
  c.check(e is None and m.value == v and cls(v) is m, "code of a member")
