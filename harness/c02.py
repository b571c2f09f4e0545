"""Compressed time: every value 0..507904 plus the next million and the 10^6 below 0, both rounding modes; every (exp, mant) pair and every byte."""
from harness.lib import *
from harness import gen
from d7a.types.ct import CT

TOP = 31 * 4 ** 7


def duration(b):
  """reference: mantissa times four to the exponent"""
  exp = b >> 5
  r = b & 31
  for k in range(1, 8):
    if exp >= k: r = r * 4
  return r


def codec_all(c):
  s = gen.ct(c, "ct")
  p = codec(c, s, CT.parse)
  c.check(c.both(p.decompress() == duration(s.bytes[0]), int(p) == duration(s.bytes[0])), "duration of a code")
  c.check(s.obj.compressed_value() == s.bytes[0], "code")


def decode(c):
  b = c.byte("code")
  p = CT.parse(stream([b]))
  c.check(c.both(p.exp == b >> 5, p.mant == b & 31), "fields of a code")
  c.same(raw(p), [b], "code of the fields")


def rng(c):
  e, m = c.int("exp", -3, 20), c.int("mant", -3, 70)
  rejects(c, lambda: CT(e, m), c.both(e >= 0, e <= 7, m >= 0, m <= 31), "exponent or mantissa")


def compress(c, ceil, lo, hi):
  v = c.int("value", lo, hi)
  t = CT.compress(v, ceil) if not ceil else CT.compress(v)
  c.check(t is not None, "a code for every representable duration")
  d = t.decompress()
  c.observe("code", t.compressed_value())
  c.check(d == duration(t.compressed_value()), "duration of the code")
  # the distance to the value is less than one step of the code chosen
  step = 1
  for k in range(1, 8):
    if t.exp >= k: step = step * 4
  if ceil:
    c.check(d >= v, "rounds up")
    c.check(d - v < step, "by less than a step")
  else:
    c.check(d <= v, "rounds down")
    c.check(v - d < step, "by less than a step")
  # and that code has the finest resolution that reaches the value
  if t.exp > 0:
    finer = 31 * (step // 4) if not hasattr(step, "t") else 31 * (step >> 2)
    c.check(finer < v, "finest resolution")


def compress_minimal(c, lo, hi):
  """no other code is closer from above"""
  v = c.int("value", lo, hi)
  d = CT.compress(v).decompress()
  w = duration(c.byte("other"))
  c.check(c.no(c.both(w >= v, w < d)), "smallest representable duration that is long enough")


def compress_beyond(c):
  ceil = c.choice("ceil", [True, False])
  v = c.int("value", TOP + 1, TOP + 1000000)
  t, e = c.attempt(CT.compress, v, ceil)
  c.check(t is None, "a code for a duration that is too long")


def compress_negative(c):
  ceil = c.choice("ceil", [True, False])
  v = c.int("value", -1000000, -1)
  t, e = c.attempt(CT.compress, v, ceil)
  c.check(t is None, "a code for a negative duration")


def idempotent(c):
  b = c.byte("code")
  t = CT.parse(stream([b]))
  c.check(CT.compress(t.decompress()).decompress() == t.decompress(), "exact durations are kept")


def instances(tier):
  r = [("codec", codec_all, ()), ("decode", decode, ()), ("range", rng, ()), ("beyond", compress_beyond, ()), ("negative", compress_negative, ()), ("idempotent", idempotent, ())]
  for ceil in (True, False): r.append(("compress-%s" % ("up" if ceil else "down"), compress, (ceil, 0, TOP)))
  r.append(("compress-minimal", compress_minimal, (0, TOP)))
  return r
