# Serial frames written from the documented format: sync 0xC0 0x00, counter, message type, payload length, CRC-16 (CCITT, initial
# value 0xFFFF, most significant byte first) of the payload, payload.
from harness.lib import *


def crc(c, bs):
  r = c.crc16(list(bs), 0x1021, 0xFFFF)
  return [r >> 8, r & 0xFF]


def frame(c, counter, kind, payload):
  return [0xC0, 0, counter, kind, len(payload)] + crc(c, payload) + list(payload)


def text(bs):
  return [ord(x) if isinstance(x, (str, unicode)) else x for x in bs]


def expected(c, bs):
  """what a byte stream contains: the frames as (message type, payload), and the position from which more bytes are awaited"""
  out, i, n = [], 0, len(bs)

  def skip(i):
    i = i + 1
    while i < n and bs[i] != 0xC0: i = i + 1
    return i

  while i < n:
    if bs[i] != 0xC0 or (i + 1 < n and bs[i + 1] != 0):
      i = skip(i)
      continue
    if n - i < 7 or n - i - 7 < bs[i + 4]: break
    m = c.hold(bs[i + 4])
    p = bs[i + 7:i + 7 + m]
    if c.no(c.eq(crc(c, p), [bs[i + 5], bs[i + 6]])) or (bs[i + 3] == 5 and m == 0):
      i = skip(i)
      continue
    out.append((bs[i + 3], p))
    i = i + 7 + m
  return out, i


def matches(c, want, kinds, cmds):
  """messages of a parser that does not parse ALP"""
  if len(kinds) != len(want) or len(cmds) != len(want): return False
  r = []
  for (k, p), kind, cmd in zip(want, kinds, cmds):
    r.append(kind == k)
    if isinstance(cmd, str) or not c.isint(cmd): r.append(c.eq(text(cmd), p))
    else: r.append(cmd == p[0])
  return c.both(*r)
