"""500 (thorough 1500) frames with noise and broken ones between them, at once or in long reads; every byte sequence of 0..8 (thorough 0..10) bytes; 0..3 (thorough 0..5) arbitrary bytes before a valid frame; every payload of 0..2 bytes under every message
type, and of 3 (thorough 4) bytes under the ALP type, in a valid frame before another one, parsed as ALP (no byte 0xC0 in it); frames with any wrong checksum before a valid one;
from 300 bytes of noise of six patterns, and payloads of 127 to 255 bytes in a good or bad frame, before a frame."""
from harness.serial_frames import *
from harness.gen import *
from d7a.serial_modem_interface.parser import Parser


def read_file(c, n="file"):
  i = c.byte(n)
  return [1, i, 0, 4], lambda cmd: c.both(len(cmd.actions) == 1, cmd.actions[0].operation.operand.offset.id == i)


def anything(c, n):
  """any bytes at all"""
  b = c.bytes("b", n)
  p = Parser(skip_alp_parsing=True)
  r, e = c.attempt(p.parse, bytearray(b))
  c.check(e is None, "no byte sequence makes the parser fail")
  kinds, cmds, info = r
  want, rest = expected(c, b)
  c.check(matches(c, want, kinds, cmds), "delivers exactly the frames it received")
  c.check(c.eq(list(p.buffer), b[rest:]), "keeps what may still become a frame")
  c.check(info["buffer"] == 8 * len(p.buffer), "reports what it keeps")


def progress(c, n):
  """arbitrary bytes before a frame may delay it, but not swallow it"""
  b = c.bytes("b", n)
  if n > 4: c.assume(c.either(*[b[4] == k for k in (0, 1, 5, 12, 200, 255)]))
  f = frame(c, c.choice("counter", [1, 9, 255]), 2, [1, 2, 3])
  p = Parser(skip_alp_parsing=True)
  r, e = c.attempt(p.parse, bytearray(b + f))
  c.check(e is None, "no byte sequence makes the parser fail")
  got = list(r[1])
  kinds = list(r[0])
  fill = [0] * 262
  r, e = c.attempt(p.parse, bytearray(fill))
  c.check(e is None, "no byte sequence makes the parser fail")
  got, kinds = got + list(r[1]), kinds + list(r[0])
  want, rest = expected(c, b + f + fill)
  c.check(matches(c, want, kinds, got), "delivers exactly the frames it received")
  c.check(len(p.buffer) == 0, "everything is consumed")
  if len(want) == 1: c.check(c.eq(want[0][1], [1, 2, 3]), "the frame is delivered")


def noise(c, n, skip):
  """bytes that start no frame are dropped; the frame after them is delivered"""
  b = c.bytes("b", n)
  for x in b: c.assume(x != 0xC0)
  d, same = read_file(c)
  f = frame(c, c.byte("counter"), 1, d)
  p = Parser(skip_alp_parsing=skip)
  kinds, cmds, info = p.parse(bytearray(b + f))
  c.check(len(cmds) == 1 and kinds == [1], "the frame is delivered exactly once")
  c.check(c.eq(text(cmds[0]), d) if skip else same(cmds[0]), "unchanged")
  c.check(len(info["errors"]) == (1 if n else 0), "noise is reported once")
  if n: c.check(info["errors"][0]["skipped"] == n, "and dropped completely")
  c.check(len(p.buffer) == 0, "everything is consumed")


def contained(c, n):
  """whatever a frame holds, the next frame is delivered"""
  b = c.bytes("payload", n)
  k = c.choice("kind", [1, 2, 3, 4, 5, 6] if n < 3 else [1])
  f = frame(c, 1, k, b)
  for x in f[5:]: c.assume(x != 0xC0)
  d, same = read_file(c)
  p = Parser()
  r, e = c.attempt(p.parse, bytearray(f + frame(c, 2, 1, d)))
  c.check(e is None, "no payload makes the parser fail")
  kinds, cmds, info = r
  c.check(len(cmds) in (1, 2) and len(kinds) == len(cmds), "messages")
  c.check(kinds[-1] == 1 and same(cmds[-1]), "the next frame is delivered")
  if len(cmds) == 1: c.check(len(info["errors"]) >= 1, "a frame that is not delivered is reported")
  else:
    c.check(kinds[0] == k and len(info["errors"]) == 0, "message type")
    if k == 5: c.check(n >= 1 and cmds[0] == b[0], "reason of the reboot")
    elif k == 4: c.same(text(cmds[0]), b, "log text")
    elif n == 0: c.check(len(cmds[0].actions) == 0, "empty command")
    else: c.check(isinstance(cmds[0], Command), "command")
  c.check(len(p.buffer) == 0, "everything is consumed")
  c.check(p.error_counter == 0 and p.down_counter == 2, "both frames count once")


def alone(c, n):
  """a complete frame is answered at once: delivered or reported, never kept waiting"""
  b = c.bytes("payload", n)
  f = frame(c, 1, c.choice("kind", [1, 2, 5]), b)
  for x in f[5:]: c.assume(x != 0xC0)
  p = Parser()
  r, e = c.attempt(p.parse, bytearray(f))
  c.check(e is None, "no payload makes the parser fail")
  c.check(len(r[1]) + len(r[2]["errors"]) >= 1, "delivered or reported")
  c.check(len(p.buffer) == 0, "nothing is kept")


PATTERNS = [[0x11], [0xC0, 0x11], [0xC0, 0xC0, 2], [0xC0, 0, 1, 1, 0, 0, 0], [0xC0, 0, 1, 1, 2, 0, 0, 9, 9, 7], [0x00]]


def far(c, n, skip):
  """much noise, with or without what looks like the start of a frame"""
  b = c.choice("pattern", PATTERNS)
  b = (b * (n // len(b) + 1))[:n // len(b) * len(b)]
  x = c.byte("other")
  c.assume(x != 0xC0)
  d, same = read_file(c)
  p = Parser(skip_alp_parsing=skip)
  kinds, cmds, info = p.parse(bytearray(b + [x] + frame(c, c.byte("counter"), 1, d)))
  c.check(len(cmds) == 1 and kinds == [1], "the frame is delivered exactly once")
  c.check(c.eq(text(cmds[0]), d) if skip else same(cmds[0]), "unchanged")
  c.check(len(info["errors"]) >= 1 and len(p.buffer) == 0, "the noise is reported, everything is consumed")


def large(c, kind):
  """a frame with as much as it can hold, good or bad, before another one"""
  n = c.choice("size", [127, 128, 200, 254, 255])
  k = c.byte("file")
  c.assume(k != 0xC0)
  b = [0x20, k, 0, 0x40, n - 5] + [(5 * x + 1) % 191 for x in range(n - 5)]
  good = c.choice("good", [True, False])
  f = frame(c, 1, kind, b)
  if not good: f[5] = f[5] ^ 1
  for x in f[5:7]: c.assume(x != 0xC0)
  d, same = read_file(c)
  p = Parser()
  kinds, cmds, info = p.parse(bytearray(f + frame(c, 2, 1, d)))
  c.check(len(cmds) == (2 if good else 1) and same(cmds[-1]), "the next frame is delivered")
  c.check(len(info["errors"]) == (0 if good else 1) and len(p.buffer) == 0, "a bad one is reported")
  if not good: return
  c.check(kinds == [kind, 1], "message type")
  if kind == 4: c.same(text(cmds[0]), b, "log text")
  else: c.check(c.both(c.eq(list(cmds[0].actions[0].operation.operand.data), b[5:]), cmds[0].actions[0].operation.operand.offset.id == k), "command")


def bulk(c, n, size):
  """many frames at once, or in long reads, with noise and broken ones between them"""
  d, same = read_file(c)
  b, x = [], c.byte("other")
  c.assume(x != 0xC0)
  count = 0
  for k in range(n):
    f = frame(c, k % 256, 1, d)
    if k % 9 == 4: f = frame(c, k % 256, 1, [0x20, 0x41, 0, 5])[:-1] + [6]
    else: count += 1
    if k % 11 == 7: f = [x, 0xC0, 1] + f
    b += f
  p = Parser()
  cmds = []
  for k in range(0, len(b), size): cmds += p.parse(bytearray(b[k:k + size]))[1]
  c.check(len(cmds) == count, "each frame is delivered exactly once")
  c.check(c.both(*[same(m) for m in cmds]), "unchanged")
  c.check(len(p.buffer) == 0, "everything is consumed")


def corrupted(c, n, skip):
  """a frame with a wrong checksum does not affect the next"""
  b = c.bytes("payload", n)
  bad = c.bytes("crc", 2)
  for x in b + bad: c.assume(x != 0xC0)
  c.assume(c.no(c.eq(bad, crc(c, b))))
  d, same = read_file(c)
  p = Parser(skip_alp_parsing=skip)
  kinds, cmds, info = p.parse(bytearray([0xC0, 0, 1, c.int("kind", 1, 5), n] + bad + b + frame(c, 2, 1, d)))
  c.check(len(cmds) == 1 and kinds == [1], "only the valid frame is delivered")
  c.check(c.eq(text(cmds[0]), d) if skip else same(cmds[0]), "unchanged")
  c.check(len(info["errors"]) == 1 and len(p.buffer) == 0, "the other is reported")


SAMPLES = [[0x32, 0], [0x32, 7, 1], [0x09, 0x80], [0x09, 0x00, 1], [0x22, 1, 2], [0x62, 5, 0], [0x62, 0xD7, 9, 1, 2], [0x33], [0xB3, 1], [0x33, 1],
           [0x74, 1], [0x20, 0x40, 0, 9, 1], [0x20, 0x40, 0, 0xFF], [1, 2, 0, 1, 0x3F], [1, 2, 0, 1, 0x81], [0x11, 1, 2], [0x21, 0], [0x32, 0xD7, 0, 0, 0xFF]]


def samples(c):
  """payloads that are unsupported, incomplete or invalid ALP"""
  b = c.choice("payload", SAMPLES)
  d, same = read_file(c)
  more = c.bytes("tail", c.pick("tail_size", 0, 2))
  for x in more: c.assume(x != 0xC0)
  f = frame(c, 1, 1, b + more)
  for x in f[5:]: c.assume(x != 0xC0)
  p = Parser()
  r, e = c.attempt(p.parse, bytearray(f))
  c.check(e is None, "no payload makes the parser fail")
  c.check(len(r[1]) + len(r[2]["errors"]) >= 1 and len(p.buffer) == 0, "delivered or reported at once")
  kinds, cmds, info = p.parse(bytearray(frame(c, 2, 1, d)))
  c.check(len(cmds) == 1 and same(cmds[0]) and len(info["errors"]) == 0, "the next frame is delivered")


def instances(tier):
  deep = tier != "quick"
  r = [("samples", samples, ())]
  for k in (1, 4): r.append(("large-%d" % k, large, (k,), {"weight": 50, "max_steps": 600000}))
  for n, size in ([(500, 9999), (500, 700)] if not deep else [(500, 99999), (500, 700), (1500, 4096)]): r.append(("bulk-%d-%d" % (n, size), bulk, (n, size), {"weight": 50, "max_steps": 6000000}))
  for skip in (True, False):
    for n in ((300,) if not deep else (300, 600)): r.append(("far-%d-%s" % (n, skip), far, (n, skip), {"weight": 50, "max_steps": 600000}))
  for n in range(11 if deep else 9): r.append(("anything-%d" % n, anything, (n,), {"weight": 2 ** n}))
  for n in range(6 if deep else 4): r.append(("progress-%d" % n, progress, (n,), {"weight": 8, "max_steps": 600000}))
  for n in range(5 if deep else 4):
    r.append(("contained-%d" % n, contained, (n,), {"weight": 1000 * n, "seconds": 1500 if deep else 240}))
    if deep or n < 3: r.append(("alone-%d" % n, alone, (n,), {"weight": 100 * n, "seconds": 1500 if deep else 240}))
    for skip in (True, False): r += [("noise-%d-%s" % (n, skip), noise, (n, skip)), ("corrupted-%d-%s" % (n, skip), corrupted, (n, skip))]
  return r
