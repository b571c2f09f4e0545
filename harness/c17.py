"""Every byte sequence of 0..6 (thorough 0..9) bytes split at every point; streams of noise, two valid frames and a third incomplete one, split into 1, 2 or
3 chunks at every pair of points, and byte by byte; raw and ALP parsing; all counters; frames
of 120 to 255 bytes of payload, after up to 300 bytes of noise, in pieces of twelve ways."""
from harness.serial_frames import *
from harness.gen import *
from d7a.serial_modem_interface.parser import Parser


def run(p, chunks):
  """message types, messages, parsed bits"""
  kinds, cmds = [], []
  for x in chunks:
    k, m, info = p.parse(bytearray(x))
    kinds, cmds = kinds + list(k), cmds + list(m)
  return kinds, cmds


def state(p):
  return [list(p.buffer), p.down_counter, p.error_counter, p.up_counter]


def split(b, ks):
  r, at = [], 0
  for k in ks:
    r.append(b[at:k])
    at = k
  return r + [b[at:]]


def anything(c, n):
  b = c.bytes("b", n)
  k = c.pick("split", 0, n)
  one, two = Parser(skip_alp_parsing=True), Parser(skip_alp_parsing=True)
  one.down_counter = two.down_counter = c.byte("down_counter")
  x = run(one, [b])
  y = run(two, split(b, [k]))
  c.check(c.eq(x[0], y[0]), "same message types")
  c.check(c.eq([m if c.isint(m) else text(m) for m in x[1]], [m if c.isint(m) else text(m) for m in y[1]]), "same messages")
  c.check(c.eq(state(one), state(two)), "same bytes awaited, same counters")


def files(c, n):
  i, l = c.byte(n + ".file"), c.int(n + ".length", 0, 63)
  return [1, i, 0, l], (lambda m: c.both(len(m.actions) == 1, m.actions[0].operation.operand.offset.id == i, m.actions[0].operation.operand.length.value == l))


def stream_of(c, noise):
  b = c.bytes("noise", noise)
  for x in b: c.assume(x != 0xC0)
  n = c.byte("counter")
  d, same = files(c, "one")
  e, same2 = files(c, "two")
  f = frame(c, n, 1, d)
  g = frame(c, (n + 1) % 256, 1, e)
  return b + f + g + g[:6], n, (same, same2), (d, e)


def frames(c, noise, skip, many):
  b, n, same, plain = stream_of(c, noise)
  i = c.pick("first", 0, len(b))
  ks = [i]
  if many: ks.append(c.pick("second", i, len(b)))
  p = Parser(skip_alp_parsing=skip)
  kinds, cmds = run(p, split(b, ks))
  c.check(kinds == [1, 1] and len(cmds) == 2, "both frames are delivered, each once")
  for k in (0, 1): c.check(c.eq(text(cmds[k]), plain[k]) if skip else same[k](cmds[k]), "unchanged and in order")
  c.check(c.eq(list(p.buffer), b[-6:]), "the incomplete frame is awaited")
  c.check(c.both(p.down_counter == (n + 1) % 256, p.error_counter == c.ite(n == 1, 0, 1)), "the counter is followed")


def bytewise(c, noise, skip):
  """as the modem reads: one byte at a time"""
  b, n, same, plain = stream_of(c, noise)
  p = Parser(skip_alp_parsing=skip)
  at = []
  cmds = []
  for k, x in enumerate(b):
    kinds, got, info = p.parse(bytearray([x]))
    if len(got): at.append(k + 1)
    cmds = cmds + list(got)
  c.check(at == [noise + 11, noise + 22] and len(cmds) == 2, "each frame is delivered with its last byte")
  for k in (0, 1): c.check(c.eq(text(cmds[k]), plain[k]) if skip else same[k](cmds[k]), "unchanged and in order")
  c.check(c.eq(list(p.buffer), b[-6:]), "the incomplete frame is awaited")


def large(c, skip):
  """frames as long as they can be, in pieces"""
  n = c.choice("size", [120, 248, 250])
  i, x = c.int("file", 0x40, 0xFF), c.byte("x")
  b = [0x20, i, 0, 0x40, n] + [x] + [(3 * k) % 250 for k in range(n - 1)]
  f, g = frame(c, 9, 1, b), frame(c, 10, 1, [1, i, 0, 4])
  noise = [7] * c.choice("noise", [0, 300])
  s = noise + f + f + g + g[:6]
  one = len(noise) + len(f)
  ks = c.choice("pieces", [[1], [6, 100], [one - 1], [one, one + 1], [one - 100, one + 150], [one + 5], [2 * one - len(noise) - 1], range(0, len(s), 16),
                           range(0, len(s), 64), [255], [256], [257, 512]])
  p = Parser(skip_alp_parsing=skip)
  kinds, cmds = run(p, split(s, ks))
  c.check(kinds == [1, 1, 1] and len(cmds) == 3, "all frames are delivered, each once")
  for m in cmds[:2]:
    if skip: c.check(c.eq(text(m), b), "unchanged and in order")
    else: c.check(c.both(m.actions[0].operation.operand.offset.id == i, c.eq(list(m.actions[0].operation.operand.data), b[5:])), "unchanged and in order")
  c.check(c.eq(text(cmds[2]), [1, i, 0, 4]) if skip else cmds[2].actions[0].operation.operand.offset.id == i, "and the short one")
  c.check(c.eq(list(p.buffer), g[:6]), "the incomplete frame is awaited")


def types(c):
  """frames of the other message types, split anywhere"""
  k = c.choice("kind", [2, 3, 4, 5])
  d = c.bytes("payload", 2)
  f = frame(c, 1, k, d) + frame(c, 2, 4, [65])
  i = c.pick("split", 0, len(f))
  p = Parser(skip_alp_parsing=True)
  kinds, cmds = run(p, split(f, [i]))
  c.check(kinds == [k, 4] and len(cmds) == 2, "both delivered")
  c.check(cmds[0] == d[0] if k == 5 else c.eq(text(cmds[0]), d), "payload")
  c.same(text(cmds[1]), [65], "the next payload")
  c.check(p.error_counter == 0 and len(p.buffer) == 0, "counted, consumed")


def instances(tier):
  deep = tier != "quick"
  r = [("types", types, ())]
  for n in range(10 if deep else 7): r.append(("anything-%d" % n, anything, (n,), {"weight": 2 ** n, "seconds": 3000 if deep else 240}))
  for skip in (True, False):
    r.append(("large-%s" % skip, large, (skip,), {"weight": 60, "max_steps": 900000}))
    r.append(("frames-two-%s" % skip, frames, (2, skip, False), {"weight": 20}))
    r.append(("frames-three-%s" % skip, frames, (1 if skip else 0, skip, True), {"weight": 200, "seconds": 3000 if deep else 300}))
    for n in (0, 1, 3): r.append(("bytewise-%d-%s" % (n, skip), bytewise, (n, skip)))
  return r
