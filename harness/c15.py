"""Frames around every payload of 0..6 bytes (thorough 0..24) and one of 255 and 256; every counter; 3 frames in a row; all message types;
every error burst of up to 16 bits in payloads of 1..5 (thorough 1..12) bytes and every wrong checksum."""
from harness.serial_frames import *
from harness import gen
from harness.gen import Command, RegularAction, ReadFileData, DataRequest, Offset, Length
from d7a.serial_modem_interface.parser import Parser, MessageType
from d7a.support.Crc import calculate_crc


def checksum(c, n):
  c.check(crc(c, [0x31 + k for k in range(9)]) == [0x29, 0xB1], "published check value")
  p = c.bytes("payload", n)
  c.same(list(calculate_crc(list(p))), crc(c, p), "checksum of a list")
  c.same(list(calculate_crc(bytearray(p))), crc(c, p), "checksum of a bytearray")


def build(c, n):
  p = Parser()
  start = c.byte("counter")
  p.up_counter = start
  d = c.bytes("payload", n)
  b = p.build_serial_frame(list(d))
  c.observe("frame", list(b))
  c.same(list(b), frame(c, start, 1, d), "frame")
  c.check(p.up_counter == (start + 1) % 256, "the counter goes up by one, modulo 256")
  c.check(c.both(p.down_counter == 0, p.error_counter == 0, len(p.buffer) == 0), "nothing is received by sending")


def first(c):
  p = Parser()
  c.check(p.up_counter == 0 and p.down_counter == 0 and p.error_counter == 0, "initial counters")
  f = p.build_serial_frame([1])
  g = p.build_serial_frame([1])
  c.check(f[2] == 0 and g[2] == 1, "the first frames are counted from 0")


def sizes(c):
  n = c.choice("n", [0, 1, 127, 128, 254, 255, 256, 257, 300])
  p = Parser()
  d = [(7 * k) % 256 for k in range(n)]
  b, e = c.attempt(p.build_serial_frame, d)
  if n > 255:
    c.check(e is not None, "a payload that does not fit a frame is refused")
  else:
    c.check(e is None, "fits")
    c.same(list(b), frame(c, 0, 1, d), "frame")
    q = Parser(skip_alp_parsing=True)
    kinds, cmds, info = q.parse(b)
    c.check(len(cmds) == 1 and text(cmds[0]) == d, "round trip")


def command(c):
  """a real command: its bytes are the payload, and come back as an equal command"""
  i = c.byte("file")
  off, n = c.int("offset", 0, (1 << 30) - 1), c.int("length", 0, 63)
  cmd = Command.create_with_read_file_action(i, n, off)
  p = Parser()
  p.up_counter = c.byte("counter")
  start = p.up_counter
  d = raw(cmd)
  b = p.build_serial_frame(cmd)
  c.same(list(b), frame(c, start, 1, d), "frame")
  q = Parser()
  kinds, cmds, info = q.parse(b)
  c.check(len(cmds) == 1 and len(info["errors"]) == 0, "received")
  got = cmds[0].actions[-1].operation.operand
  c.check(c.both(got.offset.id == i, got.offset.offset.value == off, got.length.value == n), "same request")


def receive(c, n, kind):
  skip = c.choice("skip_alp_parsing", [True, False]) if kind in (4, 5) else True
  p = Parser(skip_alp_parsing=skip)
  before, errors = c.byte("down_counter"), c.int("error_counter", 0, 1000)
  p.down_counter, p.error_counter = before, errors
  up = c.byte("up_counter")
  p.up_counter = up
  count = c.byte("counter")
  d = c.bytes("payload", n)
  f = frame(c, count, kind, d)
  more = c.pick("more", 0, 2)
  kinds, cmds, info = p.parse(bytearray(f + [0xC0, 0][:more]))
  c.check(len(cmds) == 1, "delivered exactly once")
  c.check(len(kinds) == 1 and kinds[0] == kind, "message type")
  c.check(len(info["errors"]) == 0, "no errors")
  c.check(info["parsed"] == 8 * len(f) and info["buffer"] == 8 * more and len(p.buffer) == more, "consumes the frame")
  if kind == 5: c.check(cmds[0] == d[0], "reason of the reboot")
  else: c.same(text(cmds[0]), d, "payload")
  c.check(p.down_counter == count, "follows the device's counter")
  c.check(p.error_counter == errors + c.ite(count == (before + 1) % 256, 0, 1), "counts gaps in the counter")
  c.check(p.up_counter == up, "receiving does not count as sending")


def in_step(c):
  """frames in a row"""
  n = 3
  p = Parser()
  start = c.byte("counter")
  p.down_counter = start
  f = []
  ids = c.bytes("file", n)
  for k in range(n):
    f = f + frame(c, (start + 1 + k) % 256, 1, [1, ids[k], 0, 4])
  kinds, cmds, info = p.parse(bytearray(f))
  c.check(len(cmds) == n and len(kinds) == n and len(info["errors"]) == 0, "all delivered")
  c.check(p.error_counter == 0, "no gaps")
  c.check(c.both(*[x.actions[0].operation.operand.offset.id == i for x, i in zip(cmds, ids)]), "in order")
  c.check(info["parsed"] == 8 * len(f) and len(p.buffer) == 0, "all consumed")


def burst(c, n, at):
  """up to 16 consecutive wrong bits"""
  d = c.bytes("payload", n)
  e = c.int("errors", 1, 0xFFFF)
  s = c.pick("shift", 0, 7)
  bits = e << (8 - s)
  pattern = [0] * n
  for k in range(3):
    x = (bits >> (16 - 8 * k)) & 0xFF
    if at + k < n: pattern[at + k] = x
    else: c.assume(x == 0)
  f = frame(c, 1, 1, d)
  f = f[:7] + [x ^ y for x, y in zip(d, pattern)]
  for x in f[5:]: c.assume(x != 0xC0)   # no other frame starts within
  p = Parser(skip_alp_parsing=True)
  kinds, cmds, info = p.parse(bytearray(f))
  c.check(len(cmds) == 0 and len(kinds) == 0, "a corrupted frame is not delivered")
  c.check(len(info["errors"]) >= 1, "a corrupted frame is reported")


def wrong(c, n):
  """any other checksum"""
  d = c.bytes("payload", n)
  good = crc(c, d)
  bad = c.bytes("crc", 2)
  c.assume(c.no(c.eq(good, bad)))
  for x in d + bad: c.assume(x != 0xC0)
  count = c.byte("counter")
  c.assume(count != 0xC0)
  p = Parser(skip_alp_parsing=c.choice("skip", [True, False]))
  kinds, cmds, info = p.parse(bytearray([0xC0, 0, count, c.int("kind", 1, 5), n] + bad + d))
  c.check(len(cmds) == 0 and len(info["errors"]) == 1, "a frame with a wrong checksum is reported and not delivered")
  c.check(len(p.buffer) == 0, "nothing remains")


def instances(tier):
  deep = tier != "quick"
  r = [("first", first, ()), ("sizes", sizes, (), {"max_steps": 600000}), ("command", command, ()), ("in-step", in_step, ())]
  for n in range(25 if deep else 7):
    r += [("checksum-%d" % n, checksum, (n,)), ("build-%d" % n, build, (n,))]
    for k in (1, 2, 3, 4): r.append(("receive-%d-%d" % (k, n), receive, (n, k)))
  r.append(("receive-5", receive, (1, 5)))
  for n in range(1, 13 if deep else 6):
    for at in range(n): r.append(("burst-%d-%d" % (n, at), burst, (n, at), {"weight": 4}))
    r.append(("wrong-%d" % n, wrong, (n,)))
  return r + [("wrong-0", wrong, (0,))]
