"""Foreground frames: all lengths and subnets, target of 0, 2 or 8 arbitrary bytes, every origin, small (thorough: all) transport frames, any CRC field; background frames with all
fields; every prefix, every split into two chunks, two frames in a row, 220 (thorough 800) at once; all out-of-range fields."""
from harness.net_frames import *
from d7a.dll.parser import Parser, FrameType
from d7a.dll.foreground_frame import ForegroundFrame
from d7a.dll.foreground_frame_control import ForegroundFrameControl
from d7a.dll.background_frame import BackgroundFrame
from d7a.dll.background_frame_control import BackgroundFrameControl


def foreground_control(c, n):
  t, e = c.enum(n + ".id_type", IdType), c.int(n + ".eirp", 0, 63)
  return Spec(ForegroundFrameControl(t, e), [t.value * 64 + e], lambda p: c.both(p.id_type == t, p.eirp_index == e))


def background_control(c, n):
  t, g = c.enum(n + ".id_type", IdType), c.int(n + ".tag", 0, 63)
  return Spec(BackgroundFrameControl(t, g), [t.value * 64 + g], lambda p: c.both(p.id_type == t, p.tag == g))


def controls(c):
  codec(c, foreground_control(c, "f"), ForegroundFrameControl.parse)
  codec(c, background_control(c, "b"), BackgroundFrameControl.parse)


def foreground(c, n="f", full=False):
  subnet, e, check = c.byte(n + ".subnet"), c.int(n + ".eirp", 0, 63), c.int(n + ".crc", 0, 0xFFFF)
  t = c.choice(n + ".id_type", [IdType.NBID, IdType.NOID, IdType.UID, IdType.VID])
  target = c.bytes(n + ".target", {IdType.UID: 8, IdType.VID: 2}.get(t, 0))
  inner = anp(c, n + ".anp", None if full else small_atp(c, n + ".atp"))
  size = 4 + len(target) + len(inner.bytes)
  o = ForegroundFrame(size, subnet, ForegroundFrameControl(t, e), list(target), inner.obj, check)
  return Spec(o, [size, subnet, TYPE[t] * 64 + e] + target + inner.bytes + be(check, 2),
              lambda p: c.both(p.length == size, p.subnet == subnet, p.control.id_type == t, p.control.eirp_index == e,
                               c.eq(list(p.target_address), target), inner.match(p.d7anp_frame), p.crc16 == check))


def background(c, n="b"):
  subnet, ctrl, d, check = c.byte(n + ".subnet"), background_control(c, n + ".control"), c.int(n + ".payload", 0, 0xFFFF), c.int(n + ".crc", 0, 0xFFFF)
  return Spec(BackgroundFrame(subnet, ctrl.obj, d, check), [subnet] + ctrl.bytes + be(d, 2) + be(check, 2),
              lambda p: c.both(p.subnet == subnet, ctrl.match(p.control), p.payload == d, p.crc16 == check))


def codec_foreground(c): codec(c, foreground(c), ForegroundFrame.parse)
def codec_full(c): codec(c, foreground(c, full=True), ForegroundFrame.parse)
def codec_background(c): codec(c, background(c), BackgroundFrame.parse)


KINDS = {"foreground": (foreground, FrameType.FOREGROUND), "background": (background, FrameType.BACKGROUND)}


def received(c, kind):
  """one frame, in one or two chunks, followed by the start of another"""
  f, t = KINDS[kind]
  s = f(c)
  more = c.bytes("more", 1)
  b = s.bytes + more
  p = Parser(t)
  k = c.choice("split", [None] + range(1, len(s.bytes)))
  if k is not None:
    frames, info = p.parse(b[:k])
    c.check(frames == [None] and info["parsed"] == 0 and info["buffer"] == 8 * k and len(info["errors"]) == 0, "an incomplete frame is awaited")
    b = b[k:]
  frames, info = p.parse(b)
  c.check(len(frames) == 1 and frames[0] is not None, "delivered with its last byte")
  c.check(s.match(frames[0]), "unchanged")
  c.check(info["parsed"] == 8 * len(s.bytes) and len(info["errors"]) == 0, "consumed")
  c.check(c.both(info["buffer"] == 8 * len(more), c.eq(list(p.buffer), more)), "what follows is kept")


def two(c, kind):
  """two frames in a row: the second is delivered by the next call"""
  f, t = KINDS[kind]
  s = f(c, "one")
  q = background(c, "two") if kind == "background" else small_foreground(c, "two")
  p = Parser(t)
  frames, info = p.parse(s.bytes + q.bytes)
  c.check(len(frames) == 1 and s.match(frames[0]), "the first is delivered")
  frames, info = p.parse([])
  c.check(len(frames) == 1 and frames[0] is not None and q.match(frames[0]), "then the second")
  c.check(len(p.buffer) == 0, "all consumed")


def small_foreground(c, n):
  subnet, check, ac = c.byte(n + ".subnet"), c.int(n + ".crc", 0, 0xFFFF), c.byte(n + ".ac")
  i = small_atp(c, n)
  b = [14, subnet, 0x40, 0x90, ac] + i.bytes + be(check, 2)
  return Spec(None, b, lambda p: c.both(p.subnet == subnet, p.crc16 == check, p.d7anp_frame.origin_access_class == ac, i.match(p.d7anp_frame.d7atp_frame)))


def big(c):
  """frames of up to 255 bytes"""
  n = c.choice("data", [1, 17, 48, 60, 115, 120, 200, 240])
  d = [(3 * k) % 251 for k in range(n)]
  i, subnet = c.int("file", 0x40, 255), c.byte("subnet")
  body = [0x20, i] + [0] + gen.varlen(n) + d
  b = [0, subnet, 0x40, 0x80, 1, 0x80, 5, 6] + body + [0x12, 0x34]
  b[0] = len(b) - 1
  p = Parser(FrameType.FOREGROUND)
  k = c.choice("split", [0, 1, 9, len(b) // 2, len(b) - 1])
  if k: c.check(p.parse(b[:k])[0] == [None] and len(p.buffer) == k, "an incomplete frame is awaited")
  more = [13, 1, 2]
  frames, info = p.parse(b[k:] + more)
  f = frames[0]
  c.check(f is not None and info["parsed"] == 8 * len(b), "delivered")
  c.same(list(p.buffer), more, "what follows is kept")
  c.check(c.both(f.length == len(b) - 1, f.subnet == subnet, f.crc16 == 0x1234), "header and checksum")
  o = f.d7anp_frame.d7atp_frame.alp_command.actions[0].operation.operand
  c.check(c.both(o.offset.id == i, c.eq(list(o.data), d)), "payload")
  c.same(raw(f), b, "serialises to what was received")


def queue(c, kind, n):
  """many frames at once: one is delivered by each call"""
  a, b = c.bytes("a", 2), c.int("b", 0, 0xFFFF)
  fs = []
  for k in range(n):
    x, check = a[k % 2], (b + k) & 0xFFFF
    if kind == "background": fs.append([x, 0x40 + k % 64] + be(0x1234 + k, 2) + be(check, 2))
    else: fs.append([13, x, 0x40, 0x80, k % 256] + [0x80, 5, k % 256] + [1, 0x40, 0, 4] + be(check, 2))
  p = Parser(KINDS[kind][1])
  left = sum(fs, [])
  for k, f in enumerate(fs):
    got, info = p.parse(left if k == 0 else [])
    c.check(len(got) == 1 and got[0] is not None and len(info["errors"]) == 0, "one frame by each call")
    if k % 16 == 0 or k > n - 3: c.same(raw(got[0]), f, "in order, unchanged")
  c.check(len(p.buffer) == 0, "all consumed")


def ranges(c):
  v = c.int("v", -1000, 1 << 18)
  ctrl = ForegroundFrameControl(IdType.NOID, 0)
  inner = AnpFrame(AnpControl(True, False, NlsMethod.NONE, IdType.NOID), 0, [], AtpFrame(AtpControl(True, False, False, False, False, False, False), 0, 0, Command(actions=[], generate_tag_request_action=False)))
  back = BackgroundFrameControl(IdType.NOID, 0)
  f, hi = c.choice("field", [
    (lambda: ForegroundFrameControl(IdType.UID, v), 63), (lambda: BackgroundFrameControl(IdType.UID, v), 63),
    (lambda: ForegroundFrame(v, 0, ctrl, [], inner, 0), 255), (lambda: ForegroundFrame(0, v, ctrl, [], inner, 0), 255),
    (lambda: ForegroundFrame(0, 0, ctrl, [v], inner, 0), 255), (lambda: ForegroundFrame(0, 0, ctrl, [], inner, v), 0xFFFF),
    (lambda: BackgroundFrame(v, back, 0, 0), 255), (lambda: BackgroundFrame(0, back, v, 0), 0xFFFF), (lambda: BackgroundFrame(0, back, 0, v), 0xFFFF)])
  rejects(c, f, c.both(v >= 0, v <= hi), "field")


def kinds(c):
  bad = c.choice("bad", [None, 3, "x", CT()])
  inner = AnpFrame(AnpControl(True, False, NlsMethod.NONE, IdType.NOID), 0, [], AtpFrame(AtpControl(True, False, False, False, False, False, False), 0, 0, Command(actions=[], generate_tag_request_action=False)))
  f = c.choice("field", [lambda: ForegroundFrameControl(bad, 0), lambda: BackgroundFrameControl(bad, 0), lambda: ForegroundFrame(0, 0, bad, [], inner, 0),
                         lambda: ForegroundFrame(0, 0, ForegroundFrameControl(IdType.NOID, 0), [], bad, 0), lambda: BackgroundFrame(0, bad, 0, 0)])
  rejects(c, f, False, "kind")


def short(c, kind):
  f, t = KINDS[kind]
  s = f(c)
  truncated(c, s.bytes, {"foreground": ForegroundFrame, "background": BackgroundFrame}[kind].parse, kind)


def instances(tier):
  r = [(f.__name__, f, ()) for f in (controls, codec_foreground, codec_background, big, ranges, kinds)]
  if tier != "quick": r.append(("codec-full", codec_full, (), {"weight": 50, "seconds": 3000}))
  for k in KINDS: r.append(("queue-" + k, queue, (k, 220 if tier == "quick" else 800), {"weight": 40, "max_steps": 3000000}))
  for k in KINDS:
    r += [("received-" + k, received, (k,), {"weight": 20}), ("two-" + k, two, (k,)), ("short-" + k, short, (k,), {"weight": 5})]
  return r
