"""Foreground frames with every link, network and transport control byte before a frame that can be read; with 1..3 (thorough 1..5) arbitrary bytes of ALP, one instance per operation code;
thirteen samples of contents that cannot be read, in two pieces cut at every point, or three in a row, before a frame; frames of 254 bytes; every six bytes of a background frame."""
from harness.net_frames import *
from harness.c18 import small_foreground
from d7a.dll.parser import Parser, FrameType
from d7a.dll.foreground_frame import ForegroundFrame
from d7a.dll.background_frame import BackgroundFrame

CODES = [1, 4, 9, 17, 32, 33, 34, 35, 50, 51, 52]


def judge(c, b, good, cut=None, direct=True):
  """a frame b, perhaps one that cannot be read, and a frame that can"""
  st = stream(b + good.bytes)
  f, e = c.attempt(ForegroundFrame.parse, st) if direct else (None, ValueError())
  p = Parser(FrameType.FOREGROUND)
  if e is not None and e.__class__.__name__ == "ReadError":
    r, x = c.attempt(p.parse, b + good.bytes)
    c.check(x is None, "no frame makes the parser fail")
    c.check(r[0] == [None] and len(r[1]["errors"]) == 0, "what may still become a frame is awaited")
    return c.same(list(p.buffer), b + good.bytes, "and kept")
  if e is None:
    r, x = c.attempt(p.parse, b + good.bytes)
    c.check(x is None, "no frame makes the parser fail")
    c.check(len(r[0]) == 1 and r[0][0] is not None and len(r[1]["errors"]) == 0, "a frame that can be read is delivered")
    return c.same(list(p.buffer), (b + good.bytes)[st.pos // 8:], "what follows is kept")
  errors = []
  if cut is not None:
    r, x = c.attempt(p.parse, b[:cut])
    c.check(x is None, "no frame makes the parser fail")
    c.check(r[0] == [None] and len(r[1]["errors"]) == 0, "a frame is not given up before all of it is there")
    c.same(list(p.buffer), b[:cut], "and kept")
    b = b[cut:]
  r, x = c.attempt(p.parse, b + good.bytes)
  c.check(x is None, "no frame makes the parser fail")
  c.check(len(r[0]) == 1 and r[0][0] is not None, "the next frame is delivered")
  c.check(good.match(r[0][0]), "unchanged")
  es = r[1]["errors"]
  c.check(len(es) == 1, "the frame that cannot be read is reported once")
  c.check(es[0]["skipped"] == len(b) + (cut or 0), "with the number of bytes skipped")
  c.check(len(p.buffer) == 0 and r[1]["buffer"] == 0, "everything is consumed")
  r, x = c.attempt(p.parse, good.bytes)
  c.check(x is None and len(r[0]) == 1 and r[0][0] is not None and len(r[1]["errors"]) == 0, "and so is any frame after it, without another report")


def link(c):
  """all link control bytes, with too little in the frame for their targets, or enough"""
  n = c.choice("size", [0, 1, 2, 4, 9, 20])
  judge(c, [n] + c.bytes("head", min(n, 2)) + [0xEE] * (n - 2), small_foreground(c, "next"))


def network(c):
  """all network control bytes"""
  b = [0, c.byte("subnet"), 0x40, c.byte("control"), 1] + [7] * 8 + [0x80, 5, 6, 1, 0x40, 0, 4, 0x12, 0x34]
  b[0] = len(b) - 1
  judge(c, b, small_foreground(c, "next"))


def transport(c):
  b = [0, c.byte("subnet"), 0x40, 0x80, 1, c.byte("control"), 5, 6] + [1] * c.pick("more", 0, 5) + [1, 0x40, 0, 4, 0x12, 0x34]
  b[0] = len(b) - 1
  judge(c, b, small_foreground(c, "next"))


def contents(c, code, n):
  d = c.bytes("alp", n)
  c.assume(d[0] & 63 == code if code is not None else c.both(*[d[0] & 63 != k for k in CODES]))
  b = [8 + n + 1, 1, 0x40, 0x80, 1, 0x80, 5, 6] + d + [0x12, 0x34]
  judge(c, b, Spec(None, [14, 2, 0x40, 0x90, 3, 0xA0, 1, 2, 0x21, 1, 0x44, 0, 8, 9, 9], lambda p: c.both(p.subnet == 2, len(p.d7anp_frame.d7atp_frame.alp_command.actions) == 1)))


# ALP that cannot be read, controls that are not supported
SAMPLES = [[0x40, 0x80, 1, 0x80, 5, 6] + x for x in ([2, 1], [0xB2, 1], [0x72, 9], [0x32, 0], [0x32, 0xFF], [9, 0x80], [0x22, 1, 2], [0x62, 5, 0], [0x74, 1], [0x34, 1, 0x34, 2], [0x21, 0x40] + [0xFF] * 12)] + [
  [0x40, 0xC0, 1, 0x80, 5, 6, 1, 0x40, 0, 4], [0x40, 0x81, 1, 0x80, 5, 6, 1, 0x40, 0, 4]]


def sample(c):
  b = [c.byte("subnet")] + c.choice("sample", SAMPLES) + c.bytes("crc", 2)
  return [len(b)] + b


def pieces(c):
  b = sample(c)
  k = c.choice("cut", range(1, 24))
  c.assume(k < len(b))
  judge(c, b, small_foreground(c, "next"), k, False)


def row(c):
  """several of them before a frame"""
  a, b = sample(c), [12, 0, 0x40, 0x80, 1, 0x80, 5, 6, 2, 2, 2, 0, 0]
  good = small_foreground(c, "next")
  p = Parser(FrameType.FOREGROUND)
  r, x = c.attempt(p.parse, a + b + a + good.bytes)
  c.check(x is None, "no frame makes the parser fail")
  c.check(len(r[0]) == 1 and r[0][0] is not None and good.match(r[0][0]), "the next frame is delivered")
  c.check([e["skipped"] for e in r[1]["errors"]] == [len(a), len(b), len(a)], "each is reported, in order")
  c.check(len(p.buffer) == 0, "everything is consumed")


def far(c):
  """long ones, alone or cut"""
  n = c.choice("size", [100, 127, 128, 200, 255])
  d = [0x20, c.int("file", 0x40, 0xFF), 0] + gen.varlen(n - 20) + [3] * (n - 20)
  b = [n, c.byte("subnet"), 0x40, 0x80, 1, 0x80, 5, 6] + d
  b = b + [c.choice("bad", [2, 0xB2, 63])] + [0] * (n - len(b))
  judge(c, b, small_foreground(c, "next"), c.choice("cut", [None, 1, 90, n]), False)


def background_any(c):
  """every six bytes are a background frame"""
  b = c.bytes("b", 6)
  k = c.pick("cut", 0, 6)
  p = Parser(FrameType.BACKGROUND)
  r, x = c.attempt(p.parse, b[:k])
  c.check(x is None, "no frame makes the parser fail")
  if k < 6:
    c.check(r[0] == [None], "awaited")
    r, x = c.attempt(p.parse, b[k:])
    c.check(x is None, "no frame makes the parser fail")
  c.check(len(r[0]) == 1 and r[0][0] is not None and len(r[1]["errors"]) == 0, "delivered")
  c.same(raw(r[0][0]), b, "unchanged")


def instances(tier):
  deep = tier != "quick"
  r = [(f.__name__, f, ()) for f in (link, network, transport, pieces, row, far, background_any)]
  for k in CODES + [None]:
    for n in range(1, 6 if deep else 4):
      r.append(("contents-%s-%d" % (k, n), contents, (k, n), {"weight": n ** 3, "seconds": 1500 if deep else 240}))
  return r
