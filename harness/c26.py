"""Commands of 0 to 4 (thorough: 6) arbitrary bytes, one instance per operation code of the first action; commands of up to 3 bytes with 2 more arbitrary bytes behind them; commands with 1 or 2 bytes missing;
data of 194 to 205 declared bytes where 200 are there; commands of 20 and 70 actions before 3 arbitrary bytes."""
from d7a.alp.parser import Parser
from d7a.parse_error import ParseError
from harness.lib import stream, raw, be, num

CODES = [1, 4, 9, 17, 32, 33, 34, 35, 50, 51, 52]


def refused(c, e):
  c.check(isinstance(e, (ParseError, ValueError, AssertionError)) or e.__class__.__name__ == "ReadError", "refused as unreadable, unsupported or invalid")


class Bad(Exception):
  """not a command"""


class Open(Exception):
  """contents checked elsewhere (C10)"""


class Reader(object):
  """reference reader of the documented layout"""
  def __init__(self, c, d, n):
    self.c, self.d, self.n, self.p = c, d, n, 0

  def byte(self):
    if self.p >= len(self.d): raise Bad()
    self.p += 1
    return self.d[self.p - 1]

  def bytes(self, n):
    if self.p + n > len(self.d): raise Bad()
    self.p += n
    return self.d[self.p - n:self.p]

  def length(self):
    b = self.byte()
    k = self.c.hold(b >> 6)
    v = num([b & 63] + self.bytes(k))
    for n in range(4):
      if self.c.hold(v < 1 << (6 + 8 * n)): break
    x = be(v, n + 1)
    return v, [n * 64 + x[0]] + x[1:]

  def offset(self):
    f = self.byte()
    return [f] + self.length()[1]

  def data(self):
    v, image = self.length()
    if self.c.hold(v > len(self.d)): raise Bad()
    return image + self.bytes(self.c.hold(v))

  def addressee(self):
    b = self.byte()
    if self.c.hold(b & 8 != 0): raise Bad()
    n = [1, 0, 8, 2][self.c.hold((b >> 4) & 3)]
    return [b & 63] + [self.byte()] + self.bytes(n)

  def query(self):
    b = self.byte()
    if self.c.hold(self.c.either(b & 0xF0 != 0x40, b & 7 > 5)): raise Bad()
    return [b] + self.data() + self.offset()

  def command(self):
    """the images of the actions, the tag, the interface whose status it holds"""
    actions, tag, status = [], None, None
    while self.p < self.n:   # an action that starts within the command is read whole
      b = self.byte()
      code, flags = self.c.hold(b & 63), b & 0xC0
      if code == 1: a = self.offset() + self.length()[1]
      elif code in (4, 32): a = self.offset() + self.data()
      elif code == 9: a = self.query()
      elif code in (17, 33): a = self.bytes(13)
      elif code == 51: a = [self.byte()] + (self.addressee() if self.c.hold(flags & 128 != 0) else [])
      elif code == 50:
        i = self.byte()
        if self.c.hold(self.c.both(flags & 128 == 0, i == 0xD7)) and len(self.d) > self.p: raise Open()
        if self.c.hold(self.c.either(flags & 128 != 0, self.c.both(i != 1, i != 3))): raise Bad()
        if self.c.hold(i == 3):
          m = self.byte()
          a = [i, m & 6] + self.bytes(2)
        else: a = [i]
      elif code in (35, 52):
        if tag is not None or self.c.hold(self.c.both(code == 52, flags & 64 != 0)): raise Bad()
        tag = self.byte()
        continue
      elif code == 34:
        i, n = self.byte(), self.byte()
        if status is not None or self.c.hold(self.c.either(flags != 64, n > len(self.d), self.c.both(i != 0, i != 1, i != 0xD7))): raise Bad()
        n = self.c.hold(n)
        if self.c.hold(i == 0xD7) and n > 0: raise Bad()   # a D7ASP status is longer than the commands here
        self.bytes(n)
        status = i
        continue
      else: raise Bad()
      actions.append([b] + a)
    return actions, tag, status


def parse(c, code, n, tail):
  d = c.bytes("d", n)
  if code is None and n: c.assume(c.both(*[d[0] & 63 != k for k in CODES]))
  elif code is not None: c.assume(d[0] & 63 == code)
  judge(c, d, n, c.bytes("tail", tail) if tail else [])


def far(c, code):
  """data of a length told in two bytes, around the length that is there"""
  v, n = c.int("declared", 194, 205), 200
  d = [code, c.int("file", 0x40, 0xFF), 0, 0x40, v] + [c.byte("x")] + [0xBF - k % 2 for k in range(n - 1)] + [1, c.byte("next"), 0, 4]
  judge(c, d, len(d), c.bytes("tail", c.pick("tail", 0, 2)))


def many(c, n):
  """a command of many actions, the last of them any"""
  d = []
  for k in range(n): d = d + [1, k, 0, 4]
  d = d + c.bytes("d", 3)
  c.assume(c.either(*[d[-3] & 63 == k for k in ((1, 4, 33, 34, 51, 52) if n < 50 else (33, 52))]))
  judge(c, d, len(d), c.bytes("tail", 1))


def judge(c, d, n, more):
  s = stream(d + more)
  cmd, e = c.attempt(Parser().parse, s, n)
  r = Reader(c, d + more, n)
  try:
    actions, tag, status = r.command()
  except Bad:
    c.check(e is not None, "bytes that are no command refused")
    return refused(c, e)
  except Open:
    return c.check(e is not None or s.pos >= 8 * n, "exactly the bytes of the command are consumed")
  c.check(e is None, "a command accepted")
  c.check(s.pos == 8 * r.p, "exactly the bytes of the command are consumed")
  c.check(len(cmd.actions) == len(actions), "as many actions as the bytes hold")
  for k in range(len(actions)): c.same(raw(cmd.actions[k]), actions[k], "each action stands for its bytes, in order")
  c.check(c.eq(cmd.tag_id, tag), "its tag")
  c.check((cmd.interface_status is None) == (status is None), "its status")
  if status is not None: c.check(cmd.interface_status.operand.interface_id == status, "the interface of its status")


def short(c, code, n):
  """less data than the command should have"""
  d = c.bytes("d", n)
  if n: c.assume(d[0] & 63 == code)
  cmd, e = c.attempt(Parser().parse, stream(d), n + c.pick("missing", 1, 2))
  c.check(e is not None, "a command with bytes missing accepted")
  refused(c, e)


def instances(tier):
  top = 4 if tier == "quick" else 6
  r = [("empty", parse, (None, 0, 2))] + [("unassigned", parse, (None, 3, 0))]
  for k in (4, 32): r.append(("far-%d" % k, far, (k,), {"weight": 80, "max_steps": 600000}))
  for n in (20, 70): r.append(("many-%d" % n, many, (n,), {"weight": 80, "max_steps": 600000}))
  for k in CODES:
    for n in range(1, top + 1):
      r.append(("code%d-%d" % (k, n), parse, (k, n, 0), {"weight": n ** 3, "seconds": 600}))
      if n < 4: r.append(("code%d-%d-more" % (k, n), parse, (k, n, 2), {"weight": n ** 3, "seconds": 600}))
    for n in range(1, top): r.append(("code%d-%d-short" % (k, n), short, (k, n), {"weight": n ** 2}))
  return r
