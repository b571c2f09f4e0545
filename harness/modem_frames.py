# The modem with a scripted device: responses built from the documented format, and where they ended up.
from engine import world
from harness import gen
from harness.lib import *
from harness.serial_frames import frame, text
from d7a.alp.command import Command
from modem.modem import Modem


class Run(object):
  """a modem, its surroundings, and what its callbacks were given"""
  def __init__(self, c, script=(), preemptions=0, waits=2, callback=True, reboots=True, skip=False, connected=True, react=None):
    self.c = c
    self.events = []                # ("response" | "rebooted", message) in order
    self.times = []                 # when the responses were delivered
    self.w = world.World(c, 0, waits, script)
    world.CURRENT[0] = self.w
    self.react = react

    def response(cmd):
      self.events.append(("response", cmd))
      self.times.append(self.w.clock)
      if self.react: self.react(self, cmd)

    def rebooted(r): self.events.append(("rebooted", r))

    self.m = Modem("/dev/modem", 115200, response if callback else None, rebooted if reboots else None, skip)
    if connected: self.m.connect(check_alive=False)
    self.w.preemptions = preemptions

  def responses(self): return [m for k, m in self.events if k == "response"]
  def reboots(self): return [m for k, m in self.events if k == "rebooted"]

  def end(self):
    self.w.end()
    world.CURRENT[0] = None


def run(c, f, *a, **k):
  """f(run) in a world of its own"""
  r = None
  try:
    r = Run(c, *a, **k)
    f(r)
  finally:
    if r is not None: r.end()
    elif world.CURRENT[0] is not None: world.CURRENT[0].end()
    world.CURRENT[0] = None


class Message(object):
  """something the device sends: bytes of its frame, and whether a delivered message is this one"""
  def __init__(self, bytes, same, **k):
    self.bytes = bytes
    self.same = same
    self.__dict__.update(k)


def returned(c, n, i, data):
  """a file returned"""
  return [0x20, i, 0] + ([len(data)] if len(data) < 64 else [0x40, len(data)]) + data


def response(c, n, counter, tag, last=None, error=None, data=1):
  """an ALP response with a tag (None: without) returning data from a file"""
  i, d = c.int(n + ".file", 0x40, 0xFF), c.bytes(n + ".data", min(data, 4))
  d = d + [(3 * k) % 256 for k in range(data - 4)]
  if tag is not None:
    if last is None: last = c.bool(n + ".last")
    if error is None: error = c.bool(n + ".error")
  b = ([] if tag is None else [c.ite(last, 0x80, 0) | c.ite(error, 0x40, 0) | 0x23, tag]) + returned(c, n, i, d)

  def same(m):
    if m.__class__ is not Command or len(m.actions) != 1: return False
    op = m.actions[0].operation.operand
    r = c.both(op.offset.id == i, c.eq(list(op.data), d))
    if tag is None: return c.both(r, m.tag_id is None)
    return c.both(r, m.tag_id == tag, m.execution_completed == last)

  return Message(frame(c, counter, 1, b), same, tag=tag, last=last, payload=b)


def reboot(c, n, counter):
  r = c.byte(n + ".reason")
  return Message(frame(c, counter, 5, [r]), lambda m: m == r)


def logline(c, n, counter, size=2):
  d = c.bytes(n + ".text", size)
  return Message(frame(c, counter, 4, d), lambda m: c.eq(text(m), d), payload=d)


def same_all(c, got, want):
  """exactly these messages, in this order"""
  if len(got) != len(want): return False
  return c.both(*[w.same(g) for g, w in zip(got, want)])
