"""Up to 3 (thorough 4) messages with up to 2 losses of the connection between them, each followed by up to 2 failed attempts to open the port again; reading stopped and started again
at every point between messages, with every place where the read thread can be, and one interruption between any two statements."""
from harness.modem_frames import *

SETTINGS = {"bytesize": 8, "parity": "N", "stopbits": 1, "timeout": None, "xonxoff": False, "rtscts": False, "dsrdtr": False}


def settings(c, w):
  for port, baud, kw in w.opened:
    c.check(port == "/dev/modem" and baud == 115200, "the configured port")
    for k, v in SETTINGS.items(): c.check(kw[k] == v, "port settings")


def reader(r): return [t for t in r.w.tasks if t is not r.w.main][-1]


def lost(c, n, errors):
  """the connection is lost and comes back"""
  msgs, script, es = [], [], 0
  for k in range(n + 1):
    while es < errors and c.choice("lost.%d.%d" % (k, es), [False, True]):
      script.append((0, "error"))
      es += 1
    if k < n:
      m = response(c, "m%d" % k, k, None) if c.choice("m%d.kind" % k, [True, False]) else reboot(c, "m%d" % k, k)
      msgs.append(m)
      script.append((0, m.bytes))
  refuse = c.pick("refuse", 0, 2) if es else 0

  def f(r):
    r.w.refuse = refuse
    r.w.drain()
    c.check(not reader(r).done and reader(r).error is None, "reading goes on")
    c.check(same_all(c, [m for k, m in r.events], msgs), "what is received is delivered once, in order")
    c.check(len(r.w.opened) == 1 + es, "the port is opened again after each loss")
    settings(c, r.w)
    c.check(r.w.closed >= es, "and closed before")
    cmd = Command.create_with_read_file_action(c.byte("file"), 4, 0)
    r.m.execute_command_async(cmd)
    c.same(r.w.sent, [frame(c, 0, 1, raw(cmd))], "sending works again")

  run(c, f, script, waits=0)


def stopped(c, n, preemptions):
  """reading is stopped, and started again"""
  msgs = [response(c, "m%d" % k, k, None) for k in range(n)]
  now = c.pick("before", 0, n)

  def f(r):
    r.w.script += [(0, m.bytes) for m in msgs[:now]]
    if c.choice("wait", [True, False]): r.w.drain()
    r.w.preemptions = preemptions
    r.m.stop_reading()
    c.check(reader(r).done and reader(r).error is None, "reading has stopped")
    r.w.preemptions = 0
    before = len(r.events)
    r.w.script += [(0, m.bytes) for m in msgs[now:]]
    r.w.drain()
    c.check(len(r.events) == before, "nothing is delivered while stopped")
    r.m.start_reading()
    r.w.drain()
    c.check(same_all(c, r.responses(), msgs), "nothing is lost, repeated or reordered")
    c.check(len(r.w.opened) == 1, "on the same port")
    settings(c, r.w)

  run(c, f)


def stopped_lost(c):
  """reading is stopped while the port cannot be opened"""
  def f(r):
    r.w.refuse = 1000
    n = c.pick("attempts", 0, 2)
    r.w.script.append((0, "error"))
    for k in range(n): r.w.sleep(1)
    r.m.stop_reading()
    c.check(reader(r).done and reader(r).error is None, "reading has stopped")
    c.check(len(r.w.opened) == 1, "and does not connect any more")

  run(c, f, waits=3)


def instances(tier):
  q = tier == "quick"
  r = [("lost-%d-%d" % (n, e), lost, (n, e), {"weight": 10 * n * e}) for n, e in ([(1, 1), (2, 1), (3, 1), (2, 2)] if q else [(1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2)])]
  r += [("stopped-%d-%d" % (n, p), stopped, (n, p), {"weight": 20}) for n, p in ([(1, 0), (3, 0), (1, 1), (2, 1)] if q else [(1, 0), (3, 0), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2)])]
  r.append(("stopped-lost", stopped_lost, ()))
  return r
