"""Up to 2 (thorough 3) received messages of every kind (tagged and untagged responses, reboots, log lines) with all contents, as separate reads, in one or byte by byte,
with and without callbacks, connected or not, parsed or raw; two modems one after the other; 300 (thorough also 700) messages, two of
them of 200 bytes, kept or delivered, in reads of of one frame or 512 bytes."""
from harness.modem_frames import *


def received(c, n, skip):
  connected = c.choice("connected", [True, False])
  callback = c.choice("callback", [True, False])
  reboots = c.choice("rebooted_callback", [True, False])
  msgs = []
  for k in range(n):
    name = "m%d" % k
    kind = c.choice(name + ".kind", ["tagged", "untagged", "reboot", "log"])
    if kind == "tagged": m = response(c, name, k, c.byte(name + ".tag"))
    elif kind == "untagged": m = response(c, name, k, None)
    elif kind == "reboot": m = reboot(c, name, k)
    else: m = logline(c, name, k)
    if skip and kind in ("tagged", "untagged"):
      d = m.payload
      m = Message(m.bytes, lambda x, d=d: c.eq(text(x), d))
    m.kind = kind
    msgs.append(m)
  script = [(0, m.bytes) for m in msgs]
  together = sum([m.bytes for m in msgs], [])
  reads = c.choice("reads", ["bytes", "frames"] + (["one"] if n > 1 else []))
  if reads == "one": script = [(0, together)]
  if reads == "bytes": script = [(0, [b]) for b in together]

  def f(r):
    r.w.drain()
    rs = [m for m in msgs if m.kind in ("tagged", "untagged")]
    bs = [m for m in msgs if m.kind == "reboot"]
    c.check(same_all(c, r.responses(), rs if callback and connected else []), "responses go to the callback once, in order, when connected")
    c.check(same_all(c, r.m.get_unsolicited_responses_received(), [] if callback and connected else rs), "or are kept, once, in order")
    c.check(same_all(c, r.reboots(), bs if reboots else []), "reboots go to their callback, once, in order")
    c.check(same_all(c, r.m.get_rebooted_received(), [] if reboots else bs), "or are kept, once, in order")
    if reboots and callback and connected:
      c.check(same_all(c, [m for k, m in r.events], [m for m in msgs if m.kind != "log"]), "callbacks are called in the order of arrival")
    r.m.clear_unsolicited_responses_received()
    r.m.clear_rebooted_received()
    c.check(len(r.m.get_unsolicited_responses_received()) == 0 and len(r.m.get_rebooted_received()) == 0, "cleared")

  run(c, f, script, callback=callback, reboots=reboots, skip=skip, connected=connected)


def many(c, n, skip):
  """a lot of messages, some of them long: kept or delivered, each once, in order"""
  callback = c.choice("callback", [True, False])
  msgs = []
  for k in range(n):
    name = "m%d" % k
    if k % 7 == 3: m = reboot(c, name, k % 256)
    else: m = response(c, name, k % 256, None if k % 3 else (5 * k) % 256, False, False, 200 if k in (2, 9) else 1)
    if skip and k % 7 != 3: m = Message(m.bytes, lambda x, d=m.payload: c.eq(text(x), d))
    m.kind = k % 7 == 3
    msgs.append(m)
  rs, bs = [m for m in msgs if not m.kind], [m for m in msgs if m.kind]

  def f(r):
    r.w.drain()
    c.check(same_all(c, r.responses(), rs if callback else []), "responses go to the callback once, in order")
    c.check(same_all(c, r.m.get_unsolicited_responses_received(), [] if callback else rs), "or are kept, once, in order")
    c.check(same_all(c, r.reboots(), bs if callback else []), "reboots go to their callback, once, in order")
    c.check(same_all(c, r.m.get_rebooted_received(), [] if callback else bs), "or are kept, once, in order")

  together = sum([m.bytes for m in msgs], [])
  size = c.choice("reads", [0, 50, 512, len(together)] if n < 100 else [0, 512])
  if size: s = [(0, together[k:k + size]) for k in range(0, len(together), size)]
  else: s = [(0, m.bytes) for m in msgs]
  run(c, f, s, callback=callback, reboots=callback, skip=skip)


def second(c):
  """what one modem keeps is not kept by another"""
  a, b = response(c, "a", 0, None), response(c, "b", 1, c.byte("tag"))
  x, y = reboot(c, "x", 0), reboot(c, "y", 1)
  first = []

  def f(r):
    r.w.drain()
    first.append(r.m)
    r.m.stop_reading()

  def g(r):
    r.w.drain()
    m = first[0]
    c.check(same_all(c, r.m.get_unsolicited_responses_received(), [b]), "the second keeps its own response")
    c.check(same_all(c, r.m.get_rebooted_received(), [y]), "and reboot")
    c.check(same_all(c, m.get_unsolicited_responses_received(), [a]) and same_all(c, m.get_rebooted_received(), [x]), "the first still has its own")
    r.m.clear_unsolicited_responses_received()
    r.m.clear_rebooted_received()
    c.check(len(m.get_unsolicited_responses_received()) == 1 and len(m.get_rebooted_received()) == 1, "also when the second's are cleared")

  run(c, f, [(0, a.bytes), (0, x.bytes)], callback=False, reboots=False)
  run(c, g, [(0, b.bytes), (0, y.bytes)], callback=False, reboots=False)


def instances(tier):
  ns = [1, 2] if tier == "quick" else [1, 2, 3]
  return [("many-%d%s" % (n, "-raw" if s else ""), many, (n, s), {"weight": 20, "max_steps": 3000000}) for n in ([300] if tier == "quick" else [300, 700]) for s in (False, True)] + [("second", second, ())] + [("received-%d%s" % (n, "-raw" if s else ""), received, (n, s), {"weight": 20 * n, "seconds": 700}) for n in ns for s in (False, True)]
