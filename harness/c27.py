"""The bridge to MQTT with a scripted modem: up to 2 (thorough 3) received messages of every kind with all contents, as separate reads or in one, arriving from the opening of
the port to the end, with one change of thread at any statement and the broker accepting at any time; publishing failing for one of them; four topics; 100 (300)
messages, three of them of 200 bytes."""
import sys
from engine import world
from harness.modem_frames import *
from tools.modem2mqtt import Modem2Mqtt

KEPT = []        # bridges do away with their client when they are collected: never in the middle of a run

TOPICS = [(None, "gw-1", "/gw/gw-1"), ("/gw/{}", "a", "/gw/a"), ("d7/{}/raw", "0011", "d7/0011/raw"), ("fixed", "x", "fixed")]


class Broken(Exception):
  pass


def message(c, k):
  """(message, bytes of its command or None)"""
  n = "m%d" % k
  kind = c.choice(n + ".kind", ["tagged", "untagged", "reboot", "log"])
  if kind == "reboot": return reboot(c, n, k), None
  if kind == "log": return logline(c, n, k), None
  m = response(c, n, k, c.byte(n + ".tag") if kind == "tagged" else None)
  return m, m.payload


def lots(c, n):
  """responses, tagged or not, some of them long, reboots and log lines"""
  r = []
  for k in range(n):
    name = "m%d" % k
    if k % 5 == 3: r.append((reboot(c, name, k), None))
    elif k % 5 == 4: r.append((logline(c, name, k), None))
    else:
      m = response(c, name, k, (7 * k) % 256 if k % 2 else None, False, False, 200 if k in (1, 5, 6) else 2)
      r.append((m, m.payload))
  return r


def bridge(c, n, when, preemptions, fails=False, topics=False, signals=1):
  t = c.choice("topic", TOPICS) if topics else TOPICS[0]
  ms = [message(c, k) for k in range(n)] if n < 9 else lots(c, n)
  # the first write is the question of the modem's identity: what arrives after it finds the modem connected
  script = [(when, m.bytes) for m, d in ms]
  if n > 1 and when and c.choice("one_read", [False, True]): script = [(when, sum([m.bytes for m, d in ms], []))]
  w = world.World(c, preemptions, 1, script)
  world.CURRENT[0] = w
  w.signals = signals
  lost = c.pick("fails", 0, n - 1) if fails else None
  asked = [0]

  def publishing(topic, payload):
    asked[0] += 1
    if lost is not None and asked[0] == lost + 1: raise Broken()

  w.publishing = publishing
  old, sys.argv = sys.argv, ["modem2mqtt", "-di", t[1], "-b", "broker", "-d", "/dev/modem", "-r", "9600"] + ([] if t[0] is None else ["-t", t[0]])
  try:
    b = Modem2Mqtt()
    KEPT.append(b)
    b.run()
    w.drain()
  finally:
    sys.argv = old
    w.end()
    world.CURRENT[0] = None
  want = [d for m, d in ms if d is not None]
  if lost is not None: want = want[:lost] + want[lost + 1:]
  c.check(w.brokers == [("broker", 1883)], "one broker")
  c.check(len(w.opened) == 1 and w.opened[0][:2] == ("/dev/modem", 9600), "one modem")
  if when: c.check(len(w.published) == len(want), "each command is published once, and nothing else is")
  else: c.check(len(w.published) <= len(want), "nothing is published twice")
  c.check(c.both(*[c.eq(list(bytearray(p[1])), d) for p, d in zip(w.published, want[len(want) - len(w.published):])]), "the same bytes in the same order")
  c.check(all([p[0] == t[2] for p in w.published]), "to the topic of this gateway")


def instances(tier):
  r = []
  q = tier == "quick"
  for n in ((1, 2) if q else (1, 2, 3)):
    r.append(("bridge-%d" % n, bridge, (n, 1, 0), {"weight": 5 ** n, "seconds": 800}))
    r.append(("early-%d" % n, bridge, (n, 0, 0), {"weight": 5 ** n, "seconds": 800}))
    r.append(("fails-%d" % n, bridge, (n, 1, 0, True), {"weight": 5 ** n, "seconds": 800}))
  r.append(("interrupted-1", bridge, (1, 1, 1), {"weight": 100, "seconds": 800}))
  r.append(("interrupted-early-1", bridge, (1, 0, 1), {"weight": 100, "seconds": 800}))
  if not q: r.append(("interrupted-2", bridge, (2, 1, 1), {"weight": 100, "seconds": 800}))
  r.append(("many", bridge, (100 if q else 300, 1, 0), {"weight": 50, "max_steps": 3000000}))
  r.append(("topics", bridge, (1, 1, 0, False, True)))
  r.append(("signals", bridge, (1, 1, 0, False, False, 3)))
  return r
