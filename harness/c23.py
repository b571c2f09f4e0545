"""The answer to the identification request: all UIDs, versions, names; both files or either, in both orders, after and before other messages; late, wrong or missing answers;
raw mode; connecting twice."""
from harness.modem_frames import *


def hexa(c, v):
  """without leading zeros"""
  n = 1
  while n < 16 and c.hold(v >> (4 * n) != 0): n += 1
  return [c.ite(d < 10, 48 + d, 87 + d) for d in [(v >> (4 * k)) & 15 for k in range(n - 1, -1, -1)]]


class Answer(object):
  pass


def answer(c, n, counter, tag, files, last=None):
  a = Answer()
  a.uid = c.int(n + ".uid", 0, (1 << 64) - 1)
  a.fw = [c.byte(n + ".fw%d" % k) for k in range(4)] + [c.int(n + ".text%d" % k, 1, 127) for k in range(13)]
  b = [0x23 | c.ite(c.bool(n + ".last") if last is None else last, 0x80, 0), tag]
  for f in files:
    if f == "uid": b += returned(c, n, 0, be(a.uid, 8))
    elif f == "firmware": b += returned(c, n, 2, a.fw)
    else: b += returned(c, n, 0x40, c.bytes(n + ".other", 2))
  a.bytes = frame(c, counter, 1, b)
  return a


def asked(c, r, n=1):
  """the frame sent asks for the whole of both files; its tag"""
  c.check(len(r.w.sent) == n, "one request")
  b = r.w.sent[0]
  body = b[7:]
  c.check(len(body) == 10, "request")
  c.same(b, frame(c, 0, 1, body), "framed")
  c.same([body[0]] + body[2:], [0xB4, 1, 0, 0, 8, 1, 2, 0, 17], "asks for the UID and the firmware version")
  return body[1]


def answered(c, files, before):
  def f(r):
    m = r.m

    def when(tag):
      """the tag is chosen by the command: the answer is scripted once it is known"""
      script = []
      if before == "other":
        t = c.byte("other_tag")
        c.assume(t != tag)
        script.append(answer(c, "other", 0, t, ["uid", "firmware"]))
      elif before == "untagged": script.append(response(c, "other", 0, None))
      script.append(answer(c, "a", 1, tag, files, True))
      return script
    script = []

    def sent(data):
      if script: return
      script.extend(when(data[8]))
      r.w.script.extend([(1, a.bytes) for a in script])

    r.w.on_write = sent
    ok = m.connect()
    tag = asked(c, r)
    a = script[-1]
    good = "uid" in files and "firmware" in files
    c.check((ok is True) == m.connected, "tells whether it is connected")
    if ok is True:
      c.check(good, "connected only if both files were received")
      c.same([ord(x) for x in list(m.uid)] if isinstance(m.uid, str) else text(m.uid), hexa(c, a.uid), "UID")
      v = m.firmware_version
      c.same([v.d7a_protocol_version_major, v.d7a_protocol_version_minor, v.filesystem_version_major, v.filesystem_version_minor], a.fw[:4], "versions")
      c.same(text(v.application_name), a.fw[4:10], "application")
      c.same(text(v.git_sha1), a.fw[10:], "commit")
      n = len(r.w.sent)
      c.check(m.connect() is True and len(r.w.sent) == n, "connecting again changes nothing")
    else:
      c.check(ok is False, "fails")
      c.check(not good or r.w.clock >= 640, "fails only without the answer")
    r.w.drain()
    if before != "none":
      c.check(len(m.get_unsolicited_responses_received()) + len(r.responses()) == (1 if ok else 2), "what is not the answer is kept")

  run(c, f, connected=False, waits=2)


def silent(c):
  def f(r):
    c.check(r.m.connect() is False, "fails without an answer")
    asked(c, r)
    c.check(r.w.clock >= 640, "after the time is over")
    c.check(not r.m.connected and r.m.uid is None, "not connected")

  run(c, f, connected=False)


def unchecked(c):
  skip = c.choice("skip", [True, False])

  def f(r):
    ok = r.m.connect(check_alive=False)
    c.check(ok is True and r.m.connected, "connected")
    c.check(len(r.w.sent) == 0 and r.w.clock == 0, "without asking")
    c.check(r.m.connect() is True and r.m.connect(False) is True and len(r.w.sent) == 0, "connecting again changes nothing")

  run(c, f, connected=False, skip=skip)


def skipped(c):
  def f(r):
    c.check(r.m.connect() is True and r.m.connected, "connected")
    asked(c, r)
    c.check(r.w.clock == 0, "without waiting")
    a = answer(c, "a", 0, r.w.sent[0][8], ["uid", "firmware"])
    r.w.script.append((1, a.bytes))
    r.w.drain()
    c.check(len(r.responses()) == 1, "the answer is delivered")
    c.same(text(r.responses()[0]), a.bytes[7:], "as it was received")

  run(c, f, connected=False, skip=True)


def instances(tier):
  r = [("silent", silent, ()), ("unchecked", unchecked, ()), ("skipped", skipped, ())]
  for files in (["uid", "firmware"], ["firmware", "uid"], ["uid"], ["firmware"], ["other"], ["other", "uid", "firmware"], ["uid", "other", "firmware"], []):
    for before in (("none", "other", "untagged") if len(files) == 2 else ("none",)):
      r.append(("answer-%s-%s" % ("-".join(files) or "empty", before), answered, (files, before), {"weight": 30}))
  return r
