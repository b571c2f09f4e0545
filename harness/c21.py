"""Commands executed one after the other with messages arriving at any time (their own responses, finished or not, responses of others, untagged ones), and waits of any
length: one command with up to 3 (thorough 4) messages or two with up to 2 (thorough 3), threads changing over in waits, reads and locks; up to 2 messages with, besides, 1 (thorough 2) interruptions
between any two statements of the modem; asynchronous commands sent meanwhile from a callback or another thread;
up to 3 (thorough 4) messages of every kind, reboots and log lines too, read at once; 130 (thorough 400) messages during one command, two thirds of them its own."""
from harness.modem_frames import *

UNIT = world.UNIT


class Exec(object):
  pass


def execute(c, r, cmd, timeout):
  e = Exec()
  e.cmd, e.timeout = cmd, timeout
  e.start, e.writes = r.w.clock, len(r.w.sent)
  e.got = r.m.execute_command(cmd, timeout_seconds=timeout)
  e.got = list(e.got)
  e.taken = e.got
  e.elapsed = r.w.clock - e.start
  e.read = r.total - len(r.w.script)       # messages read by now
  e.done = e.read if r.idle() else e.read - 1
  return e


def command(c, n, tag):
  return Command.create_with_read_file_action(c.byte(n + ".file"), 4, 0) if tag is None else tagged(c, n, tag)


def tagged(c, n, tag):
  cmd = Command.create_with_read_file_action(c.byte(n + ".file"), 4, 0)
  c.check(cmd.tag_id is not None, "commands carry a tag")
  return cmd


def script(c, n, tags, kinds, first_kind=None):
  """n messages; each of a command, of nobody, or a reboot"""
  msgs = []
  first = 1
  for k in range(n):
    name = "m%d" % k
    kind = c.choice(name + ".kind", kinds) if k or first_kind is None else first_kind
    if kind == "other":
      t = c.byte(name + ".tag")
      for x in tags: c.assume(t != x)
    elif kind == "untagged": t = None
    else: t = tags[kind]
    owner = kind if c.isint(kind) else None
    if owner is not None: first = max(first, owner + 1)
    m = respond(c, name, k, t)
    m.after, m.owner, m.k = first, owner, k
    msgs.append(m)
  return msgs


def respond(c, n, k, tag, file=None):
  """the file returned tells the messages apart"""
  d = c.bytes(n + ".data", 1)
  last, error = c.bool(n + ".last"), c.bool(n + ".error")
  i = 0x50 + k
  b = ([] if tag is None else [c.ite(last, 0x80, 0) | c.ite(error, 0x40, 0) | 0x23, tag]) + returned(c, n, i, d)

  def same(m):
    op = m.actions[0].operation.operand
    r = c.both(len(m.actions) == 1, c.eq(list(op.data), d))
    if tag is None: return c.both(r, m.tag_id is None)
    return c.both(r, m.tag_id == tag, m.execution_completed == last)

  return Message(frame(c, k, 1, b), same, last=last, tag=tag)


def which(c, got, msgs):
  """the numbers of the delivered messages"""
  r = []
  for g in got:
    k = c.hold(g.actions[0].operation.operand.offset.id) - 0x50
    c.check(0 <= k < len(msgs), "only what was received is delivered")
    c.check(msgs[k].same(g), "messages are delivered unchanged")
    r.append(k)
  return r


def judge(c, r, execs, msgs):
  rest = which(c, r.responses() + r.m.get_unsolicited_responses_received(), msgs)
  got = [which(c, e.got, msgs) for e in execs]
  for x in [rest] + got: c.check(x == sorted(x), "in the order of arrival")
  all = sum(got, rest)
  c.check(len(all) == len(set(all)), "no message is delivered twice")
  for n, e in enumerate(execs):
    own = [m.k for m in msgs if m.owner == n]
    for k in got[n]: c.check(k in own, "only responses to the command are returned")
    if got[n]:
      c.check(c.either(*[msgs[k].last for k in got[n]]), "returned once the response is complete")
      for k in own:
        c.check(k in got[n] or k in rest, "no response is lost")
        if k in rest: c.check(k > got[n][-1], "responses are returned from the first one on")
    else:
      c.check(e.elapsed >= e.timeout * UNIT, "gives up only when the time is over")
      for k in own:
        if k < e.done and k not in rest: c.check(c.no(msgs[k].last), "a completed response is returned")
        if k in rest and r.times: c.check(r.times[rest.index(k)] - e.start >= e.timeout * UNIT, "a response in time is not unsolicited")
        if k >= e.read: c.check(k in rest, "late responses are unsolicited")
  for m in msgs:
    if m.owner is None: c.check(m.k in rest, "all other responses are unsolicited")
  return rest, got


def start(c, r, msgs):
  r.w.script += [(m.after, m.bytes) for m in msgs]
  r.total = len(msgs)
  reader = [t for t in r.w.tasks if t is not r.w.main][-1]
  r.idle = lambda: reader.why == "read"


def executions(c, count, n, kinds, preemptions, callback=True, waits=2, first_kind=None):
  def f(r):
    cmds = [tagged(c, "c%d" % k, None) for k in range(count)]
    tags = [x.tag_id for x in cmds]
    if count == 2: c.assume(tags[0] != tags[1])
    msgs = script(c, n, tags, kinds, first_kind)
    start(c, r, msgs)
    r.w.preemptions = preemptions
    execs = [execute(c, r, x, t) for x, t in zip(cmds, (10, 2))]
    r.w.drain()
    judge(c, r, execs, msgs)
    c.check(len(r.w.sent) == count, "each command is sent once")
    for k, x in enumerate(cmds): c.same(r.w.sent[k], frame(c, k, 1, raw(x)), "as one frame")

  run(c, f, callback=callback, waits=waits)


def mixed(c, n, waits):
  """messages of every kind read at once while a command is executed"""
  callback = c.choice("callback", [True, False])
  kinds = [c.choice("k%d" % k, ["own", "other", "reboot", "log"]) for k in range(n)]
  c.assume("own" in kinds)

  def f(r):
    cmd = tagged(c, "c", None)
    every, responses = [], []
    for k, kind in enumerate(kinds):
      name = "m%d" % k
      if kind == "reboot": m = reboot(c, name, k)
      elif kind == "log": m = logline(c, name, k)
      else:
        t = cmd.tag_id
        if kind == "other":
          t = c.byte(name + ".tag")
          c.assume(t != cmd.tag_id)
        j = len(responses)
        m = respond(c, name, j, t)
        m.bytes[2] = k
        m.k, m.owner = j, 0 if kind == "own" else None
        responses.append(m)
      m.kind = kind
      every.append(m)
    r.w.script.append((1, sum([m.bytes for m in every], [])))
    r.total = 1
    reader = [t for t in r.w.tasks if t is not r.w.main][-1]
    r.idle = lambda: reader.why == "read"
    e = execute(c, r, cmd, 10)
    e.done = len(responses) if e.read and r.idle() else 0
    e.read *= len(responses)
    r.w.drain()
    rest, got = judge(c, r, [e], responses)
    rs = [m for m in every if m.kind == "reboot"]
    c.check(same_all(c, r.reboots() if callback else r.m.get_rebooted_received(), rs), "reboots are noticed, each once, in order")
    if callback:
      seen = [m for m in every if m.kind == "reboot" or m.kind != "log" and m.k in rest]
      c.check(same_all(c, [x for k, x in r.events], seen), "callbacks are called in the order of arrival")

  run(c, f, callback=callback, reboots=callback, waits=waits)


def asynchronous(c, n, how, preemptions):
  """a command is sent without waiting, while another one is executed"""
  second = Command.create_with_read_file_action(0x41, 4, 0)
  box = []

  def react(r, cmd):
    if not box:
      box.append(1)
      r.sent = r.m.execute_command_async(second)

  def f(r):
    first = Command.create_with_read_file_action(0x40, 4, 0)
    tags = [first.tag_id, second.tag_id]
    c.assume(tags[0] != tags[1])
    msgs = script(c, n, tags, [0, "other"])
    start(c, r, msgs)
    if how == "thread": r.w.spawn("other", lambda: r.m.execute_command_async(second))
    r.w.preemptions = preemptions
    e = execute(c, r, first, 10)
    r.w.drain()
    judge(c, r, [e], msgs)
    a, b = frame_of(c, raw(first)), frame_of(c, raw(second))
    if how == "thread" or box:
      c.check(len(r.w.sent) == 2, "both commands are sent once")
      one, two = r.w.sent
      c.check(c.either(c.both(c.eq(one, a(0)), c.eq(two, b(1))), c.both(c.eq(one, b(0)), c.eq(two, a(1)))), "as frames, counted in the order they are sent")
    else: c.same(r.w.sent, [a(0)], "sent once")

  run(c, f, react=react if how == "callback" else None, waits=1 if preemptions else 2)


def frame_of(c, d): return lambda k: frame(c, k, 1, d)


def alone(c):
  """without waiting, nothing is waited for"""
  skip = c.choice("skip_alp_parsing", [False, True])
  timeout = c.choice("timeout", [0, 10]) if skip else 0

  def f(r):
    cmd = Command.create_with_read_file_action(c.byte("file"), 4, 0)
    got = r.m.execute_command(cmd, timeout) if c.choice("how", [False, True]) else r.m.execute_command_async(cmd)
    if got is not None: c.check(len(got) == 0, "no responses")
    c.check(r.w.clock == 0, "does not wait")
    c.same(r.w.sent, [frame(c, 0, 1, raw(cmd))], "sent once")
    m = respond(c, "m", 0, cmd.tag_id)
    r.w.script.append((1, m.bytes))
    r.w.drain()
    c.check(len(r.responses()) == 1, "the response is unsolicited")
    if not skip: c.check(m.same(r.responses()[0]), "unchanged")

  run(c, f, skip=skip)


def untagged(c, n):
  """a command without a tag: responses without a tag are its own, but none of them completes it"""
  def f(r):
    cmd = Command(generate_tag_request_action=False)
    msgs = script(c, n, [None], ["untagged", "other"])
    start(c, r, msgs)
    e = execute(c, r, cmd, 10)
    r.w.drain()
    rest = which(c, r.responses(), msgs)
    for m in msgs:
      if m.tag is not None: c.check(m.k in rest, "all other responses are unsolicited")
    c.check(len(e.got) == 0 and e.elapsed >= 640, "waits until the time is over")

  run(c, f)


def many(c, n):
  """many responses to one command, of which the last one completes it, among others"""
  callback = c.choice("callback", [True, False])

  def f(r):
    cmd = tagged(c, "c", None)
    t = cmd.tag_id
    msgs = []
    for k in range(n):
      own = k % 3 != 1
      i, d = 0x50 + k, c.bytes("m%d" % k, 1)
      b = ([k == n - 1 and 0xA3 or 0x23, t] if own else []) + returned(c, "", i, d)
      m = Message(frame(c, k, 1, b), lambda m, i=i, d=d: c.both(m.actions[0].operation.operand.offset.id == i, c.eq(list(m.actions[0].operation.operand.data), d)))
      m.own = own
      msgs.append(m)
    r.w.script += [(1, m.bytes) for m in msgs]
    got = list(r.m.execute_command(cmd, timeout_seconds=10))
    r.w.drain()
    own, rest = [m for m in msgs if m.own], [m for m in msgs if not m.own]
    others = r.responses() if callback else r.m.get_unsolicited_responses_received()
    if got:
      c.check(same_all(c, got, own), "all responses are returned, in order")
      c.check(same_all(c, others, rest), "all other responses are unsolicited, in order")
    else: c.check(r.w.clock >= 10 * UNIT, "gives up only when the time is over")

  run(c, f, callback=callback, waits=1)


def instances(tier):
  q = tier == "quick"
  r = [("alone", alone, ()), ("many", many, (130 if q else 400,), {"weight": 50, "max_steps": 3000000})]
  r += [("one-%d" % n, executions, (1, n, [0, "other", "untagged"], 0), {"weight": 20 * n}) for n in range(0, 4 if q else 5)]
  r += [("two-%d" % n, executions, (2, n, [0, 1, "other"], 0), {"weight": 40 * n}) for n in range(1, 3 if q else 4)]
  r += [("kept-%d" % n, executions, (1, n, [0, "other"], 0, False), {"weight": 20}) for n in (2,)]
  r += [("interrupted-one-%d-%d" % (n, p), executions, (1, n, [0, "other"], p, True, 1), {"weight": 100, "seconds": 780 if q else 3000}) for n, p in ([(1, 1), (2, 1)] if q else [(1, 1), (2, 1), (1, 2), (2, 2)])]
  r += [("interrupted-two-%d-%d-%d" % (n, p, k), executions, (2, n, [0, 1], p, True, 1, k), {"weight": 100, "seconds": 780 if q else 3000}) for k in (0, 1) for n, p in ([(1, 1), (2, 1)] if q else [(1, 1), (2, 1), (1, 2), (2, 2)])]
  r += [("async-%s-%d-%d" % (h, n, p), asynchronous, (n, h, p), {"weight": 80, "seconds": 780 if q else 3000}) for h, n, p in
        [("callback", 1, 0), ("callback", 2, 0), ("callback", 1, 1), ("thread", 1, 0), ("thread", 2, 0), ("thread", 0, 1)] + ([] if q else [("thread", 1, 1), ("callback", 2, 1)])]
  r += [("mixed-%d" % n, mixed, (n, 1), {"weight": 40 * n, "seconds": 780 if q else 3000}) for n in ((2, 3) if q else (2, 3, 4))]
  r += [("untagged-%d" % n, untagged, (n,)) for n in (1, 2)]
  return r
