"""Session status: all field values, all id types; interface status actions for all 256 interface ids and every stated length 0..6 (thorough
0..40) and of 31 to 255 on the host and serial interfaces, every truncation, and up to 3 (12) and 64 to 235 bytes beyond the known fields on the session interface; images followed by further actions."""
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.alp.parser import Parser
from d7a.parse_error import ParseError
from d7a.alp.operations.status import InterfaceStatus
from d7a.alp.operands.interface_status import InterfaceStatusOperand


def status_codec(c, t):
  s = gen.status(c, "s", [t])
  p = codec(c, s, Status.parse)
  c.check(c.both(p.addressee.id_type == t), "id type")


def status_image(c):
  """every image of the right shape gives the fields it holds, reserved bits aside"""
  head = [c.choice("coding", [0x20, 0x32, 0x46, 0x30]), c.byte("i1"), c.byte("i0")]
  b = head + c.bytes("b", 7)
  k = c.choice("id", [0, 1, 2, 3])
  nls = c.int("nls", 0, 7)
  n = [1, 0, 8, 2][k]
  a = [k * 16 + nls, c.byte("ac")] + c.bytes("idv", n)
  st = stream(b + a)
  p = Status.parse(st)
  c.check(st.pos == 8 * len(b + a), "consumed")
  flags = b[6]
  c.check(c.both(p.rx_level == b[3], p.link_budget == b[4], p.target_rx_level == b[5], c.eq(p.nls, flags & 128 != 0),
                 c.eq(p.missed, flags & 64 != 0), c.eq(p.retry, flags & 32 != 0), c.eq(p.unicast, flags & 16 != 0), p.fifo_token == b[7],
                 p.seq_nr == b[8], p.response_to.exp == b[9] >> 5, p.response_to.mant == b[9] & 31, p.addressee.access_class == a[1],
                 p.channel_id.channel_index == b[1] * 256 + b[2]), "fields of an image")
  if k == 3: c.check(p.addressee.id == num(a[2:]), "id")
  if k == 2: c.check(p.addressee.id == num(a[2:]), "id")


def status_truncated(c):
  s = gen.status(c, "s", [c.choice("type", ID_TYPES)])
  truncated(c, s.bytes, Status.parse, "status")


def plain_args():
  return dict(channel_id=ChannelID(ChannelHeader(ChannelCoding.PN9, ChannelClass.LO_RATE, ChannelBand.BAND_868), 0), rx_level=1, link_budget=2,
              target_rx_level=3, nls=False, missed=False, retry=False, unicast=False, fifo_token=4, seq_nr=5, response_to=CT(),
              addressee=Addressee())


def ranges(c):
  v = c.int("v", -300, 600)
  f = c.choice("field", ["rx_level", "link_budget", "target_rx_level", "fifo_token", "seq_nr"])
  args = plain_args()
  args[f] = v
  rejects(c, lambda: Status(**args), c.both(v >= 0, v <= 255), f)


def flag_kinds(c):
  g = c.choice("flag", ["nls", "missed", "retry", "unicast"])
  bad = c.choice("bad", [None, 1, "x", c.bool("b")])
  args = plain_args()
  args[g] = bad
  rejects(c, lambda: Status(**args), isinstance(bad, bool), g)


def part_kinds(c):
  args = plain_args()
  args[c.choice("part", ["response_to", "addressee", "channel_id"])] = c.choice("wrong", [None, 4, "x", Offset()])
  rejects(c, lambda: Status(**args), False, "part")


def action(c, t):
  """a session status action, as a gateway sends it, with an action after it"""
  s = gen.status(c, "s", [t])
  d = gen.return_data(c, "d", 1, top=63)
  b = [64 + 34, 0xD7, len(s.bytes)] + s.bytes + d.bytes
  st = stream(b)
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(cmd.interface_status is not None and cmd.interface_status.operand.interface_id == 0xD7, "its interface")
  c.check(s.match(cmd.get_d7asp_interface_status()), "the status")
  c.check(len(cmd.actions) == 1, "the action after it")
  c.check(d.match(cmd.actions[0]), "unchanged")
  c.observe("status", raw(cmd.get_d7asp_interface_status()))


def longer(c, t, extra):
  """a session status which holds more than the known fields: the rest is skipped"""
  s = gen.status(c, "s", [t])
  d = gen.return_data(c, "d", 1, top=63)
  n = c.choice("extra", extra)
  b = [64 + 34, 0xD7, len(s.bytes) + n] + s.bytes + c.bytes("more", n) + d.bytes
  st = stream(b + c.bytes("tail", 1))
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(s.match(cmd.get_d7asp_interface_status()), "the status")
  c.check(len(cmd.actions) == 1, "the action after it")
  c.check(d.match(cmd.actions[0]), "unchanged")


def empty(c):
  """a session status without content"""
  d = gen.return_data(c, "d", 1, top=63)
  b = [64 + 34, 0xD7, 0] + d.bytes
  cmd = Parser().parse(stream(b), len(b))
  c.check(cmd.interface_status is not None and cmd.get_d7asp_interface_status() is None, "no status")
  c.check(len(cmd.actions) == 1 and d.match(cmd.actions[0]), "the action after it")


def other(c, lengths):
  """host and serial interfaces: the stated number of bytes is skipped"""
  i = c.choice("interface", [0, 1])
  n = c.choice("length", lengths)
  d = gen.return_data(c, "d", 1, top=63)
  b = [64 + 34, i, n] + c.bytes("content", n) + d.bytes
  st = stream(b)
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(cmd.interface_status is not None, "an interface status")
  c.check(c.both(cmd.interface_status.operand.interface_id == i, cmd.interface_status.operand.interface_status is None), "its interface")
  c.check(cmd.get_d7asp_interface_status() is None, "not a session status")
  c.check(len(cmd.actions) == 1, "the action after it")
  c.check(d.match(cmd.actions[0]), "unchanged")


def unknown(c):
  i = c.byte("interface")
  c.assume(c.both(i != 0, i != 1, i != 0xD7))
  b = [64 + 34, i] + c.bytes("rest", 4)
  _, e = c.attempt(Parser().parse, stream(b), len(b))
  c.check(isinstance(e, ParseError), "status of an unknown interface refused with a parse error")


def reserved(c):
  b = [128 + c.choice("b6", [0, 64]) + 34] + c.bytes("rest", 4)
  _, e = c.attempt(Parser().parse, stream(b), len(b))
  c.check(isinstance(e, ParseError), "reserved extension refused with a parse error")


def written(c):
  """what an interface status operand writes is what it reads"""
  has = c.choice("has", [True, False])
  ch = ChannelID(ChannelHeader(ChannelCoding.PN9, ChannelClass.LO_RATE, ChannelBand.BAND_868), 0)
  o, tail = None, []
  if has:
    q = c.byte("seq_nr")
    o = Status(channel_id=ch, rx_level=1, link_budget=2, target_rx_level=3, nls=False, missed=False, retry=False, unicast=True,
               fifo_token=4, seq_nr=q, response_to=CT(), addressee=Addressee())
    tail = [0x30, 0, 0, 1, 2, 3, 0x10, 4, q, 0, 0x10, 0]
  i = 0xD7 if has else c.choice("interface", [0, 1, 0xD7])
  a = StatusAction(StatusActionOperandExtensions.INTERFACE_STATUS, InterfaceStatus(operand=InterfaceStatusOperand(i, o)))
  c.same(raw(a)[:2], [64 + 34, i], "control byte and interface")
  body = raw(a)[2:]
  c.check(c.either(c.eq(body, tail), c.eq(body, [len(tail)] + tail)), "then the status")
  cmd, e = c.attempt(Parser().parse, stream(raw(a)), len(raw(a)))
  c.check(e is None, "reads back", known=("length", True))
  d = cmd.get_d7asp_interface_status()
  c.check((d is not None) == has, "reads back", known=("length", True))
  if has: c.check(d.seq_nr == q, "reads back", known=("length", True))


def instances(tier):
  r = [(f.__name__, f, ()) for f in (status_image, status_truncated, ranges, flag_kinds, part_kinds, empty, unknown, reserved, written)]
  for t in ID_TYPES:
    r.append(("status-" + t.name, status_codec, (t,)))
    r.append(("action-" + t.name, action, (t,), {"weight": 3}))
    r.append(("longer-" + t.name, longer, (t, range(1, 4 if tier == "quick" else 13)), {"weight": 3}))
    r.append(("far-longer-" + t.name, longer, (t, [64, 110, 128, 200, 235]), {"weight": 9}))
  r.append(("other", other, (range(7 if tier == "quick" else 41),)))
  r.append(("other-long", other, ([31, 32, 63, 64, 127, 128, 192, 200, 255],), {"weight": 9}))
  return r
