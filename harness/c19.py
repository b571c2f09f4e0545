"""All control bytes; transport frames with every combination of timeouts, AGC and acknowledgement request, all dialog and transaction ids, and commands of 0, 1 and 2 actions, and of up to 250 bytes;
network frames with every origin (2 and 8 arbitrary bytes); every truncation; every unsupported control flag."""
from harness.net_frames import *


def atp_controls(c):
  s, _ = atp_control(c, "control")
  codec(c, s, AtpControl.parse)


def atp_byte(c):
  b = c.byte("b")
  p = AtpControl.parse(stream([b]))
  c.same(raw(p), [b & 0xBF], "all bits but the reserved one are kept")


def anp_controls(c):
  s, _, _ = anp_control(c, "control")
  codec(c, s, AnpControl.parse)


def anp_byte(c):
  b = c.byte("b")
  p, e = c.attempt(AnpControl.parse, stream([b]))
  if e is None: c.same(raw(p), [b], "all bits are kept")
  else: c.check(c.both(isinstance(e, ValueError), b & 15 > 7), "only unknown security methods are refused")


def codec_len(c, s, parse, n):
  b = raw(s.obj)
  c.same(b, s.bytes, "serialises to the documented bytes")
  st = stream(s.bytes + c.bytes("tail", 2))
  p = parse(st, n)
  c.check(s.match(p), "parses back to the same fields")
  c.check(st.pos == 8 * len(s.bytes), "parsing consumes exactly its own bytes")
  c.same(raw(p), s.bytes, "the parsed copy serialises to the same bytes")


def transport(c):
  s = atp(c, "atp")
  codec_len(c, s, AtpFrame.parse, len(s.bytes))


def network(c):
  s = anp(c, "anp", small_atp(c, "atp"))
  codec_len(c, s, AnpFrame.parse, len(s.bytes))


def whole(c):
  s = anp(c, "anp")
  codec_len(c, s, AnpFrame.parse, len(s.bytes))


def long_command(c):
  """a transport frame of many bytes: declared length, data and further actions"""
  n = c.choice("size", [60, 120, 200, 240])
  i, j, x = c.byte("file"), c.byte("next"), c.byte("x")
  ctrl = AtpControl(is_dialog_start=True, has_tl=False, has_te=False, is_ack_requested=False, is_ack_not_void=False, is_ack_record_requested=False, has_agc=False)
  d = [x] + [(7 * k) % 256 for k in range(n - 1)]
  back = RegularAction(operation=ReturnFileData(operand=Data(list(d), offset=Offset(id=i, offset=Length(0)))))
  read = RegularAction(operation=ReadFileData(operand=DataRequest(length=8, offset=Offset(id=j, offset=Length(0)))))
  o = AtpFrame(ctrl, 1, 2, Command(actions=[back, read], generate_tag_request_action=False))
  b = [0x80, 1, 2, 0x20, i, 0] + gen.varlen(n) + d + [1, j, 0, 8]
  same = lambda p: c.both(len(p.alp_command.actions) == 2, c.eq(list(p.alp_command.actions[0].operation.operand.data), d),
                          p.alp_command.actions[0].operation.operand.offset.id == i, p.alp_command.actions[1].operation.operand.offset.id == j)
  codec_len(c, Spec(o, b, same), AtpFrame.parse, len(b))
  plain = AnpControl(has_no_origin_access_id=True, has_hopping=False, nls_method=NlsMethod.NONE, origin_id_type=IdType.NOID)
  codec_len(c, Spec(AnpFrame(plain, 3, [], o), [0x90, 3] + b, lambda p: same(p.d7atp_frame)), AnpFrame.parse, len(b) + 2)


def short_transport(c):
  s = atp(c, "atp")
  truncated(c, s.bytes, lambda st: AtpFrame.parse(st, len(s.bytes)), "transport frame")


def short_network(c):
  s = anp(c, "anp", small_atp(c, "atp"))
  truncated(c, s.bytes, lambda st: AnpFrame.parse(st, len(s.bytes)), "network frame")


def unsupported_transport(c):
  """acknowledgement templates are not supported: refused rather than misread"""
  b = c.byte("control")
  c.assume(b & 6 != 0)
  d = [b] + c.bytes("rest", 7) + [1, 2, 0, 4]
  p, e = c.attempt(AtpFrame.parse, stream(d), len(d))
  c.check(e is not None, "refused")


def unsupported_network(c):
  b = c.byte("control")
  c.assume(c.either(b & 0x40 != 0, b & 15 != 0, c.both(b & 0x80 == 0, b & 0x20 == 0)))
  d = [b, 1] + c.bytes("origin", 8) + [0x80, 1, 2, 1, 2, 0, 4]
  p, e = c.attempt(AnpFrame.parse, stream(d), len(d))
  c.check(e is not None, "refused")


def ranges(c):
  v = c.int("v", -1000, 1000)
  ctrl = AtpControl(True, False, False, False, False, False, True)
  cmd = Command(actions=[], generate_tag_request_action=False)
  n = AnpControl(True, False, NlsMethod.NONE, IdType.NOID)
  f, hi = c.choice("field", [
    (lambda: AtpFrame(ctrl, v, 0, cmd), 255), (lambda: AtpFrame(ctrl, 0, v, cmd), 255), (lambda: AtpFrame(ctrl, 0, 0, cmd, agc_rx_level_i=v), 31),
    (lambda: AnpFrame(n, v, [], AtpFrame(ctrl, 0, 0, cmd)), 255), (lambda: AnpFrame(n, 0, [v], AtpFrame(ctrl, 0, 0, cmd)), 255)])
  rejects(c, f, c.both(v >= 0, v <= hi), "field")


def kinds(c):
  bad = c.choice("bad", [None, 3, "x", CT()])
  ctrl = AtpControl(True, False, False, False, False, False, True)
  cmd = Command(actions=[], generate_tag_request_action=False)
  n = AnpControl(True, False, NlsMethod.NONE, IdType.NOID)
  f = c.choice("field", [lambda: AtpFrame(bad, 0, 0, cmd), lambda: AtpFrame(ctrl, 0, 0, bad), lambda: AnpFrame(bad, 0, [], AtpFrame(ctrl, 0, 0, cmd)),
                         lambda: AnpFrame(n, 0, [], bad), lambda: AnpControl(bad, False, NlsMethod.NONE, IdType.NOID), lambda: AnpControl(True, False, bad, IdType.NOID),
                         lambda: AnpControl(True, False, NlsMethod.NONE, bad), lambda: AtpControl(bad, True, True, True, True, True, True)])
  rejects(c, f, False, "kind")


def instances(tier):
  r = [(f.__name__, f, ()) for f in (atp_controls, atp_byte, anp_controls, anp_byte, network, long_command, short_network, unsupported_transport, unsupported_network, ranges, kinds)]
  return r + [(f.__name__, f, (), {"weight": 20, "seconds": 2000 if tier != "quick" else 240}) for f in (transport, whole, short_transport)]
