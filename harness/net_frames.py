# D7A frames of the network layers with their reference bytes
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.d7anp.control import Control as AnpControl
from d7a.d7anp.frame import Frame as AnpFrame
from d7a.d7atp.control import Control as AtpControl
from d7a.d7atp.frame import Frame as AtpFrame

TYPE = {IdType.NBID: 0, IdType.NOID: 1, IdType.UID: 2, IdType.VID: 3}


def alp(c, n):
  """an ALP command in a frame: bytes, and whether a parsed command is it"""
  k = c.choice(n + ".alp", ["none", "read", "return", "two"])
  if k == "none": return Command(actions=[], generate_tag_request_action=False), [], lambda m: len(m.actions) == 0
  i, l = c.byte(n + ".file"), c.int(n + ".length", 0, 63)
  d = c.bytes(n + ".data", 2)
  read = RegularAction(operation=ReadFileData(operand=DataRequest(length=l, offset=Offset(id=i, offset=Length(0)))))
  back = RegularAction(operation=ReturnFileData(operand=Data(list(d), offset=Offset(id=0x40, offset=Length(3)))))
  rb, bb = [1, i, 0, l], [0x20, 0x40, 3, 2] + d

  def isread(a): return c.both(isinstance(a.operation, ReadFileData), a.operation.operand.offset.id == i, a.operation.operand.length.value == l)

  def isback(a):
    if not isinstance(a.operation, ReturnFileData): return False
    o = a.operation.operand
    return c.both(o.offset.id == 0x40, o.offset.offset.value == 3, c.eq(list(o.data), d))

  a, b, f = {"read": ([read], rb, [isread]), "return": ([back], bb, [isback]), "two": ([read, back], rb + bb, [isread, isback])}[k]
  return (Command(actions=a, generate_tag_request_action=False), b,
          lambda m: len(m.actions) == len(f) and c.both(*[g(x) for g, x in zip(f, m.actions)]))


def flag(c, v, bit): return c.ite(v, 1 << bit, 0)


def atp_control(c, n, ack=True):
  names = ["is_dialog_start", "has_tl", "has_te", "is_ack_requested", "is_ack_not_void", "is_ack_record_requested", "has_agc"]
  bits = [7, 5, 4, 3, 2, 1, 0]
  v = [c.bool(n + "." + x) if ack or x not in ("is_ack_not_void", "is_ack_record_requested") else False for x in names]
  b = 0
  for x, k in zip(v, bits): b = b + flag(c, x, k)
  return Spec(AtpControl(**dict(zip(names, v))), [b], lambda p: c.both(*[c.eq(getattr(p, x), y) for x, y in zip(names, v)])), dict(zip(names, v))


def atp(c, n):
  ctrl, has = atp_control(c, n + ".control", ack=False)
  dialog, trans = c.byte(n + ".dialog_id"), c.byte(n + ".transaction_id")
  b = ctrl.bytes + [dialog, trans]
  k, parts = {}, []
  agc = None
  if has["has_agc"]:
    agc = c.int(n + ".agc", 0, 31)
    b, k["agc_rx_level_i"] = b + [agc], agc
  for name, on in (("tl", has["has_tl"]), ("te", has["has_te"]), ("tc", c.both(has["is_ack_requested"], has["is_dialog_start"]))):
    if on:
      t = gen.ct(c, n + "." + name)
      b, k[name] = b + t.bytes, t.obj
      parts.append((name, t))
    else: parts.append((name, None))
  cmd, body, same = alp(c, n)
  o = AtpFrame(ctrl.obj, dialog, trans, cmd, **k)

  def match(p):
    return c.both(ctrl.match(p.control), p.dialog_id == dialog, p.transaction_id == trans, p.agc_rx_level_i == (10 if agc is None else agc),
                  same(p.alp_command), p.ack_template is None,
                  *[getattr(p, x) is None if t is None else t.match(getattr(p, x)) for x, t in parts])

  return Spec(o, b + body, match)


def anp_control(c, n, plain=False):
  no = c.bool(n + ".no_origin_access_id")
  hop = False if plain else c.bool(n + ".has_hopping")
  nls = NlsMethod.NONE if plain else c.enum(n + ".nls", NlsMethod)
  if plain and not no: t = c.choice(n + ".origin_id_type", [IdType.VID, IdType.UID])
  else: t = c.choice(n + ".id_type", [IdType.NBID, IdType.NOID, IdType.UID, IdType.VID])
  b = flag(c, no, 7) + flag(c, hop, 6) + TYPE[t] * 16 + nls.value
  o = AnpControl(has_no_origin_access_id=no, has_hopping=hop, nls_method=nls, origin_id_type=t)
  return Spec(o, [b], lambda p: c.both(c.eq(p.has_no_origin_access_id, no), c.eq(p.has_hopping, hop), p.origin_id_type == t, p.nls_method == nls)), no, t


def anp(c, n, inner=None):
  ctrl, no, t = anp_control(c, n + ".control", plain=True)
  ac = c.byte(n + ".access_class")
  i = [] if no else c.bytes(n + ".origin", 2 if t == IdType.VID else 8)
  f = inner if inner is not None else atp(c, n + ".atp")
  return Spec(AnpFrame(ctrl.obj, ac, list(i), f.obj), ctrl.bytes + [ac] + i + f.bytes,
              lambda p: c.both(ctrl.match(p.control), p.origin_access_class == ac, c.eq(list(p.origin_access_id), i), f.match(p.d7atp_frame)))


def small_atp(c, n):
  """a transport frame with few variants"""
  dialog, trans, t = c.byte(n + ".dialog_id"), c.byte(n + ".transaction_id"), gen.ct(c, n + ".tl")
  i = c.byte(n + ".file")
  ctrl = AtpControl(is_dialog_start=True, has_tl=True, has_te=False, is_ack_requested=False, is_ack_not_void=False, is_ack_record_requested=False, has_agc=False)
  cmd = Command(actions=[RegularAction(operation=ReadFileData(operand=DataRequest(length=8, offset=Offset(id=i, offset=Length(0)))))],
                generate_tag_request_action=False)
  return Spec(AtpFrame(ctrl, dialog, trans, cmd, tl=t.obj), [0xA0, dialog, trans] + t.bytes + [1, i, 0, 8],
              lambda p: c.both(p.dialog_id == dialog, p.transaction_id == trans, t.match(p.tl), p.te is None, p.tc is None,
                               len(p.alp_command.actions) == 1, p.alp_command.actions[0].operation.operand.offset.id == i))
