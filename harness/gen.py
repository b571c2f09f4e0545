# Builds arbitrary valid objects together with their reference bytes (written from the documented
# layouts, independently of the serialising code).
from harness.lib import Spec, be, sint8
from d7a.types.ct import CT
from d7a.d7anp.addressee import Addressee, IdType, NlsMethod
from d7a.sp.qos import QoS, ResponseMode, RetryMode
from d7a.sp.configuration import Configuration
from d7a.fs.file_permissions import FilePermissions
from d7a.fs.file_properties import FileProperties, ActionCondition, StorageClass
from d7a.fs.file_header import FileHeader
from d7a.alp.operands.file_header import FileHeaderOperand
from d7a.phy.channel_header import ChannelHeader, ChannelBand, ChannelClass, ChannelCoding
from d7a.phy.channel_id import ChannelID
from d7a.phy.channel_status_identifier import ChannelStatusIdentifier, Bandwidth
from d7a.phy.subband import SubBand
from d7a.dll.sub_profile import SubProfile
from d7a.dll.access_profile import AccessProfile
from d7a.alp.interface import InterfaceType
from d7a.alp.operands.length import Length
from d7a.alp.operands.offset import Offset
from d7a.alp.operands.file import Data, DataRequest, FileIdOperand
from d7a.alp.operands.query import QueryOperand, QueryType, ArithComparisonType, ArithQueryParams
from d7a.alp.operands.tag_id import TagId
from d7a.alp.operands.lorawan_interface_configuration_abp import LoRaWANInterfaceConfigurationABP
from d7a.alp.operands.lorawan_interface_configuration_otaa import LoRaWANInterfaceConfigurationOTAA
from d7a.alp.operands.interface_configuration import InterfaceConfiguration
from d7a.alp.operands.indirect_interface_operand import IndirectInterfaceOperand
from d7a.alp.operands.interface_status import InterfaceStatusOperand
from d7a.sp.status import Status
from d7a.alp.regular_action import RegularAction
from d7a.alp.forward_action import ForwardAction
from d7a.alp.indirect_forward_action import IndirectForwardAction
from d7a.alp.status_action import StatusAction, StatusActionOperandExtensions
from d7a.alp.tag_request_action import TagRequestAction
from d7a.alp.tag_response_action import TagResponseAction
from d7a.alp.operations.requests import ReadFileData, ReadFileHeader
from d7a.alp.operations.responses import ReturnFileData, ReturnFileHeader
from d7a.alp.operations.write_operations import WriteFileData, WriteFileHeader
from d7a.alp.operations.break_query import BreakQuery
from d7a.alp.operations.file_management import CreateNewFile
from d7a.alp.operations.forward import Forward
from d7a.alp.operations.indirect_forward import IndirectForward
from d7a.alp.operations.status import InterfaceStatus
from d7a.alp.operations.tag_request import TagRequest
from d7a.alp.operations.tag_response import TagResponse
from d7a.alp.operations.nop import NoOperation
from d7a.alp.command import Command


def both(c, xs):
  return c.both(*xs)


def ct(c, n):
  exp, mant = c.int(n + ".exp", 0, 7), c.int(n + ".mant", 0, 31)
  return Spec(CT(exp, mant), [exp * 32 + mant], lambda p: c.both(p.exp == exp, p.mant == mant))


ID_TYPES = [IdType.NOID, IdType.NBID, IdType.VID, IdType.UID]


def addressee(c, n, types=ID_TYPES):
  t = c.choice(n + ".id_type", types)
  nls = c.enum(n + ".nls", NlsMethod)
  ac = c.byte(n + ".ac")
  inner = None
  if t == IdType.NBID:
    inner = ct(c, n + ".nbid")
    i, tail = inner.obj, inner.bytes
  elif t == IdType.VID:
    i = c.int(n + ".vid", 0, 0xFFFF)
    tail = be(i, 2)
  elif t == IdType.UID:
    i = c.int(n + ".uid", 0, (1 << 64) - 1)
    tail = be(i, 8)
  else:
    i, tail = None, []
  o = Addressee(access_class=ac, id_type=t, id=i, nls_method=nls)

  def match(p):
    if t == IdType.NOID: ok = p.id is None
    elif t == IdType.NBID:
      if not isinstance(p.id, CT): return False
      ok = inner.match(p.id)
    else: ok = p.id == i
    return c.both(p.id_type == t, p.nls_method == nls, p.access_class == ac, ok)

  return Spec(o, [{IdType.NBID: 0, IdType.NOID: 1, IdType.UID: 2, IdType.VID: 3}[t] * 16 + nls.value, ac] + tail, match)


def qos(c, n):
  mode = c.enum(n + ".resp_mod", ResponseMode)
  retry = c.enum(n + ".retry_mod", RetryMode)
  stop, record = c.bool(n + ".stop_on_err"), c.bool(n + ".record")
  o = QoS(resp_mod=mode, retry_mod=retry, stop_on_err=stop, record=record)
  b = c.ite(stop, 0x80, 0) + c.ite(record, 0x40, 0) + retry.value * 8 + mode.value
  return Spec(o, [b], lambda p: c.both(p.resp_mod == mode, p.retry_mod == retry, p.stop_on_err == stop, p.record == record))


def configuration(c, n, types=ID_TYPES):
  q, d, a = qos(c, n + ".qos"), ct(c, n + ".dorm_to"), addressee(c, n + ".addressee", types)
  o = Configuration(qos=q.obj, dorm_to=d.obj, addressee=a.obj)
  return Spec(o, q.bytes + d.bytes + a.bytes, lambda p: c.both(q.match(p.qos), d.match(p.dorm_to), a.match(p.addressee)))


def permissions(c, n):
  names = ["encrypted", "executeable", "user_readable", "user_writeable", "user_executeable", "guest_readable", "guest_writeable",
           "guest_executeable"]
  v = [c.bool(n + "." + x) for x in names]
  o = FilePermissions(**dict(zip(names, v)))
  b = 0
  for k in range(8): b = b + c.ite(v[k], 1 << (7 - k), 0)

  def match(p):
    w = [p.encrypted, p.executable, p.user_readable, p.user_writeable, p.user_executeable, p.guest_readable, p.guest_writeable,
         p.guest_executeable]
    return c.both(*[c.eq(x, y) for x, y in zip(v, w)])

  return Spec(o, [b], match)


def properties(c, n):
  on = c.bool(n + ".act_enabled")
  cond = c.enum(n + ".act_condition", ActionCondition)
  store = c.enum(n + ".storage_class", StorageClass)
  o = FileProperties(on, cond, store)
  return Spec(o, [c.ite(on, 0x80, 0) + cond.value * 16 + store.value],
              lambda p: c.both(c.eq(p.act_enabled, on), p.act_condition == cond, p.storage_class == store))


def header(c, n):
  perm, prop = permissions(c, n + ".permissions"), properties(c, n + ".properties")
  alp, itf = c.byte(n + ".alp_command_file_id"), c.byte(n + ".interface_file_id")
  size, room = c.int(n + ".file_size", 0, 0xFFFFFFFF), c.int(n + ".allocated_size", 0, 0xFFFFFFFF)
  o = FileHeader(perm.obj, prop.obj, alp, itf, size, room)
  return Spec(o, perm.bytes + prop.bytes + [alp, itf] + be(size, 4) + be(room, 4),
              lambda p: c.both(perm.match(p.permissions), prop.match(p.properties), p.alp_command_file_id == alp,
                               p.interface_file_id == itf, p.file_size == size, p.allocated_size == room))


def header_operand(c, n):
  i = c.byte(n + ".file_id")
  h = header(c, n + ".header")
  return Spec(FileHeaderOperand(file_id=i, file_header=h.obj), [i] + h.bytes,
              lambda p: c.both(p.file_id == i, h.match(p.file_header)))


def channel_header(c, n, bands=None, codings=None):
  band = c.enum(n + ".band", ChannelBand) if bands is None else c.choice(n + ".band", bands)
  cls = c.enum(n + ".class", ChannelClass)
  coding = c.enum(n + ".coding", ChannelCoding) if codings is None else c.choice(n + ".coding", codings)
  o = ChannelHeader(channel_coding=coding, channel_class=cls, channel_band=band)
  return Spec(o, [band.value * 16 + cls.value * 4 + coding.value],
              lambda p: c.both(p.channel_band == band, p.channel_class == cls, p.channel_coding == coding))


def channel_id(c, n):
  h = channel_header(c, n + ".header")
  i = c.int(n + ".index", 0, 0xFFFF)
  return Spec(ChannelID(h.obj, i), h.bytes + be(i, 2), lambda p: c.both(h.match(p.channel_header), p.channel_index == i))


def channel_status(c, n):
  band = c.enum(n + ".band", ChannelBand)
  wide = c.enum(n + ".bandwidth", Bandwidth)
  i = c.int(n + ".index", 0, 1039)
  o = ChannelStatusIdentifier(channel_band=band, channel_bandwidth=wide, channel_index=i)
  return Spec(o, be(band.value * 8192 + wide.value * 4096 + i, 2),
              lambda p: c.both(p.channel_band == band, p.channel_bandwidth == wide, p.channel_index == i))


def subband(c, n):
  a, b = c.int(n + ".start", 0, 0xFFFF), c.int(n + ".end", 0, 0xFFFF)
  e, cca, duty = c.int(n + ".eirp", -128, 127), c.byte(n + ".cca"), c.byte(n + ".duty")
  o = SubBand(channel_index_start=a, channel_index_end=b, eirp=e, cca=cca, duty=duty)
  return Spec(o, be(a, 2) + be(b, 2) + [sint8(e), cca, duty],
              lambda p: c.both(p.channel_index_start == a, p.channel_index_end == b, p.eirp == e, p.cca == cca, p.duty == duty))


def subprofile(c, n):
  m = c.byte(n + ".bitmap")
  t = ct(c, n + ".period")
  return Spec(SubProfile(subband_bitmap=m, scan_automation_period=t.obj), [m] + t.bytes,
              lambda p: c.both(p.subband_bitmap == m, t.match(p.scan_automation_period)))


def access_profile(c, n, bands=8):
  h = channel_header(c, n + ".header")
  sp = [subprofile(c, "%s.sub_profiles[%d]" % (n, k)) for k in range(4)]
  sb = [subband(c, "%s.sub_bands[%d]" % (n, k)) for k in range(bands)]
  o = AccessProfile(channel_header=h.obj, sub_profiles=[x.obj for x in sp], sub_bands=[x.obj for x in sb])

  def match(p):
    if len(p.sub_profiles) != 4 or len(p.sub_bands) != bands: return False
    return c.both(h.match(p.channel_header), *([x.match(y) for x, y in zip(sp, p.sub_profiles)] +
                                               [x.match(y) for x, y in zip(sb, p.sub_bands)]))

  b = list(h.bytes)
  for x in sp + sb: b += x.bytes
  return Spec(o, b, match)


def varlen(v):
  """reference length encoding of a symbolic value: a list of bytes (decides the size)"""
  if v < 1 << 6: n = 1
  elif v < 1 << 14: n = 2
  elif v < 1 << 22: n = 3
  else: n = 4
  return be(v + ((n - 1) << (8 * n - 2)), n)


TOP = (1 << 30) - 1


def offset(c, n, top=TOP, ids=(0, 255)):
  i, v = c.int(n + ".id", ids[0], ids[1]), c.int(n + ".offset", 0, top)
  return Spec(Offset(id=i, offset=Length(v)), [i] + varlen(v), lambda p: c.both(p.id == i, p.offset.value == v))


def data(c, n, size, top=TOP, ids=(0, 255)):
  o = offset(c, n + ".offset", top, ids)
  d = c.bytes(n + ".data", size)
  return Spec(Data(data=list(d), offset=o.obj), o.bytes + varlen(size) + d,
              lambda p: c.both(o.match(p.offset), p.length.value == size, len(p) == size, c.eq(list(p.data), d)))


def request(c, n, top=TOP):
  o = offset(c, n + ".offset", top)
  v = c.int(n + ".length", 0, top)
  return Spec(DataRequest(length=v, offset=o.obj), o.bytes + varlen(v), lambda p: c.both(o.match(p.offset), p.length.value == v))


def query(c, n, size, top=TOP):
  signed, cmp = c.bool(n + ".signed"), c.enum(n + ".comp", ArithComparisonType)
  v = c.bytes(n + ".value", size)
  o = offset(c, n + ".offset", top)
  q = QueryOperand(type=QueryType.ARITH_COMP_WITH_VALUE, mask_present=False, params=ArithQueryParams(signed, cmp),
                   compare_length=Length(size), compare_value=list(v), file_a_offset=o.obj)
  return Spec(q, [0x40 + c.ite(signed, 8, 0) + cmp.value] + varlen(size) + v + o.bytes,
              lambda p: c.both(p.type == QueryType.ARITH_COMP_WITH_VALUE, c.eq(p.mask_present, False), p.params.comp_type == cmp,
                               c.eq(p.params.signed_data_type, signed), p.compare_length.value == size,
                               c.eq(list(p.compare_value), v), o.match(p.file_a_offset)))


def tag(c, n):
  i = c.byte(n + ".tag")
  return Spec(TagId(tag_id=i), [i], lambda p: p.tag_id == i)


def abp(c, n):
  adr, ack = c.bool(n + ".adr"), c.bool(n + ".ack")
  port, rate = c.byte(n + ".port"), c.byte(n + ".rate")
  dev, net = c.int(n + ".dev_addr", 0, 0xFFFFFFFF), c.int(n + ".netw_id", 0, 0xFFFFFFFF)
  o = LoRaWANInterfaceConfigurationABP(adr_enabled=adr, request_ack=ack, app_port=port, data_rate=rate, dev_addr=dev, netw_id=net)
  return Spec(o, [c.ite(adr, 4, 0) + c.ite(ack, 2, 0), port, rate] + be(dev, 4) + be(net, 4),
              lambda p: isinstance(p, LoRaWANInterfaceConfigurationABP) and
              c.both(c.eq(p.adr_enabled, adr), c.eq(p.request_ack, ack), p.app_port == port, p.data_rate == rate, p.dev_addr == dev,
                     p.netw_id == net))


def otaa(c, n):
  adr, ack = c.bool(n + ".adr"), c.bool(n + ".ack")
  port, rate = c.byte(n + ".port"), c.byte(n + ".rate")
  o = LoRaWANInterfaceConfigurationOTAA(adr_enabled=adr, request_ack=ack, app_port=port, data_rate=rate)
  return Spec(o, [c.ite(adr, 4, 0) + c.ite(ack, 2, 0), port, rate],
              lambda p: isinstance(p, LoRaWANInterfaceConfigurationOTAA) and
              c.both(c.eq(p.adr_enabled, adr), c.eq(p.request_ack, ack), p.app_port == port, p.data_rate == rate))


FORWARDS = [InterfaceType.SERIAL, InterfaceType.LORAWAN_ABP, InterfaceType.LORAWAN_OTAA, InterfaceType.D7ASP]


def interface(c, n, kinds=FORWARDS, types=ID_TYPES):
  """an interface and its configuration"""
  k = c.choice(n + ".kind", kinds)
  inner = None
  if k == InterfaceType.LORAWAN_ABP: inner = abp(c, n + ".abp")
  elif k == InterfaceType.LORAWAN_OTAA: inner = otaa(c, n + ".otaa")
  elif k == InterfaceType.D7ASP: inner = configuration(c, n + ".d7asp", types)
  o = InterfaceConfiguration(interface_id=k, interface_configuration=inner.obj if inner else None)

  def match(p):
    if p.interface_id != k: return False
    if inner is None: return p.interface_configuration is None
    return inner.match(p.interface_configuration)

  s = Spec(o, [k.value] + (inner.bytes if inner else []), match)
  s.kind = k
  s.inner = inner
  return s


def indirect(c, n, overload, types=ID_TYPES):
  i = c.byte(n + ".interface_file_id")
  a = addressee(c, n + ".overload", types) if overload else None
  o = IndirectInterfaceOperand(interface_file_id=i, interface_configuration_overload=a.obj if a else None)

  def match(p):
    if a is None: return c.both(p.interface_file_id == i, p.interface_configuration_overload is None)
    return c.both(p.interface_file_id == i, a.match(p.interface_configuration_overload))

  return Spec(o, [i] + (a.bytes if a else []), match)


def status(c, n, types=ID_TYPES):
  ch = channel_id(c, n + ".channel_id")
  rx, lb, target = c.byte(n + ".rx_level"), c.byte(n + ".link_budget"), c.byte(n + ".target_rx_level")
  nls, missed, retry, unicast = c.bool(n + ".nls"), c.bool(n + ".missed"), c.bool(n + ".retry"), c.bool(n + ".unicast")
  fifo, seq = c.byte(n + ".fifo_token"), c.byte(n + ".seq_nr")
  to = ct(c, n + ".response_to")
  a = addressee(c, n + ".addressee", types)
  o = Status(channel_id=ch.obj, rx_level=rx, link_budget=lb, target_rx_level=target, nls=nls, missed=missed, retry=retry,
             unicast=unicast, fifo_token=fifo, seq_nr=seq, response_to=to.obj, addressee=a.obj)
  flags = c.ite(nls, 128, 0) + c.ite(missed, 64, 0) + c.ite(retry, 32, 0) + c.ite(unicast, 16, 0)
  return Spec(o, ch.bytes + [rx, lb, target, flags, fifo, seq] + to.bytes + a.bytes,
              lambda p: c.both(ch.match(p.channel_id), p.rx_level == rx, p.link_budget == lb, p.target_rx_level == target,
                               c.eq(p.nls, nls), c.eq(p.missed, missed), c.eq(p.retry, retry), c.eq(p.unicast, unicast),
                               p.fifo_token == fifo, p.seq_nr == seq, to.match(p.response_to), a.match(p.addressee)))


# ---------------------------------------------------------------- actions
class Act(object):
  """an action, its bytes, and what the parsed action must look like"""
  def __init__(self, obj, bytes, match, op):
    self.obj, self.bytes, self.match, self.op = obj, bytes, match, op


def regular(c, n, make, code, operand):
  group, resp = c.bool(n + ".group"), c.bool(n + ".resp")
  o = RegularAction(group=group, resp=resp, operation=make(operand=operand.obj))

  def match(p):
    if not isinstance(p, RegularAction) or not isinstance(p.operation, make): return False
    return c.both(p.op == code, c.eq(p.group, group), c.eq(p.resp, resp), operand.match(p.operand), operand.match(p.operation.operand))

  return Act(o, [c.ite(group, 128, 0) + c.ite(resp, 64, 0) + code] + operand.bytes, match, code)


def read_data(c, n, top=TOP): return regular(c, n, ReadFileData, 1, request(c, n, top))


def write_data(c, n, size, top=TOP): return regular(c, n, WriteFileData, 4, data(c, n, size, top))


def return_data(c, n, size, top=TOP, ids=(0x40, 255)): return regular(c, n, ReturnFileData, 32, data(c, n, size, top, ids))


def break_query(c, n, size, top=TOP): return regular(c, n, BreakQuery, 9, query(c, n, size, top))


def create_file(c, n): return regular(c, n, CreateNewFile, 17, header_operand(c, n))


def return_header(c, n): return regular(c, n, ReturnFileHeader, 33, header_operand(c, n))


def forward(c, n, kinds=FORWARDS, types=ID_TYPES):
  resp = c.bool(n + ".resp")
  i = interface(c, n, kinds, types)
  o = ForwardAction(resp=resp, operation=Forward(operand=i.obj))

  def match(p):
    if not isinstance(p, ForwardAction) or not isinstance(p.operation, Forward): return False
    return c.both(p.op == 50, c.eq(p.resp, resp), i.match(p.operand))

  return Act(o, [c.ite(resp, 64, 0) + 50] + i.bytes, match, 50)


def indirect_forward(c, n, types=ID_TYPES):
  overload = c.choice(n + ".overload", [False, True])
  resp = c.bool(n + ".resp")
  i = indirect(c, n, overload, types)
  o = IndirectForwardAction(overload=overload, resp=resp, operation=IndirectForward(operand=i.obj))

  def match(p):
    if not isinstance(p, IndirectForwardAction) or not isinstance(p.operation, IndirectForward): return False
    return c.both(p.op == 51, c.eq(p.resp, resp), c.eq(p.overload, overload), i.match(p.operand))

  return Act(o, [(128 if overload else 0) + c.ite(resp, 64, 0) + 51] + i.bytes, match, 51)
