# Every kind of object of the library: how to make any of them (with its reference bytes), and how its bytes are parsed.
from harness import c12, c18, gen, net_frames
from harness.lib import Spec, stream
from harness.gen import *
from d7a.alp.parser import Parser as AlpParser
from d7a.d7anp.control import Control as AnpControl
from d7a.d7anp.frame import Frame as AnpFrame
from d7a.d7atp.frame import Frame as AtpFrame
from d7a.dll.background_frame import BackgroundFrame
from d7a.dll.foreground_frame import ForegroundFrame
from d7a.dll.foreground_frame_control import ForegroundFrameControl
from d7a.system_files.access_profile import AccessProfileFile
from d7a.system_files.dll_config import DllConfigFile
from d7a.system_files.dll_status import DllStatusFile
from d7a.system_files.engineering_mode import EngineeringModeFile
from d7a.system_files.factory_settings import FactorySettingsFile
from d7a.system_files.firmware_version import FirmwareVersionFile
from d7a.system_files.interface_configuration import InterfaceConfigurationFile
from d7a.system_files.phy_status import PhyStatusFile
from d7a.system_files.root_authentication_key import RootAuthenticationKeyFile
from d7a.system_files.security_key import SecurityKeyFile
from d7a.system_files.uid import UidFile
from d7a.system_files.vid import VidFile

FEW = [IdType.NBID, IdType.VID]


class Named(object):
  """a context whose inputs have names of their own"""
  def __init__(self, c, prefix):
    self._c, self._p = c, prefix + "."

  def __getattr__(self, n): return getattr(self._c, n)
  def int(self, name, lo, hi): return self._c.int(self._p + name, lo, hi)
  def byte(self, name): return self._c.byte(self._p + name)
  def bool(self, name): return self._c.bool(self._p + name)
  def bytes(self, name, n): return self._c.bytes(self._p + name, n)
  def choice(self, name, o): return self._c.choice(self._p + name, o)
  def pick(self, name, lo, hi): return self._c.pick(self._p + name, lo, hi)
  def enum(self, name, cls, exclude=()): return self._c.enum(self._p + name, cls, exclude)
  def str(self, name, n): return self._c.str(self._p + name, n)


def action(f): return lambda s, n: f(AlpParser().parse(s, n))


def first(cmd): return cmd.actions[0]


def few_channels(c, h):
  c.assume(c.both(h.channel_band == ChannelBand.BAND_868, h.channel_class == ChannelClass.HI_RATE))


def few_status(c, n, types=FEW):
  s = status(c, n, types)
  few_channels(c, s.obj.channel_id.channel_header)
  return s


def few_engineering(c):
  s = c12.s_engineering(c)
  few_channels(c, s.obj.channel_id.channel_header)
  return s


def few_phy(c):
  s = c12.s_phy_status(c, 2)
  for i in s.obj.channel_status_identifier: c.assume(c.both(i.channel_band == ChannelBand.BAND_868, i.channel_index < 10))
  c.assume(s.obj.channel_status_identifier[1].channel_bandwidth == Bandwidth.kHz200)
  return s


def few_foreground(c, n):
  """of one layout"""
  subnet, check, ac = c.byte(n + ".subnet"), c.int(n + ".crc", 0, 0xFFFF), c.byte(n + ".ac")
  target, origin = c.bytes(n + ".target", 2), c.bytes(n + ".origin", 2)
  i = net_frames.small_atp(c, n)
  a = AnpFrame(AnpControl(has_no_origin_access_id=False, has_hopping=False, nls_method=NlsMethod.NONE, origin_id_type=IdType.VID), ac, list(origin), i.obj)
  o = ForegroundFrame(18, subnet, ForegroundFrameControl(IdType.VID, 5), list(target), a, check)
  return Spec(o, [18, subnet, 0xC5] + target + [0x30, ac] + origin + i.bytes + be(check, 2),
              lambda p: c.both(p.subnet == subnet, p.crc16 == check, c.eq(list(p.target_address), target), c.eq(list(p.d7anp_frame.origin_access_id), origin),
                               p.d7anp_frame.origin_access_class == ac, i.match(p.d7anp_frame.d7atp_frame)))


def command(c, n):
  """a response: tag, status and data"""
  i, err, eop = c.byte(n + ".tag"), c.bool(n + ".error"), c.bool(n + ".eop")
  st = few_status(c, n + ".status", [IdType.VID])
  d = return_data(c, n + ".data", 2, 63)
  q = read_data(c, n + ".read", 63)
  tag = TagResponseAction(eop=eop, error=err, operation=TagResponse(operand=TagId(i)))
  s = StatusAction(operation=InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0xD7, interface_status=st.obj)),
                   status_operand_extension=StatusActionOperandExtensions.INTERFACE_STATUS)
  o = Command(actions=[tag, s, d.obj, q.obj], generate_tag_request_action=False)
  return Spec(o, None, lambda p: len(p.actions) == 2 and c.both(p.tag_id == i, c.eq(p.execution_completed, eop), c.eq(p.completed_with_error, err),
                                                                st.match(p.get_d7asp_interface_status()), d.match(p.actions[0]), q.match(p.actions[1])))


def request_command(c, n):
  """a command with a tag, as it is sent"""
  i, done = c.byte(n + ".tag"), c.bool(n + ".respond")
  f, w = forward(c, n + ".forward", [InterfaceType.D7ASP, InterfaceType.SERIAL], [IdType.NBID]), write_data(c, n + ".write", 2, 63)
  o = Command(actions=[f.obj, w.obj], tag_id=i, send_tag_response_when_completed=done)
  return Spec(o, [52 + c.ite(done, 128, 0), i] + f.bytes + w.bytes,
              lambda p: len(p.actions) == 2 and c.both(p.tag_id == i, c.eq(p.send_tag_response_when_completed, done), f.match(p.actions[0]), w.match(p.actions[1])))


def access_file(c, n):
  s, p = c.pick(n + ".specifier", 0, 2), access_profile(c, n + ".profile", 2)
  return Spec(AccessProfileFile(s, p.obj), p.bytes, lambda q: p.match(q.access_profile))


def interface_file(c, n):
  i = interface(c, n + ".interface", [InterfaceType.D7ASP, InterfaceType.LORAWAN_ABP, InterfaceType.LORAWAN_OTAA], FEW)
  return Spec(InterfaceConfigurationFile(i.obj), i.bytes, lambda p: i.match(p.interface_configuration))


def header_file(c, n): return header_operand(c, n)


def named(f): return lambda c, n: f(Named(c, n))


def plain(parse): return lambda s, n: parse(s)


def status_action(c, n):
  st = few_status(c, n, [IdType.VID])
  o = StatusAction(operation=InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0xD7, interface_status=st.obj)),
                   status_operand_extension=StatusActionOperandExtensions.INTERFACE_STATUS)
  return Spec(o, None, lambda p: c.both(p.operand.interface_id == 0xD7, st.match(p.operand.interface_status)))


KINDS = [
  ("ct", ct, plain(CT.parse)),
  ("addressee", lambda c, n: addressee(c, n, FEW), plain(Addressee.parse)),
  ("qos", qos, plain(QoS.parse)),
  ("configuration", lambda c, n: configuration(c, n, FEW), plain(Configuration.parse)),
  ("permissions", permissions, plain(FilePermissions.parse)),
  ("properties", properties, plain(FileProperties.parse)),
  ("header", header, plain(FileHeader.parse)),
  ("header operand", header_operand, plain(FileHeaderOperand.parse)),
  ("channel header", channel_header, plain(ChannelHeader.parse)),
  ("channel id", channel_id, plain(ChannelID.parse)),
  ("channel status", channel_status, plain(ChannelStatusIdentifier.parse)),
  ("subband", subband, plain(SubBand.parse)),
  ("subprofile", subprofile, plain(SubProfile.parse)),
  ("access profile", lambda c, n: access_profile(c, n, 2), None),
  ("offset", lambda c, n: offset(c, n), plain(Offset.parse)),
  ("data", lambda c, n: data(c, n, 3, 1 << 14), None),
  ("request", lambda c, n: request(c, n, 1 << 14), None),
  ("query", lambda c, n: query(c, n, 2, 1 << 14), plain(QueryOperand.parse)),
  ("abp", abp, plain(LoRaWANInterfaceConfigurationABP.parse)),
  ("otaa", otaa, plain(LoRaWANInterfaceConfigurationOTAA.parse)),
  ("interface", lambda c, n: interface(c, n, types=FEW), None),
  ("indirect", lambda c, n: indirect(c, n, True, FEW), None),
  ("status", few_status, plain(Status.parse)),
  ("status action", status_action, None),
  ("read action", lambda c, n: read_data(c, n, 63), action(first)),
  ("write action", lambda c, n: write_data(c, n, 2, 63), action(first)),
  ("return action", lambda c, n: return_data(c, n, 2, 63), action(first)),
  ("query action", lambda c, n: break_query(c, n, 1, 63), action(first)),
  ("create action", create_file, action(first)),
  ("header action", return_header, action(first)),
  ("forward action", lambda c, n: forward(c, n, types=FEW), action(first)),
  ("indirect action", lambda c, n: indirect_forward(c, n, FEW), action(first)),
  ("response", command, None),
  ("command", request_command, None),
  ("uid file", named(c12.s_uid), plain(UidFile.parse)),
  ("vid file", named(c12.s_vid), plain(VidFile.parse)),
  ("dll config file", named(c12.s_dll_config), plain(DllConfigFile.parse)),
  ("dll status file", named(c12.s_dll_status), plain(DllStatusFile.parse)),
  ("engineering file", named(few_engineering), plain(EngineeringModeFile.parse)),
  ("factory file", named(c12.s_factory), plain(FactorySettingsFile.parse)),
  ("firmware file", named(lambda c: c12.s_firmware(c, 6, 7, 33, 126)), plain(FirmwareVersionFile.parse)),
  ("phy status file", named(few_phy), plain(PhyStatusFile.parse)),
  ("key file", named(lambda c: c12.s_key(c, SecurityKeyFile, 0)), plain(SecurityKeyFile.parse)),
  ("root key file", named(lambda c: c12.s_key(c, RootAuthenticationKeyFile, 24)), plain(RootAuthenticationKeyFile.parse)),
  ("access file", access_file, None),
  ("interface file", interface_file, None),
  ("transport frame", net_frames.small_atp, AtpFrame.parse),
  ("network frame", lambda c, n: net_frames.anp(c, n, net_frames.small_atp(c, n + ".atp")), AnpFrame.parse),
  ("foreground frame", few_foreground, plain(ForegroundFrame.parse)),
  ("background frame", c18.background, plain(BackgroundFrame.parse)),
]

NAMES = [k[0] for k in KINDS]


def kind(name): return [k for k in KINDS if k[0] == name][0]
