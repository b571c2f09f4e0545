"""Every system file type with arbitrary field values: 64-bit UIDs, 128-bit keys, 32-bit rates and counters, signed gains, texts of every length 0..7
with printable characters (thorough: any ASCII), channel lists of 0..3 (thorough 0..8) entries; every image of each fixed size file (firmware texts ASCII,
enumerations in range or refused); every truncation; every entry of the table of system files."""
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.system_files.system_files import SystemFiles
from d7a.system_files.system_file_ids import SystemFileIds
from d7a.system_files.uid import UidFile
from d7a.system_files.vid import VidFile
from d7a.system_files.dll_config import DllConfigFile
from d7a.system_files.dll_status import DllStatusFile
from d7a.system_files.engineering_mode import EngineeringModeFile, EngineeringModeMode
from d7a.system_files.factory_settings import FactorySettingsFile
from d7a.system_files.firmware_version import FirmwareVersionFile
from d7a.system_files.phy_status import PhyStatusFile
from d7a.system_files.security_key import SecurityKeyFile
from d7a.system_files.root_authentication_key import RootAuthenticationKeyFile
from d7a.system_files.user_authentication_key import UserAuthenticationKeyFile
from d7a.system_files.access_profile import AccessProfileFile
from d7a.system_files.interface_configuration import InterfaceConfigurationFile
from d7a.system_files.not_implemented import NotImplementedFile

U32 = 0xFFFFFFFF


def whole(c, spec, parse, id, consumes=True):
  p = codec(c, spec, parse, consumes=consumes)
  c.check(c.both(spec.obj.id == id, p.id == id), "file id")
  c.check(c.both(spec.obj.length == len(spec.bytes), p.length == len(spec.bytes)), "file length")
  return p


def s_uid(c):
  v = c.int("uid", 0, (1 << 64) - 1)
  return Spec(UidFile(v), be(v, 8), lambda p: p.uid == v)


def s_vid(c):
  v, k = c.int("vid", 0, 0xFFFF), c.byte("control")
  return Spec(VidFile(v, k), be(v, 2) + [k], lambda p: c.both(p.vid == v, p.control == k))


def s_dll_config(c):
  names = ["active_access_class", "lq_filter", "nf_ctrl", "rx_nf_method_parameter", "tx_nf_method_parameter"]
  v = [c.byte(n) for n in names]
  return Spec(DllConfigFile(**dict(zip(names, v))), [v[0], 0, 0] + v[1:], lambda p: c.both(*[getattr(p, n) == x for n, x in zip(names, v)]))


def s_dll_status(c):
  a, b, n = c.byte("level"), c.byte("budget"), c.byte("noise")
  h = gen.channel_header(c, "h")
  i, r = c.int("index", 0, 0xFFFF), c.int("ratio", 0, 0xFFFF)
  s, t = c.int("scans", 0, U32), c.int("timeouts", 0, U32)
  o = DllStatusFile(last_rx_packet_level=a, last_rx_packet_link_budget=b, noise_floor=n, channel_header=h.obj, channel_index=i,
                    scan_timeout_ratio=r, scan_count=s, scan_timeout_count=t)
  return Spec(o, [a, b, n] + h.bytes + be(i, 2) + be(r, 2) + be(s, 4) + be(t, 4),
              lambda p: c.both(p.last_rx_packet_level == a, p.last_rx_packet_link_budget == b, p.noise_floor == n, h.match(p.channel_header),
                               p.channel_index == i, p.scan_timeout_ratio == r, p.scan_count == s, p.scan_timeout_count == t))


def s_engineering(c):
  m, f, t = c.enum("mode", EngineeringModeMode), c.byte("flags"), c.byte("timeout")
  ch, e = gen.channel_id(c, "ch"), c.int("eirp", -128, 127)
  o = EngineeringModeFile(mode=m, flags=f, timeout=t, channel_id=ch.obj, eirp=e)
  return Spec(o, [m.value, f, t] + ch.bytes + [sint8(e), 0, 0],
              lambda p: c.both(p.mode == m, p.flags == f, p.timeout == t, ch.match(p.channel_id), p.eirp == e))


def engineering_mode_text(c):
  m = c.choice("mode", list(EngineeringModeMode))
  c.check(EngineeringModeMode.from_string(str(m)) == m, "the text of a mode reads back")


WORDS = ["rx_bw_low_rate", "rx_bw_normal_rate", "rx_bw_high_rate", "bitrate_lo_rate", "fdev_lo_rate", "bitrate_normal_rate", "fdev_normal_rate",
         "bitrate_hi_rate", "fdev_hi_rate"]
BYTES = ["preamble_size_lo_rate", "preamble_size_normal_rate", "preamble_size_hi_rate", "preamble_detector_size_lo_rate",
         "preamble_detector_size_normal_rate", "preamble_detector_size_hi_rate", "preamble_tol_lo_rate", "preamble_tol_normal_rate", "preamble_tol_hi_rate"]


def factory_args(c):
  return dict([("gain", c.int("gain", -128, 127)), ("rssi_offset", c.int("rssi_offset", -126, 125)), ("lora_bw", c.int("lora_bw", 0, U32)),
               ("lora_SF", c.int("lora_SF", 6, 12)), ("gaussian", c.int("gaussian", 0, 3)), ("paramp", c.int("paramp", 0, 0xFFFF))] +
              [(n, c.int(n, 0, U32)) for n in WORDS] + [(n, c.byte(n)) for n in BYTES])


def factory_bytes(v, smoothing):
  b = [sint8(v["gain"])]
  for n in WORDS: b += be(v[n], 4)
  b += [v[n] for n in BYTES]
  return b + [smoothing, sint8(v["rssi_offset"])] + be(v["lora_bw"], 4) + [v["lora_SF"], v["gaussian"]] + be(v["paramp"], 2)


def s_factory(c):
  v = factory_args(c)
  k = c.pick("log_samples", 1, 8)
  o = FactorySettingsFile(rssi_smoothing=1 << k, **v)
  return Spec(o, factory_bytes(v, k - 1), lambda p: c.both(p.rssi_smoothing == k - 1, *[getattr(p, n) == v[n] for n in v]))


def factory_samples(c):
  """the number of samples is kept as the power of two that reaches it"""
  n = c.pick("samples", 2, 256)
  o = FactorySettingsFile(rssi_smoothing=n)
  k = raw(o)[46]
  c.check((2 << k) >= n and (1 << k) < n, "samples")
  c.check(FactorySettingsFile.parse(stream(raw(o))).rssi_smoothing == k, "read back")


def factory_image(c):
  v = factory_args(c)
  b = factory_bytes(v, c.byte("smoothing"))
  p = FactorySettingsFile.parse(stream(b))
  c.same(raw(p), b, "an image is kept as it is")
  c.check(c.both(*[getattr(p, n) == v[n] for n in v]), "fields")


def factory_defaults(c):
  c.same(raw(FactorySettingsFile())[46:48], [2, 0], "eight samples")
  c.check(FactorySettingsFile().length == 56 and len(raw(FactorySettingsFile())) == 56, "length")


def factory_range(c):
  n = c.choice("field", WORDS + BYTES + ["gain", "rssi_offset", "lora_bw", "lora_SF", "gaussian", "paramp"])
  lo, hi = {"gain": (-128, 127), "rssi_offset": (-126, 125), "lora_SF": (6, 12), "gaussian": (0, 3), "paramp": (0, 0xFFFF),
            "lora_bw": (0, U32)}.get(n, (0, 255) if n in BYTES else (0, U32))
  v = c.int("v", -1000, 1 << 33)
  rejects(c, lambda: FactorySettingsFile(**{n: v}), c.both(v >= lo, v <= hi), n)


def s_firmware(c, n, m, lo, hi):
  v = c.bytes("version", 4)
  name = [c.int("name[%d]" % k, lo, hi) for k in range(n)]
  sha = [c.int("sha[%d]" % k, lo, hi) for k in range(m)]
  o = FirmwareVersionFile(v[0], v[1], v[2], v[3], c.tostr(name), c.tostr(sha))
  full = name + [32] * (6 - n)
  full2 = sha + [32] * (7 - m)
  return Spec(o, v + full + full2,
              lambda p: c.both(p.d7a_protocol_version_major == v[0], p.d7a_protocol_version_minor == v[1], p.filesystem_version_major == v[2],
                               p.filesystem_version_minor == v[3], padded(c, p.application_name, name, 6), padded(c, p.git_sha1, sha, 7)))


def firmware(c, n, m, lo, hi):
  whole(c, s_firmware(c, n, m, lo, hi), FirmwareVersionFile.parse, 2)


def padded(c, text, codes, n):
  """the text, possibly with the padding of the file"""
  got = [ord(text[k]) for k in range(len(text))]
  if len(got) < len(codes) or len(got) > n: return False
  return c.eq(got, codes + [32] * (len(got) - len(codes)))


def firmware_range(c):
  n = c.pick("n", 5, 9)
  rejects(c, lambda: FirmwareVersionFile(application_name="x" * n), n <= 6, "name")
  rejects(c, lambda: FirmwareVersionFile(git_sha1="x" * n), n <= 7, "hash")
  v = c.int("v", -300, 600)
  f = c.choice("field", ["d7a_protocol_version_major", "d7a_protocol_version_minor", "filesystem_version_major", "filesystem_version_minor"])
  rejects(c, lambda: FirmwareVersionFile(**{f: v}), c.both(v >= 0, v <= 255), f)


def versions(c):
  """the versions as texts"""
  a, b, d, e = c.bytes("v", 4)
  f = FirmwareVersionFile(a, b, d, e, "app", "sha")
  c.check(c.eq(c.text(f.d7ap_version), c.text("{}.{}".format(a, b))), "version of the protocol")
  c.check(c.eq(c.text(f.filesystem_version), c.text("{}.{}".format(d, e))), "version of the file system")


def s_phy_status(c, n):
  up, rx, tx, duty = c.int("up", 0, U32), c.int("rx", 0, U32), c.int("tx", 0, U32), c.int("duty", 0, 1000)
  ids = [gen.channel_status(c, "id%d" % k) for k in range(n)]
  noise = c.bytes("noise", n)
  given, given_noise = [x.obj for x in ids], list(noise)
  o = PhyStatusFile(up_time=up, rx_time=rx, tx_time=tx, tx_duty_cycle=duty, channel_status_list_length=n, channel_status_identifier=given,
                    channel_noise_floor=given_noise)
  b = be(up, 4) + be(rx, 4) + be(tx, 4) + be(duty, 2) + [n]
  for k in range(n): b = b + ids[k].bytes + [noise[k]]

  def match(p):
    if len(p.channel_status_identifier) != n or len(p.channel_noise_floor) != n: return False
    return c.both(p.up_time == up, p.rx_time == rx, p.tx_time == tx, p.tx_duty_cycle == duty, p.channel_status_list_length == n,
                  c.eq(list(p.channel_noise_floor), noise), *[x.match(y) for x, y in zip(ids, p.channel_status_identifier)])

  return Spec(o, b, match)


def phy_status(c, n):
  s = s_phy_status(c, n)
  p = codec(c, s, PhyStatusFile.parse)
  c.check(p.id == 9 and p.length == s.obj.length and s.obj.id == 9, "file id and length")


def phy_status_fill(c):
  """a list shorter than announced is filled up, in this file only"""
  n = c.pick("n", 0, 3)
  k = c.pick("k", 0, n)
  mine, noise = [ChannelStatusIdentifier(ChannelBand.BAND_868, Bandwidth.kHz200, 3)] * k, [7] * k
  o = PhyStatusFile(channel_status_list_length=n, channel_status_identifier=mine, channel_noise_floor=noise)
  c.check(len(mine) == k and len(noise) == k, "the lists given are not changed")
  c.check(len(raw(o)) == 15 + 3 * n, "as many channels as announced")
  q = PhyStatusFile()
  c.check(len(q.channel_status_identifier) == 0 and len(q.channel_noise_floor) == 0, "another file has its own")
  PhyStatusFile(channel_status_list_length=2)
  c.check(len(PhyStatusFile().channel_noise_floor) == 0 and len(raw(PhyStatusFile())) == 15, "another file has its own")


def s_key(c, cls, extra):
  v = c.int("key", 0, (1 << 128) - 1)
  return Spec(cls(v), le(v, 16) + [0] * extra, lambda p: p.key == v)


def key(c, cls, id, extra):
  whole(c, s_key(c, cls, extra), cls.parse, id)


SIMPLE = [("uid", s_uid, UidFile, 0), ("vid", s_vid, VidFile, 6), ("dll_config", s_dll_config, DllConfigFile, 10),
          ("dll_status", s_dll_status, DllStatusFile, 11), ("engineering", s_engineering, EngineeringModeFile, 5),
          ("factory", s_factory, FactorySettingsFile, 1)]


def simple(c, n):
  name, spec, cls, id = SIMPLE[n]
  whole(c, spec(c), cls.parse, id, consumes=cls is not EngineeringModeFile)


def key_range(c, cls):
  v = c.int("key", -10, 1 << 130)
  rejects(c, lambda: cls(v), c.both(v >= 0, v < 1 << 128), "key")


def access(c):
  """the specifier is the file's number"""
  s = c.pick("specifier", 0, 14)
  p = gen.access_profile(c, "p")
  o = AccessProfileFile(s, p.obj)
  c.check(o.id == 0x20 + s and o.length == 65, "file id and length")
  c.same(raw(o), p.bytes, "the profile")
  st = stream(p.bytes + [1])
  q = AccessProfileFile.parse(st)
  c.check(st.pos == 8 * 65, "consumes exactly its bytes")
  c.check(p.match(q.access_profile), "reads back")


def access_range(c):
  v = c.int("specifier", -5, 300)
  rejects(c, lambda: AccessProfileFile(access_specifier=v), c.both(v >= 0, v <= 14), "specifier")
  x = c.choice("profile", [3, "x", [1], CT(), None])
  rejects(c, lambda: AccessProfileFile(0, x), x is None, "profile")


def interface(c):
  s = gen.interface(c, "i", [InterfaceType.D7ASP, InterfaceType.LORAWAN_ABP, InterfaceType.LORAWAN_OTAA])
  n = c.byte("file_id")
  o = InterfaceConfigurationFile(s.obj, n)
  c.same(raw(o), s.bytes, "interface id and configuration")
  c.check(c.both(o.id == n, o.length >= len(s.bytes)), "file id; room for the configuration")
  d = InterfaceConfigurationFile(s.obj)
  c.check(d.id == 0x1D, "default file id")


def opaque(c):
  n = c.pick("n", 0, 5)
  i = c.byte("id")
  d = c.bytes("data", n)
  o = NotImplementedFile(i, n, list(d))
  c.check(c.both(o.id == i, o.length == n), "file id and length")
  c.same(list(o), d, "its data")
  c.same(list(NotImplementedFile(i, n)), [0] * n, "zeroes when no data is given")


def table(c):
  """every system file is listed under its own id, with the length it serialises to"""
  ids = SystemFiles().get_all_system_files()
  c.check([x.value for x in ids] == sorted([x.value for x in SystemFiles().files]), "in order")
  c.check([x.value for x in ids] == range(0, 0x2F), "all files")
  x = ids[c.pick("file", 0, len(ids) - 1)]
  f = SystemFiles().files[x]
  c.check(isinstance(f.id, int) and f.id == x.value, "id")
  sizes = {0: 8, 1: 56, 2: 17, 3: 19, 4: 9, 5: 9, 6: 3, 8: 9, 10: 7, 11: 16, 12: 1, 13: 5, 14: 16, 15: 4, 16: 20, 17: 1, 18: 6, 19: 10, 23: 1, 24: 40, 25: 40}
  if x.value in sizes: c.check(f.length == sizes[x.value], "length")
  if x.value >= 0x20: c.check(f.length == 65 and f.access_specifier == x.value - 0x20, "access profile")
  elif x.value == 9: c.check(f.length >= 15, "room for the status")
  else:
    c.check(len(list(f)) == f.length, "length of the default content")
    cmd = Command.create_with_read_file_action_system_file(f)
    c.same(raw(cmd)[2:], [1, x.value, 0] + gen.varlen(f.length), "can be read by its id")
    cmd = Command.create_with_write_file_action_system_file(f)
    c.same(raw(cmd)[2:], [4, x.value, 0] + gen.varlen(f.length) + raw(f), "can be written by its id")


def ranges(c):
  v = c.int("v", -1000, 1 << 66)
  f, lo, hi = c.choice("field", [
    (lambda: UidFile(v), 0, (1 << 64) - 1), (lambda: VidFile(vid=v), 0, 0xFFFF), (lambda: VidFile(control=v), 0, 255),
    (lambda: DllConfigFile(active_access_class=v), 0, 255), (lambda: DllConfigFile(lq_filter=v), 0, 255), (lambda: DllConfigFile(nf_ctrl=v), 0, 255),
    (lambda: DllConfigFile(rx_nf_method_parameter=v), 0, 255), (lambda: DllConfigFile(tx_nf_method_parameter=v), 0, 255),
    (lambda: DllStatusFile(last_rx_packet_level=v), 0, 255), (lambda: DllStatusFile(last_rx_packet_link_budget=v), 0, 255),
    (lambda: DllStatusFile(noise_floor=v), 0, 255), (lambda: DllStatusFile(channel_index=v), 0, 0xFFFF),
    (lambda: DllStatusFile(scan_timeout_ratio=v), 0, 0xFFFF), (lambda: DllStatusFile(scan_count=v), 0, U32),
    (lambda: DllStatusFile(scan_timeout_count=v), 0, U32), (lambda: EngineeringModeFile(flags=v), 0, 255),
    (lambda: EngineeringModeFile(timeout=v), 0, 255), (lambda: EngineeringModeFile(eirp=v), -128, 127),
    (lambda: PhyStatusFile(up_time=v), 0, U32), (lambda: PhyStatusFile(rx_time=v), 0, U32), (lambda: PhyStatusFile(tx_time=v), 0, U32),
    (lambda: PhyStatusFile(tx_duty_cycle=v), 0, 1000)])
  rejects(c, f, c.both(v >= lo, v <= hi), "field")


def kinds(c):
  bad = c.choice("bad", [None, "1", [1], CT()])
  f = c.choice("field", [lambda: UidFile(bad), lambda: VidFile(vid=bad), lambda: EngineeringModeFile(mode=bad), lambda: DllStatusFile(channel_header=bad),
                         lambda: EngineeringModeFile(channel_id=bad), lambda: DllConfigFile(active_access_class=bad),
                         lambda: SecurityKeyFile(bad), lambda: PhyStatusFile(up_time=bad), lambda: PhyStatusFile(channel_status_list_length=1, channel_status_identifier=[bad])])
  rejects(c, f, False, "kind")


def short(c):
  f, n = c.choice("file", [(UidFile.parse, 8), (VidFile.parse, 3), (DllConfigFile.parse, 7), (FactorySettingsFile.parse, 56),
                           (SecurityKeyFile.parse, 16), (RootAuthenticationKeyFile.parse, 40), (UserAuthenticationKeyFile.parse, 40)])
  truncated(c, c.bytes("b", n), f, "file")


def short_structured(c):
  f, b = c.choice("file", [(DllStatusFile.parse, [1, 2, 3, 0x30] + [0] * 12), (EngineeringModeFile.parse, [1, 2, 3, 0x30, 0, 0, 5]),
                           (FirmwareVersionFile.parse, [65] * 17), (PhyStatusFile.parse, [0] * 14 + [2, 0x70, 0, 0, 0x70, 0, 0]),
                           (AccessProfileFile.parse, [0x30] + [0] * 64)])
  truncated(c, b, f, "file")


def members(c):
  codes(c, (EngineeringModeMode, "ENGINEERING_MODE_MODE_OFF=0 ENGINEERING_MODE_MODE_CONT_TX=1 ENGINEERING_MODE_MODE_TRANSIENT_TX=2 ENGINEERING_MODE_MODE_PER_RX=3 ENGINEERING_MODE_MODE_PER_TX=4"),
        (SystemFileIds, "UID=00 FACTORY_SETTINGS=01 FIRMWARE_VERSION=02 DEVICE_CAPACITY=03 DEVICE_STATUS=04 ENGINEERING_MODE=05 VID=06 RFU_07=07 PHY_CONFIG=08 PHY_STATUS=09 DLL_CONFIG=0A DLL_STATUS=0B NWL_ROUTING=0C NWL_SECURITY=0D NWL_SECURITY_KEY=0E NWL_SSR=0F NWL_STATUS=10 TRL_STATUS=11 SEL_CONFIG=12 FOF_STATUS=13 RFU_14=14 RFU_15=15 RFU_16=16 LOCATION_DATA=17 ALP_ROOT_AUTHENTICATION_KEY=18 ALP_USER_AUTHENTICATION_KEY=19 D7AALP_RFU_1A=1A D7AALP_RFU_1B=1B D7AALP_RFU_1C=1C D7AALP_RFU_1D=1D D7AALP_RFU_1E=1E D7AALP_RFU_1F=1F ACCESS_PROFILE_0=20 ACCESS_PROFILE_1=21 ACCESS_PROFILE_2=22 ACCESS_PROFILE_3=23 ACCESS_PROFILE_4=24 ACCESS_PROFILE_5=25 ACCESS_PROFILE_6=26 ACCESS_PROFILE_7=27 ACCESS_PROFILE_8=28 ACCESS_PROFILE_9=29 ACCESS_PROFILE_10=2A ACCESS_PROFILE_11=2B ACCESS_PROFILE_12=2C ACCESS_PROFILE_13=2D ACCESS_PROFILE_14=2E RFU_2F=2F"))


def instances(tier):
  deep = tier != "quick"
  r = [(f.__name__, f, ()) for f in (engineering_mode_text, factory_image, factory_samples, factory_defaults,
                                     factory_range, firmware_range, versions, phy_status_fill, access_range, interface, opaque, table, ranges, kinds, short,
                                     short_structured)]
  r += [(x[0], simple, (k,), {"weight": 2}) for k, x in enumerate(SIMPLE)]
  r += [("access", access, (), {"weight": 5})]
  for cls, i, n in ((SecurityKeyFile, 14, 0), (RootAuthenticationKeyFile, 24, 24), (UserAuthenticationKeyFile, 25, 24)):
    r.append(("key-%d" % i, key, (cls, i, n)))
    r.append(("key-range-%d" % i, key_range, (cls,)))
  lo, hi = (0, 127) if deep else (33, 126)
  for n, m in ([(x, y) for x in range(7) for y in range(8)] if deep else [(0, 0), (1, 7), (6, 3), (6, 7), (3, 1)]):
    r.append(("firmware-%d-%d" % (n, m), firmware, (n, m, lo, hi)))
  for n in range(9 if deep else 4): r.append(("phy-status-%d" % n, phy_status, (n,)))
  r.append(("members", members, ()))
  return r
