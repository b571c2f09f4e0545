"""Sub profile: every value, byte pair and truncation.  Access profile: every header, 4 sub profiles and 0..8 sub bands of arbitrary
content (serialisation); exactly 8 sub bands for parsing back; every truncation of a 65 byte image.  Counts of sub profiles 0..6 and
sub bands 0..10, with and without an element of the wrong kind."""
from harness.lib import *
from harness import gen
from d7a.dll.access_profile import AccessProfile, CsmaCaMode
from d7a.dll.sub_profile import SubProfile
from d7a.phy.subband import SubBand
from d7a.phy.channel_header import ChannelHeader, ChannelBand, ChannelClass, ChannelCoding
from d7a.types.ct import CT

HEADER = (ChannelCoding.FEC_PN9, ChannelClass.NORMAL_RATE, ChannelBand.BAND_433)


def subprofile(c):
  codec(c, gen.subprofile(c, "s"), SubProfile.parse)


def subprofile_decode(c):
  b = c.bytes("b", 2)
  p = SubProfile.parse(stream(b))
  c.check(c.both(p.subband_bitmap == b[0], p.scan_automation_period.exp == b[1] >> 5, p.scan_automation_period.mant == b[1] & 31), "fields")


def subprofile_range(c):
  v = c.int("bitmap", -300, 600)
  rejects(c, lambda: SubProfile(subband_bitmap=v), c.both(v >= 0, v <= 255), "bitmap")


def subprofile_types(c):
  bad = c.choice("bad", [None, c.byte("n"), CT(1, 1), SubBand()])
  rejects(c, lambda: SubProfile(scan_automation_period=bad), isinstance(bad, CT), "period")


def subprofile_default(c):
  """defaults are not shared between instances"""
  v = c.int("mant", 0, 31)
  a = SubProfile(subband_bitmap=c.byte("m"))
  c.same(raw(SubProfile()), [0, 0], "default")
  c.same(raw(a)[1], 0, "default period")


def profile(c):
  codec(c, gen.access_profile(c, "ap"), AccessProfile.parse)


def profile_bytes(c, bands):
  s = gen.access_profile(c, "ap", bands)
  c.same(raw(s.obj), s.bytes, "serialises to the documented bytes")
  c.same(raw(s.obj), s.bytes, "and to the same bytes again")


def profile_decode(c):
  b = c.bytes("b", 65)
  p, e = c.attempt(AccessProfile.parse, stream(b))
  band = (b[0] >> 4) & 7
  ok = c.either(band == 0, band == 2, band == 3, band == 4)
  if e is not None:
    c.check(isinstance(e, ValueError), "unknown band is a ValueError")
    c.check(c.no(ok), "valid image rejected")
    return
  c.check(ok, "invalid image accepted")
  c.same(raw(p), [b[0] & 0x7F] + b[1:], "serialises back")
  c.check(len(p.sub_profiles) == 4 and len(p.sub_bands) == 8, "counts")


def profile_truncated(c):
  b = [0x28] + c.bytes("b", 64)
  truncated(c, b, AccessProfile.parse)


def profile_counts(c):
  n, m = c.pick("profiles", 0, 6), c.pick("bands", 0, 10)
  rejects(c, lambda: AccessProfile(ChannelHeader(*HEADER), [SubProfile()] * n, [SubBand()] * m), n == 4 and m <= 8, "counts")


def profile_types(c):
  which = c.choice("which", ["header", "profile", "band"])
  bad = c.choice("bad", [None, c.byte("n"), CT(1, 1), SubBand(), SubProfile(), ChannelHeader(*HEADER)])
  at = c.pick("at", 0, 3)
  h, sp, sb = ChannelHeader(*HEADER), [SubProfile() for _ in range(4)], [SubBand() for _ in range(4)]
  if which == "header": h = bad
  elif which == "profile": sp[at] = bad
  else: sb[at] = bad
  good = {"header": ChannelHeader, "profile": SubProfile, "band": SubBand}[which]
  rejects(c, lambda: AccessProfile(h, sp, sb), isinstance(bad, good), "part")


def modes(c): codes(c, (CsmaCaMode, "UNC=0 AIND=1 RAIND=2 RIGD=3"))


def instances(tier):
  fs = [subprofile, subprofile_decode, subprofile_range, subprofile_types, subprofile_default, profile, profile_decode,
        profile_truncated, profile_counts, profile_types, modes]
  r = [(f.__name__, f, ()) for f in fs]
  for n in ((0, 1, 8) if tier == "quick" else range(9)): r.append(("profile_bytes-%d" % n, profile_bytes, (n,)))
  return r
