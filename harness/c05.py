"""Channel header: every band/class/coding and every byte; printed form: every printable header, every band and class with every index
0..65535, and every five character text.  Channel id, channel status and sub band: every field
value, every image, every truncation.  Range checks: -70000..2^33 per numeric field.  Equality: every pair of headers,
and other kinds of objects."""
from harness.lib import *
from harness import gen
from d7a.phy.channel_header import ChannelHeader, ChannelBand, ChannelClass, ChannelCoding
from d7a.phy.channel_id import ChannelID
from d7a.phy.channel_status_identifier import ChannelStatusIdentifier, Bandwidth
from d7a.phy.subband import SubBand
from d7a.types.ct import CT

BANDS = [(ChannelBand.BAND_433, "433"), (ChannelBand.BAND_868, "868"), (ChannelBand.BAND_915, "915")]
CLASSES = [(ChannelClass.LO_RATE, "L"), (ChannelClass.LORA, "R"), (ChannelClass.NORMAL_RATE, "N"), (ChannelClass.HI_RATE, "H")]
CODINGS = [(ChannelCoding.PN9, "P"), (ChannelCoding.FEC_PN9, "F"), (ChannelCoding.CW, "C")]


def header(c):
  codec(c, gen.channel_header(c, "h"), ChannelHeader.parse)


def header_decode(c):
  b = c.byte("b")
  p, e = c.attempt(ChannelHeader.parse, stream([b]))
  band = (b >> 4) & 7
  ok = c.either(band == 0, band == 2, band == 3, band == 4)
  if e is not None:
    c.check(isinstance(e, ValueError), "unknown band is a ValueError")
    c.check(c.no(ok), "known band rejected")
  else:
    c.check(ok, "unknown band accepted")
    c.check(c.both(p.channel_band.value == band, p.channel_class.value == (b >> 2) & 3, p.channel_coding.value == b & 3), "fields")


def header_types(c):
  which = c.pick("which", 0, 2)
  bad = c.choice("bad", [None, "wrong", c.int("n", 0, 4), ChannelBand.BAND_433, ChannelClass.LORA, ChannelCoding.CW])
  a = [ChannelCoding.PN9, ChannelClass.HI_RATE, ChannelBand.BAND_868]
  ok = isinstance(bad, [ChannelCoding, ChannelClass, ChannelBand][which])
  a[which] = bad
  rejects(c, lambda: ChannelHeader(*a), ok, "part")


def header_text(c):
  band, cls, coding = c.choice("band", BANDS), c.choice("class", CLASSES), c.choice("coding", CODINGS)
  h = ChannelHeader(coding[0], cls[0], band[0])
  c.check(str(h) == band[1] + cls[1] + coding[1], "printed form")
  p = ChannelHeader.from_string(band[1] + cls[1] + coding[1])
  c.check(p.channel_band == band[0] and p.channel_class == cls[0] and p.channel_coding == coding[0], "read back from its printed form")
  c.check(p == h and not (p != h), "equal")


def header_bad_text(c):
  """text that names no channel is refused, never read as another channel"""
  s = c.str("text", 5)
  p, e = c.attempt(ChannelHeader.from_string, s)
  if e is None:
    c.check(c.eq(str(p), s), "read as another channel")
  else:
    band, cls, coding = c.choice("band", BANDS), c.choice("class", CLASSES), c.choice("coding", CODINGS)
    c.check(c.no(c.eq(s, band[1] + cls[1] + coding[1])), "valid text refused")


def id_text(c, band, coding):
  cls = c.choice("class", CLASSES)
  i = c.int("index", 0, 0xFFFF)
  o = ChannelID(ChannelHeader(coding[0], cls[0], band[0]), i)
  s = str(o)
  n = 3 if i < 1000 else 4 if i < 10000 else 5
  digits = c.tostr([48 + (i // 10 ** (n - 1 - k)) % 10 for k in range(n)])
  c.check(c.eq(s, band[1] + cls[1] + coding[1] + digits), "printed form")
  p = ChannelID.from_string(s)
  c.check(c.both(p.channel_index == i, c.eq(raw(p), raw(o))), "read back from its printed form")


def header_eq(c):
  f = [(c.enum(n + ".coding", ChannelCoding), c.enum(n + ".class", ChannelClass), c.enum(n + ".band", ChannelBand)) for n in ("a", "b")]
  a, b = ChannelHeader(*f[0]), ChannelHeader(*f[1])
  same = c.both(*[x == y for x, y in zip(*f)])
  c.check(c.eq(bool(a == b), bool(same)), "equal exactly when all fields are")
  c.check(c.eq(bool(a != b), c.no(same)), "unequal exactly when not equal")
  for other in (None, 1, "x", CT(1, 1)):
    c.check(not (a == other), "equal to another kind of object")
    c.check(a != other, "not unequal to another kind of object")


def channel_id(c):
  codec(c, gen.channel_id(c, "id"), ChannelID.parse)


def id_truncated(c):
  truncated(c, gen.channel_id(c, "id").bytes, ChannelID.parse)


def id_range(c):
  v = c.int("index", -70000, 1 << 33)
  rejects(c, lambda: ChannelID(ChannelHeader(ChannelCoding.PN9, ChannelClass.LORA, ChannelBand.BAND_433), v),
          c.both(v >= 0, v <= 0xFFFF), "index")


def id_types(c):
  bad = c.choice("bad", [None, c.byte("n"), CT(1, 1)])
  rejects(c, lambda: ChannelID(bad, 1), False, "header")


def status(c):
  codec(c, gen.channel_status(c, "s"), ChannelStatusIdentifier.parse)


def status_decode(c):
  b = c.bytes("b", 2)
  p, e = c.attempt(ChannelStatusIdentifier.parse, stream(b))
  band = b[0] >> 5
  i = (b[0] & 7) * 256 + b[1]
  ok = c.both(c.either(band == 0, band == 2, band == 3, band == 4), i <= 1039)
  if e is not None:
    c.check(isinstance(e, ValueError), "unknown band is a ValueError")
    c.check(c.no(ok), "valid image rejected")
  else:
    c.check(ok, "invalid image accepted")
    c.check(c.both(p.channel_band.value == band, p.channel_bandwidth.value == (b[0] >> 4) & 1, p.channel_index == i), "fields")


def status_truncated(c):
  truncated(c, gen.channel_status(c, "s").bytes, ChannelStatusIdentifier.parse)


def status_types(c):
  which = c.choice("which", ["channel_band", "channel_bandwidth"])
  bad = c.choice("bad", [None, "x", c.int("n", 0, 4), ChannelClass.LORA, ChannelBand.BAND_433, list(Bandwidth)[0]])
  good = {"channel_band": ChannelBand, "channel_bandwidth": Bandwidth}[which]
  rejects(c, lambda: ChannelStatusIdentifier(**{which: bad}), isinstance(bad, good), "part")


def status_range(c):
  v = c.int("index", -70000, 1 << 33)
  rejects(c, lambda: ChannelStatusIdentifier(channel_index=v), c.both(v >= 0, v <= 1039), "index")


def status_text(c):
  b, w, i = c.enum("band", ChannelBand, (ChannelBand.NOT_IMPL,)), c.enum("bandwidth", Bandwidth), c.int("index", 0, 1039)
  b, w = c.hold(b), c.hold(w)
  s = str(ChannelStatusIdentifier(b, w, i))
  c.check(c.eq(s, "channel_band=%s, channel_bandwidth=%s, channel_index=%s" % (dict(BANDS)[b], w.name, i)), "printed form")


def subband(c):
  codec(c, gen.subband(c, "b"), SubBand.parse)


def subband_decode(c):
  b = c.bytes("b", 7)
  p = SubBand.parse(stream(b))
  c.check(c.both(p.channel_index_start == num(b[0:2]), p.channel_index_end == num(b[2:4]),
                 p.eirp == b[4] - c.ite(b[4] >= 128, 256, 0), p.cca == b[5], p.duty == b[6]), "fields")
  c.same(raw(p), b, "serialises back")


def subband_truncated(c):
  truncated(c, gen.subband(c, "b").bytes, SubBand.parse)


def subband_range(c):
  f = c.choice("field", ["channel_index_start", "channel_index_end", "eirp", "cca", "duty"])
  v = c.int("v", -70000, 1 << 33)
  lo, hi = {"eirp": (-128, 127), "cca": (0, 255), "duty": (0, 255)}.get(f, (0, 0xFFFF))
  rejects(c, lambda: SubBand(**{f: v}), c.both(v >= lo, v <= hi), f)


def members(c):
  codes(c, (ChannelCoding, "PN9=0 RFU=1 FEC_PN9=2 CW=3"), (ChannelClass, "LO_RATE=0 LORA=1 NORMAL_RATE=2 HI_RATE=3"), (ChannelBand, "NOT_IMPL=0 BAND_433=2 BAND_868=3 BAND_915=4"),
        (Bandwidth, "kHz200=0 kHz25=1"))


def instances(tier):
  fs = [header, header_decode, header_types, header_text, header_bad_text, header_eq, channel_id, id_truncated, id_range,
        id_types, status, status_decode, status_truncated, status_types, status_range, status_text, subband, subband_decode, subband_truncated, subband_range]
  r = [(f.__name__, f, ()) for f in fs]
  for b in BANDS:
    for k in CODINGS if tier != "quick" else [CODINGS[BANDS.index(b)]]:
      r.append(("id_text-%s%s" % (b[1], k[1]), id_text, (b, k), {"weight": 5}))
  r.append(("members", members, ()))
  return r
