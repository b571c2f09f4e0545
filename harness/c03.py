"""Addressee: the four id types, every id (0..2^64-1 for UID, 0..2^16-1 for VID, every compressed time for NBID), every access class,
every security method.  QoS: every mode and flag.  Session configuration: every combination of those.  Decoding: every first byte with
every id image; every truncation.  Flags and parts of every wrong kind.
Out of range ids and classes: id -2^65..2^66, access class -300..600."""
from harness.lib import *
from harness import gen
from d7a.types.ct import CT
from d7a.d7anp.addressee import Addressee, IdType, NlsMethod
from d7a.sp.qos import QoS, ResponseMode, RetryMode
from d7a.sp.configuration import Configuration


def addressee(c):
  s = gen.addressee(c, "a")
  codec(c, s, Addressee.parse)
  c.check(s.obj.id_length == len(s.bytes) - 2, "id length")


def addressee_decode(c):
  """every control byte and id image decodes to the documented fields"""
  hi = c.int("rfu", 0, 3)
  t = c.pick("id_type", 0, 3)
  nls = c.int("nls", 0, 15)
  n = [1, 0, 8, 2][t]
  ac = c.byte("ac")
  i = c.bytes("id", n)
  s = stream([hi * 64 + t * 16 + nls, ac] + i)
  p, e = c.attempt(Addressee.parse, s)
  if e is not None:
    c.check(isinstance(e, ValueError), "unknown security method is a ValueError")
    c.check(nls > 7, "known security method rejected")
    return
  c.check(nls <= 7, "unknown security method accepted")
  c.check(c.both(p.access_class == ac, p.nls_method.value == nls, p.id_type.value == t, s.pos == 16 + 8 * n), "control fields")
  if t == 1: c.check(p.id is None, "no id")
  elif t == 0: c.check(c.both(p.id.exp == i[0] >> 5, p.id.mant == i[0] & 31), "number of devices")
  else: c.check(p.id == num(i), "id")


def addressee_truncated(c):
  t = c.pick("id_type", 0, 3)
  b = [t * 16 + c.int("nls", 0, 7), c.byte("ac")] + c.bytes("id", [1, 0, 8, 2][t])
  truncated(c, b, Addressee.parse)


def addressee_range(c):
  t = c.choice("id_type", [IdType.VID, IdType.UID])
  i = c.int("id", -(1 << 65), 1 << 66)
  top = 0xFFFF if t == IdType.VID else (1 << 64) - 1
  rejects(c, lambda: Addressee(id_type=t, id=i), c.both(i >= 0, i <= top), "id")


def access_class_range(c):
  ac = c.int("ac", -300, 600)
  t = c.choice("id_type", gen.ID_TYPES)
  i = {IdType.NOID: None, IdType.NBID: CT(1, 2), IdType.VID: 3, IdType.UID: 4}[t]
  rejects(c, lambda: Addressee(access_class=ac, id_type=t, id=i), c.both(ac >= 0, ac <= 255), "access class")


def addressee_mismatch(c):
  """an id of the wrong kind for the id type is rejected"""
  t = c.choice("id_type", gen.ID_TYPES)
  kind = c.choice("kind", ["none", "int", "ct", "str", "list"])
  i = {"none": None, "int": c.int("id", 0, 0xFFFF), "ct": CT(1, 1), "str": "ab", "list": [1]}[kind]
  good = (t == IdType.NOID and kind == "none") or (t == IdType.NBID and kind == "ct") or (t in (IdType.VID, IdType.UID) and kind == "int")
  rejects(c, lambda: Addressee(id_type=t, id=i), good, "kind of id")


def enum_fields(c):
  """plain numbers are not accepted for enumerations"""
  which = c.choice("which", ["id_type", "nls", "resp", "retry"])
  v = c.int("v", 0, 7)
  f = {"id_type": lambda: Addressee(id_type=v), "nls": lambda: Addressee(nls_method=v),
       "resp": lambda: QoS(resp_mod=v), "retry": lambda: QoS(retry_mod=v)}[which]
  _, e = c.attempt(f)
  c.check(isinstance(e, ValueError), "number accepted for an enumeration")


def length_for(c):
  t = c.choice("id_type", gen.ID_TYPES)
  c.check(Addressee.length_for(t) == {IdType.NBID: 1, IdType.NOID: 0, IdType.VID: 2, IdType.UID: 8}[t], "id length of a type")


def qos(c):
  codec(c, gen.qos(c, "q"), QoS.parse)


def qos_decode(c):
  b = c.byte("b")
  p, e = c.attempt(QoS.parse, stream([b]))
  mode, retry = b & 7, (b >> 3) & 7
  ok = c.both(retry == 0, mode != 3, mode != 7)
  if e is not None:
    c.check(isinstance(e, ValueError), "unknown mode is a ValueError")
    c.check(c.no(ok), "known mode rejected")
  else:
    c.check(ok, "unknown mode accepted")
    c.check(c.both(p.resp_mod.value == mode, p.retry_mod.value == retry), "modes")
    c.same(raw(p), [b], "byte")
    c.check(c.both(p.stop_on_err == (b >= 128), p.record == ((b & 64) != 0)), "flags")


def qos_flags(c):
  """flags are truth values, the access class is a number"""
  bad = c.choice("bad", [None, c.int("n", -1, 2), "x", c.bool("b"), [True]])
  make = c.choice("make", [lambda: QoS(stop_on_err=bad), lambda: QoS(record=bad)])
  rejects(c, make, isinstance(bad, bool), "flag")
  worse = c.choice("worse", [None, "x", [1], CT(1, 1)])
  rejects(c, lambda: Addressee(access_class=worse), False, "access class")


def config(c):
  codec(c, gen.configuration(c, "conf"), Configuration.parse)


def config_truncated(c):
  s = gen.configuration(c, "conf")
  truncated(c, s.bytes, Configuration.parse)


def config_types(c):
  which = c.choice("which", ["qos", "dorm_to", "addressee"])
  bad = c.choice("bad", [None, CT(1, 1), QoS(), Addressee(), c.byte("n")])
  good = {"qos": QoS, "dorm_to": CT, "addressee": Addressee}[which]
  rejects(c, lambda: Configuration(**{which: bad}), isinstance(bad, good), "part")


def members(c):
  codes(c, (IdType, "NBID=0 NOID=1 UID=2 VID=3"), (NlsMethod, "NONE=0 AES_CTR=1 AES_CBC_MAC_128=2 AES_CBC_MAC_64=3 AES_CBC_MAC_32=4 AES_CCM_128=5 AES_CCM_64=6 AES_CCM_32=7"),
        (ResponseMode, "RESP_MODE_NO=0 RESP_MODE_ALL=1 RESP_MODE_ANY=2 RESP_MODE_NO_RPT=4 RESP_MODE_ON_ERROR=5 RESP_MODE_PREFERRED=6"), (RetryMode, "RETRY_MODE_NO=0"))


def instances(tier):
  fs = [addressee, addressee_decode, addressee_truncated, addressee_range, access_class_range, addressee_mismatch, enum_fields,
        length_for, qos, qos_decode, qos_flags, config, config_truncated, config_types, members]
  return [(f.__name__, f, ()) for f in fs]
