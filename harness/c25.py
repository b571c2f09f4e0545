"""Every one of the 49 kinds of objects with any fields (up to two id types, data of 1 to 3 bytes), made and parsed, shown, turned into dictionaries and stored as JSON and restored;
every member of every enumeration."""
import jsonpickle
from harness.things import *
from harness.lib import raw
from d7a.alp.interface import InterfaceType
from d7a.alp.operands.query import ArithComparisonType, QueryType
from d7a.fs.file_properties import ActionCondition, StorageClass
from d7a.phy.channel_header import ChannelBand, ChannelCoding, ChannelClass
from d7a.phy.channel_status_identifier import Bandwidth
from d7a.d7anp.addressee import IdType, NlsMethod
from d7a.dll.access_profile import CsmaCaMode
from d7a.dll.parser import FrameType
from d7a.sp.qos import ResponseMode, RetryMode
from d7a.support.schema import Validatable
from d7a.system_files.engineering_mode import EngineeringModeMode
from d7a.system_files.system_file_ids import SystemFileIds
from d7a.serial_modem_interface.parser import MessageType


def objects(c, name):
  _, make, parse = kind(name)
  s = make(c, "a")
  r = [s.obj]
  if parse is not None:
    b = raw(s.obj)
    r.append(parse(stream(b), len(b)))
  return s, r


def shown(c, name):
  """any object, made or parsed, can be printed"""
  s, os = objects(c, name)
  for o in os:
    t, e = c.attempt(lambda: str(o))
    c.check(e is None, "it can be printed")
    c.check(isinstance(t, str), "as text")


def actions(c):
  """the description of a command names each of its actions, in order"""
  n = c.pick("actions", 0, 2)
  acts = [gen.read_data(c, "a", top=63), gen.write_data(c, "b", 1, top=63)][:n]
  if c.choice("swap", [False, True]): acts = acts[::-1]
  cmd = Command([a.obj for a in acts])
  c.check(c.eq(cmd.describe_actions(), ", ".join([str(a.obj) for a in acts])), "each action, separated by commas")


def same_dict(c, d, o):
  """d tells every field of o"""
  if not isinstance(d, dict): return False
  r = [d.get("__CLASS__") == o.__class__.__name__]
  for k in o.__dict__.keys():
    v = o.__dict__[k]
    if isinstance(v, type): continue
    if k not in d: return False
    if isinstance(v, Validatable): r.append(same_dict(c, d[k], v))
    elif isinstance(v, list):
      if not isinstance(d[k], list) or len(d[k]) != len(v): return False
      for i in range(len(v)): r.append(same_dict(c, d[k][i], v[i]) if isinstance(v[i], Validatable) else d[k][i] is v[i] or c.eq(d[k][i], v[i]))
    else: r.append(d[k] is v or c.eq(d[k], v))
  return c.both(*r)


def described(c, name):
  """as_dict tells the class and all the fields, of nested objects too"""
  s, os = objects(c, name)
  for o in os:
    if not hasattr(o, "as_dict"): continue
    d, e = c.attempt(o.as_dict)
    c.check(e is None, "it has a dictionary")
    c.check(same_dict(c, d, o), "of its class and fields")


def stored(c, name):
  """stored as JSON and restored, an object is what it was"""
  s, os = objects(c, name)
  for o in os:
    p = jsonpickle.decode(jsonpickle.encode(o))
    c.check(type(p) is type(o), "the same kind")
    c.check(s.match(p), "the same fields")
    b, e = c.attempt(raw, o)
    if e is None: c.same(raw(p), b, "the same bytes")
    q = jsonpickle.decode(jsonpickle.encode([o, p, o]))
    c.check(len(q) == 3 and c.both(s.match(q[0]), s.match(q[1]), s.match(q[2])), "also in a list")


ENUMS = [InterfaceType, ArithComparisonType, QueryType, ActionCondition, StorageClass, ChannelBand, ChannelCoding, ChannelClass, Bandwidth, IdType, NlsMethod, CsmaCaMode, FrameType,
         ResponseMode, RetryMode, EngineeringModeMode, SystemFileIds, MessageType]


def members(c, i):
  """enumeration members are restored as the very same members"""
  e = ENUMS[i]
  m = c.enum("m", e)
  p = jsonpickle.decode(jsonpickle.encode({"a": m, "b": [m, m]}))
  c.check(c.both(p["a"] == m, p["b"][0] == m, p["b"][1] == m), "the same member")
  c.check(isinstance(p["a"], e), "of its enumeration")


def instances(tier):
  r = []
  for name, make, parse in KINDS:
    heavy = {"weight": 5, "seconds": 400}
    r.append(("shown " + name, shown, (name,), heavy))
    r.append(("described " + name, described, (name,), heavy))
    r.append(("stored " + name, stored, (name,), heavy))
  return r + [("members %d" % i, members, (i,)) for i in range(len(ENUMS))] + [("actions", actions, ())]
