"""LoRaWAN (ABP, OTAA) and session interface configurations and indirect interface operands: every field value (32-bit addresses, all flags),
every image, every truncation; all 256 interface ids."""
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.alp.parser import Parser
from d7a.parse_error import ParseError


def abp_codec(c): codec(c, gen.abp(c, "x"), LoRaWANInterfaceConfigurationABP.parse)


def otaa_codec(c): codec(c, gen.otaa(c, "x"), LoRaWANInterfaceConfigurationOTAA.parse)


def abp_image(c):
  b = c.bytes("b", 11)
  p = LoRaWANInterfaceConfigurationABP.parse(stream(b))
  c.check(c.both(c.eq(p.adr_enabled, b[0] & 4 != 0), c.eq(p.request_ack, b[0] & 2 != 0), p.app_port == b[1], p.data_rate == b[2],
                 p.dev_addr == num(b[3:7]), p.netw_id == num(b[7:])), "fields of an image")
  c.same(raw(p), [b[0] & 6] + b[1:], "without the reserved bits")


def otaa_image(c):
  b = c.bytes("b", 3)
  p = LoRaWANInterfaceConfigurationOTAA.parse(stream(b))
  c.check(c.both(c.eq(p.adr_enabled, b[0] & 4 != 0), c.eq(p.request_ack, b[0] & 2 != 0), p.app_port == b[1], p.data_rate == b[2]),
          "fields of an image")
  c.same(raw(p), [b[0] & 6] + b[1:], "without the reserved bits")


def short(c):
  k = c.choice("kind", [LoRaWANInterfaceConfigurationABP, LoRaWANInterfaceConfigurationOTAA])
  truncated(c, c.bytes("b", 11 if k is LoRaWANInterfaceConfigurationABP else 3), k.parse, "configuration")


def dictionary(c):
  """as a dictionary, every field under its name"""
  for s, names in ((gen.abp(c, "a"), ["adr_enabled", "request_ack", "app_port", "data_rate", "dev_addr", "netw_id"]),
                   (gen.otaa(c, "o"), ["adr_enabled", "request_ack", "app_port", "data_rate"])):
    d = s.obj.as_dict()
    c.check(d["__CLASS__"] == s.obj.__class__.__name__, "class")
    c.check(c.both(True, *[c.eq(d[n], getattr(s.obj, n)) for n in names]), "fields")
    c.check(len(d) == len(names) + 1, "nothing else")


def one(c, kind):
  """an interface with its configuration, as an operand"""
  s = gen.interface(c, "i", [kind])
  c.same(raw(s.obj), s.bytes, "serialises to the documented bytes")
  b = [50] + s.bytes
  st = stream(b + c.bytes("tail", 2))
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(s.match(cmd.actions[0].operand), "parses back to the same fields")
  c.same(raw(cmd), b, "serialises again to the same bytes")


def host(c):
  """the host interface has an id and nothing else"""
  o = InterfaceConfiguration(interface_id=InterfaceType.HOST)
  c.same(raw(o), [0], "its id")
  g, r = c.bool("group"), c.bool("resp")
  c.same(raw(RegularAction(group=g, resp=r, operation=Forward(operand=o))), [c.ite(g, 128, 0) + c.ite(r, 64, 0) + 50, 0], "forward to the host")


def cut(c, kind):
  s = gen.interface(c, "i", [kind])
  b = [50] + s.bytes
  truncated(c, b, lambda st: Parser().parse(st, len(b)), "forward action")


def unknown(c):
  """interfaces that are not defined are refused"""
  i = c.byte("interface")
  c.assume(c.both(*[i != k.value for k in InterfaceType]))
  b = [50, i] + c.bytes("rest", 12)
  _, e = c.attempt(Parser().parse, stream(b), len(b))
  c.check(e is not None, "unknown interface accepted")
  c.check(isinstance(e, (ParseError, ValueError)), "refused as a parse or value error")


def kinds(c):
  i = c.choice("id", [None, 0xD7, c.byte("n"), "x", IdType.VID, InterfaceType.SERIAL])
  rejects(c, lambda: InterfaceConfiguration(interface_id=i), isinstance(i, InterfaceType), "interface")
  x = c.choice("conf", [3, "x", [1], None, Configuration(), LoRaWANInterfaceConfigurationOTAA(True, True, 1, 2)])
  rejects(c, lambda: InterfaceConfiguration(interface_id=InterfaceType.D7ASP, interface_configuration=x),
          x is None or isinstance(x, (Configuration, LoRaWANInterfaceConfigurationOTAA)), "configuration")


def indirect(c):
  overload = c.choice("overload", [True, False])
  s = gen.indirect(c, "x", overload)
  c.same(raw(s.obj), s.bytes, "serialises to the documented bytes")
  b = [51 + (128 if overload else 0)] + s.bytes
  st = stream(b + c.bytes("tail", 2))
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(s.match(cmd.actions[0].operand), "parses back to the same fields")
  c.check(c.eq(cmd.actions[0].overload, overload), "overload flag")
  c.same(raw(cmd), b, "serialises again to the same bytes")


def indirect_kinds(c):
  x = c.choice("conf", [3, "x", [1], None, Configuration(), Addressee(), CT()])
  rejects(c, lambda: IndirectInterfaceOperand(1, x), x is None or isinstance(x, Addressee), "overload")
  v = c.int("v", -300, 600)
  rejects(c, lambda: IndirectInterfaceOperand(v), c.both(v >= 0, v <= 255), "interface file id")


def indirect_cut(c):
  s = gen.indirect(c, "x", True)
  b = [51 + 128] + s.bytes
  truncated(c, b, lambda st: Parser().parse(st, len(b)), "indirect forward action")


def members(c):
  codes(c, (InterfaceType, "HOST=0 SERIAL=1 LORAWAN_ABP=2 LORAWAN_OTAA=3 D7ASP=D7"))


def instances(tier):
  r = [(f.__name__, f, ()) for f in (abp_codec, otaa_codec, abp_image, otaa_image, short, dictionary, host, unknown, kinds, indirect, indirect_kinds,
                                     indirect_cut)]
  for k in FORWARDS:
    r.append(("one-" + k.name, one, (k,)))
    r.append(("cut-" + k.name, cut, (k,)))
  r.append(("members", members, ()))
  return r
