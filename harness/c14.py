"""Classes made for the purpose with one field of every kind: integers from -2^70 to 2^70 (all of them), booleans, nothing, text, bytes, lists of 0 to 3 values, enum members and objects;
bit fields of 1 to 64 bits; ranges with any limits from -1000 to 1000; alternatives and nested objects to depth 2."""
from d7a.support.schema import Validatable, Types
from d7a.alp.interface import InterfaceType
from d7a.d7anp.addressee import IdType, NlsMethod
from d7a.types.ct import CT
from d7a.sp.qos import QoS
from harness.lib import rejects

BIG = 1 << 70


def holder(*fields):
  """a validated class with one alternative per field type, the value in x"""
  class Holder(Validatable):
    SCHEMA = [dict(f) for f in fields]

    def __init__(self, **values):
      for k in values: setattr(self, k, values[k])
      super(Holder, self).__init__()
  return Holder


def make(field, value):
  return lambda: holder({"x": field})(x=value)


OTHER = ["none", "text", "list", "enum", "object", "tuple", "dict"]


def other(kind):
  return {"none": None, "text": "abc", "list": [1, 2], "enum": InterfaceType.D7ASP, "object": CT(), "tuple": (1, 2), "dict": {"a": 1}}[kind]


def integers(c, kind):
  v = c.int("v", -BIG, BIG)
  if kind == "byte":
    f, ok = Types.BYTE(), c.both(v >= 0, v <= 255)
  elif kind == "bits":
    n = c.pick("length", 1, 64)
    f, ok = Types.BITS(n), c.both(v >= 0, v < (1 << n))
  elif kind == "bits.max":
    n = c.pick("length", 1, 16)
    m = c.pick("max", 0, 3) * 5
    f, ok = Types.BITS(n, max=m), c.both(v >= 0, v <= m)
  elif kind == "range":
    lo, hi = c.int("lo", -1000, 1000), c.int("hi", -1000, 1000)
    f, ok = Types.INTEGER(min=lo, max=hi), c.both(v >= lo, v <= hi)
  elif kind == "min":
    lo = c.int("lo", -1000, 1000)
    f, ok = Types.INTEGER(min=lo), v >= lo
  elif kind == "max":
    hi = c.int("hi", -1000, 1000)
    f, ok = Types.INTEGER(max=hi), v <= hi
  elif kind == "any":
    f, ok = Types.INTEGER(), True
  else:
    a, b = c.int("a", -1000, 1000), c.int("b", -1000, 1000)
    vals = [a, b, None] if kind == "values.none" else [a, b]
    f, ok = Types.INTEGER(vals), c.either(v == a, v == b)
    _, e = c.attempt(make(f, None))
    c.check((e is None) == (kind == "values.none"), "nothing is a value only when listed")
  rejects(c, make(f, v), ok, "value")


def fields():
  return [("byte", Types.BYTE(), []), ("bits", Types.BITS(8), []), ("integer", Types.INTEGER(), []), ("range", Types.INTEGER(min=0, max=9), []),
          ("boolean", Types.BOOLEAN(), []), ("true", Types.BOOLEAN(True), []), ("string", Types.STRING(), ["text"]), ("bytes", Types.BYTES(), ["list"]),
          ("list", Types.LIST(), ["list"]), ("ct list", Types.LIST(CT), []), ("enum", Types.ENUM(InterfaceType), ["enum"]), ("ct", Types.OBJECT(CT), ["object"]),
          ("ct or none", Types.OBJECT(CT, nullable=True), ["object", "none"]), ("qos", Types.OBJECT(QoS), []), ("qos or none", Types.OBJECT(QoS, nullable=True), ["none"]),
          ("members", Types.ENUM(InterfaceType, [InterfaceType.D7ASP, InterfaceType.HOST]), ["enum"]), ("other members", Types.ENUM(InterfaceType, [InterfaceType.HOST]), []),
          ("other enum", Types.ENUM(IdType), [])]


def kinds(c):
  """values of a wrong kind are refused, whatever the field"""
  name, f, accepted = c.choice("field", fields())
  k = c.choice("kind", OTHER)
  if name in ("list", "bytes") and k == "tuple": return c.check(True, "sequences are not distinguished")
  rejects(c, make(f, other(k)), k in accepted, "value")


def booleans(c):
  b = c.bool("b")
  f, ok = c.choice("field", [(Types.BOOLEAN(), True), (Types.BOOLEAN(True), b), (Types.BOOLEAN(False), c.no(b)), (Types.STRING(), False), (Types.LIST(), False),
                             (Types.OBJECT(CT), False), (Types.ENUM(InterfaceType), False)])
  rejects(c, make(f, b), ok, "boolean")


def no_booleans(c):
  """an integer is not a boolean"""
  v = c.int("v", -2, 2)
  rejects(c, make(c.choice("field", [Types.BOOLEAN(), Types.BOOLEAN(True), Types.STRING(), Types.LIST(), Types.BYTES(), Types.ENUM(InterfaceType), Types.OBJECT(CT)]), v), False, "integer")


def strings(c):
  n, m = c.pick("length", 0, 4), c.pick("maximum", 1, 4)
  s = c.str("s", n)
  rejects(c, make(Types.STRING(m), s), n <= m, "text")
  rejects(c, make(Types.STRING(), s), True, "text")


def lists(c):
  n = c.pick("length", 0, 3)
  lo, hi = c.pick("minimum", 0, 3), c.pick("maximum", 1, 3)
  v = [c.int("v[%d]" % i, -1000, 1000) for i in range(n)]
  rejects(c, make(Types.LIST(minlength=lo, maxlength=hi), v), lo <= n <= hi, "list")
  rejects(c, make(Types.BYTES(), v), c.both(*[c.both(x >= 0, x <= 255) for x in v]), "byte list")


def typed_lists(c):
  n = c.pick("length", 0, 3)
  ks = [c.choice("item[%d]" % i, ["ct", "int", "qos", "none"]) for i in range(n)]
  v = [{"ct": CT(), "int": 3, "qos": QoS(), "none": None}[k] for k in ks]
  rejects(c, make(Types.LIST(CT), v), all([k == "ct" for k in ks]), "list of objects")


def enums(c):
  t = c.enum("t", InterfaceType)
  rejects(c, make(Types.ENUM(InterfaceType), t), True, "member")
  allowed = [m for m in InterfaceType if c.choice("allow " + m.name, [True, False])] or [InterfaceType.HOST]
  rejects(c, make(Types.ENUM(InterfaceType, allowed), t), c.either(*[t == m for m in allowed]), "member")
  rejects(c, make(Types.ENUM(NlsMethod), t), False, "member of another enum")


def alternatives(c):
  """an object is valid when it fits one of the alternatives as a whole"""
  K = holder({"kind": Types.INTEGER([0]), "value": Types.INTEGER([None])},
             {"kind": Types.INTEGER([1]), "value": Types.BITS(8)},
             {"kind": Types.INTEGER([2]), "value": Types.OBJECT(CT)})
  k = c.int("kind", -5, 5)
  v = c.choice("value", ["none", "int", "ct"])
  i = c.int("v", -1000, 1000)
  ok = c.either(c.both(v == "none", k == 0), c.both(v == "int", k == 1, i >= 0, i <= 255), c.both(v == "ct", k == 2))
  rejects(c, lambda: K(kind=k, value={"none": None, "int": i, "ct": CT()}[v]), ok, "combination")


def all_fields(c):
  """every field counts, and none hides another"""
  K = holder({"a": Types.BYTE(), "b": Types.BITS(3), "f": Types.BOOLEAN(), "l": Types.BYTES()})
  a, b = c.int("a", -1000, 1000), c.int("b", -1000, 1000)
  f = c.choice("f", [True, False, 1, None])
  l = [c.int("l", -1000, 1000)]
  ok = c.both(a >= 0, a <= 255, b >= 0, b <= 7, isinstance(f, bool), l[0] >= 0, l[0] <= 255)
  rejects(c, lambda: K(a=a, b=b, f=f, l=l), ok, "combination")


def fresh(c):
  """the limits of one field are its own"""
  a, b = c.int("a", 0, 1000), c.int("b", 0, 1000)
  f, g, h = Types.INTEGER(max=a), Types.INTEGER(max=b), Types.INTEGER()
  v = c.int("v", -5000, 5000)
  rejects(c, make(f, v), v <= a, "value")
  rejects(c, make(g, v), v <= b, "value")
  rejects(c, make(h, v), True, "value")
  rejects(c, make(f, v), v <= a, "value")


def own_limits(c, kind):
  """fields of one type with different limits, declared one after the other: each keeps its own, in every order and wherever it is used"""
  m, n = c.pick("first", 0, 3), c.pick("second", 0, 3)
  mk = {"list": lambda k: Types.LIST(maxlength=k + 1), "typed list": lambda k: Types.LIST(CT, maxlength=k + 1), "shortest list": lambda k: Types.LIST(CT, minlength=k),
        "string": lambda k: Types.STRING(k + 1), "bits": lambda k: Types.BITS(k + 1), "maximum": lambda k: Types.BITS(8, max=k), "at least": lambda k: Types.INTEGER(min=k),
        "listed": lambda k: Types.INTEGER([k]), "true": lambda k: Types.BOOLEAN([None, True, False, None][k]),
        "members": lambda k: Types.ENUM(InterfaceType, [list(InterfaceType)[k]]), "class": lambda k: Types.OBJECT([CT, QoS, Validatable, None][k]),
        "nothing": lambda k: Types.OBJECT(CT, nullable=k % 2 == 1)}[kind]

  def ok(k):
    if kind in ("list", "typed list", "string"): return size <= k + 1
    if kind == "shortest list": return size >= k
    if kind == "bits": return c.both(v >= 0, v < (1 << (k + 1)))
    if kind == "maximum": return c.both(v >= 0, v <= k)
    if kind == "at least": return v >= k
    if kind == "listed": return v == k
    if kind == "true": return [True, b, c.no(b), True][k]
    if kind == "members": return t == list(InterfaceType)[k]
    if kind == "class": return k == 3 or isinstance(o, [CT, QoS, Validatable][k])
    return o is not None or k % 2 == 1

  size = v = b = t = o = None
  if kind in ("list", "typed list", "shortest list", "string"):
    size = c.pick("size", 0, 4)
    x = "a" * size if kind == "string" else [CT()] * size if kind != "list" else [1] * size
  elif kind in ("bits", "maximum", "at least", "listed"): x = v = c.int("v", -1000, 1000)
  elif kind == "true": x = b = c.bool("b")
  elif kind == "members": x = t = c.enum("t", InterfaceType)
  elif kind == "class": x = o = c.choice("o", [CT(), QoS()])
  else: x = o = c.choice("o", [CT(), None])
  plain = {"list": Types.LIST, "typed list": Types.LIST, "shortest list": Types.LIST, "string": Types.STRING, "true": Types.BOOLEAN}.get(kind)
  f, g = mk(m), mk(n)
  K, L = holder({"x": f}), holder({"x": g})
  rejects(c, lambda: K(x=x), ok(m), "value")
  rejects(c, lambda: L(x=x), ok(n), "value")
  if plain: rejects(c, make(plain(), x), True, "value of a field without limits")
  rejects(c, lambda: K(x=x), ok(m), "value")
  J = holder({"x": mk(m), "y": mk(n)})
  rejects(c, lambda: J(x=x, y=x), c.both(ok(m), ok(n)), "values of two fields")


OWN = ["list", "typed list", "shortest list", "string", "bits", "maximum", "at least", "listed", "true", "members", "class", "nothing"]


def inherited(c):
  """a class made from another is validated by its own schema"""
  A = holder({"x": Types.BYTE()})
  class B(A):
    SCHEMA = [{"x": Types.BITS(3), "y": Types.OBJECT(A)}]
  v = c.int("v", -1000, 1000)
  rejects(c, lambda: A(x=v), c.both(v >= 0, v <= 255), "value")
  w = c.int("w", -1000, 1000)
  c.assume(c.both(v >= 0, v <= 255))
  rejects(c, lambda: B(x=w, y=A(x=v)), c.both(w >= 0, w <= 7), "value of the derived class")
  c.assume(v < 8)
  rejects(c, lambda: A(x=v) and B(x=0, y=B(x=v, y=A(x=0))), True, "derived object")


def instances(tier):
  ks = ["byte", "bits", "bits.max", "range", "min", "max", "any", "values", "values.none"]
  return [("integers " + k, integers, (k,)) for k in ks] + [(f.__name__, f, ()) for f in (kinds, booleans, no_booleans, strings, lists, typed_lists, enums, alternatives, all_fields, fresh, inherited)] + \
         [("own " + k, own_limits, (k,)) for k in OWN]
