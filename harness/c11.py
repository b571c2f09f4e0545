"""Arithmetic queries with a value: every comparison, both signednesses, compare values of 0..4, 64, 128, 255, 256 and 300 bytes (thorough 0..80 as well), every file and
offset 0..2^30-1; every first byte of a query image; every truncation."""
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.alp.parser import Parser


def full(c, n):
  codec(c, gen.query(c, "q", n), QueryOperand.parse)


def image(c, n):
  """reads any image whose kind of query is supported, refuses the others"""
  first = c.byte("first")
  b = [n] + c.bytes("value", n) + [c.byte("file"), c.int("offset", 0, 63)]
  st = stream([first] + b)
  p, e = c.attempt(QueryOperand.parse, st)
  ok = c.both(first & 0xF0 == 0x40, first & 7 <= 5)
  if e is not None:
    c.check(c.no(ok), "supported query refused")
    c.check(isinstance(e, (ValueError, AssertionError)), "refused")
  else:
    c.check(ok, "unsupported query accepted")
    c.check(c.both(p.params.comp_type.value == first & 7, c.eq(p.params.signed_data_type, first & 8 != 0)), "comparison")
    c.check(c.both(c.eq(list(p.compare_value), b[1:1 + n]), p.compare_length.value == n), "value")
    c.check(c.both(p.file_a_offset.id == b[1 + n], p.file_a_offset.offset.value == b[2 + n]), "file and offset")
    c.check(st.pos == 8 * (1 + len(b)), "consumes exactly its bytes")
    c.same(raw(p), [first] + b, "writes the same image")


def params(c):
  signed, cmp = c.bool("signed"), c.enum("comp", ArithComparisonType)
  p = ArithQueryParams(signed, cmp)
  c.same(raw(p), [c.ite(signed, 8, 0) + cmp.value], "one byte")
  q = ArithQueryParams.parse(ConstBits(c, raw(p)[0]))
  c.check(c.both(c.eq(q.signed_data_type, signed), q.comp_type == cmp), "reads back")


def ConstBits(c, v):
  s = stream([v])
  s.read("pad:4")
  return s


def short(c):
  s = gen.query(c, "q", 3, top=63)
  truncated(c, s.bytes, QueryOperand.parse, "query")


def break_short(c):
  s = gen.query(c, "q", 2, top=63)
  b = [9] + s.bytes
  truncated(c, b, lambda st: Parser().parse(st, len(b)), "break query action")


def kinds(c):
  v = c.int("v", -300, 600)
  ok = lambda **k: QueryOperand(**dict(dict(type=QueryType.ARITH_COMP_WITH_VALUE, mask_present=False,
                                            params=ArithQueryParams(False, ArithComparisonType.EQUALITY), compare_length=Length(1),
                                            compare_value=[1], file_a_offset=Offset()), **k))
  rejects(c, lambda: ok(compare_value=[v]), c.both(v >= 0, v <= 255), "compare value")
  bad = c.choice("bad", [("type", 2), ("type", None), ("type", ArithComparisonType.EQUALITY), ("mask_present", 0), ("mask_present", None),
                         ("params", 8), ("params", None), ("compare_length", 1), ("compare_length", None), ("compare_value", "a"),
                         ("file_a_offset", None), ("file_a_offset", 3)])
  rejects(c, lambda: ok(**dict([bad])), False, bad[0])
  p = c.choice("param", [(None, ArithComparisonType.EQUALITY), (1, ArithComparisonType.EQUALITY), (True, 1), (True, None), (False, QueryType.RANGE_COMP)])
  rejects(c, lambda: ArithQueryParams(*p), False, "parameter")


def members(c):
  codes(c, (QueryType, "NON_VOID_CHECK=0 ARITH_COMP_WITH_ZERO=1 ARITH_COMP_WITH_VALUE=2 ARITH_COMP_BETWEEN_FILES=3 RANGE_COMP=4 STRING_TOKEN=7"),
        (ArithComparisonType, "INEQUALITY=0 EQUALITY=1 LESS_THAN=2 LESS_THAN_OR_EQUAL_TO=3 GREATER_THAN=4 GREATER_THAN_OR_EQUAL_TO=5"))


def instances(tier):
  r = [(f.__name__, f, ()) for f in (params, short, break_short, kinds)]
  for n in ([0, 1, 2, 3, 4, 64, 128, 255, 256, 300] if tier == "quick" else range(0, 81) + [128, 255, 256, 300, 16384]): r.append(("full-%d" % n, full, (n,), {"weight": 1 + n / 20}))
  for n in (0, 1, 2): r.append(("image-%d" % n, image, (n,)))
  r.append(("members", members, ()))
  return r
