"""Permissions: all 2^8 flag combinations and bytes.  Properties: every flag, condition and storage class, every byte.  File header and
file header operand: every field value, every image, every truncation.  Range checks: numbers -70000..2^33 for each numeric field, and
a None/number/other object for each structured field.  Equality: two arbitrary headers with the same
condition and storage class (with different ones the comparison itself raises under Jython)."""
from harness.lib import *
from harness import gen
from d7a.fs.file_permissions import FilePermissions
from d7a.fs.file_properties import FileProperties, ActionCondition, StorageClass
from d7a.fs.file_header import FileHeader
from d7a.alp.operands.file_header import FileHeaderOperand
from d7a.types.ct import CT

FLAGS = ["encrypted", "executable", "user_readable", "user_writeable", "user_executeable", "guest_readable", "guest_writeable",
         "guest_executeable"]


def permissions(c):
  codec(c, gen.permissions(c, "p"), FilePermissions.parse)


def permissions_decode(c):
  b = c.byte("b")
  p = FilePermissions.parse(stream([b]))
  for k, f in enumerate(FLAGS): c.same(getattr(p, f), bool((b >> (7 - k)) & 1), f)
  c.same(raw(p), [b], "byte")


def permissions_default(c):
  p = FilePermissions()
  c.same(raw(p), [0x3F], "full access, not encrypted nor executable, unless told otherwise")


def permissions_types(c):
  names = ["encrypted", "executeable", "user_readable", "user_writeable", "user_executeable", "guest_readable", "guest_writeable",
           "guest_executeable"]
  f = c.choice("flag", names)
  bad = c.choice("bad", [None, c.int("n", -3, 3), "x", c.bool("b")])
  rejects(c, lambda: FilePermissions(**{f: bad}), isinstance(bad, bool), "flag")


def properties(c):
  codec(c, gen.properties(c, "p"), FileProperties.parse)


def properties_decode(c):
  b = c.byte("b")
  p, e = c.attempt(FileProperties.parse, stream([b]))
  cond = (b >> 4) & 7
  if e is not None:
    c.check(isinstance(e, ValueError), "unknown condition is a ValueError")
    c.check(cond > 3, "known condition rejected")
  else:
    c.check(c.both(cond <= 3, p.act_condition.value == cond, p.storage_class.value == b & 3), "fields")
    c.same(p.act_enabled, b >= 128, "enabled")


def properties_types(c):
  which = c.pick("which", 0, 2)
  bad = c.choice("bad", [None, c.int("n", 0, 3), True, ActionCondition.READ, StorageClass.VOLATILE])
  a = [True, ActionCondition.WRITE, StorageClass.PERMANENT]
  ok = isinstance(bad, [bool, ActionCondition, StorageClass][which])
  a[which] = bad
  rejects(c, lambda: FileProperties(*a), ok, "property")


def header(c):
  codec(c, gen.header(c, "h"), FileHeader.parse)


def header_decode(c):
  b = c.bytes("b", 12)
  c.assume(((b[1] >> 4) & 7) <= 3)
  p = FileHeader.parse(stream(b))
  c.check(c.both(p.alp_command_file_id == b[2], p.interface_file_id == b[3], p.file_size == num(b[4:8]),
                 p.allocated_size == num(b[8:12])), "fields")
  c.same(raw(p), [b[0], b[1] & 0xF3] + b[2:], "serialises back, reserved bits cleared")


def header_truncated(c):
  truncated(c, gen.header(c, "h").bytes, FileHeader.parse)


def header_range(c):
  f = c.choice("field", ["alp_command_file_id", "interface_file_id", "file_size", "allocated_size"])
  v = c.int("v", -70000, 1 << 33)
  top = 255 if f.endswith("id") else 0xFFFFFFFF
  a = {"alp_command_file_id": 1, "interface_file_id": 2, "file_size": 3, "allocated_size": 4}
  a[f] = v
  perm, prop = FilePermissions(), FileProperties(True, ActionCondition.READ, StorageClass.PERMANENT)
  rejects(c, lambda: FileHeader(perm, prop, **a), c.both(v >= 0, v <= top), f)


def header_types(c):
  which = c.pick("which", 0, 5)
  perm, prop = FilePermissions(), FileProperties(True, ActionCondition.READ, StorageClass.PERMANENT)
  bad = c.choice("bad", [None, perm, prop, CT(1, 1), c.int("n", 0, 255), "x"])
  a = [perm, prop, 1, 2, 3, 4]
  a[which] = bad
  ok = (which == 0 and bad is perm) or (which == 1 and bad is prop) or (which > 1 and c.isint(bad))
  rejects(c, lambda: FileHeader(*a), ok, "part")


def header_eq(c):
  a, b = gen.header(c, "a"), gen.header(c, "b")
  same = c.eq(a.bytes, b.bytes)
  c.same(bool(a.obj == b.obj), bool(same), "equal exactly when all fields are")
  c.same(bool(a.obj != b.obj), not same, "unequal exactly when not equal")


def other_eq(c):
  h = gen.header(c, "h").obj
  for o in (h, h.permissions, h.properties):
    for other in (None, 1, "x", CT(1, 1)):
      c.check(not (o == other), "equal to another kind of object")
      c.check(o != other, "not unequal to another kind of object")


def operand(c):
  codec(c, gen.header_operand(c, "o"), FileHeaderOperand.parse)


def operand_truncated(c):
  truncated(c, gen.header_operand(c, "o").bytes, FileHeaderOperand.parse)


def operand_range(c):
  i = c.int("id", -300, 600)
  h = gen.header(c, "h").obj
  rejects(c, lambda: FileHeaderOperand(i, h), c.both(i >= 0, i <= 255), "file id")


def operand_types(c):
  bad = c.choice("bad", [None, FilePermissions(), c.byte("n")])
  rejects(c, lambda: FileHeaderOperand(1, bad), False, "header")


def members(c):
  codes(c, (ActionCondition, "LIST=0 READ=1 WRITE=2 WRITE_FLUSH=3"), (StorageClass, "TRANSIENT=0 VOLATILE=1 RESTORABLE=2 PERMANENT=3"))


def instances(tier):
  fs = [permissions, permissions_decode, permissions_default, permissions_types, properties, properties_decode, properties_types,
        header, header_decode, header_truncated, header_range, header_types, header_eq, other_eq, operand, operand_truncated,
        operand_range, operand_types, members]
  return [(f.__name__, f, ()) for f in fs]
