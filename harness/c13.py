"""Data returned for every system file: all contents of each structured file (fields as in C12; up to 2 channels of PHY status, thorough 4), offsets 0 and
1..2^30-1, followed by another action; every file id with 0..6 (thorough 0..9) arbitrary bytes; every structured file cut short by 1 byte, and with 1 byte more; every file without a structure of its own with as many
arbitrary bytes as any structured file has, and 65 to 300 of them; a structured file with 128 to 256 bytes more."""
from harness.lib import *
from harness import gen
from harness.gen import *
from harness import c12
from harness.c12 import *
from d7a.alp.parser import Parser

FILES = dict((n, (f, cls, i, ())) for n, f, cls, i in c12.SIMPLE)
FILES.update({"key-14": (lambda c: s_key(c, SecurityKeyFile, 0), SecurityKeyFile, 14, ()),
              "key-24": (lambda c: s_key(c, RootAuthenticationKeyFile, 24), RootAuthenticationKeyFile, 24, ()),
              "key-25": (lambda c: s_key(c, UserAuthenticationKeyFile, 24), UserAuthenticationKeyFile, 25, ()),
              "firmware": (lambda c: s_firmware(c, 6, 7, 33, 126), FirmwareVersionFile, 2, ()),
              "firmware-short": (lambda c: s_firmware(c, 2, 4, 33, 126), FirmwareVersionFile, 2, ())})
ROOM = {0: 8, 1: 56, 2: 17, 5: 9, 6: 3, 10: 7, 11: 16, 14: 16, 24: 40, 25: 40}


def returned(c, id, offset, data):
  """parses a command returning the data, followed by a read"""
  b = [0x20, id] + (offset if isinstance(offset, list) else gen.varlen(offset)) + gen.varlen(len(data)) + list(data)
  s = stream(b + [1, 9, 0, 1])
  cmd = Parser().parse(s, len(b) + 4)
  c.check(s.pos == 8 * (len(b) + 4), "consumed exactly")
  c.check(len(cmd.actions) == 2, "the following action is parsed as well")
  op = cmd.actions[0].operation
  c.check(op.__class__ is ReturnFileData, "operation")
  c.same(list(op.operand.data), data, "the data is delivered unchanged")
  c.check(c.both(op.operand.offset.id == id, op.operand.length.value == len(data)), "file id and length")
  c.check(cmd.actions[1].operation.operand.offset.id == 9, "following action")
  c.same(raw(op), b[1:], "serialises back to what was received")
  return op


def known(c, name):
  f, cls, id, _ = FILES[name]
  spec = f(c)
  op = returned(c, id, 0, spec.bytes)
  check_parsed(c, op, spec, cls, id)


def check_parsed(c, op, spec, cls, id):
  c.check(op.systemfile_type is not None and op.systemfile_type.__class__ is cls and op.systemfile_type.id == id, "recognised as the system file")
  c.check(op.file_data_parsed is not None and op.file_data_parsed.__class__ is cls, "parsed as the system file")
  c.check(spec.match(op.file_data_parsed), "parsed to the fields of the file")
  c.same(raw(op.file_data_parsed), spec.bytes, "the parsed file serialises to the data")


def phy(c, n):
  spec = s_phy_status(c, n)
  op = returned(c, 9, 0, spec.bytes)
  if op.file_data_parsed is not None: check_parsed(c, op, spec, PhyStatusFile, 9)
  else: c.check(op.systemfile_type is None and n > 0, "recognised as the system file")


def access(c):
  k = c.pick("specifier", 0, 14)
  p = gen.access_profile(c, "p")
  op = returned(c, 0x20 + k, 0, p.bytes)
  c.check(op.file_data_parsed.__class__ is AccessProfileFile and op.systemfile_type.id == 0x20 + k, "recognised as the system file")
  c.check(p.match(op.file_data_parsed.access_profile), "parsed to the fields of the file")


def within(c, name):
  """data from within a file is not taken for its start"""
  f, cls, id, _ = FILES[name]
  spec = f(c)
  off = c.int("offset", 1, (1 << 30) - 1)
  n = c.pick("offset_size", 0, 3)
  lo = [0, 1 << 6, 1 << 14, 1 << 22][n]
  c.assume(c.both(off >= max(lo, 1), off < (1 << (6 + 8 * n))))
  b = [(off >> 8 * (n - k)) & 0xFF for k in range(n + 1)]
  b[0] = b[0] + 64 * n
  op = returned(c, id, b, spec.bytes)
  c.check(op.file_data_parsed is None and op.systemfile_type is None, "data from within a file is not its start")


def cut(c, name):
  """data shorter than the file is delivered, and only parsed when it holds all fields"""
  f, cls, id, _ = FILES[name]
  spec = f(c)
  n = len(spec.bytes)
  k = c.choice("have", [n - 1, n // 2, 1, 0])
  op = returned(c, id, 0, spec.bytes[:k])
  if op.file_data_parsed is None: c.check(op.systemfile_type is None, "recognised as the system file but not parsed")
  else:
    c.check(op.file_data_parsed.__class__ is cls and k >= {24: 16, 25: 16, 5: 7}.get(id, n), "parsed although incomplete")
    c.check(spec.match(op.file_data_parsed), "parsed to the fields of the file")


def far_longer(c, name):
  """a file's own bytes with many more after them"""
  f, cls, id, _ = FILES[name]
  spec = f(c)
  n = c.choice("beyond", [128, 256 - len(spec.bytes), 256])
  op = returned(c, id, 0, spec.bytes + c.bytes("more", 2) + [7] * (n - 2))
  c.check(op.file_data_parsed is None and op.systemfile_type is None, "more data than the file holds")


def longer(c, name):
  """data longer than the file is not the file"""
  f, cls, id, _ = FILES[name]
  spec = f(c)
  op = returned(c, id, 0, spec.bytes + c.bytes("more", 1))
  c.check(op.file_data_parsed is None and op.systemfile_type is None, "more data than the file holds")


def anything(c, n):
  """any file, any short data: never fails, and parses only what is a structured file"""
  id = c.byte("file_id")
  d = c.bytes("data", n)
  op = returned(c, id, 0, d)
  if op.file_data_parsed is None: c.check(op.systemfile_type is None, "recognised as the system file but not parsed")
  else:
    c.check(op.systemfile_type.id == id, "taken for another file")
    c.check(n in (3, 7, 8, 9), "parsed although incomplete")
    c.check(op.file_data_parsed.__class__ is op.systemfile_type.__class__, "taken for another file")
    if n == 8: c.check(c.either(id == 0, id == 5), "file")


def unstructured(c, n):
  """files without a structure of their own, and user files: never taken for another file, whatever their contents"""
  id = c.byte("file_id")
  c.assume(c.no(c.either(*[id == k for k in ROOM] + [id == 9, c.both(id >= 0x20, id <= 0x2E)])))
  op = returned(c, id, 0, c.bytes("data", n))
  c.check(op.file_data_parsed is None and op.systemfile_type is None, "taken for another file")


def instances(tier):
  deep = tier != "quick"
  r = []
  for n in sorted(FILES):
    for f in (known, within, cut, longer, far_longer): r.append(("%s-%s" % (f.__name__, n), f, (n,)))
  for n in range(5 if deep else 3): r.append(("phy-%d" % n, phy, (n,)))
  for n in range(10 if deep else 7): r.append(("anything-%d" % n, anything, (n,), {"weight": 3}))
  for n in (0, 1, 2, 3, 7, 8, 9, 16, 17, 40, 56, 65, 128, 255, 256, 300): r.append(("unstructured-%d" % n, unstructured, (n,)))
  return r + [("access", access, (), {"weight": 5})]
