"""Two objects of each of the 49 kinds with any fields (up to two id types, data of 1 to 3 bytes), made, shown, serialised, compared, parsed and refused in turn; commands built in turn;
serial and link layer parsers used in turn with chunks of 3 arbitrary bytes and frames cut anywhere."""
from harness.things import *
from harness.lib import raw, rejects
from harness.serial_frames import frame
from d7a.dll.parser import Parser as DllParser, FrameType
from d7a.serial_modem_interface.parser import Parser as SerialParser, MessageType
from d7a.system_files.system_files import SystemFiles
from d7a.system_files.system_file_ids import SystemFileIds


def show(o):
  str(o)
  if hasattr(o, "as_dict"): o.as_dict()


def again(c, name):
  """serialising, showing and comparing an object does not change it"""
  _, make, parse = kind(name)
  s = make(c, "a")
  b = raw(s.obj)
  if s.bytes is not None: c.same(b, s.bytes, "its bytes")
  show(s.obj)
  half = iter(s.obj)
  next(half, None)
  c.check(s.match(s.obj), "its fields are as given")
  c.same(raw(s.obj), b, "the same bytes again")
  s.obj == s.obj
  rest = [ord(x) if isinstance(x, str) else x for x in half]
  c.same(rest, b[1:], "an iteration begun before goes on with the bytes after")
  c.same(raw(s.obj), b, "and again")
  c.check(s.match(s.obj), "its fields are still as given")


def others(c, name):
  """another object of the kind, made, used and parsed later, does not change it"""
  _, make, parse = kind(name)
  s = make(c, "a")
  b = raw(s.obj)
  t = make(c, "b")
  d = raw(t.obj)
  if t.bytes is not None: c.same(d, t.bytes, "the other has its own bytes")
  show(t.obj)
  c.check(t.match(t.obj), "the other has its own fields")
  if name != "header": s.obj == t.obj   # (C04 compares headers)
  c.check(s.match(s.obj), "the first keeps its fields")
  c.same(raw(s.obj), b, "the first keeps its bytes")


def parsing(c, name):
  """parsing takes nothing from, and leaves nothing in, other objects or the bytes it reads"""
  _, make, parse = kind(name)
  s, t = make(c, "a"), make(c, "b")
  b, d = raw(s.obj), raw(t.obj)
  given = bytearray(b)
  p = parse(stream(given), len(b))
  q = parse(stream(d), len(d))
  c.attempt(parse, stream(d[:-1]), len(d))
  r = parse(stream(given), len(b))
  c.same(list(given), b, "the bytes read are not changed")
  c.check(c.both(s.match(p), s.match(r), t.match(q)), "each has the fields of its own bytes")
  c.check(c.both(s.match(s.obj), t.match(t.obj)), "the objects they were made from keep theirs")
  c.same(raw(r), raw(p), "parsing again gives the same")


def file_table(c):
  """data received for a system file changes neither the table of system files nor data received before"""
  before = [(i, raw(SystemFiles.files[i])) for i in (SystemFileIds.UID, SystemFileIds.FIRMWARE_VERSION, SystemFileIds.DLL_CONFIG, SystemFileIds.VID)]
  v, k, w = c.int("vid", 0, 0xFFFF), c.byte("control"), c.int("vid2", 0, 0xFFFF)
  f = lambda x: ReturnFileData(operand=Data(offset=Offset(id=6), data=[x >> 8, x & 255, k]))
  o = f(v)
  o2 = f(w)
  c.check(c.both(o.file_data_parsed.vid == v, o2.file_data_parsed.vid == w), "each its own contents")
  show(o)
  c.check(c.both(*[c.eq(raw(SystemFiles.files[i]), b) for i, b in before]), "the table is as before")
  c.check(SystemFiles.files[SystemFileIds.VID] is not o.file_data_parsed, "its entries are no received files")


def commands(c):
  """what is added to one command is in that command only"""
  c.attempt(lambda: None)
  i, j, l = c.byte("i"), c.byte("j"), c.int("l", 0, 63)
  actions = [RegularAction(operation=ReadFileData(operand=DataRequest(length=l, offset=Offset(id=i))))]
  plain = Command(generate_tag_request_action=False)
  a = Command(actions, generate_tag_request_action=False)
  a.add_action(RegularAction(operation=ReadFileData(operand=DataRequest(length=l, offset=Offset(id=j)))))
  a.add_forward_action(InterfaceType.D7ASP)
  a.add_indirect_forward_action(j)
  b = Command(generate_tag_request_action=False)
  d = Command(actions, generate_tag_request_action=False)
  c.check(len(actions) == 1, "the list given is not changed")
  c.same(raw(plain), [], "an empty command stays empty")
  c.same(raw(b), [], "a new command is empty")
  c.same(raw(d), [1, i, 0, l], "a command has the actions it was given")
  c.same(raw(a), [1, i, 0, l, 1, j, 0, l] + [50, 0xD7] + raw(Configuration()) + [51, j], "and those added to it")
  x, y = Command(tag_id=3), Command(tag_id=4)
  c.same(raw(x) + raw(y), [0x80 + 52, 3, 0x80 + 52, 4], "each its own tag")


def data_lists(c):
  """the data given is neither changed nor shared with what is parsed"""
  d = c.bytes("d", 3)
  given = list(d)
  f = Command.create_with_write_file_action(0x40, given)
  g = Command.create_with_return_file_data_action(0x40, given)
  raw(f)
  raw(g)
  show(g)
  c.same(given, d, "the data given is as before")
  e = Data()
  c.check(len(e.data) == 0, "no data by default")


def parsers(c):
  """serial parsers in turn, each with its own buffer and counters"""
  p, q = SerialParser(skip_alp_parsing=True), SerialParser(skip_alp_parsing=True)
  x, y = c.bytes("x", 3), c.bytes("y", 3)
  n, m = c.byte("n"), c.byte("m")
  alone, alone2 = SerialParser(skip_alp_parsing=True), SerialParser(skip_alp_parsing=True)
  fx, fy = frame(c, n, 1, x[:2]), frame(c, m, 4, y[:1])
  one = [alone.parse(bytearray(z))[:2] for z in (fx[:5], fx[5:], x)]
  two = [alone2.parse(bytearray(z))[:2] for z in (fy[:3], fy[3:], y)]
  got, got2 = [], []
  for k in range(3):
    got.append(p.parse(bytearray([fx[:5], fx[5:], x][k]))[:2])
    got2.append(q.parse(bytearray([fy[:3], fy[3:], y][k]))[:2])
  c.check(c.both(c.eq(listed(got), listed(one)), c.eq(listed(got2), listed(two))), "the messages of its own stream")
  c.check(c.both(c.eq(state(p), state(alone)), c.eq(state(q), state(alone2))), "its own bytes awaited and counters")
  a = Command(actions=[], tag_id=1)
  c.same(list(p.build_serial_frame(a))[2], list(q.build_serial_frame(a))[2], "its own numbering")


def link_parsers(c):
  """parsers of link layer frames in turn, each with its own buffer"""
  a, b = c18.background(c, "a"), c18.background(c, "b")
  p, q = DllParser(FrameType.BACKGROUND), DllParser(FrameType.BACKGROUND)
  k, j = c.pick("cut", 1, 5), c.pick("cut2", 1, 5)
  c.check(p.parse(a.bytes[:k])[0] == [None] and q.parse(b.bytes[:j])[0] == [None], "both awaited")
  x, y = p.parse(a.bytes[k:]), q.parse(b.bytes[j:])
  c.check(x[0][0] is not None and y[0][0] is not None and c.both(a.match(x[0][0]), b.match(y[0][0])), "each its own frame")
  c.check(len(p.buffer) == 0 and len(q.buffer) == 0, "and nothing else")


def listed(rs): return [[list(k), [[ord(z) if isinstance(z, str) else z for z in m] for m in ms]] for k, ms in rs]


def state(p): return [list(p.buffer), p.down_counter, p.error_counter, p.up_counter]


def instances(tier):
  r = []
  for name, make, parse in KINDS:
    heavy = {"weight": 5, "seconds": 400}
    r.append(("again " + name, again, (name,), heavy))
    r.append(("others " + name, others, (name,), heavy))
    if parse is not None: r.append(("parsing " + name, parsing, (name,), heavy))
  return r + [(f.__name__, f, ()) for f in (file_table, commands, data_lists, parsers, link_parsers)]
