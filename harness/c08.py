"""Commands built by every factory and by hand: tags 0..255 (drawn or given), every interface type with arbitrary configurations, arbitrary
file ids, offsets and lengths 0..2^30-1, data of 0, 1, 4, 64, 128, 255 and 256 (thorough also 0..16, 32 and 63) bytes, up to 3 (thorough 4) actions in every order, commands of 40 and 130 actions of alternating kinds, an optional interface
status at every position.  Random numbers are inputs (any value in the requested range)."""
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.alp.parser import Parser
from d7a.parse_error import ParseError
from d7a.alp.operations.status import InterfaceStatus
from d7a.alp.operands.interface_status import InterfaceStatusOperand
from d7a.system_files.uid import UidFile
from d7a.system_files.vid import VidFile
from d7a.system_files.security_key import SecurityKeyFile
from d7a.system_files.access_profile import AccessProfileFile
from d7a.system_files.engineering_mode import EngineeringModeFile, EngineeringModeMode

DEFAULT_D7ASP = [0x00, 0x00, 0x10, 0x00]
KINDS = [InterfaceType.HOST] + FORWARDS


def target(c, n="itf", kinds=KINDS, types=ID_TYPES):
  """(arguments of a factory, bytes of the forward action it must prepend)"""
  k = c.choice(n + ".kind", kinds)
  if k == InterfaceType.HOST:
    return dict(c.choice(n + ".explicit", [{}, {"interface_type": k}])), []
  args = {"interface_type": k}
  inner = []
  if k == InterfaceType.D7ASP:
    if c.choice(n + ".configured", [False, True]):
      s = configuration(c, n + ".d7asp", types)
      args["interface_configuration"] = s.obj
      inner = s.bytes
    else: inner = DEFAULT_D7ASP
  elif k in (InterfaceType.LORAWAN_ABP, InterfaceType.LORAWAN_OTAA):
    s = abp(c, n + ".abp") if k == InterfaceType.LORAWAN_ABP else otaa(c, n + ".otaa")
    args["interface_configuration"] = s.obj
    inner = s.bytes
  
  return args, [50, k.value] + inner


def head(c, cmd, lo=1):
  """the tag request in front of a command with a drawn tag: the tag is the one drawn"""
  t = cmd.tag_id
  c.check(c.both(t >= 0, t <= 255), "tag in range")

  return [0x80 + 52, t]


def framed(c, cmd, body, what):
  b = raw(cmd)
  c.observe("bytes", b)
  c.same(b, head(c, cmd) + body, what)
  c.same(raw(cmd), b, "serialising again gives the same bytes")


def read(c):
  a, fwd = target(c)
  i, off, n = c.byte("id"), c.int("offset", 0, TOP), c.int("length", 0, TOP)
  cmd = Command.create_with_read_file_action(i, n, off, **a)
  framed(c, cmd, fwd + [1, i] + varlen(off) + varlen(n), "tag request, forward, read")


def read_default(c):
  i, n = c.byte("id"), c.int("length", 0, TOP)
  framed(c, Command.create_with_read_file_action(i, n), [1, i, 0] + varlen(n), "tag request, read from the start")


def write(c, n):
  a, fwd = target(c)
  i, off, d = c.byte("id"), c.int("offset", 0, TOP), c.bytes("data", n)
  cmd = Command.create_with_write_file_action(i, list(d), off, **a)
  framed(c, cmd, fwd + [4, i] + varlen(off) + varlen(n) + d, "tag request, forward, write")


def give(c, n):
  a, fwd = target(c)
  i, off, d = c.int("id", 0x40, 255), c.int("offset", 0, TOP), c.bytes("data", n)
  given = c.choice("given", [False, True])
  if given:
    t = c.byte("tag")
    cmd = Command.create_with_return_file_data_action(i, list(d), off, tag_id=t, **a)
    c.check(cmd.tag_id == t, "the tag given")
  else:
    cmd = Command.create_with_return_file_data_action(i, list(d), off, **a)
  framed(c, cmd, fwd + [32, i] + varlen(off) + varlen(n) + d, "tag request, forward, return data")


def read_header(c):
  a, fwd = target(c)
  i = c.byte("id")
  framed(c, Command.create_with_read_file_header(i, **a), fwd + [2, i], "tag request, forward, read header")


def write_header(c):
  a, fwd = target(c, types=[IdType.NOID, IdType.UID])
  i, h = c.byte("id"), header(c, "h")
  framed(c, Command.create_with_write_file_header(i, h.obj, **a), fwd + [6, i] + h.bytes, "tag request, forward, write header")


def create(c):
  a, fwd = target(c, types=[IdType.NOID, IdType.UID])
  i, h = c.byte("id"), header(c, "h")
  framed(c, Command.create_with_create_new_file(i, h.obj, **a), fwd + [17, i] + h.bytes, "tag request, forward, create file")


def system(c):
  """a system file is read and written as a whole, under its own id"""
  a, fwd = target(c, types=[IdType.NOID, IdType.VID])
  k = c.choice("file", ["uid", "vid", "engineering", "access"])
  if k == "uid":
    u = c.int("uid", 0, (1 << 64) - 1)
    f, i, d = UidFile(u), 0, be(u, 8)
  elif k == "vid":
    v, ctrl = c.int("vid", 0, 0xFFFF), c.byte("control")
    f, i, d = VidFile(v, ctrl), 6, be(v, 2) + [ctrl]
  elif k == "engineering":
    m, flags, t, e = c.enum("mode", EngineeringModeMode), c.byte("flags"), c.byte("timeout"), c.int("eirp", -128, 127)
    ch = channel_id(c, "ch")
    f, i = EngineeringModeFile(mode=m, flags=flags, timeout=t, channel_id=ch.obj, eirp=e), 5
    d = [m.value, flags, t] + ch.bytes + [sint8(e), 0, 0]
  else:
    p = access_profile(c, "p")
    s = c.pick("specifier", 0, 14)
    f, i, d = AccessProfileFile(s, p.obj), 0x20 + s, p.bytes
  cmd = Command.create_with_read_file_action_system_file(f, **a)
  framed(c, cmd, fwd + [1, i, 0] + varlen(f.length), "tag request, forward, read of the whole file")
  cmd = Command.create_with_write_file_action_system_file(f, **a)
  framed(c, cmd, fwd + [4, i, 0] + varlen(len(d)) + d, "tag request, forward, write of the whole file")


def refused(c):
  """a configuration makes no sense for the host interface; other interfaces are refused"""
  conf = c.choice("conf", [Configuration(), LoRaWANInterfaceConfigurationOTAA(True, False, 1, 2)])
  i = c.byte("id")
  f = c.choice("factory", [
    lambda **k: Command.create_with_read_file_action(i, 4, **k), lambda **k: Command.create_with_write_file_action(i, [1], **k),
    lambda **k: Command.create_with_return_file_data_action(i, [1], **k), lambda **k: Command.create_with_read_file_header(i, **k),
    lambda **k: Command().add_forward_action(**k)])
  k = c.choice("kind", [InterfaceType.HOST, None, 0xD7])
  _, e = c.attempt(f, interface_type=k, interface_configuration=conf)
  c.check(isinstance(e, ValueError), "refused")


def ranges(c):
  i, off, n = c.int("id", -2, 300), c.int("offset", -2, 1 << 31), c.int("length", -2, 1 << 31)
  ok = c.both(i >= 0, i <= 255, off >= 0, off <= TOP, n >= 0, n <= TOP)
  rejects(c, lambda: Command.create_with_read_file_action(i, n, off), ok, "read")


def ranges_data(c):
  """file ids, offsets, data and tags of the other factories"""
  i, off, x, t = c.int("id", -2, 300), c.int("offset", -2, 1 << 31), c.int("x", -2, 300), c.int("tag", -2, 300)
  ok = c.both(i >= 0, i <= 255, off >= 0, off <= TOP, x >= 0, x <= 255)
  if c.choice("factory", ["write", "give"]) == "write":
    rejects(c, lambda: Command.create_with_write_file_action(i, [1, x], off), ok, "write")
  else:
    rejects(c, lambda: list(Command.create_with_return_file_data_action(i, [x, 2], off, tag_id=t)), c.both(ok, t >= 0, t <= 255), "return data")


def ranges_header(c):
  i = c.int("id", -2, 300)
  h = FileHeader(FilePermissions(), FileProperties(True, ActionCondition.READ, StorageClass.VOLATILE), 1, 2, 3, 4)
  f = c.choice("factory", [lambda: Command.create_with_read_file_header(i), lambda: Command.create_with_write_file_header(i, h),
                           lambda: Command.create_with_create_new_file(i, h), lambda: Command().add_indirect_forward_action(i),
                           lambda: Command().add_indirect_forward_action(i, True, Addressee())])
  rejects(c, f, c.both(i >= 0, i <= 255), "file id")


def parts(c):
  """arguments of the wrong kind"""
  bad = c.choice("bad", [None, "x", 3, TagId(1), [1]])
  k = c.pick("factory", 0, 5)
  f = [lambda: Command.create_with_write_file_header(1, bad), lambda: Command.create_with_create_new_file(1, bad),
       lambda: Command().add_indirect_forward_action(1, True, bad), lambda: Command().add_forward_action(InterfaceType.D7ASP, bad),
       lambda: Command.create_with_write_file_action(1, [bad]), lambda: Command.create_with_return_file_data_action(0x40, [1, bad])][k]
  c.assume(k != 3 or not isinstance(bad, TagId))       # any part of the library may be a configuration
  rejects(c, f, bad == 3 if k > 3 else bad is None and k in (2, 3), "part")


MAKERS = [lambda c, n: read_data(c, n, top=63), lambda c, n: write_data(c, n, 2, top=63), lambda c, n: return_data(c, n, 1, top=63, ids=(0x40, 255)),
          lambda c, n: create_file(c, n), lambda c, n: forward(c, n, types=[IdType.VID]), lambda c, n: indirect_forward(c, n, types=[IdType.UID])]
SHORT = [MAKERS[0], MAKERS[1], MAKERS[5]]


def some_actions(c, n, makers):
  return [makers[c.pick("a%d.maker" % k, 0, len(makers) - 1)](c, "a%d" % k) for k in range(n)]


def interface_status(c, n, types=[IdType.VID]):
  s = status(c, n, types)
  o = StatusAction(status_operand_extension=StatusActionOperandExtensions.INTERFACE_STATUS,
                   operation=InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0xD7, interface_status=s.obj)))
  return o, [64 + 34, 0xD7], s


def built(c, n, makers):
  """tag request (when wanted), then the interface status, then the actions in the order given and added"""
  acts = some_actions(c, n, makers)
  later = c.pick("added", 0, n)
  where = c.pick("status", 0, n - later + 1)   # position of the interface status, the last one: none
  objs = [a.obj for a in acts[:n - later]]
  sb = []
  if where <= n - later:
    so, hd, s = interface_status(c, "s")
    objs.insert(where, so)
    sb = hd + s.bytes
  gen_tag = c.choice("generate", [True, False])
  want = c.bool("want")
  given = c.choice("given", [False, True])
  t = c.byte("tag") if given else None
  k = len(objs)
  cmd = Command(objs, generate_tag_request_action=gen_tag, tag_id=t, send_tag_response_when_completed=want)
  for a in acts[n - later:]: cmd.add_action(a.obj)
  if given: c.check(cmd.tag_id == t, "the tag given")
  elif not gen_tag: c.check(cmd.tag_id is None, "no tag")
  body = list(sb)
  for a in acts: body = body + a.bytes
  first = [c.ite(want, 128, 0) + 52, cmd.tag_id] if gen_tag else []
  if gen_tag: c.check(c.both(cmd.tag_id >= 0, cmd.tag_id <= 255), "tag in range")
  b = raw(cmd)
  c.observe("bytes", b)
  c.same(b, first + body, "tag request, status, actions in order")
  c.check(len(objs) == k, "the list of actions given is not changed")
  c.check(len(cmd.actions) == n, "the actions")
  c.check(all([x is y.obj for x, y in zip(cmd.actions, acts)]), "the same actions, in order")


def round_trip(c, n, makers, with_status):
  """what the other side reads: the tag, every action with equal fields, in order"""
  acts = some_actions(c, n, makers)
  want, t = c.bool("want"), c.byte("tag")
  cmd = Command([a.obj for a in acts], tag_id=t, send_tag_response_when_completed=want)
  b = raw(cmd)
  if with_status:
    s = status(c, "s", [c.choice("s.type", ID_TYPES)])
    b = b + [64 + 34, 0xD7, len(s.bytes)] + s.bytes
  st = stream(b + c.bytes("tail", 2))
  p = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(c.both(p.tag_id == t, c.eq(p.send_tag_response_when_completed, want), c.eq(p.execution_completed, False)), "tag and flag")
  c.check(len(p.actions) == n, "number of actions")
  c.check(c.both(True, *[a.match(x) for a, x in zip(acts, p.actions)]), "equal actions in order")
  if with_status:
    d = p.get_d7asp_interface_status()
    c.check(d is not None, "status found")
    c.check(s.match(d), "status")
  else:
    c.check(p.interface_status is None and p.get_d7asp_interface_status() is None, "no status")


def many(c, n):
  """a command of many actions: all of them, in order, also when it is longer than 255 bytes"""
  acts = [(return_data if k % 3 else read_data)(c, "a%d" % k, *([1] if k % 3 else []), **{"top": 63}) for k in range(n)]
  t = c.byte("tag")
  cmd = Command([a.obj for a in acts[:n // 2]], tag_id=t)
  for a in acts[n // 2:]: cmd.add_action(a.obj)
  b = [128 + 52, t]
  for a in acts: b = b + a.bytes
  c.same(raw(cmd), b, "tag request, actions in order")
  st = stream(b + c.bytes("tail", 1))
  p = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(len(p.actions) == n, "number of actions")
  c.check(c.both(p.tag_id == t, *[a.match(x) for a, x in zip(acts, p.actions)]), "equal actions in order")


def answer(c):
  """an answer: tag response with its flags anywhere between the actions"""
  eop, err, t = c.bool("eop"), c.bool("err"), c.byte("tag")
  a = [return_data(c, "a0", 1), return_data(c, "a1", 2, top=63)]
  at = c.pick("at", 0, 2)
  parts = [x.bytes for x in a]
  parts.insert(at, [c.ite(eop, 128, 0) + c.ite(err, 64, 0) + 35, t])
  b = []
  for x in parts: b = b + x
  p = Parser().parse(stream(b), len(b))
  c.check(c.both(p.tag_id == t, c.eq(p.execution_completed, eop), c.eq(p.completed_with_error, err)), "tag and flags")
  c.check(len(p.actions) == 2, "two actions")
  c.check(c.both(a[0].match(p.actions[0]), a[1].match(p.actions[1])), "equal actions in order")
  c.same(raw(p), a[0].bytes + a[1].bytes, "no tag request is made for it")


def once(c):
  """one tag and one interface status at most"""
  t1, t2 = c.byte("t1"), c.byte("t2")
  req = lambda t: TagRequestAction(True, TagRequest(operand=TagId(t)))
  resp = lambda t: TagResponseAction(True, False, TagResponse(operand=TagId(t)))
  stat = lambda: StatusAction(StatusActionOperandExtensions.INTERFACE_STATUS, InterfaceStatus(operand=InterfaceStatusOperand(0, None)))
  mid = RegularAction(operation=ReadFileData(operand=DataRequest(length=1)))
  xs = c.choice("xs", [[req(t1), req(t2)], [req(t1), resp(t2)], [resp(t1), req(t2)], [resp(t1), resp(t2)], [stat(), stat()],
                       [stat(), mid, stat()], [req(t1), mid, resp(t2)]])
  _, e = c.attempt(Command, xs, c.choice("gen", [True, False]))
  c.check(isinstance(e, ParseError), "refused with a parse error")
  y = c.choice("y", [req(t1), resp(t1)])
  _, e = c.attempt(Command, [y], tag_id=t2)
  c.check(isinstance(e, ParseError), "a second tag refused with a parse error")


def twice(c):
  """the same on the wire: tags and statuses appearing twice"""
  t = c.bytes("t", 2)
  k = c.choice("k", [[52, t[0], 52, t[1]], [128 + 52, t[0], 35, t[1]], [64 + 34, 1, 0, 64 + 34, 0, 0]])
  _, e = c.attempt(Parser().parse, stream(k), len(k))
  c.check(isinstance(e, ParseError), "refused with a parse error")


def added_forward(c):
  """forwards added by hand come before what is added after them"""
  gen_tag = False
  cmd = Command(generate_tag_request_action=False)
  x = read_data(c, "x", top=63)
  a, fwd = target(c)
  first = c.choice("first", [True, False])
  if first: cmd.add_action(x.obj)
  cmd.add_forward_action(**a)
  y = write_data(c, "y", 1, top=63)
  cmd.add_action(y.obj)
  c.same(raw(cmd), (x.bytes if first else []) + fwd + y.bytes, "in the order added")


def added_indirect(c):
  i = c.byte("file")
  overload = c.choice("overload", [None, False, True])
  s = addressee(c, "a") if c.choice("given", [True, False]) or overload else None
  cmd = Command(generate_tag_request_action=False)
  k = {} if overload is None else {"overload": overload}
  if s: k["overload_configuration"] = s.obj
  cmd.add_indirect_forward_action(i, **k)
  c.same(raw(cmd), [51 + (128 if overload else 0), i] + (s.bytes if overload else []), "overloaded on request only")
  p = Parser().parse(stream(raw(cmd)), len(raw(cmd)))
  c.same(raw(p), raw(cmd), "reads back")


def separate(c):
  """commands do not share their actions or tags"""
  a, b = Command(), Command()
  x = read_data(c, "x")
  a.add_action(x.obj)
  c.check(len(b.actions) == 0 and len(Command().actions) == 0, "not shared")
  c.same(raw(b), [0x80 + 52, b.tag_id], "only a tag request")
  c.same(raw(a), [0x80 + 52, a.tag_id] + x.bytes, "its own")


def d7asp_status(c):
  """the status of a session is found for its interface only"""
  i = c.byte("interface")
  st = status(c, "s", [IdType.NOID])
  has = c.choice("has", [True, False])
  act = StatusAction(StatusActionOperandExtensions.INTERFACE_STATUS, InterfaceStatus(operand=InterfaceStatusOperand(i, st.obj if has else None)))
  cmd = Command([act], False)
  r = cmd.get_d7asp_interface_status()
  if i == 0xD7: c.check(r is (st.obj if has else None), "the status")
  else: c.check(r is None, "no status for another interface")


def kinds(c):
  bad = c.choice("bad", [None, 3, "x", TagId(1), [1]])
  _, e = c.attempt(Command, [bad])
  c.check(isinstance(e, ValueError), "not an action: refused")


def instances(tier):
  deep = tier != "quick"
  r = [(f.__name__, f, ()) for f in (read, read_default, read_header, write_header, create, system, refused, ranges, ranges_data, ranges_header, parts, answer, once, twice,
                                     added_forward, added_indirect, separate, d7asp_status, kinds)]
  for n in (range(0, 17) + [32, 63, 64, 128, 255, 256, 300] if deep else (0, 1, 4, 64, 128, 255, 256)):
    r.append(("write-%d" % n, write, (n,), {"weight": 2}))
    r.append(("give-%d" % n, give, (n,), {"weight": 2}))
  for n in range(0, 4 if deep else 3):
    m = MAKERS if n < 2 else (MAKERS[:3] + MAKERS[4:] if n == 2 and deep else SHORT[:2])
    r.append(("built-%d" % n, built, (n, m), {"weight": 1 + 3 * n}))
  for n in range(0, 4):
    m = MAKERS if n < 2 else (MAKERS[:3] + MAKERS[4:] if n == 2 or deep else SHORT)
    for s in (False, True): r.append(("round-trip-%d%s" % (n, "-status" if s else ""), round_trip, (n, m, s), {"weight": 1 + 4 * n}))
  for n in (40, 130): r.append(("many-%d" % n, many, (n,), {"weight": n / 10, "max_steps": 900000}))
  if deep: r.append(("round-trip-4", round_trip, (4, SHORT, False), {"weight": 9}))
  return r
