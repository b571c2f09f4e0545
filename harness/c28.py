"""The program tools/parse_hexstring.py run with the bytes of commands of one or two actions, serial streams of up to two messages (commands with noise before them, reboots, log lines), foreground and background frames and
every structured system file, with any fields, as hex digits of either case, with blanks in four places; unreadable bytes of every kind."""
from harness import c12, c18, gen
from harness.things import *
from harness.serial_frames import frame
from harness.lib import raw, stream
from d7a.alp.parser import Parser as AlpParser
from d7a.dll.parser import Parser as DllParser, FrameType
from d7a.serial_modem_interface.parser import Parser as SerialParser, MessageType
from d7a.system_files.system_files import SystemFiles
from d7a.system_files.system_file_ids import SystemFileIds
from d7a.system_files.user_authentication_key import UserAuthenticationKeyFile

TOOL = "tools/parse_hexstring.py"


def hexed(c, bs, style):
  """hex digits of bs: lower or upper case, with blanks"""
  big = style in ("upper", "spaced")
  out = [32] if style == "around" else []
  for k, b in enumerate(bs):
    if k and style == "spaced": out.append(32)
    for d in (b >> 4, b & 15): out.append(c.ite(d < 10, d + 48, d + (55 if big else 87)))
  return c.tostr(out + ([32, 10] if style == "around" else []))


def printed(c, args, bs, want, style="lower"):
  r, t = c.program(TOOL, [TOOL] + args + [hexed(c, bs, style)])
  c.check(not isinstance(r, Exception) and r == 0, "data that can be read is printed")
  c.check(c.eq(t, want), "what the data holds is printed, in order")


def lines(c, xs):
  """the text of printing each of xs"""
  t = ""
  for x in xs: t = "{}{}\n".format(t, x)
  return t


STYLES = ["lower", "upper", "spaced", "around"]


def alp(c, styles, n):
  acts = [read_data(c, "a", 63), write_data(c, "b", 1, 63)]
  acts = [acts[c.pick("action%d" % k, 0, 1)] for k in range(n)]
  b = sum([a.bytes for a in acts], [])
  cmd = AlpParser().parse(stream(b), len(b))
  printed(c, ["-t", "alp"], b, lines(c, [cmd]), c.choice("style", styles))


def response(c):
  b = [0x23, c.byte("tag")] + return_data(c, "d", 2, 63).bytes
  cmd = AlpParser().parse(stream(b), len(b))
  printed(c, ["--type", "alp"], b, lines(c, [cmd]))


def serial(c, n, noise):
  bs = c.bytes("noise", noise)
  for b in bs: c.assume(b != 0xC0)
  for k in range(n):
    a = read_data(c, "a%d" % k, 63)
    bs = bs + frame(c, k + 1, 1, a.bytes)
  p = SerialParser()
  kinds, cmds, info = p.parse(bytearray(bs))
  c.check(len(cmds) == n, "as many messages")
  printed(c, ["-t", "serial"], bs, lines(c, cmds + [info]))


def messages(c, n):
  """messages of other kinds: reboots for any reason, log lines of any (also no) printable characters"""
  bs = []
  for k in range(n):
    t = c.choice("kind%d" % k, [5, 4, 1])
    if t == 5: d = [c.byte("reason%d" % k)]
    elif t == 4: d = [c.int("text%d.%d" % (k, j), 32, 126) for j in range(c.pick("length%d" % k, 0, 2))]
    else: d = read_data(c, "a%d" % k, 63).bytes
    bs = bs + frame(c, k + 1, t, d)
  p = SerialParser()
  kinds, cmds, info = p.parse(bytearray(bs))
  c.check(len(cmds) == n, "as many messages")
  printed(c, ["-t", "serial"], bs, lines(c, cmds + [info]))


def frames(c, kind):
  make, t = c18.KINDS[kind]
  s = make(c)
  p = DllParser(t)
  fs, info = p.parse(list(s.bytes))
  c.check(len(fs) == 1 and s.match(fs[0]), "the frame")
  printed(c, ["-t", "fg" if kind == "foreground" else "bg"], s.bytes, lines(c, fs + [info]))


def whole_access(c, n):
  p = gen.access_profile(c, n)
  return Spec(AccessProfileFile(0, p.obj), p.bytes, None)


FILES = {"uid": (0, named(c12.s_uid)), "vid": (6, named(c12.s_vid)), "dll_config": (10, named(c12.s_dll_config)), "dll_status": (11, named(c12.s_dll_status)),
         "engineering": (5, named(few_engineering)), "factory": (1, named(c12.s_factory)), "firmware": (2, named(lambda c: c12.s_firmware(c, 6, 7, 33, 126))),
         "key": (14, named(lambda c: c12.s_key(c, SecurityKeyFile, 0))), "root_key": (24, named(lambda c: c12.s_key(c, RootAuthenticationKeyFile, 24))),
         "user_key": (25, named(lambda c: c12.s_key(c, UserAuthenticationKeyFile, 24))), "access": (33, whole_access), "phy": (9, named(few_phy))}


def files(c, name):
  i, make = FILES[name]
  s = make(c, "f")
  p = s.obj.__class__.parse(stream(s.bytes))
  printed(c, ["-t", "systemfile", "-f", str(i)], s.bytes, lines(c, [p]))


def refused(c, t):
  """what cannot be read is reported as an error and nothing is printed"""
  n = c.pick("n", 1, 3)
  d = c.bytes("d", n)
  if t == "alp":
    cmd, e = c.attempt(AlpParser().parse, stream(d), n)
    if e is None: c.assume(False)
    args = ["-t", "alp"]
  elif t == "odd":
    r, out = c.program(TOOL, [TOOL, "-t", "alp", hexed(c, d, "lower") + "1"])
    c.check(r != 0 and c.no(len(out)), "half a byte refused")
    return
  else: args = ["-t", "systemfile", "-f", "1"]
  r, out = c.program(TOOL, [TOOL] + args + [hexed(c, d, "lower")])
  c.check((isinstance(r, Exception) or r != 0) and len(out) == 0, "refused")


def instances(tier):
  q = tier == "quick"
  r = [("alp-1", alp, (STYLES, 1)), ("alp-2", alp, (["lower"] if q else STYLES, 2)), ("response", response, ())]
  for n in ((1, 2) if q else (0, 1, 2, 3)):
    for k in ((0, 1) if q else (0, 1, 2, 3)): r.append(("serial-%d-%d" % (n, k), serial, (n, k)))
  for n in ((1, 2) if q else (1, 2, 3)): r.append(("messages-%d" % n, messages, (n,)))
  for k in ("foreground", "background"): r.append((k, frames, (k,)))
  for k in sorted(FILES): r.append(("file " + k, files, (k,)))
  for k in ("alp", "odd", "systemfile"): r.append(("refused " + k, refused, (k,)))
  return r
