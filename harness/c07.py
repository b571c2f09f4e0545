"""Every parseable action kind (read, write, return data, break query, create file, return header, forward, indirect forward, tag request,
tag response) with arbitrary flags and operand fields; data and compare values of 0, 1, 3, 64, 128, 255, 256 and 300 bytes (in the thorough tier every size 0..80 as well); operation codes: all 64 with every flag pair; operand kinds: every operation with each kind of operand."""
from harness.lib import *
from harness import gen
from harness.gen import *
from d7a.alp.parser import Parser
from d7a.alp.action import Action
from d7a.parse_error import ParseError


def single(c, a):
  """the action alone in a command: same bytes, same fields, nothing but its bytes consumed"""
  b = raw(a.obj)
  c.observe("bytes", b)
  c.same(b, a.bytes, "serialises to the documented bytes")
  s = stream(b + c.bytes("tail", 2))
  cmd = Parser().parse(s, len(b))
  c.check(s.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(len(cmd.actions) == 1, "one action")
  c.check(a.match(cmd.actions[0]), "parses back to the same fields")
  c.same(raw(cmd.actions[0]), a.bytes, "the parsed action serialises to the same bytes")
  c.check(cmd.interface_status is None and cmd.tag_id is None, "no status, no tag")


def read_data(c): single(c, gen.read_data(c, "a"))


def write_data(c, n): single(c, gen.write_data(c, "a", n))


def return_data(c, n): single(c, gen.return_data(c, "a", n))


def break_query(c, n): single(c, gen.break_query(c, "a", n))


def create_file(c): single(c, gen.create_file(c, "a"))


def return_header(c): single(c, gen.return_header(c, "a"))


def forward(c): single(c, gen.forward(c, "a"))


def indirect(c): single(c, gen.indirect_forward(c, "a"))


def tag_request(c):
  resp = c.bool("resp")
  t = gen.tag(c, "t")
  o = TagRequestAction(respond_when_completed=resp, operation=TagRequest(operand=t.obj))
  b = raw(o)
  c.same(b, [c.ite(resp, 128, 0) + 52] + t.bytes, "serialises to the documented bytes")
  st = stream(b + c.bytes("tail", 2))
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(c.both(cmd.tag_id == t.bytes[0], c.eq(cmd.send_tag_response_when_completed, resp), len(cmd.actions) == 0,
                 c.eq(cmd.execution_completed, False)), "tag and flag")


def tag_request_rfu(c):
  b = [c.choice("b7", [0, 128]) + 64 + 52, c.byte("tag")]
  _, e = c.attempt(Parser().parse, stream(b), 2)
  c.check(isinstance(e, ParseError), "reserved bit refused")


def tag_response(c):
  eop, err = c.bool("eop"), c.bool("error")
  t = gen.tag(c, "t")
  o = TagResponseAction(eop=eop, error=err, operation=TagResponse(operand=t.obj))
  b = raw(o)
  c.same(b, [c.ite(eop, 128, 0) + c.ite(err, 64, 0) + 35] + t.bytes, "serialises to the documented bytes")
  st = stream(b + c.bytes("tail", 2))
  cmd = Parser().parse(st, len(b))
  c.check(st.pos == 8 * len(b), "consumes exactly its bytes")
  c.check(c.both(cmd.tag_id == t.bytes[0], c.eq(cmd.execution_completed, eop), c.eq(cmd.completed_with_error, err),
                 len(cmd.actions) == 0), "tag and flags")


def forward_rfu(c):
  b = [128 + c.choice("b6", [0, 64]) + 50, 1]
  _, e = c.attempt(Parser().parse, stream(b), 2)
  c.check(isinstance(e, ParseError), "reserved bit refused")


def opcode(c):
  """codes without a parser are refused with a parse error, whatever follows"""
  b = c.byte("b")
  op = b & 63
  known = [1, 4, 9, 17, 32, 33, 34, 35, 50, 51, 52]
  c.assume(c.no(c.either(*[op == k for k in known])))
  tail = c.bytes("tail", 4)
  _, e = c.attempt(Parser().parse, stream([b] + tail), 5)
  c.check(isinstance(e, ParseError), "unknown operation refused")


def no_operation(c):
  """operations that the parser does not know still have their own codes"""
  g, r = c.bool("group"), c.bool("resp")
  flags = c.ite(g, 128, 0) + c.ite(r, 64, 0)
  c.same(raw(RegularAction(group=g, resp=r)), [flags], "nothing to do")
  i = c.byte("id")
  c.same(raw(RegularAction(group=g, resp=r, operation=ReadFileHeader(operand=FileIdOperand(file_id=i)))), [flags + 2, i], "read header")
  h = gen.header_operand(c, "h")
  c.same(raw(RegularAction(group=g, resp=r, operation=WriteFileHeader(operand=h.obj))), [flags + 6] + h.bytes, "write header")


def operand_kinds(c):
  """an operation accepts its own kind of operand only"""
  kinds = {ReadFileData: DataRequest, ReadFileHeader: FileIdOperand, WriteFileData: Data, WriteFileHeader: FileHeaderOperand,
           ReturnFileData: Data, ReturnFileHeader: FileHeaderOperand, BreakQuery: QueryOperand, CreateNewFile: FileHeaderOperand,
           Forward: InterfaceConfiguration, IndirectForward: IndirectInterfaceOperand, InterfaceStatus: InterfaceStatusOperand,
           TagRequest: TagId, TagResponse: TagId}
  ops = sorted(kinds, key=lambda k: k.__name__)
  op = c.choice("operation", ops)
  operands = [None, c.byte("n"), Data(data=[1]), DataRequest(length=2), FileIdOperand(3), TagId(4),
              FileHeaderOperand(1, FileHeader(FilePermissions(), FileProperties(True, ActionCondition.READ, StorageClass.VOLATILE), 1, 2, 3, 4)),
              QueryOperand(QueryType.ARITH_COMP_WITH_VALUE, False, ArithQueryParams(True, ArithComparisonType.EQUALITY), Length(0), [], Offset()),
              InterfaceConfiguration(InterfaceType.SERIAL), IndirectInterfaceOperand(1), InterfaceStatusOperand(0xD7, None)]
  x = c.choice("operand", operands)
  rejects(c, lambda: op(operand=x), isinstance(x, kinds[op]), "operand")


def no_operand(c):
  _, e = c.attempt(lambda: NoOperation(operand=TagId(1)))
  c.check(e is not None, "operand for an operation without one")


def operation_kind(c):
  bad = c.choice("bad", [None, c.byte("n"), TagId(1), "x"])
  cls = c.choice("class", [Action, RegularAction, ForwardAction, IndirectForwardAction, TagRequestAction])
  _, e = c.attempt(lambda: cls(operation=bad))
  c.check(e is not None, "action without an operation accepted")
  other = c.choice("other", [ForwardAction, IndirectForwardAction])
  rejects(c, lambda: other(operation=ReadFileData(operand=DataRequest(length=1))), False, "operation for a forward action")


def flag_kinds(c):
  bad = c.choice("bad", [None, c.int("n", -1, 2), "x", c.bool("b")])
  op = TagRequest(operand=TagId(1))
  make = c.choice("make", [lambda: RegularAction(group=bad), lambda: RegularAction(resp=bad), lambda: TagRequestAction(bad, op),
                           lambda: TagResponseAction(bad, False, op), lambda: TagResponseAction(True, bad, op),
                           lambda: ForwardAction(bad, Forward(operand=InterfaceConfiguration(InterfaceType.SERIAL))),
                           lambda: IndirectForwardAction(bad, False, IndirectForward(operand=IndirectInterfaceOperand(1))),
                           lambda: IndirectForwardAction(False, bad, IndirectForward(operand=IndirectInterfaceOperand(1)))])
  rejects(c, make, isinstance(bad, bool), "flag")


def data_values(c):
  """file data is a list of bytes"""
  v = c.int("v", -300, 600)
  at = c.pick("at", 0, 2)
  d = [1, 2, 3]
  d[at] = v
  rejects(c, lambda: Data(data=d), c.both(v >= 0, v <= 255), "data")


def data_kinds(c):
  bad = c.choice("bad", ["abc", bytearray([1, 2]), [None], ["x"], [1, [2]], (), [3], (4, 5)])
  rejects(c, lambda: Data(data=bad), isinstance(bad, (list, tuple)) and all([isinstance(x, int) for x in bad]), "data")
  off = c.choice("offset", [None, 3, Length(1), Offset(id=3)])
  rejects(c, lambda: DataRequest(length=1, offset=off), isinstance(off, Offset), "offset")


def request_range(c):
  v = c.int("length", -1000, 1 << 31)
  rejects(c, lambda: DataRequest(length=v), c.both(v >= 0, v <= gen.TOP), "length")


def byte_operands(c):
  v = c.int("v", -300, 600)
  ok = c.both(v >= 0, v <= 255)
  rejects(c, lambda: TagId(tag_id=v), ok, "tag")
  rejects(c, lambda: FileIdOperand(file_id=v), ok, "file id")
  rejects(c, lambda: IndirectInterfaceOperand(interface_file_id=v), ok, "interface file")
  rejects(c, lambda: InterfaceStatusOperand(interface_id=v, interface_status=None), ok, "interface")


def action_codes(c):
  """the code of an action is that of its operation"""
  o = RegularAction(operation=WriteFileData(operand=Data(data=[c.byte("x")])))
  c.check(o.op == 4 and o.operand is o.operation.operand, "code and operand")


def instances(tier):
  fs = [read_data, create_file, return_header, forward, indirect, tag_request, tag_request_rfu, tag_response, forward_rfu, opcode,
        no_operation, operand_kinds, no_operand, operation_kind, flag_kinds, data_values, data_kinds, request_range, byte_operands,
        action_codes]
  r = [(f.__name__, f, ()) for f in fs]
  for n in ([0, 1, 3, 64] if tier == "quick" else range(0, 81) + [127]) + [128, 255, 256, 300]:
    for f in (write_data, return_data, break_query): r.append(("%s-%d" % (f.__name__, n), f, (n,), {"weight": 1 + n / 30}))
  return r
