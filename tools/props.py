PROPS = []
NOT_APPLICABLE = []
NOTES = ("Bounds of each check: docstring of harness/<id>.py, repeated in the evidence file. "
         "Engine: engine/ (runs under the installed Jython 2.7); encodings are built from /repo's source at every run.")


def P(id, title, statement, over, quant, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))


INTS = "Integers as bit-vectors wide enough for their ranges (width growth and explicit range tracking); container and payload sizes bounded as listed in the harness docstring."

P("C01", "Length and offset operands encode and decode every value exactly",
  "A file offset or length from 0 to 2^30-1 serialises to the shortest of the 1, 2, 3 and 4 byte forms, big endian with the size in the two top bits, and parses back to the same value while consuming exactly its own bytes. Every image decodes to the value it denotes, a truncated image is reported as missing data, and out-of-range values are refused with a value error.",
  ["inputs"], "all lengths -1000..2^31, all file ids, all 1 to 5 byte images with every truncation",
  "The tests try a handful of values around two size boundaries; errors in one shift, mask or boundary only show for particular values of the 2^30.",
  ["d7a/alp/operands/length.py", "d7a/alp/operands/offset.py"],
  [("variable length integer", "d7a/alp/operands/length.py Length.parse, Length.__iter__"), ("offset", "d7a/alp/operands/offset.py Offset")], INTS)

P("C02", "Compressed time: codes, durations and rounding are exact",
  "A compressed time is one byte holding mantissa and exponent, denoting the mantissa times four to the exponent; every byte parses to its fields and back. Compressing a duration yields the code at the finest resolution that reaches it, rounded up by less than one step (or down when asked to floor). No code is ever given for a duration that is negative or too long to represent, and fields out of range are refused with a value error.",
  ["inputs"], "every duration 0..507904 and a million values on either side, both rounding modes, every code",
  "Tests sample a few durations; rounding errors appear only at particular remainders and exponent boundaries.",
  ["d7a/types/ct.py"], [("compression", "d7a/types/ct.py CT.compress"), ("codec", "d7a/types/ct.py CT.parse, CT.__iter__")],
  INTS + " math.log is modelled exactly for powers of four.")

P("C03", "Addressee, QoS and session configuration survive serialisation",
  "An addressee (every id type, security method and access class), a quality of service and a session configuration serialise to the documented layout and parse back to equal fields, consuming exactly their own bytes. Identifiers that do not fit the id type, or fields out of range, are refused with a value error, and a truncated image is reported as missing data.",
  ["inputs"], "all field values: 64-bit ids, 16-bit ids, all byte fields, all enum members, all images",
  "Tests round-trip single examples; swapped fields, wrong widths and flag mix-ups need particular combinations.",
  ["d7a/d7anp/addressee.py", "d7a/sp/qos.py", "d7a/sp/configuration.py"],
  [("codec", "d7a/d7anp/addressee.py Addressee.parse/__iter__"), ("codec", "d7a/sp/qos.py"), ("codec", "d7a/sp/configuration.py")], INTS)

P("C04", "File headers, permissions and properties survive serialisation",
  "A file header with any permissions, properties, referenced file ids and sizes serialises to the documented 12 bytes and parses back to equal fields. Each permission flag and each property occupies its own bits, equality holds exactly when all fields agree, and out-of-range fields are refused with a value error.",
  ["inputs"], "all 8 permission flags, all properties, 32-bit sizes, all images and truncations",
  "Tests use one or two header values, so two swapped flags or sizes pass unnoticed.",
  ["d7a/fs/file_header.py", "d7a/fs/file_permissions.py", "d7a/fs/file_properties.py", "d7a/alp/operands/file_header.py"],
  [("codec", "d7a/fs/file_header.py FileHeader"), ("codec", "d7a/fs/file_permissions.py"), ("codec", "d7a/fs/file_properties.py")], INTS)

P("C05", "Channel headers, channel ids, channel status and sub-bands survive serialisation",
  "A channel header, channel id, channel status identifier and sub-band with any fields serialise to the documented bits and parse back to equal fields, and the textual form of a channel id reads back as the same channel id. Channel headers are equal exactly when all their fields are, and out-of-range fields are refused with a value error.",
  ["inputs"], "all bands, classes and codings; 16-bit indices; signed EIRP; all textual indices 000..999",
  "Tests try a few channel combinations; the textual form and the bit packing have thousands.",
  ["d7a/phy/channel_header.py", "d7a/phy/channel_id.py", "d7a/phy/channel_status_identifier.py", "d7a/phy/subband.py"],
  [("codec", "d7a/phy/channel_header.py"), ("text form", "d7a/phy/channel_id.py ChannelID.from_string/__str__"), ("codec", "d7a/phy/subband.py")], INTS)

P("C06", "Access profiles survive serialisation with sub-profiles and sub-bands in order",
  "An access profile serialises as channel header, four sub-profiles and eight sub-bands, in order, and parses back to an equal profile consuming exactly its bytes. Another number of sub-profiles, more than eight sub-bands, and parts of the wrong kind are refused with a value error, and truncated images are reported as missing data.",
  ["inputs"], "all field values of the header, four sub-profiles and eight sub-bands",
  "Tests compare one profile whose sub-profiles and sub-bands are all alike, so ordering and field mix-ups pass.",
  ["d7a/dll/access_profile.py", "d7a/dll/sub_profile.py", "d7a/phy/subband.py"],
  [("codec", "d7a/dll/access_profile.py AccessProfile.parse/__iter__"), ("codec", "d7a/dll/sub_profile.py")], INTS)

P("C07", "Every ALP action survives serialisation and is consumed exactly",
  "Every action kind, with any flags and operand, serialises to its documented control byte and operand, and parsing that command yields exactly that action with equal fields while consuming exactly its bytes. Unassigned operation codes and reserved flag bits are refused with a parse error, and an operation refuses an operand of the wrong kind.",
  ["inputs"], "all flags and operand fields of all action kinds; all 256 control bytes; data of 0 to 64 (thorough: 80) bytes",
  "Tests parse a few recorded commands; flag bits, length boundaries and operand/operation mismatches are untested combinations.",
  ["d7a/alp/action.py", "d7a/alp/regular_action.py", "d7a/alp/forward_action.py", "d7a/alp/indirect_forward_action.py", "d7a/alp/tag_request_action.py",
   "d7a/alp/tag_response_action.py", "d7a/alp/parser.py", "d7a/alp/operations/operation.py", "d7a/alp/operands/file.py"],
  [("parser", "d7a/alp/parser.py Parser.parse_alp_action"), ("serialisation", "d7a/alp/action.py Action.__iter__ and subclasses"), ("operand kinds", "d7a/alp/operations/operation.py")], INTS)

P("C08", "Ready-made commands carry exactly the requested actions and parse back",
  "Each command factory (read, write, query, forward to an interface, indirect forward, tagged, with any file, offset, data and length) yields a command whose bytes are the documented tag request, interface and action in that order, with the requested operands. Parsing those bytes yields the same actions, and a command of several actions is the concatenation of their bytes, parsed back in the same order. Requests with out-of-range arguments are refused.",
  ["inputs"], "all file ids, offsets, lengths, tag ids, interface configurations; data of 0, 1, 4 and 64 bytes (thorough 0..16, 32, 63, 64); action sequences up to 3 (thorough 4)",
  "Tests construct a dozen examples; a factory that drops an offset, swaps arguments or forgets the response flag for one interface type is only visible for other arguments.",
  ["d7a/alp/command.py", "d7a/alp/parser.py", "d7a/alp/tag_request_action.py", "d7a/alp/forward_action.py"],
  [("factories", "d7a/alp/command.py Command.create_with_*"), ("sequence", "d7a/alp/command.py Command.add_action, __iter__"), ("parser", "d7a/alp/parser.py Parser.parse")], INTS)

P("C09", "Interface statuses report exactly what the modem sent",
  "A D7ASP status with any channel, reception level, budget, flags, token, sequence number, response delay and addressee parses to those fields and serialises back to the same bytes. An interface status action of any interface type, holding no fewer bytes than its fields need, is consumed exactly by its stated length, whether or not all of its contents are understood, so that the actions after it are read correctly. Out-of-range fields are refused with a value error.",
  ["inputs"], "all status fields, all addressee types, all interface types, status lengths 0..20",
  "Tests parse two recorded statuses; a wrong flag bit, an unconsumed byte or signed/unsigned confusion only shows for other contents.",
  ["d7a/sp/status.py", "d7a/alp/operands/interface_status.py", "d7a/alp/status_action.py", "d7a/alp/parser.py"],
  [("codec", "d7a/sp/status.py Status"), ("consumption", "d7a/alp/parser.py parse_alp_interface_status_*"), ("operand", "d7a/alp/operands/interface_status.py")], INTS)

P("C10", "Interface configurations and indirect interfaces survive serialisation",
  "A D7ASP, LoRaWAN ABP, LoRaWAN OTAA or serial interface configuration serialises to its interface id and documented fields, and a forward action carrying it parses back to equal fields, consuming exactly its bytes. An indirect forward carries its interface file id and, when it overrides the addressee, exactly that addressee.",
  ["inputs"], "all fields incl. 32-bit addresses, all flags; all 256 interface ids, all addressees",
  "Tests cover one configuration each; flag packing, key byte order and the overload bit have many combinations.",
  ["d7a/alp/operands/interface_configuration.py", "d7a/alp/operands/lorawan_interface_configuration_abp.py", "d7a/alp/operands/lorawan_interface_configuration_otaa.py",
   "d7a/alp/operands/indirect_interface_operand.py", "d7a/alp/interface.py", "d7a/alp/parser.py"],
  [("codec", "d7a/alp/operands/interface_configuration.py"), ("codec", "d7a/alp/operands/lorawan_interface_configuration_*.py"), ("parser", "d7a/alp/parser.py parse_alp_forward_action")], INTS)

P("C11", "Arithmetic queries survive serialisation",
  "A break-query or forwarded arithmetic query serialises to query type, mask and signedness flags, comparison, compare length, value and file offset as documented, and parses back to the same query while consuming exactly its bytes. Query types that are not supported, reserved comparison codes and truncated queries are refused rather than misread.",
  ["inputs"], "all comparisons, signedness, compare values of 0 to 8 (thorough more) bytes, file ids and offsets, all first bytes",
  "Tests parse one query; flags, lengths and comparison codes are otherwise unexercised.",
  ["d7a/alp/operands/query.py", "d7a/alp/operations/break_query.py", "d7a/alp/parser.py"],
  [("codec", "d7a/alp/operands/query.py QueryOperand")], INTS)

P("C12", "System files survive serialisation with their standard ids and sizes",
  "Every system file with a structure (UID, VID, factory settings, firmware version, PHY status, DLL configuration and status, engineering mode, keys, access profiles) serialises to its documented layout and size and parses back to equal fields; an interface configuration file serialises to its configuration. The table of system files lists every file under its standard id, its default contents are as long as its stated length, and out-of-range fields are refused with a value error.",
  ["inputs"], "all field values (64-bit UIDs, 128-bit keys, 32-bit rates, signed gains), texts of each length, 0..3 (thorough 8) channels, all 47 system files, all truncations",
  "Tests compare one example per file, mostly with default or equal fields; byte order, sign, padding and shared default lists are invisible there.",
  ["d7a/system_files/system_files.py", "d7a/system_files/factory_settings.py", "d7a/system_files/firmware_version.py", "d7a/system_files/phy_status.py",
   "d7a/system_files/dll_config.py", "d7a/system_files/dll_status.py", "d7a/system_files/engineering_mode.py", "d7a/system_files/uid.py", "d7a/system_files/vid.py",
   "d7a/system_files/security_key.py", "d7a/system_files/root_authentication_key.py", "d7a/system_files/access_profile.py", "d7a/system_files/interface_configuration.py"],
  [("codecs", "d7a/system_files/*.py parse, __iter__"), ("table", "d7a/system_files/system_files.py SystemFiles.files")],
  INTS + " Logarithms of the RSSI smoothing are computed for each concrete number of samples.")

P("C13", "Data returned for a system file is delivered and parsed as that file",
  "A return-file-data action for any file id, offset and data is consumed exactly and delivers the data unchanged; when the data is a complete system file, as long as the file is defined to be, it is also parsed as that file, to the same fields a direct parse gives. Data from within a file, incomplete data and data of unstructured files are delivered unparsed, and in every case the actions after it are read correctly.",
  ["inputs"], "all contents of each structured system file, all offsets, all 256 file ids with short arbitrary data, each file one byte short or long",
  "Tests return three recorded files; whether parsing the file's contents disturbs what follows shows only for other ids, offsets and lengths.",
  ["d7a/alp/parser.py", "d7a/alp/operations/responses.py", "d7a/alp/operands/file.py", "d7a/system_files/system_files.py"],
  [("parsing", "d7a/alp/parser.py parse_alp_return_file_data_action"), ("result", "d7a/alp/operations/responses.py ReturnFileData.try_parse_system_file")], INTS)

P("C14", "Validated objects accept exactly the values their fields allow",
  "A validated object is created exactly when every field has a value its declared type allows: integers, bits and bytes within their limits or listed values, booleans, texts and lists of allowed length, members of the right enumeration, objects of the right class. Everything else, integers for booleans included, is refused with a value error, and the limits of one field or class never affect another.",
  ["inputs"], "integers of +-2^70, all limits of +-1000, bit fields of 1 to 64 bits, lists and texts of up to 4 elements, values of every wrong kind for every field type",
  "Tests check a few values per class; every limit has two sides and every field type many wrong kinds.",
  ["d7a/support/schema.py"],
  [("validation", "d7a/support/schema.py Validatable.validate"), ("field types", "d7a/support/schema.py Types")], INTS + " Cerberus is modelled (engine/models.py); replays use the real one.")

P("C15", "Serial frames carry every command intact, and corruption is detected",
  "A command is framed as sync, version, counter, message type, length and CRC-16 of its bytes, the counter stepping by one and wrapping at 256, and the receiver of that frame delivers exactly that command once, with its message type. A frame whose payload or checksum was changed (any wrong checksum, any error burst up to 16 bits) is reported and never delivered; gaps in the counter are counted.",
  ["inputs", "histories"], "all payloads of the listed lengths, all counters, message types and checksums; all bursts in short payloads; three frames in a row",
  "Tests frame a few commands; counter wrap-around, the checksum over other contents and undetected corruption are out of their reach.",
  ["d7a/serial_modem_interface/parser.py", "d7a/support/Crc.py"],
  [("framing", "d7a/serial_modem_interface/parser.py Parser.build_serial_frame"), ("header and CRC", "d7a/serial_modem_interface/parser.py parse_serial_interface_header"), ("CRC", "d7a/support/Crc.py calculate_crc")],
  INTS + " The CRC is linear: the solver's terms keep parities in a normal form; the reference is computed independently, bit by bit.")

P("C16", "The serial receiver recovers from any noise and never stalls",
  "Whatever bytes arrive, the serial parser neither fails nor stays stuck: it delivers exactly the valid frames, reports and drops noise up to the next possible frame start, and keeps only what may still become a frame. A complete frame whose contents cannot be understood is reported at once and never delays or swallows the frame after it.",
  ["inputs", "fault_sequences"], "all byte sequences up to 8 (thorough 10), noise before and between frames, all short payloads of each message type, all wrong checksums",
  "Tests feed two kinds of bad input; resynchronisation depends on every byte value and position.",
  ["d7a/serial_modem_interface/parser.py"],
  [("resynchronisation", "d7a/serial_modem_interface/parser.py parse_one_command_from_buffer, skip_bad_buffer_content"), ("containment", "d7a/serial_modem_interface/parser.py parse_payload")], INTS)

P("C17", "How the serial stream is cut into reads does not matter",
  "Feeding a stream of bytes to the serial parser in any chunks delivers the same messages in the same order, with the same counters and leftover bytes, as feeding it at once. No message is lost, duplicated or delivered before its last byte.",
  ["inputs", "schedules"], "all short byte sequences split anywhere; noise and frames split into up to three chunks at every pair of points, and byte by byte",
  "Tests split one frame at one point; a state kept across chunks wrongly shows only for particular cuts.",
  ["d7a/serial_modem_interface/parser.py"],
  [("buffering", "d7a/serial_modem_interface/parser.py Parser.parse, parse_buffer, shift_buffer")], INTS)

P("C18", "Link layer frames survive parsing and serialisation",
  "A foreground or background DLL frame with any length, subnet, control, target address, payload and checksum is parsed to those fields when its last byte arrives, consuming exactly its bytes, and serialises back to them. Incomplete frames are awaited, and fields out of range are refused with a value error.",
  ["inputs", "schedules"], "all field values, targets of 0, 2 and 8 bytes, every split into two chunks, lengths up to 255",
  "Tests parse two recorded frames; sign, width and length errors show only for other values.",
  ["d7a/dll/parser.py", "d7a/dll/foreground_frame.py", "d7a/dll/background_frame.py", "d7a/dll/foreground_frame_control.py", "d7a/dll/background_frame_control.py"],
  [("parser", "d7a/dll/parser.py Parser"), ("codecs", "d7a/dll/foreground_frame.py, background_frame.py")], INTS)

P("C19", "Network and transport frames survive parsing and serialisation",
  "A D7ANP frame with any control, timeout and origin, holding a D7ATP frame with any dialog, transaction, timeouts, AGC level and ALP command, parses to those fields and serialises back to the same bytes. Features that are not supported and truncated frames are refused rather than misread, and fields out of range or of the wrong kind are refused with a value error.",
  ["inputs"], "all control bytes, all field combinations, origins of 0, 2 and 8 bytes, commands of 0 to 2 actions, every truncation",
  "Tests parse one recorded frame; each control flag adds or removes fields, and tests see one combination.",
  ["d7a/d7anp/frame.py", "d7a/d7anp/control.py", "d7a/d7atp/frame.py", "d7a/d7atp/control.py"],
  [("codec", "d7a/d7anp/frame.py, control.py"), ("codec", "d7a/d7atp/frame.py, control.py")], INTS)

SCHED = ("Threads change over between statements of modem.py and in waits, reads and locks (statements are taken to be atomic); schedules are decision variables of the symbolic run, bounded by the number "
         "of interruptions in the harness docstring. The serial port, clock and threads are modelled by engine/world.py, also in replays.")

P("C20", "Every received message is delivered exactly once, to the right place",
  "While no command is waiting for it, every response received is given to the callback when connected, or kept in the list of unsolicited responses otherwise; reboots go to their callback or list, and log lines to neither. Nothing is lost, repeated, altered or reordered, however the messages are cut into reads.",
  ["inputs", "histories"], "sequences of up to 2 (thorough 3) messages of every kind with all contents, all combinations of callbacks, connection and raw mode; two modems one after the other",
  "The modem class has no tests at all: they cannot run without a serial device.",
  ["modem/modem.py", "d7a/serial_modem_interface/parser.py"],
  [("routing", "modem/modem.py Modem._read_async"), ("lists", "modem/modem.py get_/clear_unsolicited_responses_received, get_/clear_rebooted_received")], SCHED)

P("C21", "Executing a command returns exactly its own responses",
  "A command executed synchronously returns its own responses, in order, once one of them completes it, and gives up with nothing only when its time is over; responses to other commands, untagged ones and late ones are unsolicited and never counted for another command. This holds for every arrival time and interleaving with the read thread, and commands sent asynchronously meanwhile, from a callback or another thread, change nothing and go out once, as intact frames in the order of their counters.",
  ["schedules", "inputs", "histories"], "all tags, flags and contents of up to 3 messages, all waiting times, up to 1 (thorough 2) interruptions between statements, one or two commands in a row",
  "Whether a response meets its command depends on when it arrives relative to every statement of two threads.",
  ["modem/modem.py"],
  [("execution", "modem/modem.py Modem.execute_command, execute_command_async"), ("matching", "modem/modem.py Modem._read_async")], SCHED)

P("C22", "Reading survives lost connections and can be stopped and resumed",
  "When the serial port fails, it is opened again with the same settings, as often as needed, and reading continues: what was received before and after is delivered once, in order. Reading can be stopped at any time, even while the port is lost; nothing is delivered while stopped, and once started again it goes on with the next message.",
  ["fault_sequences", "schedules", "inputs"], "up to 3 messages with up to 2 losses anywhere between them, each with up to 2 failed attempts; stopping at every point between messages, with an interruption anywhere",
  "Tests have no serial port to lose, and the failure may strike between any two reads.",
  ["modem/modem.py"],
  [("reading", "modem/modem.py Modem._read_async"), ("lifecycle", "modem/modem.py Modem.start_reading, stop_reading, __init__")], SCHED)

P("C23", "Connecting identifies the modem from its own answer",
  "Connecting asks the modem for its UID and firmware version in one request and reports success exactly when both were returned by the answer to that request, giving precisely the UID and versions it contained. Without such an answer it fails after its time limit; when not checking, in raw mode, or when connected already, it succeeds without waiting.",
  ["inputs", "schedules"], "all 64-bit UIDs, all versions and names, answers with both files, one or none, in any order, preceded by other messages; all arrival times",
  "Connecting is untested; a leading zero in the UID, a mixed-up file or an answer to another command needs particular contents.",
  ["modem/modem.py", "d7a/system_files/firmware_version.py"],
  [("identification", "modem/modem.py Modem.connect")], SCHED)

P("C24", "Objects are independent: using one changes neither it nor any other",
  "Serialising, printing, comparing or iterating an object any number of times leaves its fields and bytes as they were, and making, using or parsing another object of its kind changes neither. Parsing does not change the bytes given, lists passed to a constructor are not changed by the library, and the table of system files keeps its contents.",
  ["histories", "inputs"], "two objects of every kind with any fields, made, shown, serialised, compared, parsed and refused in turn; commands built, serial and link layer parsers used in turn",
  "Shared defaults and caches show only in a sequence of operations on several objects with different contents, which single-object tests do not perform.",
  ["d7a/alp/command.py", "d7a/alp/action.py", "d7a/alp/operands/file.py", "d7a/alp/parser.py", "d7a/sp/configuration.py", "d7a/sp/qos.py", "d7a/d7anp/addressee.py",
   "d7a/phy/channel_header.py", "d7a/system_files/phy_status.py", "d7a/system_files/system_files.py", "d7a/serial_modem_interface/parser.py"],
  [("iteration", "__iter__ of every class"), ("default arguments", "constructors, e.g. d7a/alp/command.py Command.__init__, d7a/system_files/phy_status.py"), ("table", "d7a/system_files/system_files.py")], INTS)

P("C25", "Everything can be printed, described and stored",
  "Any object of the library, made or parsed, can be printed as text, and described as a dictionary naming its class and holding every field, nested objects included. Stored as JSON with jsonpickle and restored, it is an object of the same class with the same fields and the same bytes, its enumeration members being the very same members.",
  ["inputs"], "every kind of object with any fields (up to two id types, data of 1 to 3 bytes), made and parsed; every member of every enumeration",
  "Tests print and store almost nothing; a field missing from a text format, or one that cannot be stored or restored, fails only for the kinds and values that have it.",
  ["d7a/__init__.py", "d7a/support/serialization/enum_handler.py", "d7a/support/schema.py", "d7a/alp/command.py", "d7a/sp/status.py", "d7a/d7anp/addressee.py", "d7a/phy/channel_header.py"],
  [("storing", "d7a/support/serialization/enum_handler.py EnumHandler"), ("dictionaries", "d7a/support/schema.py Validatable.as_dict"), ("texts", "__str__ of every class")],
  INTS + " jsonpickle is modelled by its trees (engine/models.py); replays use the real one.")

P("C26", "Arbitrary bytes are read as the command they denote, or refused",
  "Parsing any bytes as an ALP command either yields exactly the actions, tag and interface status the documented layout gives them, in order and each standing for its own bytes, consuming no more and no fewer, or refuses them with an error. Unassigned operation codes, malformed operands, a second tag or status and missing bytes are always refused.",
  ["inputs"], "all commands of up to 4 (thorough 6) bytes, with and without bytes behind them, and commands with bytes missing",
  "The commands a modem may send are not limited to the recorded ones in the tests; the check compares every short byte sequence with an independent reader of the layout.",
  ["d7a/alp/parser.py", "d7a/alp/operands/length.py", "d7a/alp/operands/offset.py", "d7a/alp/operands/query.py", "d7a/alp/operands/file.py", "d7a/d7anp/addressee.py", "d7a/alp/command.py"],
  [("parser", "d7a/alp/parser.py Parser.parse, parse_alp_action and the parse_alp_*_action methods")], INTS)
P("C27", "The bridge to MQTT publishes every command received exactly once, unchanged",
  "Once the modem of the bridge is connected, every command it receives is published to the topic of the gateway exactly once, as the bytes received and in the order of arrival; nothing else is published. This holds whatever the commands contain, however they arrive, whichever thread runs when, and also for those received while the bridge still starts; a command whose publishing fails does not keep the others from being published.",
  ["inputs", "schedules", "fault_sequences"], "up to 2 (thorough 3) messages of every kind with all contents, one change of thread at any statement, the broker accepting at any time, one failure to publish, four topics",
  "There is no test of the bridge; the check runs it with the modem and the broker at the other ends replaced, for all contents and changes of thread.",
  ["tools/modem2mqtt.py", "modem/modem.py"],
  [("bridge", "tools/modem2mqtt.py Modem2Mqtt.__init__, connect_to_mqtt, on_command_received and run")], SCHED + " The broker accepts what is published once the client is connected; argparse is the real one.")
P("C28", "The parsing tool shows exactly what the data given holds",
  "Given the bytes of an ALP command, a serial stream, a DLL frame or a system file as hex digits, of either case and with blanks anywhere between bytes and around, the parsing tool prints every command, frame or file they hold, in order and as a direct parse of the bytes shows it, and for streams and frames what was left over. Data that cannot be read as what it is said to be is reported as an error, and nothing is printed.",
  ["inputs"], "commands of 1 and 2 actions, serial streams of 1 and 2 (thorough 0 to 3) messages after up to 1 (3) bytes of noise, frames and 12 system files with any fields; four ways to write the digits; unreadable data of up to 3 bytes",
  "There is no test of the tool; two of its five kinds of data never worked.",
  ["tools/parse_hexstring.py"],
  [("tool", "tools/parse_hexstring.py, run as a program")], INTS + " The program is run from its source with its arguments, argparse being the real one; what pprint prints is compared without its arrangement in lines.")

P("C29", "A link layer frame that cannot be read does not stop the parser",
  "A foreground frame whose contents are invalid or not supported (an unknown operation, an unsupported control flag, a value out of its range) makes the link layer parser neither fail nor stop: once received completely it is dropped whole and reported once with the number of bytes skipped, and the frames after it are delivered. Nothing else is dropped, whatever pieces the bytes arrive in, and any six bytes are a background frame.",
  ["inputs", "schedules", "histories"], "every control byte, up to 3 (thorough 5) arbitrary bytes of ALP in a frame, thirteen samples cut at every point or in a row, frames up to 256 bytes",
  "Tests feed the parser two good frames; that bad ones do not stop it must hold for every content and split.",
  ["d7a/dll/parser.py", "d7a/dll/foreground_frame.py", "d7a/d7anp/frame.py", "d7a/d7atp/frame.py"],
  [("parser", "d7a/dll/parser.py Parser")], INTS + " Which frames can be read is decided by parsing them alone, which C18, C19 and C26 check.")
