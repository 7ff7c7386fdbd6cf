#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text has one home)."""
import json, os
VM="src/vm/vm_exec.c"; VI="src/vm/vm_internal.h"; VV="src/vm/vm_verify.c"
PA="src/compiler/cnd_parser.c"; UT="src/compiler/cnd_utils.c"; CC="src/compiler/cndc.c"; LX="src/compiler/cnd_lexer.c"; FM="src/compiler/cnd_fmt.c"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","VM is a sandbox: no bytecode or data makes it touch foreign memory",
  "Whatever bytes are given as bytecode and whatever bytes (of whatever length) are given as the data buffer, in encode and in decode mode, executing them never reads or writes a byte outside the bytecode, the data buffer and the context, and never crashes. Execution that stops does so with success or one of the documented error codes, leaves the number of processed bytes within the buffer, and decoding never modifies the data buffer.",
  ["programs","inputs"],
  "All bytecode programs (well-formed or hostile) and all data buffers; explored for every short instruction sequence over an alphabet of all opcodes with boundary operands, and for every one-byte corruption and every truncation of compiled programs, crossed with a set of buffer lengths and contents.",
  "The tests run a few hand-written programs on right-sized buffers; the claim is about hostile programs and every truncation, which only a systematic enumeration under memory instrumentation reaches.",
  [VM,VI],[("bounds checks on every read/write of the data buffer",VM),("instruction fetch bounded by end of bytecode",VM),("fixed-size loop and expression stacks",VM)],
  ["return code of cnd_execute","memory accesses (AddressSanitizer, exact-size allocations)","context cursor","data buffer contents"])

p("C02","Short data or short buffers are always reported, never silently accepted",
  "Decoding any proper prefix of a valid message fails with an error, unless what is missing is only trailing optional fields or elements of a read-to-end array. Encoding into a buffer smaller than the message fails with the out-of-bounds error, and no byte after the buffer or after the end of the produced message is ever changed.",
  ["inputs","fault_sequences"],
  "Every schema of the bounded schema family, every record of it, every prefix length of its encoding and every buffer size below the encoded size.",
  "Tests check a handful of truncations of single fields; the claim is for each cut point of each message of each schema, including cuts inside bitfields and padding.",
  [VM,VI],[("per-opcode length check",VM),("bit reader and writer",VI)],
  ["return code","bytes after the message","callback sequence"])

p("C03","The encoder puts every field exactly where the schema says, bit for bit",
  "For every schema and record, the bytes produced by encoding are exactly those the schema language prescribes: field order, width, byte order (default little-endian, file-level and per-field overrides that affect only that field), bit packing order, automatic byte alignment, padding and fill. The result depends only on schema and record, not on what the output buffer held before.",
  ["programs","inputs"],
  "All schemas composed of up to a bounded number of fields from an alphabet of every primitive, bitfield, padding, byte-order and nesting form, with boundary and alternating-bit values.",
  "Tests pin a few packets; the interactions (bitfield followed by aligned field, override inside nested structs, padding across bytes) are combinatorial.",
  [VM,VI,PA],[("endian-aware read/write helpers",VI),("alignment table",VM),("emission of byte-order opcodes around fields",PA)],
  ["bytes in the output buffer","final cursor and bit offset"])

p("C04","Decoding an encoded record gives the host back exactly that record",
  "For every schema and record, decoding the encoded bytes succeeds, consumes exactly the encoded bytes, and delivers to the host the same fields, in declaration order, under the same names and types and with the same values that the host supplied when encoding. Encoding what was decoded reproduces the same bytes.",
  ["programs","inputs"],
  "All schemas of the bounded family (all field kinds, nesting, arrays, strings, control flow) and their boundary records.",
  "Round trips in the tests cover single examples; the guarantee is for the whole schema-by-value product.",
  [VM,VI,PA,UT],[("symmetric encode/decode handling in each opcode",VM),("host callback protocol",VM)],
  ["callback sequence (key name, type, value)","return code","cursor"])

p("C05","Constants, ranges, enums and booleans accept exactly the declared values",
  "A message or record is accepted if and only if each validated field holds a declared value: a constant equals its constant, a ranged field lies within its inclusive bounds (signed, unsigned and floating types compared in their own type), an enum field holds one of its members, a boolean is 0 or 1. Anything else ends with the validation error in both encode and decode mode, and constants are written automatically when encoding.",
  ["inputs","programs"],
  "All one- and two-byte field values exhaustively and all boundary values of wider types, for families of bounds, constants and enum value sets of every integer and float type, both byte orders and both modes, alone, in arrays and inside nested structs.",
  "Tests try one inside and one outside value; sign, width, byte-order and boundary mistakes sit between them.",
  [VM,PA],[("CONST_CHECK/RANGE_CHECK/ENUM_CHECK handlers",VM),("emission of bounds and enum tables",PA)],
  ["return code","callback values","bytes written"])

p("C06","Checksums equal the standard algorithm and any small corruption is rejected",
  "A CRC field holds the CRC, with the declared width, polynomial, initial value, reflection and final xor, of all message bytes before it. Encoding writes it, and decoding rejects with the CRC error every message in which one bit, two bits, or any byte of the covered bytes or of the checksum was changed.",
  ["inputs","configurations","fault_sequences"],
  "All combinations of a parameter family (including every published CRC-16/CRC-32 variant with equal reflections and all reflection flags) over all short messages of an alphabet, and every single-bit, every double-bit and every single-byte corruption of them.",
  "Tests use two parameter sets and one corruption.",
  [VM,PA],[("calc_crc generic and table path",VM),("default parameters per width",PA)],
  ["checksum bytes","return code"])

p("C07","Conditionals take exactly the branch the discriminator selects",
  "For every discriminator value, a switch processes exactly the fields of the case with that value, or the default, or nothing, and an if/else-if/else chain processes exactly the first block whose condition is true; then processing continues with the field after the construct. This holds alike for few or many, dense or sparse, negative or very large case values, for nesting, and in encode and decode.",
  ["programs","inputs"],
  "All case sets up to a bounded size from a value alphabet (contiguous, with gaps, around the dense/sparse threshold, 64-bit, enum members), every discriminator value in and around them, with and without default, nested in structs, arrays and other switches.",
  "The tests fix one switch each; jump offsets and table lookups differ for each combination of case count, spread and body size.",
  [VM,PA],[("jump patching in parse_if/parse_switch",PA),("SWITCH/SWITCH_TABLE/JUMP handlers",VM)],
  ["callback sequence","bytes","return code"])

p("C08","Expressions evaluate with the documented precedence and types",
  "Every expression accepted by the compiler evaluates to the value given by the operator precedence and associativity of the language, with 64-bit wrap-around integers, IEEE doubles when an operand is a float literal or float function, and 0/1 comparisons. Division by zero and mathematical domain errors end with the arithmetic error, and a computed field is emitted on encode and verified on decode so that encode and decode agree for every value.",
  ["programs","inputs"],
  "All expression trees up to a bounded depth over all operators, parentheses, unary operators, functions, field references and boundary literals, for boundary field values, used as if-condition and as computed field of every type.",
  "Tests evaluate a few expressions; precedence pairs and operand-type mixes are quadratic in the operators.",
  [VM,PA],[("Pratt parser precedence table",PA),("ALU opcodes on the expression stack",VM)],
  ["branch taken","emitted bytes","return code"])

p("C09","Arrays and strings keep count, order, limits and bracketing at every size",
  "Fixed, length-prefixed, field-counted and read-to-end arrays process exactly the announced number of elements in order, including zero, when nested in each other and in structs and whatever the element contains, and every array start reported to the host is matched by exactly one array end. Strings are delivered whole up to their declared limit, and exceeding the supported nesting or an unterminated over-long string ends with an error rather than with wrong data.",
  ["programs","inputs"],
  "All array kinds and element kinds (every primitive, string, enum, bitfield struct, switch, nested array) up to depth three and counts zero to a small bound plus prefix-width boundaries; all string kinds at lengths around their limits; hosts that do or do not take the bulk byte path.",
  "Tests use non-empty one-level arrays; empty arrays, key numbers that look like opcodes, and bulk/loop agreement need the product.",
  [VM,PA,UT],[("loop stack and body skipping",VM),("bulk byte-array path",VM),("string length handling",VM)],
  ["callback sequence","cursor","return code"])

p("C10","Optional trailing fields degrade to zero and never disturb other fields",
  "When a message ends before an optional field, decoding succeeds and delivers that field as zero, false or the empty string, whatever its type and whatever validation is attached to it; when the bytes are present the field decodes as if it were not optional. A missing or present optional field never changes how any other field is decoded, and a non-optional field that is missing is still an error.",
  ["programs","inputs"],
  "All sequences of up to three fields with every subset marked optional, every field type and attached check, and every message length from empty to complete.",
  "Tests drop one integer; leaked optional or transform state only shows with a particular following field.",
  [VM,PA],[("is_next_optional flag",VM),("@optional emission",PA)],
  ["callback sequence","return code"],
  [dict(name="is_next_optional",meaning="next field may be missing",where="include/concordia.h")])

p("C11","Transforms apply to their own field only and are undone when encoding",
  "A field with scale/offset, add, sub, mul, div, polynomial or spline decodes to the engineering value defined by that formula for every raw value, for every element when the field is an array, and encoding that engineering value gives the same raw bytes back whenever the formula is invertible at that value. The transform never affects another field, and a value that cannot be represented in the raw type is reported as an error instead of being encoded as something else.",
  ["inputs","programs"],
  "All raw values of 8- and 16-bit types and boundary values of wider and float types for families of factors, offsets, integer operands, polynomials and splines; engineering values outside the raw range; all pairs of neighbouring fields.",
  "Tests check a few round numbers; rounding, overflow and state leakage appear only for particular raw values or neighbours.",
  [VM,PA],[("transform state and inverse functions",VM),("transform opcode emission",PA)],
  ["callback value","bytes","return code"],
  [dict(name="trans_type",meaning="pending transform",where="include/concordia.h")])

p("C12","Executions are isolated: result depends only on program, data, mode and host",
  "Running a program gives the same result and the same callbacks whatever ran before on the same context memory, the same program object or the same process, after success or after any error, after a program was swapped for another between runs, and while other contexts are being executed in any interleaving. Compilation and formatting likewise depend only on their input files.",
  ["histories","schedules"],
  "All sequences up to a bounded length of operations from an alphabet (run program A/B in either mode on valid, truncated or corrupt data, with failing host, re-initialise, compile, format) on shared storage, and all interleavings, at host-callback granularity, of two executions.",
  "The tests create fresh state for each run and never interleave.",
  [VM,CC,PA],[("cnd_init resets the run state",VM),("no global mutable state",VM)],
  ["callback sequence","bytes","return code","compiler output"])

p("C13","The bytecode verifier accepts all compiler output and only executable programs",
  "Every program the compiler produces passes verification. A program that passes verification contains only defined instructions that lie completely inside the program and jumps that land on instruction starts or the end of the program, so executing it never fails with an invalid-opcode error caused by malformed code or runs into the middle of an instruction; anything else is rejected.",
  ["programs"],
  "All compiled schemas of the bounded family, every truncation and every one-byte modification of their bytecode, and all short sequences of raw instructions.",
  "The verifier tests check five hand-written programs.",
  [VV,VM],[("cnd_verify_program",VV)],
  ["verdict of cnd_verify_program","return code of cnd_execute"])

p("C14","IL images load faithfully and damaged images never cause bad accesses",
  "Loading a compiled image makes every string of its table reachable by number and by name, consistently in both directions, and executes exactly its bytecode. Any image, however truncated or corrupted in header, string table or offsets, is either rejected or can be queried for every name and number without leaving the image.",
  ["inputs","fault_sequences"],
  "All single-byte corruptions (every value), all truncations and all combinations of boundary values in the header fields of compiled images; all key numbers and names.",
  "Tests load two well-formed images.",
  [VM],[("cnd_program_load_il header checks",VM),("string table walk",VM)],
  ["return code","names and numbers returned","memory accesses"])

p("C15","Every field reaches the host under its own qualified name",
  "In compiled output each field is reported under a key whose name is the field's name, qualified by the names of the enclosing struct fields at any nesting depth, whatever decorators, checks, arrays, switches or conditions surround it, and references from counts, switches and expressions resolve to the field they name in the same scope. Two different fields never share a key and the packet keeps its name.",
  ["programs"],
  "All structs built from up to a bounded number of members from the full field alphabet, nested up to three levels and reused, in packets that also use each construct that carries operands that look like keys.",
  "Tests look at one nesting of plain fields; renumbering and prefixing must walk every instruction form.",
  [UT,CC,PA],[("key prefixing on struct inlining",UT),("string table pruning and renumbering",CC)],
  ["names looked up for the keys given to the callback","string table of the image"])

p("C16","The compiler rejects every ill-formed schema, with a diagnostic and no output",
  "For every input text the compiler terminates without crashing; if the text violates a rule of the language (unknown or duplicate names, invalid widths, values that do not fit their type, misplaced constructs, syntax errors) it reports at least one error, returns failure and leaves the output file untouched. If it reports success, the output is a complete image, including when writing fails at any point.",
  ["inputs","fault_sequences"],
  "All token sequences up to a bounded length, every single-token deletion, duplication, swap and substitution and every truncation of a corpus covering all constructs, a catalogue of rule violations in every position, and a failure injected at each output operation.",
  "Tests contain about twenty ill-formed schemas; crashes and silent acceptance hide in the rest, and no test makes writing fail.",
  [PA,LX,CC,UT],[("parser_error and had_error",PA),("output written only after a clean parse",CC)],
  ["exit status","diagnostics","output file","crash or hang"])

p("C17","Imports behave as textual inclusion, once, in any file graph",
  "A schema split over files with imports compiles to the same program as the single-file equivalent for every acyclic or cyclic import graph, every file being taken once however many paths and spellings lead to it, relative to the importing file. A missing, unreadable or malformed import is an error of the whole compilation naming that file.",
  ["configurations","histories"],
  "All import graphs over up to four files (edges, order, cycles, self-imports, diamond, sub-directories, alternative spellings, symlinks), and every single missing, directory or malformed file in them.",
  "Tests import one or two files in fixed shapes.",
  [PA,UT],[("import de-duplication by canonical path",PA),("resolve_path relative to importer",PA)],
  ["bytecode and strings of the output image","exit status"])

p("C18","Formatting never changes what a schema means, and is stable",
  "For every source text, the formatted text has the same tokens and comments in the same order and compiles to the same output (or fails alike), and formatting it again changes nothing. A failing write or read is reported and formatting never crashes.",
  ["inputs"],
  "All token sequences up to a bounded length with all separator choices (none, blank, newline, blank line, comment forms), and layout variations (each gap to each separator) of a corpus covering all constructs.",
  "Formatter tests compare a few snippets.",
  [FM],[("cnd_format_source",FM)],
  ["formatted text","token stream","compiled image"])

p("C19","The command line encodes JSON to binary and back without loss",
  "For every schema and every JSON document that matches it, `encode` followed by `decode` yields an equal document, the binary equals what the library produces for those values, and decoding then encoding any valid binary reproduces it (optional fields it ends without are then written as zero). Invalid binaries, schemas and documents give a nonzero exit status and an untouched output file, never a crash.",
  ["inputs","programs"],
  "All schemas of a bounded family covering each type, nested structs, arrays of all kinds and sizes, strings, optional, transforms, switch and computed fields, with boundary values up to 53-bit integers, with and without hex mode; every truncation of the inputs.",
  "No existing test runs the command line tools at all.",
  ["src/cli/json_binding.c","src/cli/cmd_encode.c","src/cli/cmd_decode.c","src/cli/cli_helpers.c"],
  [("JSON callback with object and array stacks","src/cli/json_binding.c")],
  ["files written","exit status"])

p("C20","The language server answers every request once and tracks the latest text",
  "For every sequence of protocol messages, each request gets exactly one response with its id, notifications get none, and the server neither crashes nor stops before exit is asked. Diagnostics published for a document are those of its latest text, agree with the compiler on whether it is valid and carry the compiler's error positions, and formatting, symbols, hover, definition and completion answers are computed from the latest text.",
  ["histories"],
  "All message histories up to a bounded length over an alphabet of open/change/close/query messages on two documents with valid and invalid texts, malformed and unknown messages included.",
  "No existing test exercises the server.",
  ["src/cli/cmd_lsp.c"],[("document store and message loop","src/cli/cmd_lsp.c")],
  ["protocol messages on standard output","exit status"])

p("C21","The Go binding behaves exactly as the C library",
  "For every program, mode, data and callback, executing through the Go package gives the same result, bytes and sequence of callback keys, types and values as the C library, and every opcode and error constant has the value of the C header in each generated language.",
  ["programs","inputs"],
  "All schemas and records of a bounded family executed through both, including host errors at each callback; all constants of the header.",
  "The Go package has no tests; only the byte-for-byte generation of one constants file is checked.",
  ["go/concordia.go","go/bridge.c","src/tools/gen_bindings.c"],[("cgo bridge","go/bridge.c"),("constant generator","src/tools/gen_bindings.c")],
  ["results of Execute","callback values","generated files"])

p("C22","The inspector lists exactly the instructions of the program",
  "For every image the compiler produces, `inspect` terminates successfully and lists every instruction once, in order, at its real offset, with its real operands, names and values, never getting out of step with the bytecode. A damaged image never makes it crash or read outside the file.",
  ["programs","inputs"],
  "All compiled schemas of the bounded family and every truncation and single-byte corruption of a set of images covering every instruction.",
  "No existing test runs the inspector.",
  ["src/cli/cmd_inspect.c"],[("per-opcode operand decoding","src/cli/cmd_inspect.c")],
  ["listing on standard output","exit status"])

p("C23","Host errors and resource limits stop execution cleanly at that point",
  "If the host callback reports an error at any point, execution stops there with the callback error, makes no further callback and, in encode mode, has produced exactly the bytes of the fields before it. Exceeding the expression or loop stack ends with a stack or bounds error, programs without backward jumps always terminate, and read-to-end arrays terminate even if their elements are empty.",
  ["fault_sequences","programs"],
  "For every schema and record of the bounded family, a host failure at every callback position in both modes; nesting and expression depths from zero to beyond every limit.",
  "Tests inject one or two host errors at fixed points.",
  [VM],[("callback result checked after every call",VM),("loop_push/stack_push limits",VM)],
  ["number of callbacks","return code","bytes"])

p("C24","How a schema is spelled does not change the program it compiles to",
  "Two texts that say the same schema compile to the same image, or are both rejected: the short and long names of a type (uint8, byte and u8; float and f32; and so on) and of a decorator (@count and @len, @const and @match, @big_endian and @be, @little_endian and @le) are the same wherever a type or decorator may stand (fields, bit fields, arrays, enum types, length prefixes, whole files), numbers may be written in decimal or hexadecimal, the decorators of a field may come in any order, spaces, tabs, line ends and // and /* */ comments may stand between any two tokens, and the names of structs, enums and enum members may be any identifier that is not a keyword.",
  ["programs"],
  "All schemas of the bounded family in every combination of the ways to spell them, every gap of a text filled with every kind of space and comment, every type and member renamed.",
  "Tests use one spelling of each construct, mostly the long one; a name or notation that is misread in one of the places where it may stand goes unseen.",
  [PA,"src/compiler/cnd_lexer.c"],[("primitive_type, prefix and enum types, bit widths by name",PA),("decorator names",PA),("skipping of space and comments","src/compiler/cnd_lexer.c")],
  ["bytes of the IL image","exit status"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
