#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
W = "beschi/writers/"
SIX = "C, C#, Go, Rust, TypeScript and Zig"
ALLW = [W + f for f in ("c.py", "csharp.py", "go.py", "rust.py", "typescript.py", "zig.py")]
BP = [W + "boilerplate/" + f for f in ("C.1.h", "CSharp.1.cs", "Go.go", "Rust.rs", "TypeScript.ts", "Zig.zig")]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Writers emit exactly the documented wire bytes, identically everywhere",
 f"For every valid protocol and every value of one of its messages, the generated writer in {SIX} produces exactly the documented bytes, so all languages produce the same buffer: members in declared order, little-endian, booleans one byte (0/1), enums in the smallest of byte/int16/int32 that holds all their values, lists and strings prefixed by their length in the protocol's list_size_type and string_size_type (a string's length counts UTF-8 bytes), strings as UTF-8. With tagging on, one byte holding the message's 1-based declaration index comes first, and nothing else is added.",
 ["programs", "inputs"], "all valid protocols (all member types, lists, nested structs, enums, every combination of list and string size types) and all message values within the declared size limits",
 "The tests write one hand-made value of each of a few protocols whose list and string size types are always equal (uint32 or byte); the cross-language comparison compares whatever files exist.",
 ALLW + BP, [("serializer()", "each writer"), ("write helpers", "boilerplate")], ["buffer contents after writeBytes in each language"])

prop("C02", "Readers reproduce the written value and consume exactly its bytes",
 f"For every valid protocol and message value, reading the value's wire bytes with the generated reader in {SIX} yields a message equal to the original in every member (64-bit integers, float bit patterns, non-ASCII and empty strings, empty and long lists included) and leaves the reader positioned exactly after the last byte of that message. Any non-zero boolean byte reads as true.",
 ["programs", "inputs"], "all valid protocols and message values; every language both as writer and as reader",
 "The tests read a single fixture per protocol; nested simple structs, signed or wide size types, mixed size types, bool/byte lists and boundary lengths never occur.",
 ALLW + BP, [("deserializer()", "each writer"), ("read helpers", "boilerplate")], ["decoded members and reader position after fromBytes"])

prop("C03", "The size a message reports is the number of bytes it writes",
 f"In {SIX}, the size-in-bytes a message reports equals the number of bytes its untagged write produces, for every protocol and value, whether asked through the concrete type or through the generic message interface. Both always answer for the values held when they are asked, also after a message was changed. The packed size of a message list equals the number of bytes packing that list produces.",
 ["programs", "inputs", "histories"], "all valid protocols, message values, message lists, and sequences of values given to one message",
 "Tests compare sizes for one value per protocol, with ASCII-only strings outside lists and without equally named nested lists.",
 ALLW + BP, [("gen_measurement()", "each writer"), ("GetPackedSize", "boilerplate")], ["GetSizeInBytes vs. bytes written", "GetPackedSize vs. packed bytes"])

prop("C04", "Tagged streams yield their messages in order, up to max or terminator",
 f"In {SIX}, processing a buffer of tagged messages from the reader's position returns exactly the messages written there, in order and with the right types, stopping at the end of the buffer, at a zero tag byte, or after max messages (a negative max means no limit, zero means none), without consuming bytes of later messages. An unknown tag or a malformed message makes the whole call report an error.",
 ["histories", "inputs"], "all sequences of tagged messages of all valid protocols, all max values, terminators at any point, unknown tags at any point",
 "Tests use one fixed stream of a small protocol, always from offset 0, with max -1 and one truncated message.",
 ALLW + BP, [("ProcessRawBytes", "each writer")], ["returned list, error and reader position of ProcessRawBytes"])

prop("C05", "Packing then unpacking returns the same messages and rejects bad containers",
 f"In {SIX}, packing any list of messages produces 'BSCI', the count as a little-endian uint32, each message tagged, and a zero byte; unpacking it returns an equal list. Unpacking reports an error, and never a partial list, when the header is not 'BSCI' or too short, or when fewer messages than the stated count are present.",
 ["histories", "inputs"], "all message lists (empty included) of all valid protocols; all header corruptions, count mismatches and truncations",
 "Tests pack one fixed list and corrupt only the count, to one value.",
 BP + [W + "c.py"], [("PackMessages/UnpackMessages", "boilerplate, C writer")], ["packed bytes", "result or error of UnpackMessages"])

prop("C06", "Every truncated message is rejected with a reported error",
 f"For every valid protocol and message value, reading any strict prefix of the message's bytes in {SIX} reports a read error the way that language's generated API does (error code, exception, error value): it never returns a message as if it were complete and never aborts the process. The same holds for a tagged stream cut inside a message and for a packed container cut anywhere before its final zero byte.",
 ["inputs", "crash_points"], "every truncation point of every message, tagged stream and packed container of every valid protocol",
 "Tests truncate one list-of-int16 message at one point and one three-float message in a stream.",
 ALLW + BP, [("end-of-buffer checks", "boilerplate read helpers"), ("error propagation", "deserializer()")], ["error result of fromBytes / ProcessRawBytes / UnpackMessages on prefixes"])

prop("C07", "Out-of-range enum values are rejected wherever they occur",
 f"In {SIX}, reading bytes in which any enum position (a member, a list element, inside nested structs, inside structs in lists) holds an integer that is not one of the enum's declared values reports an error, and every declared value (negative, sparse, boundary of its width) is accepted in every such position.",
 ["programs", "inputs"], "all enums (sparse, negative, boundary), all positions an enum can take in a message, all integers of its width",
 "Tests check no invalid enum in a nested position; enums in lists of structs are only read with valid values.",
 ALLW, [("enum validation", "deserializer(), gen_enum()")], ["error result of fromBytes on corrupted enum bytes"])

prop("C08", "Enums keep their declared numbers and use the smallest fitting width",
 f"For every valid enum, a sequential list numbers its names 0,1,2,… in order and a table list keeps the given integers, and the generated constant of each name has that number in {SIX}. On the wire the enum takes one byte if all values are in 0..255, else two (int16) if they fit, else four (int32); an enum that fits none of these is rejected.",
 ["programs"], "all enum definitions, in particular value sets at and next to 0, 255, 256, -1, ±32767/8, 65535, ±2^31",
 "Two protocol files check the chosen width for one enum each; no generated constant is ever compared with its declared number outside the example protocol.",
 ["beschi/protocol.py"] + ALLW, [("Enum.__init__", "beschi/protocol.py"), ("gen_enum()", "each writer")], ["integer value of each generated constant", "bytes written for an enum member"])

prop("C09", "A default-constructed message has the documented default in every member",
 f"In {SIX}, the documented way to obtain a default message (C's default constant and Create function, Go's New…Default, the default constructor or initializer elsewhere) yields zero numbers, false, empty strings and lists, and for an enum its first listed value, recursively inside nested structs. Writing that default message produces the documented bytes of those values.",
 ["programs"], "all valid protocols, in particular enums whose first listed value is not zero, at every nesting depth",
 "One test writes the default of one protocol per language; C's Create function is never called.",
 ALLW, [("defaults", "gen_struct()/gen_default()")], ["members and bytes of a default message"])

prop("C10", "A protocol is accepted exactly when it obeys the documented rules",
 "For every protocol file, generation succeeds if the file obeys the documented rules for valid protocols; otherwise the command ends with a non-zero status and an error message, prints no generated code, and leaves an existing output file untouched. A type name that differs from a base type only in case counts as that base type. Either way it terminates, in time bounded by the size of the file.",
 ["inputs"], "all TOML documents near the grammar of protocols: every rule broken in every place, circular references of every shape, limits (255 messages) from both sides",
 "Tests try one instance of each broken rule, through the Protocol class and not the command line; cycles are tried only where the first struct is in the cycle.",
 ["beschi/protocol.py", "beschi/cli.py"], [("validation", "Protocol.__init__"), ("check_for_cycles", "beschi/protocol.py"), ("error handling", "beschi/cli.py main()")], ["exit status, stdout, stderr, output file of the command"])

prop("C11", "Code generated from a valid protocol compiles cleanly in its language",
 f"For every valid protocol the code generated for {SIX} compiles, without errors and without the warnings the project treats as errors in its own harnesses. This holds for every member type alone and as a list, every nesting, any order of declarations, and every combination of list and string size types.",
 ["programs", "configurations"], "all valid protocols whose names are not reserved in the target language",
 "The harnesses compile nine fixed protocols; most type/list/size-type combinations never reach a compiler.",
 ALLW + BP + [W + "boilerplate/C.0.h", W + "boilerplate/CSharp.0.cs"], [("generate()", "each writer")], ["compiler exit status and diagnostics"])

prop("C12", "Generation is deterministic and writes the same text to file and stdout",
 "For every valid protocol, language and option set, the generated text is a function of the protocol file and the options alone: repeated runs, a different working directory, hash seed or previously existing output file give identical output, and --output writes the same code that is printed to standard output without it. Reordering independent top-level tables of different kinds (structs, messages, enums) or changing comments, spacing and TOML notation does not change the generated code.",
 ["inputs", "configurations"], "all valid protocols, all eight languages, all option sets, all environments and TOML-equivalent spellings",
 "Tests only check that a file appears.",
 ["beschi/cli.py", "beschi/writer.py", "beschi/protocol.py"] + ALLW + [W + "swift.py", W + "assemblyscript.py"], [("main()", "beschi/cli.py"), ("Protocol.__init__", "beschi/protocol.py")], ["generated text"])

prop("C13", "Cosmetic options change neither wire format nor validity of the code",
 f"For every valid protocol, generating with --indent, --embed-protocol, --namespace or a rename-suppressing option yields code for {SIX} that still compiles and reads and writes exactly the same bytes as without it. --namespace has the same effect as writing that namespace in the protocol file, and is subject to the same rules.",
 ["configurations", "programs"], "all option combinations and all valid protocols, including protocol text containing comment delimiters",
 "Tests never compile code generated with any of these options.",
 ["beschi/cli.py", "beschi/writer.py"] + ALLW, [("option handling", "beschi/cli.py"), ("add_boilerplate / embed_protocol", "writers")], ["wire behaviour and compile status of code generated with options"])

prop("C14", "Generated C is memory-safe and leak-free on every input, including failures",
 "For every valid protocol, generated C code performs no invalid memory access, undefined behaviour or leak: reading any byte string at all, writing into a buffer of any size, creating, destroying and cleaning up messages and lists as documented. After a failed read the caller can release everything with the documented Destroy / Cleanup / DestroyMessageList function.",
 ["inputs", "fault_sequences", "histories"], "all byte strings (valid, truncated, corrupted), all buffer capacities, all documented create/read/write/destroy sequences",
 "The harness runs a handful of fixtures under valgrind; partially read strings and lists of structs, short write buffers and Create/Destroy are not among them.",
 [W + "c.py", W + "boilerplate/C.0.h", W + "boilerplate/C.1.h"], [("bounds checks", "boilerplate/C.1.h"), ("destructor()", "c.py")], ["AddressSanitizer/UBSan/LeakSanitizer reports, returned error codes"])

prop("C15", "Generated Zig frees everything it allocated, on success and on error",
 "For every valid protocol and every input byte string within the documented size limits, memory the generated Zig readers allocate is either reachable from the returned value and released by deinit plus freeing the returned slice, or, when an error is returned, already released. Reading never trips a safety check or aborts.",
 ["inputs", "fault_sequences"], "all valid, truncated and corrupted inputs; every allocation made to fail in turn",
 "The truncated-message test checks for leaks with one list of int16, which owns no nested memory.",
 [W + "zig.py", W + "boilerplate/Zig.zig"], [("errdefer / deinit", "zig.py, boilerplate/Zig.zig")], ["GeneralPurposeAllocator leak report after each read"])

prop("C16", "Reading and writing at any position touches only the bytes of that message",
 f"In {SIX}, several messages written one after another with the same writer, starting anywhere in a larger buffer (in TypeScript also a view into a larger ArrayBuffer), land contiguously, advance the position by exactly their size, and leave every other byte of the underlying storage unchanged. Reading them back from the same place yields them in order.",
 ["histories", "inputs"], "all sequences of tagged and untagged writes, reads, packs and unpacks at all offsets and with all amounts of slack",
 "Tests write from offset 0 into exactly sized buffers.",
 ALLW + BP, [("position tracking", "boilerplate data access types")], ["whole underlying buffer and position after each operation"])

prop("C17", "C reports allocation failures and stays releasable",
 "In generated C, when the configured allocator fails at any point of a read, Create, ProcessRawBytes or UnpackMessages, the call reports the allocation failure (an error code, or NULL from Create) instead of crashing, and everything it had allocated can be released as after any other failed read, without a leak.",
 ["fault_sequences"], "the n-th allocation failing, for every n, for every read operation and valid protocol",
 "No test makes an allocation fail.",
 [W + "c.py", W + "boilerplate/C.1.h"], [("MALLOC NULL checks", "c.py deserializer(), boilerplate/C.1.h ReadString")], ["returned code, sanitizer reports under an injected failing allocator"])

prop("C18", "Message identity: tags number messages 1..255 in declared order, everywhere",
 f"In {SIX}, the n-th declared message has wire tag n (up to 255), its reported message type corresponds to the same declaration, and generic operations on a message of unknown static type (size, write, process, destroy) behave as those of its concrete type. A tag of 0 or above the number of messages never yields a message.",
 ["programs", "inputs"], "all valid protocols with 1 to 255 messages; all 256 tag bytes",
 "The largest protocol in the tests has a handful of messages.",
 ALLW, [("MessageType enumeration", "generate()")], ["tag byte, reported type, dispatch results"])

prop("C19", "All languages agree on arbitrary bytes: same value or all report an error",
 f"For every valid protocol and every byte string (with well-formed UTF-8 in its strings), the generated readers in {SIX} all accept it with the same decoded value and the same number of bytes consumed, or all report an error; none aborts, hangs or returns a value that re-encodes to different bytes (booleans read as true re-encode as 1).",
 ["inputs"], "random and mutated byte strings for all valid protocols with length prefixes of at most 16 bits",
 "Tests feed only bytes produced by the writers plus two fixed corruptions.",
 ALLW + BP, [("deserializer()", "each writer")], ["accept/reject and decoded value in each language"])

BODY = ("with no compiler error, its constants and defaults are the documented ones; a message written is the documented bytes (tag included when asked for) and of the size it reports; reading them back "
        "restores every member and consumes exactly those bytes; every truncation of a message, and every length that does not fit, is reported as an error by the documented means and never stops the program; "
        "tagged streams give back their messages in order up to the limit or a zero byte; packed lists unpack to the same messages (the empty list included) and damaged containers are rejected.")
prop("C20", "Generated AssemblyScript follows the documentation for every protocol",
 "For every valid protocol and all values, the code generated for AssemblyScript works " + BODY + " Buffers may be views anywhere in larger ones and nothing outside them is touched; writing into too small a buffer reports failure. "
 "Messages hold their own data: reusing a buffer or changing another message does not change them. "
 "An enum number that is not declared reads as `_Unknown`; a stream that ends badly yields the messages before the damage.",
 ["programs", "inputs"], "all valid protocols (every pair of list and string size types, all member types), message values, truncated and damaged data; cosmetic options",
 "There is no AssemblyScript compiler in the sandbox, and the tests read three fixed protocols.",
 [W + "assemblyscript.py", W + "boilerplate/AssemblyScript.ts"], [("serializer(), deserializer(), gen_measurement()", "AssemblyScriptWriter"), ("DataAccess, Message, PackMessages", "boilerplate")],
 ["writeBytes, fromBytes, getSizeInBytes, ProcessRawBytes, PackMessages, UnpackMessages, by running the generated code under the language's typing rules"])

prop("C21", "Generated Swift follows the documentation for every protocol",
 "For every valid protocol and all values, the code generated for Swift works " + BODY + " Data may be a slice of larger Data; writing appends to the NSMutableData and leaves what is there alone. "
 "An enum number that is not declared, an unknown tag and a stream that ends badly throw.",
 ["programs", "inputs"], "all valid protocols (every pair of list and string size types, all member types), message values, truncated and damaged data; cosmetic options",
 "There is no Swift compiler in the sandbox, and the tests read three fixed protocols.",
 [W + "swift.py", W + "boilerplate/Swift.0.swift", W + "boilerplate/Swift.1.swift"], [("serializer(), deserializer(), gen_measurement()", "SwiftWriter"), ("DataReader, DataWriter, Message", "boilerplate")],
 ["WriteBytes, FromBytes, GetSizeInBytes, ProcessRawBytes, PackMessages, UnpackMessages, by running the generated code under the language's typing, overflow and bounds rules"])

prop("C22", "How a stream or buffer delivers its bytes makes no difference, and its failures are reported",
 "What generated code reads depends on the bytes alone, not on how they arrive: in Go any io.Reader (one byte per call, random pieces, empty reads, io.EOF together with the last bytes, no Seek) and in C# any readable Stream "
 "(short reads) gives the same messages, the same position (no byte beyond the message is taken) and the same rejections as the whole buffer; Rust's BufferReader::from_vec equals new. When the reader fails at some byte that "
 "the call needs, the call returns an error (or throws), never a shorter list or a message. Writers need nothing from their target but writing.",
 ["inputs", "schedules", "fault_sequences"], "all valid protocols, message values, streams and containers (also damaged); all ways of splitting the bytes; a failure at every byte",
 "Tests read from complete in-memory buffers or files only.",
 [W + "go.py", W + "csharp.py", W + "rust.py", W + "boilerplate/Go.go", W + "boilerplate/CSharp.cs", W + "boilerplate/Rust.rs"],
 [("readString, UnpackMessages, ProcessRawBytes", "Go.go, go.py"), ("FromBytes", "csharp.py deserializer()"), ("BufferReader", "Rust.rs")],
 ["values, positions and errors of FromBytes, ProcessRawBytes, UnpackMessages; bytes received by the target of WriteBytes and PackMessages"])

prop("C23", "Messages and calls are independent of each other",
 f"In {SIX}, a message holds its own data: after reading, the buffer may be overwritten or released and other messages read, changed or destroyed without changing it; changing one default instance does not change another; "
 "writing a message does not change it, and it writes the same bytes whenever it is written. Generated code keeps no state between calls: reads and writes of different messages may alternate, run inside each other's callbacks "
 "(streams, allocators) and, where the language has threads, run at the same time, each with the result it has alone.",
 ["inputs", "schedules", "histories"], "all valid protocols, pairs of message values, alternations of reads and writes; calls inside stream and allocator callbacks; four threads on separate buffers",
 "Tests use one message at a time and never reuse a buffer.",
 ALLW + BP, [("ReadString, list allocation", "deserializer() of each writer and boilerplate"), ("default values and constructors", "gen_struct() of each writer")],
 ["bytes and values of two messages before, between, during and after each other's reads and writes"])

prop("C24", "Protocols with different namespaces can be used together in one program",
 f"In {SIX}, the code generated from several protocols with different namespaces (or one without) builds and links into one program and each part behaves as it does alone, whatever names, sizes and numbers the protocols share. "
 "In C the headers may be included in any source files, in any order and repeatedly, from C and from C++, with each implementation in exactly one file, alone or beside others. With --typescript-use-namespace the generated texts may "
 "share a file, and the files of one Swift module declare nothing twice.",
 ["inputs", "configurations"], "all sets of valid protocols with different namespaces; all ways of including C headers with one implementation of each, as the last inclusion of its header in that file",
 "Tests build every protocol into a program of its own.",
 ALLW + BP, [("namespace substitution", "c.py CWriter.__init__, C.0.h include guard, C.1.h"), ("namespace blocks", "generate() of csharp.py, swift.py, typescript.py; go.py package clause")],
 ["compiler and linker status; bytes and values of each protocol in the common program"])

prop("C25", "Generated types have the documented member types and the declared order",
 f"In {SIX}, every struct and message of a protocol is a type of that name whose members have the names of the protocol and exactly the types the language's documentation gives for the protocol's types (lists included; enums as the generated enum). "
 "Members come in the declared order where the language has one: in C (with `_mt` first and the lengths of strings and lists before them) and in Go. "
 "A program written from the documentation therefore compiles against the generated code without conversions, and its data has the declared range.",
 ["inputs"], "all valid protocols; every member of every struct and message",
 "Tests assign a few literals, which convert silently; they never ask for the type of a member.",
 ALLW, [("type_mapping and get_var / gen_struct", "__init__ and gen_struct() of each writer"), ("documented types", "docs/languages/*.md data type tables")],
 ["the type of each member as the compiler of the language sees it; offsets in C and Go"])

prop("C26", "Options change the generated text as described and nothing else",
 "For every valid protocol and all eight languages, --indent replaces every level of the indentation throughout the generated text and nothing else, and --embed-protocol adds one comment with the complete text of the protocol file "
 "(at most comment delimiters and invisible control characters altered) and leaves the rest as it is. Options of other languages have no effect, and neither have the order of the arguments and the choice of short, long or `=` forms.",
 ["inputs", "configurations"], "all valid protocols and protocol texts, all eight languages, all option combinations and spellings of the arguments",
 "Tests never use these options and never look at the generated text.",
 ["beschi/cli.py", "beschi/writer.py"] + ALLW + [W + "swift.py", W + "assemblyscript.py"] + BP, [("argument handling", "beschi/cli.py main()"), ("add_boilerplate, write_line, get_protocol_comment_lines", "beschi/writer.py"), ("self.tab in measurement lines", "gen_measurement() of each writer")],
 ["generated text with and without the option"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
