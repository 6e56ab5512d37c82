#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
TRUST = " Trusts the compilers and the reference encoder/decoder in lib/bv/model.py, written from the documentation. Names reserved in a target language, structs without members and protocols without messages are outside the domain."
T = {
 "C01": ("generated protocols and values; bytes of six generated writers against a reference encoder", "Sampled protocols x values in six languages, byte-exact oracle; every size type for lists and strings in every run."),
 "C02": ("generated protocols and values; six generated readers against a reference decoder (round trip, differential)", "Sampled; every member and the reader position are compared."),
 "C03": ("generated protocols and values; reported size against bytes written (invariant)", "Sampled; concrete and generic interface, packed size."),
 "C04": ("generated tagged streams (histories) against a stream model", "Sampled streams with limits, terminators, unknown tags and malformed messages."),
 "C05": ("generated message lists packed/unpacked against a container model, with damaged containers", "Sampled lists and corruptions, round trip and rejection."),
 "C06": ("truncation of generated messages, streams and containers at every byte", "Every cut point of the sampled messages (edges and random points of long ones)."),
 "C07": ("generated enum corruptions at every enum position against the declared values", "Sampled enums and values, each enum position of the sampled message corrupted in turn."),
 "C08": ("generated enums over boundary values; constants, wire width and rejection against the documented rule", "Pairs of boundary numbers (all in thorough), six languages."),
 "C09": ("generated protocols; default messages compared with the documented defaults", "Every message of every sampled protocol in six languages."),
 "C10": ("grammar-based generation and mutation of protocol files against an executable reading of the documented rules", "Sampled documents; verdict, exit status, output and output file of the command in all eight languages; termination by a CPU limit."),
 "C11": ("generated protocols through each language's compiler with warnings as errors", "All 49 size-type pairs, every type alone and listed, and sampled protocols. Swift and AssemblyScript have no compiler here (see C20, C21)."),
 "C12": ("metamorphic: same protocol under changed environment, spelling, order and output target must give the same text", "Sampled protocols, options, environments and spellings in all eight languages."),
 "C13": ("metamorphic: code generated with cosmetic options driven by the same wire cases as without", "Sampled protocols and option sets in six languages, compiled and run."),
 "C14": ("structure-aware fuzzing of generated C under AddressSanitizer, UBSan and a counting allocator", "Sampled protocols, inputs, buffer sizes and create/destroy sequences; gcc 13 sanitizers observe each access."),
 "C15": ("structure-aware fuzzing of generated Zig with a counting, failing allocator and safety checks on", "Sampled protocols and inputs; every allocation of the sampled operations made to fail in turn."),
 "C16": ("generated operation histories at generated offsets; the whole underlying buffer against a model", "Sampled sequences of writes, reads, packs and unpacks with slack and offsets in six languages."),
 "C17": ("fault injection: every allocation of generated operations made to fail in turn, under sanitizers", "All failing positions of each sampled operation in C."),
 "C18": ("generated protocols of 1 to 255 messages; all 256 tags against the declaration order", "Counts 1, 128, 129, 254 and 255 in every run; six languages."),
 "C19": ("differential fuzzing of six generated readers with arbitrary bytes against a reference decoder", "Sampled protocols and byte strings; value, consumed length or rejection, and re-encoding."),
 "C20": ("generated protocols, values and damage; AssemblyScript run on an emulator of its typing and library against the reference model", "Sampled; the compiler is replaced by lib/bv/lang/asrt (types from the TypeScript checker, conversions as documented). Code outside what the emulator knows is skipped and counted, never reported."),
 "C21": ("generated protocols, values and damage; Swift run on an emulator of its values and library against the reference model", "Sampled; the compiler is replaced by lib/bv/lang/swrt (parser, name and override rules, typed values, traps). Type inference is not emulated; code outside what the emulator knows is skipped and counted, never reported."),
 "C22": ("generated splittings of generated streams, and readers failing after n bytes, against the stream model (metamorphic: same as from one buffer)", "Sampled messages, streams and containers; Go and C# streams, Rust owned buffers."),
 "C23": ("generated pairs of messages in alternating, nested (stream and allocator callbacks) and concurrent calls against the reference model", "Sampled pairs and one alternation each; calls inside callbacks are deterministic, four threads add unscheduled runs."),
 "C24": ("generated sets of protocols with shared names in one program, in generated arrangements of C sources, against the reference model", "Sampled sets, one arrangement each; in Swift only the names a file declares for its module are compared."),
 "C25": ("generated protocols; each member's type and place asserted in the language itself against the documented table", "Every member of every sampled protocol; AssemblyScript within C20, Swift only as far as its emulator checks types (C21)."),
 "C26": ("metamorphic: generated protocol texts through the command with and without an option, the two outputs compared through the documented effect", "Sampled protocol texts and option combinations in all eight languages; text only (behaviour with options is C13's)."),
}
checks = [{"property": k, "quick_cmd": "bash checks/run.sh %s quick" % k, "thorough_cmd": "bash checks/run.sh %s thorough" % k, "technique": "property-based testing: " + t,
           "level": "fault_enumeration" if k == "C17" else "exploration", "level_note": n + TRUST} for k, (t, n) in T.items()]
d = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. checks/replay.py FILE reruns a reproduction. See DESIGN.md."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
