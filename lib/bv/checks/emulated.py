"""C20, C21: the languages without a compiler in the sandbox, whose generated code runs on an emulator of the language."""
from __future__ import annotations
import re
from .. import ops
from ..model import EnumDef, Mem, Proto, StructDef, SIZE_TYPES, ValGen, full_proto, gen_proto, length_names, INT_RANGE
from .. import ops
from ..batch import Batch
from ..engine import Check
from .text import NASTY
from .wire import (DOMAIN, changes, huge, F, RULE, protocols, values, offsets, tail_cut, cuts, counter_proto, small_messages, truthy, enum_positions, bad_numbers, corrupt_one,
                   rounds, some, wild, many_messages)


def corrupted(p, mi, v, rng, n):
    """(bytes, value with None at the enum set to an undeclared number)"""
    for pos, size, t, path in some(rng, enum_positions(p, mi, v), n):
        for num in bad_numbers(p, t, rng, 6):
            c = ops.corrupt(p, {"msgs": [(mi, v)]}, (path, num))
            yield path, num, c["bytes"]


def optioned(rng, ns):
    """a protocol, its file and arguments, with cosmetic options: --indent, --embed-protocol with comment delimiters in the file, --namespace"""
    p = full_proto(rng, ns, rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES)) if rng.random() < 0.5 else gen_proto(rng, ns=ns, max_msgs=4)
    q, opts = p.clone(), ["--embed-protocol", "--indent", rng.choice(["\t", "  ", " ", "      ", "   "])]
    if rng.random() < 0.5:
        q.ns = rng.choice([None, "Original"])
        opts += ["--namespace", ns]
    lines = q.to_toml().split("\n")
    for c in rng.sample(NASTY, 9):
        lines.insert(rng.choice([a for a in range(len(lines)) if not lines[a].startswith("    {") and not lines[a].startswith("]")]), c)
    return p, "\n".join(lines), opts


def plain(ns):
    """nothing out of the ordinary: every scalar, an enum, a struct, lists of them, default sizes"""
    kinds = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "string", "Colour", "Point"]
    p = Proto(ns)
    p.enums = [EnumDef("Colour", [("Red", 0), ("Green", 1), ("Blue", 2)], False)]
    p.structs = [StructDef("Point", [Mem("x", "float"), Mem("y", "float")])]
    p.messages = [StructDef("Single", [Mem("a%d" % i, k) for i, k in enumerate(kinds)]), StructDef("Lists", [Mem("a%d" % i, k, True) for i, k in enumerate(kinds)]), StructDef("Small", [Mem("n", "int32")])]
    return p


GAP = re.compile(r"^PANIC compile error|^ERR (TypeError|ReferenceError) .*(is not a function|is not defined|is not a constructor|not a number|mix BigInt)")


def understands(ck, lang):
    """An emulator that cannot compile even an ordinary protocol does not know some construct that the code now uses: then it can judge nothing
    (a compiler error in every ordinary protocol needs no search).  Errors that need a certain name, order, nesting, size or option are judged."""
    ps = {"plain": plain(None), "plainns": plain("Plain")}
    b = Batch(ps, [lang]).generate()
    if b.broken:
        return True
    b.build()
    why = ["%s: %s" % (pid, w) for (_, pid), w in b.broken.items()]
    h = b.lang[lang]
    why += ["%s: %s" % x for x in h.skipped.items()]
    if not why:
        rng = ck.rng("plain")
        for pid, p in ps.items():
            g = ValGen(p, rng)
            vs = [g.message(mi) for mi in range(3) for _ in range(3)]
            cases = [{"op": "W", "off": 0, "pad": 0, "msgs": [(mi, v, t)], "look": F()} for mi, v in vs for t in (0, 1)]
            cases += [{"op": "R", "off": 0, "msgs": [x], "look": F()} for x in vs] + [{"op": "P", "off": 0, "max": -1, "msgs": vs, "look": F()}, {"op": "K", "off": 0, "pad": 0, "msgs": vs, "look": F()},
                      {"op": "U", "off": 0, "msgs": vs, "look": F()}, {"op": "E", "look": F()}] + [{"op": "D", "mi": mi, "look": F()} for mi in range(3)]
            for c, r in zip(cases, h.run([ops.request(p, pid, c) for c in cases])):
                if r and GAP.search(r):
                    why.append(c["op"] + " " + r)
    b.close()
    for w in why[:3]:
        k = "an ordinary protocol is not understood by the emulator: " + w[:160]
        ck.skipped[k] = ck.skipped.get(k, 0) + 1
    return not why


def emulated(ck, lang, rng, protos, unknown, partial, aborts):
    """unknown: an undeclared enum number is read as a special value (else rejected); partial: a malformed stream yields the messages before (else rejected)"""
    ck.may_skip = True
    if not ck.classes and not understands(ck, lang) or ck.skipped and not ck.evals:
        return
    extra, tomls = {}, {}
    for i in range(2):
        pid = "opt%d_%d" % (ck.classes.get("protocols generated", 0), i)
        protos[pid], tomls[pid], extra[pid] = optioned(rng, "Opt%d" % i)
        ck.count("protocols generated with cosmetic options")
    b = ck.build(protos, [lang], extra, tomls=tomls)
    for pid, why in (b.lang[lang].skipped if lang in b.lang else {}).items():
        ck.skipped["not understood by the emulator: " + why[:80]] = ck.skipped.get("not understood by the emulator: " + why[:80], 0) + 1
    more = 3 if ck.thorough else 1
    cases = []
    long = huge(b.protos, rng)
    for pid, p in b.protos.items():
        add = lambda c: cases.append((pid, c))
        vs = values(p, rng, 60 * more, 2)
        small = vs[:-2]
        vs += long.get(pid, [])
        add({"op": "E", "look": F({"value"})})
        if lang == "assemblyscript":
            add({"op": "T", "look": F()})
        for mi in range(len(p.messages)):
            add({"op": "D", "mi": mi, "look": F({"value", "bytes"})})
        for mi, v in vs:
            off, pad = offsets(rng), rng.choice([0, 0, 1, 7])
            add({"op": "W", "off": off, "pad": pad, "msgs": [(mi, v, rng.choice([0, 1]))], "look": F({"bytes", "place", "size", "type"})})
            c = {"op": "R", "off": offsets(rng), "msgs": [(mi, v)], "tail": bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 0, 1, 9]))), "look": F({"value", "pos"})}
            add(c)
            t = truthy(p, mi, v, rng)
            if t != p.encode(mi, v):
                add(dict(c, bytes=t))
        for mi, v in some(rng, small, 12 * more) + [x for x in small if x[1] != p.default(x[0])][:4]:
            for cut in cuts(p, mi, v, rng, 14):
                add({"op": "R", "off": rng.choice([0, 0, 5]), "msgs": [(mi, v)], "cut": cut, "expect": "err", "look": F({"reject"})})
            ck.count("messages truncated at many points")
            n = len(p.encode(mi, v))
            if lang == "assemblyscript":
                for short in sorted({1, n, n // 2} | {rng.randint(1, max(n, 1)) for _ in range(3)}):
                    tag = rng.choice([0, 1])
                    if 0 < short <= n + tag:
                        add({"op": "W", "off": rng.choice([0, 4]), "pad": 0, "short": short, "msgs": [(mi, v, tag)], "look": F({"error"})})
                        ck.count("writes into buffers too small")
            for path, num, d in corrupted(p, mi, v, rng, 5):
                if not unknown:
                    add({"op": "R", "off": 0, "msgs": [(mi, v)], "bytes": d, "corrupt": (path, num), "expect": "err", "look": F({"reject"})})
                else:
                    add({"op": "R", "off": 0, "msgs": [(mi, v)], "bytes": d, "corrupt": (path, num), "unknown": path, "look": F({"value", "pos"})})
                ck.count("undeclared enum numbers")
        cases += changes(pid, p, small, rng, 16 * more, {"size", "bytes", "value"}, ck)
        if lang == "assemblyscript":
            for _ in range(20 * more):
                add({"op": "I", "msgs": [rng.choice(small), rng.choice(small)], "look": F()})
                ck.count("pairs of messages in alternating use")
        for _ in range(24 * more):
            n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
            ms = [rng.choice(small) for _ in range(n)]
            mx = rng.choice([-1, -1, -1, 0, 1, max(n - 1, 0), n, n + 1, -2, 2**31 - 1])
            c = {"op": "P", "off": offsets(rng), "max": mx, "msgs": ms, "look": F({"value", "pos", "type", "reject"})}
            unlimited = mx < 0 or mx > n
            r = rng.random()
            bad = None
            if r < 0.3:
                c["end"] = b""
            elif r < 0.5:
                c["end"] = b"\0" + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 3, 20])))
            elif r < 0.7 and len(p.messages) < 255:
                bad = bytes([rng.randint(len(p.messages) + 1, 255)]) + bytes(rng.choice([0, 9]))
            else:
                mi, v = rng.choice(small)
                k = tail_cut(p, mi, v, rng)
                if k:
                    bad = p.encode(mi, v, True)[:k]
            if bad is not None:
                c["end"] = bad
                ck.count("streams with a malformed end")
                if unlimited:
                    if partial:
                        c["look"] = F({"value", "type"})
                    else:
                        c["expect"] = "err"
            if "end" in c:
                add(c)
        for _ in range(14 * more):
            ms = [rng.choice(small) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
            add({"op": "K", "off": offsets(rng), "pad": rng.choice([0, 0, 6]), "msgs": ms, "look": F({"bytes", "size", "place"})})
            add({"op": "U", "off": offsets(rng), "msgs": ms, "tail": rng.choice([b"", b"", bytes(5)]), "look": F({"value", "type"})})
            d = p.pack(ms)
            n = len(ms)
            h = bytearray(d)
            h[rng.randrange(4)] ^= rng.choice([1, 0x20, 0x80])
            bads = [bytes(h), d[:4] + (n + rng.choice([1, 2, 255, 65536, 2**31])).to_bytes(4, "little") + d[8:], d[:rng.randrange(8)]]
            if n:
                cut = sum(len(p.encode(mi, v, True)) for mi, v in ms[:rng.randrange(n)])
                bads += [d[:8 + cut] + b"\0" + d[8 + cut:], d[:8 + cut]]
                k = tail_cut(p, *ms[-1], rng)
                if k:
                    bads.append(d[:len(d) - 1 - len(p.encode(*ms[-1], True)) + k])
            for x in some(rng, bads, 2):
                add({"op": "U", "off": rng.choice([0, 3]), "msgs": [], "bytes": x, "expect": "err", "look": F({"reject"})})
                ck.count("damaged containers")
        if p.lt in ("byte", "uint16", "int16") and p.st in ("byte", "uint16", "int16") and not unknown:
            for _ in range(30 * more):
                mi, d = wild(p, small, rng)
                st, v, end = p.decode(mi, d)
                if st == "ok":
                    add({"op": "R", "off": 0, "msgs": [(mi, v)], "bytes": d[:end], "tail": d[end:], "look": F({"value", "pos"})})
                elif st not in ("utf8", "huge"):
                    add({"op": "R", "off": 0, "msgs": [(mi, p.default(mi))], "bytes": d, "expect": "err", "look": F({"reject"})})
                ck.count("arbitrary bytes")
    ck.run(b, cases)
    for v in ck.violations:
        if v.pid in tomls and v.kind in ("build", "case"):
            v.kind = "option-" + v.kind
            v.extra = {"args": extra[v.pid], "text": tomls[v.pid]}
            v.reason = "with %s: %s" % (" ".join(map(repr, extra[v.pid])), v.reason)
    b.close()


def c20():
    ck = Check("C20", "exploration", RULE.replace("in one language", "in AssemblyScript (emulated)"), DOMAIN + [
        "lib/bv/lang/asrt stands for the AssemblyScript compiler and standard library: scalar types and conversions as documented there"])
    for k in rounds(ck, 1, 8):
        rng = ck.rng(k)
        protos = protocols(rng, 14, full=3)
        protos["lens"] = length_names(rng, "Lens", rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES))
        protos["many"] = many_messages(rng, rng.choice([255, 254, 200]), "Many")
        emulated(ck, "assemblyscript", rng, protos, True, True, True)
    return ck.finish()


def c21():
    ck = Check("C21", "exploration", RULE.replace("in one language", "in Swift (emulated)"), DOMAIN + [
        "lib/bv/lang/swrt stands for the Swift compiler, standard library and Foundation"])
    for k in rounds(ck, 1, 8):
        rng = ck.rng(k)
        protos = protocols(rng, 14, full=3)
        protos["lens"] = length_names(rng, "Lens", rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES))
        protos["many"] = many_messages(rng, rng.choice([255, 254, 200]), "Many")
        emulated(ck, "swift", rng, protos, False, False, True)
    return ck.finish()


CHECKS = {"C20": c20, "C21": c21}
