"""The checks that drive generated readers and writers: C01-C09, C14-C19 (C13 reuses them)."""
from __future__ import annotations
import os, random
from .. import model, ops, env
from ..model import SIZE_TYPES, SIZE, INT_RANGE, ValGen, Proto, StructDef, EnumDef, Mem, full_proto, gen_proto, wide_proto, length_names
from ..engine import Check
from ..batch import WIRE, Batch, generate
from ..lang.base import BuildError
from ..lang.cfuzz import CFuzz

F = frozenset
DOMAIN = ["protocols have at least one message and no struct without members (messages may be empty)",
          "names avoid the reserved words of the languages and the types of their standard libraries; in C, no member is named like the length field of another (x and x_len)",
          "the sign and payload of a NaN are compared in C01 and C02 and for quiet NaNs only, and not in TypeScript",
          "strings are well-formed UTF-8"]


def namespace(rng, i):
    return rng.choice(["P%dx", "Net%dProto", "game_%d", "wire%d", "BESCHI_%d", "Beschi%d", "beschi_x%d", "Kit%dBESCHIx", "HTTPServer%d", "Game%dD", "my_Game_%d", "X%d", "q%d", "ALL_CAPS%d", "camelCase%dName"]) % i


def protocols(rng, n=12, sizes=None, full=3):
    """n protocols: `full` of them contain every member type and nesting, one has no namespace, one is large in every direction; within every
    seven consecutive protocols (but the last) each size type is used for lists and for strings."""
    lts, sts = [], []
    while len(lts) < n:
        a, b = list(sizes or SIZE_TYPES), list(sizes or SIZE_TYPES)
        rng.shuffle(a)
        rng.shuffle(b)
        lts += a
        sts += b
    out = {}
    for i in range(n):
        ns = namespace(rng, i)
        if i < full:
            lt, st = ("uint32", "uint32") if i == 0 and not sizes else (lts[i], sts[i])
            p = full_proto(rng, ns, lt, st)
        elif i == full + 1:
            p = wide_proto(rng, ns, lts[i], sts[i])
        else:
            p = gen_proto(rng, ns=None if i == full else ns, sizes=(lts[i], sts[i]), max_msgs=5)
        if full + 1 < i < full + 4 and i < n - 3:
            lean(p, rng)
        if i == n - 3 and i > full + 1:
            longer(p, rng)
        if i == n - 2 and i > full + 1:
            kindred(p, rng)
        p.explicit_sizes = i % 3 == 1       # elsewhere the default size, uint32, is left to the generator
        if not sizes and n - 3 < i:         # one of the two sizes given, the other left
            p.explicit_sizes = False
            p.lt, p.st = ("uint32", p.st) if i == n - 1 else (p.lt, "uint32")
        out["p%d" % i] = p
    return out


def lean(p, rng):
    """leave out whole parts of the protocol: enums, structs, both, what messages could do with them, or all that is not a plain number"""
    what = rng.choice(["enums", "structs", "both", "uses", "uses", "plain"])
    types = {x.name for x in (p.enums if what in ("enums", "both") else []) + (p.structs if what in ("structs", "both") else [])}
    for s in p.structs + p.messages:
        had = bool(s.members)
        if what == "plain":
            s.members = [m for m in s.members if not m.is_list and p.kind(m.type) == "num"]
        elif what == "uses":
            s.members = [m for m in s.members if s in p.structs or p.kind(m.type) not in ("struct", "enum")]
        else:
            s.members = [m for m in s.members if m.type not in types]
        if had and not s.members:
            s.members = [Mem("n", rng.choice(["byte", "uint16", "int32", "uint64", "double"] + ([] if what == "plain" else ["string"])), False)]
    p.enums = [e for e in p.enums if e.name not in types]
    p.structs = [x for x in p.structs if x.name not in types]


def kindred(p, rng):
    """names that begin with one another: types, members of a message or struct, values of an enum"""
    def family(word, n):
        ends = ["", "s", "x", "xs", "2", "22", "sx", "ed", "eds", "x2", "q", "qq", "y", "ys", "yx", "z", "zz", "h", "hx", "hs"]
        ends += ["w" * (k + 1) for k in range(max(0, n - len(ends)))]
        names = [word + e for e in ends[:max(n, min(len(ends), 6))]]
        return rng.sample(names, n)
    while len(p.messages) < 3:
        p.messages.append(StructDef("More%d" % len(p.messages), [Mem(m.name, m.type, m.is_list) for m in rng.choice(p.messages).members]))
    types = p.enums + p.structs + p.messages
    new = dict(zip([t.name for t in types], family(rng.choice(["Node", "Pack", "Hall", "Bit"]), len(types))))
    for e in p.enums:
        e.name = new[e.name]
        e.values = [(a, b) for a, (_, b) in zip(family(rng.choice(["Busy", "Dim"]), len(e.values)), e.values)]
    for s in p.structs + p.messages:
        s.name = new[s.name]
        for m, a in zip(s.members, family(rng.choice(["node", "part", "bit"]), len(s.members))):
            m.name = a
            m.type = new.get(m.type, m.type)


def longer(p, rng):
    """give everything in the protocol a name of 33 to 140 characters that it shares with others up to the last few"""
    k = rng.choice([33, 60, 64, 120])
    word = (rng.choice("abcdfghjkmnpqrstvwxyz") + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(k)))[:k]
    types = {x.name: word.capitalize() + x.name for x in p.enums + p.structs + p.messages}
    for e in p.enums:
        e.name = types[e.name]
        e.values = [(word.capitalize() + a, b) for a, b in e.values]
    for s in p.structs + p.messages:
        s.name = types[s.name]
        for m in s.members:
            m.name = word + "_" + m.name if m.name.islower() else word + (m.name.capitalize() if m.name[1:2].isupper() else m.name[0].upper() + m.name[1:])
            m.type = types.get(m.type, m.type)


def values(p, rng, n, extremes=2):
    """every message at its default and with every list and string non-empty, then random ones"""
    out = []
    for mi in range(len(p.messages)):
        out.append((mi, p.default(mi)))
    for mi in range(len(p.messages)):
        out.append((mi, Dense(p, rng).message(mi)[1]))
    vg = ValGen(p, rng, big=0.02)
    while len(out) < n:
        out.append(vg.message())
    xg = ValGen(p, rng, big=0.6, budget=3000)
    for _ in range(extremes):
        out.append(xg.message())
    for _ in range(extremes):
        m = tall(p, rng)
        if m:
            out.append(m)
    return out


def huge(protos, rng):
    """a long text of one-byte characters, a long text of others and a long list of numbers, each in two of the protocols: {pid: [(mi, v)]}"""
    out = {}
    for kind in ("ascii", "text", "numbers"):
        found = 0
        for pid in rng.sample(sorted(protos), len(protos)):
            m = tall(protos[pid], rng, kind)
            if m and found < 2:
                found += 1
                out.setdefault(pid, []).append(m)
    return out


def tall(p, rng, huge=None):
    """a message with one long list of anything: structs, strings, enums, numbers, at any nesting; the rest of it small.  None if it has no list.
    Huge: instead a string or a list of numbers with well over a hundred thousand bytes or elements, None if it can have none"""
    vg = ValGen(p, rng, big=0, budget=3)
    dg = Dense(p, rng)
    n = min(rng.choice([6, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]), vg.maxlen(p.lt))
    mi = rng.choice([i for i, m in enumerate(p.messages) if m.members] or [0])
    dg.budget = 20
    v = dg.struct(p.messages[mi])
    spots, texts = [], []

    def walk(s, v):
        for i, m in enumerate(s.members):
            if m.is_list:
                spots.append((m.type, v, i))
            elif m.type == "string":
                texts.append((m.type, v, i))
            if p.kind(m.type) == "struct":
                for x in (v[i] if m.is_list else [v[i]]):
                    walk(p.struct(m.type), x)
    walk(p.messages[mi], v)
    if huge:
        n = rng.randint(130000, 300000)
        spots = [s for s in spots if p.kind(s[0]) == "num" and vg.maxlen(p.lt) > n] if huge == "numbers" else [s for s in texts if vg.maxlen(p.st) > n]
    if not spots:
        return None
    if huge:
        t, at, i = rng.choice(spots)
        at[i] = b"x" * n if huge == "ascii" else vg.text(n).encode() if huge == "text" else [vg.val(t) for _ in range(n)]
        return mi, v
    composite = [s for s in spots if not p.is_simple_type(s[0])]
    t, at, i = rng.choice(composite if composite and rng.random() < 0.6 else spots)

    def small():
        vg.budget = 3
        return vg.val(t)
    at[i] = [small() for _ in range(n)]
    return mi, v


class Dense(ValGen):
    """no empty lists or strings, unequal neighbours"""

    def list(self, t):
        n = min(self.rng.choice([1, 2, 2, 3]) if self.budget > 0 else 1, self.maxlen(self.p.lt))
        self.budget -= n
        return [self.val(t) for _ in range(n)]

    def string(self):
        return "".join(self.rng.choice(["a", "é", "日", "😀", "z9"]) for _ in range(self.rng.randint(1, 4))).encode()


class Payload(ValGen):
    """floats that are mostly NaNs with sign and payload (quiet ones); not for TypeScript, whose numbers do not keep them"""
    LANGS = [l for l in WIRE if l != "typescript"]

    def float_bits(self, bits):
        if self.rng.random() < 0.3:
            return ValGen.float_bits(self, bits)
        m = 23 if bits == 32 else 52
        return (1 << (bits - 1)) - (1 << (m - 1)) | self.rng.getrandbits(m - 1) | (self.rng.getrandbits(1) << (bits - 1))

    @classmethod
    def messages(cls, p, rng, n):
        deep = {}

        def has(s):
            if s.name not in deep:
                deep[s.name] = any(m.type in ("float", "double") or p.kind(m.type) == "struct" and has(p.struct(m.type)) for m in s.members)
            return deep[s.name]
        l = [i for i, m in enumerate(p.messages) if has(m)]
        vg = cls(p, rng, big=0, budget=60)
        return [vg.message(rng.choice(l)) for _ in range(n)] if l else []


def offsets(rng):
    if rng.random() < 0.04:
        return rng.choice([127, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536])
    return rng.choice([0, 0, 1, 2, 3, 5, 8, 17])


def tail_cut(p, mi, v, rng):
    """where to cut the tagged encoding of a message so that it is incomplete: at the edges of its primitives or anywhere; None if it has no bytes"""
    n = len(p.encode(mi, v))
    if not n:
        return None
    edges = sorted({x for pos, size, *_ in p.layout(mi, v) for x in (pos, pos + 1, pos + size - 1) if 0 <= x < n})
    return 1 + (rng.choice(edges) if rng.random() < 0.7 else rng.randrange(n))


def small_messages(p, rng, n):
    """n messages of few bytes each, their values from a small set"""
    vg = ValGen(p, rng, big=0, budget=2)
    have = sorted([vg.message() for _ in range(120)] + [(mi, p.default(mi)) for mi in range(len(p.messages))], key=lambda m: len(p.encode(*m)))
    have = [m for m in have if len(p.encode(*m)) <= 24][:40] or have[:3]
    return [rng.choice(have) for _ in range(n)]


def counter_proto(ns):
    p = Proto(ns=ns)
    p.messages = [StructDef("Tick", []), StructDef("Tock", [Mem("n", "uint32")]), StructDef("Name", [Mem("s", "string")])]
    return p


def some(rng, l, n):
    l = list(l)
    return l if len(l) <= n else rng.sample(l, n)


RULE = ("Protocols are generated from the grammar of valid protocols (three of each batch contain every member type, alone and as a list, in every "
        "nesting; size types rotate through all seven for lists and for strings); message values are generated over each type's whole range with "
        "boundaries favoured. One evaluation = one request judged in one language. Non-trivial: distinct (protocol text, request) whose messages are "
        "not all at their default value, or whose bytes are crafted.")


def rounds(ck, quick, thorough):
    return range(thorough if ck.thorough else quick)


# ------------------------------------------------------------------------------------------------ C01-C03
def c01():
    ck = Check("C01", "exploration", RULE, DOMAIN)
    for k in rounds(ck, 1, 12):
        rng = ck.rng(k)
        b = ck.build(dict(protocols(rng), lens=length_names(rng, "Lens", rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES))))
        cases = []
        more = huge(b.protos, rng)
        ck.count("messages with a text or list of 130000 to 300000", sum(map(len, more.values())))
        for pid, p in b.protos.items():
            for mi, v in values(p, rng, 110 if not ck.thorough else 300, 4) + more.get(pid, []):
                cases.append((pid, {"op": "W", "off": offsets(rng), "pad": rng.choice([0, 0, 1, 7]), "msgs": [(mi, v, rng.choice([0, 1, 2, 3]))], "look": F({"bytes"})}))
        ck.run(b, cases)
        cases = [(pid, {"op": "W", "off": 0, "pad": 0, "msgs": [(mi, v, 0)], "look": F({"bytes"})}) for pid, p in b.protos.items() for mi, v in Payload.messages(p, rng, 8)]
        ck.count("messages with NaNs of every sign and payload", len(cases))
        ck.run(b, cases, Payload.LANGS)
        b.close()
    return ck.finish()


def truthy(p, mi, v, rng):
    """encoding with the true booleans replaced by arbitrary non-zero bytes"""
    enc = bytearray(p.encode(mi, v))
    for pos, size, kind, t, _ in p.layout(mi, v):
        if kind == "num" and t == "bool" and enc[pos]:
            enc[pos] = rng.choice([1, 2, 3, 127, 128, 254, 255, rng.randint(1, 255)])
    return bytes(enc)


def c02():
    ck = Check("C02", "exploration", RULE, DOMAIN)
    for k in rounds(ck, 1, 12):
        rng = ck.rng(k)
        b = ck.build(dict(protocols(rng), lens=length_names(rng, "Lens", rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES))))
        cases = []
        more = huge(b.protos, rng)
        ck.count("messages with a text or list of 130000 to 300000", sum(map(len, more.values())))
        for pid, p in b.protos.items():
            for mi, v in values(p, rng, 110 if not ck.thorough else 300, 4) + more.get(pid, []):
                c = {"op": "R", "off": offsets(rng), "msgs": [(mi, v)], "tail": bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 0, 1, 4, 9]))),
                     "look": F({"value", "pos"})}
                cases.append((pid, c))
                t = truthy(p, mi, v, rng)
                if t != p.encode(mi, v):
                    cases.append((pid, dict(c, bytes=t)))
                    ck.count("reads with booleans other than 0 and 1")
        ck.run(b, cases)
        cases = [(pid, {"op": "R", "off": 0, "msgs": [m], "tail": b"", "look": F({"value", "pos", "payload"})}) for pid, p in b.protos.items() for m in Payload.messages(p, rng, 8)]
        ck.count("messages with NaNs of every sign and payload", len(cases))
        ck.run(b, cases, Payload.LANGS)
        b.close()
    return ck.finish()


def c03():
    ck = Check("C03", "exploration", RULE, DOMAIN)
    for k in rounds(ck, 1, 12):
        rng = ck.rng(k)
        b = ck.build(dict(protocols(rng), big=counter_proto("Counter")))
        cases = []
        for pid, n in long_runs(ck, b, rng):
            cases.append((pid, {"op": "K", "off": 0, "pad": 0, "msgs": small_messages(b.protos[pid], rng, n), "look": F({"size"})}))
            ck.count("lists of 127 to 70000 messages packed")
        more = huge(b.protos, rng)
        ck.count("messages with a text or list of 130000 to 300000", sum(map(len, more.values())))
        for pid, p in b.protos.items():
            vs = values(p, rng, 90 if not ck.thorough else 250, 4)
            for i, (mi, v) in enumerate(vs + more.get(pid, [])):
                cases.append((pid, {"op": "W", "off": offsets(rng), "pad": 3, "msgs": [(mi, v, (0, 2, 1, 3)[i % 4])], "look": F({"size"})}))
            for _ in range(12 if not ck.thorough else 40):
                ms = [rng.choice(vs[:-4]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
                cases.append((pid, {"op": "K", "off": offsets(rng), "pad": 0, "msgs": ms, "look": F({"size"})}))
                ck.count("message lists packed")
            cases += changes(pid, p, vs[:-4], rng, 14 if not ck.thorough else 60, {"size"}, ck)
        ck.run(b, cases)
        b.close()
    return ck.finish()


def changes(pid, p, vs, rng, n, look, ck):
    """messages given several values in turn"""
    by = {}
    for m in vs:
        by.setdefault(m[0], []).append(m)
    out = []
    for i in range(n):
        l = by[sorted(by)[i % len(by)]]
        ms = [rng.choice(l)]
        while len(ms) < rng.choice([2, 3, 4]):
            ms.append(rng.choice(l) if rng.random() < 0.8 else (ms[0][0], p.default(ms[0][0])))
        out.append((pid, {"op": "M", "msgs": ms, "look": F(look)}))
        ck.count("messages changed in place between writes", len(ms) - 1)
    return out


# ------------------------------------------------------------------------------------------------ C04, C05
def enum_positions(p, mi, v):
    return [(pos, size, t, path) for pos, size, kind, t, path in p.layout(mi, v) if kind == "enum"]


def bad_numbers(p, t, rng, n):
    """numbers of the enum's width that are not declared, those next to declared ones and to the bounds first"""
    e = p.enum(t)
    lo, hi = INT_RANGE[e.encoding]
    have = {v for _, v in e.values}
    near = []
    for v in have:
        near += [v - 1, v + 1, -v, v + 256, v - 256, v + 65536, v - 65536, v ^ 0x80, v * 256, v ^ 0x8000]
    near += [0, 1, -1, lo, hi, lo + 1, hi - 1, len(e.values), max(have) + 1, min(have) - 1]
    # gaps inside the range of declared values
    if max(have) - min(have) > 1:
        near += [rng.randint(min(have), max(have)) for _ in range(4)]
    near += [rng.randint(lo, hi) for _ in range(4)]
    ok = sorted({x for x in near if lo <= x <= hi and x not in have})
    return some(rng, ok, n)


def corrupt_one(p, mi, v, rng):
    """encoding of the message with one enum out of range, or None"""
    ps = enum_positions(p, mi, v)
    if not ps:
        return None
    pos, size, t, path = rng.choice(ps)
    nums = bad_numbers(p, t, rng, 1)
    if not nums:
        return None
    enc = bytearray(p.encode(mi, v))
    enc[pos:pos + size] = nums[0].to_bytes(size, "little", signed=nums[0] < 0)
    return bytes(enc)


def c04():
    ck = Check("C04", "exploration", RULE.replace("message values are", "streams of zero to seven tagged messages with values"), DOMAIN)
    for k in rounds(ck, 1, 12):
        rng = ck.rng(k)
        b = ck.build(dict(protocols(rng), big=counter_proto("Counter")))
        cases = []
        for pid, p in b.protos.items():
            vs = values(p, rng, 30, 0)
            n_msgs = len(p.messages)

            def junk():
                return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 3, 20])))
            for _ in range(160 if not ck.thorough else 400):
                n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
                ms = [rng.choice(vs) for _ in range(n)]
                mx = rng.choice([-1, -1, -1, 0, 1, max(n - 1, 0), n, n + 1, n + 3, -2, -2**31, 2**31 - 1])
                c = {"op": "P", "off": offsets(rng), "max": mx, "msgs": ms, "look": F({"value", "pos", "type", "reject"})}
                unlimited = mx < 0 or mx > n
                r = rng.random()
                if r < 0.25:
                    c["end"] = b""
                elif r < 0.4:
                    # the last message is incomplete
                    at = [i for i in range(n) if p.encode(*ms[i])]
                    if not at:
                        continue
                    n = at[-1] + 1
                    c["msgs"] = ms = ms[:n]
                    c["cut"] = tail_cut(p, *ms[-1], rng)
                    if mx < 0 or mx >= n:
                        c["expect"] = "err"
                        ck.count("streams with an incomplete last message")
                    else:
                        ck.count("streams limited by max, incomplete message behind")
                elif r < 0.6:
                    c["end"] = b"\0" + junk()
                    ck.count("streams with a terminator")
                elif r < 0.8 and n_msgs < 255:
                    c["end"] = bytes([rng.choice([n_msgs + 1, 255, rng.randint(n_msgs + 1, 255)])]) + junk()
                    if unlimited:
                        c["expect"] = "err"
                        ck.count("streams with an unknown tag")
                    else:
                        ck.count("streams limited by max, junk behind")
                else:
                    at = rng.randint(0, n)
                    mi, v = rng.choice(vs)
                    bad = corrupt_one(p, mi, v, rng)
                    if bad is None:
                        continue
                    after = b"".join(p.encode(a, x, True) for a, x in ms[at:])
                    c["msgs"] = ms[:at]
                    c["end"] = bytes([mi + 1]) + bad + after
                    if mx < 0 or mx > at:
                        c["expect"] = "err"
                        ck.count("streams with a malformed message")
                    else:
                        ck.count("streams limited by max, malformed message behind")
                cases.append((pid, c))
        for pid, n in long_runs(ck, b, rng):
            ms = small_messages(b.protos[pid], rng, n)
            look = F({"value", "pos", "type", "reject"})
            cases.append((pid, {"op": "P", "off": 0, "max": -1, "msgs": ms, "end": rng.choice([b"", b"\0"]), "look": look}))
            cases.append((pid, {"op": "P", "off": 1, "max": rng.choice([255, 256, n - 1, n, n + 1]), "msgs": ms, "end": b"", "look": look}))
            bad = bytes([rng.randint(len(b.protos[pid].messages) + 1, 255)])
            cases.append((pid, {"op": "P", "off": 0, "max": -1, "msgs": ms, "end": bad + bytes(8), "expect": "err", "look": look}))
            ck.count("streams of 127 to 70000 messages", 3)
        ck.run(b, cases)
        b.close()
    return ck.finish()


def long_runs(ck, b, rng):
    """(pid, number of messages) pairs on both sides of 8 and 16 bits"""
    pids = list(b.protos)
    ns = [127, 128, 255, 256, 257, 300, 1000]
    if "big" in b.protos:
        for n in [32768, 65535, 65536, 65537, 70000] if ck.thorough else [rng.choice([32767, 32768, 65535]), rng.choice([65536, 65537, 70000])]:
            yield "big", n
    for n in ns:
        yield rng.choice(pids), n


def c05():
    ck = Check("C05", "exploration", RULE.replace("message values are", "lists of zero to eight messages with values"), DOMAIN)
    for k in rounds(ck, 1, 9):
        rng = ck.rng(k)
        b = ck.build(dict(protocols(rng), big=counter_proto("Counter")))
        cases = []
        for pid, n in long_runs(ck, b, rng):
            p = b.protos[pid]
            ms = small_messages(p, rng, n)
            cases.append((pid, {"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": F({"bytes"})}))
            cases.append((pid, {"op": "U", "off": 0, "msgs": ms, "tail": b"", "look": F({"value", "type"})}))
            d = p.pack(ms)
            for more in (1, 256 - n % 256, 65536 - n % 65536):
                cases.append((pid, {"op": "U", "off": 0, "msgs": [], "bytes": d[:4] + (n + more).to_bytes(4, "little") + d[8:], "expect": "err", "look": F({"reject"})}))
            ck.count("containers of 127 to 70000 messages", 5)
        for pid, p in b.protos.items():
            vs = values(p, rng, 40, 1)
            for _ in range(40 if not ck.thorough else 120):
                ms = [rng.choice(vs) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
                cases.append((pid, {"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": F({"bytes"})}))
                cases.append((pid, {"op": "U", "off": 0, "msgs": ms, "tail": b"", "look": F({"value", "type"})}))
                d = p.pack(ms)
                n = len(ms)
                bads = []
                h = bytearray(d)
                h[rng.randrange(4)] ^= rng.choice([1, 0x20, 0x80, 0xff])
                bads.append(("wrong header", bytes(h)))
                bads.append(("short header", d[:rng.randrange(8)]))
                more = n + rng.choice([1, 1, 2, 255, 256, 65536 - n, 2**31 - n - 1, 2**31 - n, 2**32 - 1 - n])
                bads.append(("count too high", d[:4] + more.to_bytes(4, "little") + d[8:]))
                if n:
                    cut = sum(len(p.encode(mi, v, True)) for mi, v in ms[:rng.randrange(n)])
                    bads.append(("terminator too early", d[:8 + cut] + b"\0" + d[8 + cut:]))
                    bads.append(("messages missing", d[:8 + cut] + rng.choice([b"", b"\0"])))
                    i = rng.randrange(n)
                    pre = b"".join(p.encode(mi, v, True) for mi, v in ms[:i])
                    post = b"".join(p.encode(mi, v, True) for mi, v in ms[i + 1:]) + b"\0"
                    bad = corrupt_one(p, *ms[i], rng)
                    if bad:
                        bads.append(("malformed message", d[:8] + pre + bytes([ms[i][0] + 1]) + bad + post))
                    bads.append(("unknown tag", d[:8] + pre + bytes([rng.randint(len(p.messages) + 1, 255)]) + p.encode(*ms[i]) + post))
                for what, x in some(rng, bads, 3):
                    ck.count("containers: " + what)
                    cases.append((pid, {"op": "U", "off": 0, "msgs": [], "bytes": x, "expect": "err", "look": F({"reject"})}))
        ck.run(b, cases)
        b.close()
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C06, C07
def cuts(p, mi, v, rng, n):
    """truncation points: all of them when the message is short, else the edges of primitives and some between"""
    total = len(p.encode(mi, v))
    if total <= n:
        return list(range(total))
    edges = set()
    for pos, size, kind, t, path in p.layout(mi, v):
        for x in (pos, pos + 1, pos + size - 1):
            edges.add(x)
    edges = [x for x in edges if 0 <= x < total]
    out = set(some(rng, edges, n * 2 // 3)) | {0, 1, total - 1, total - 2}
    while len(out) < n:
        out.add(rng.randrange(total))
    return sorted(out)


def c06():
    ck = Check("C06", "exploration", RULE + " Each message is cut at every byte (long ones at the edges of their primitives and random points).", DOMAIN)
    for k in rounds(ck, 1, 10):
        rng = ck.rng(k)
        b = ck.build(protocols(rng))
        cases = []
        for pid, p in b.protos.items():
            vs = [x for x in values(p, rng, 16 if not ck.thorough else 50, 1)]
            for mi, v in vs:
                for cut in cuts(p, mi, v, rng, 40):
                    cases.append((pid, {"op": "R", "off": offsets(rng), "msgs": [(mi, v)], "cut": cut, "expect": "err", "look": F({"reject"})}))
            nonempty = [x for x in vs if p.encode(*x)]
            if not nonempty:
                continue
            for _ in range(25 if not ck.thorough else 80):
                last = rng.choice(nonempty)
                ms = [rng.choice(vs) for _ in range(rng.choice([0, 1, 2]))] + [last]
                n = len(p.encode(*last)) + 1
                cases.append((pid, {"op": "P", "off": offsets(rng), "max": rng.choice([-1, len(ms), len(ms) + 1]), "msgs": ms, "cut": rng.choice([1, n - 1, tail_cut(p, *last, rng), tail_cut(p, *last, rng)]),
                                    "expect": "err", "look": F({"reject"})}))
                ck.count("cut streams")
                ms = [rng.choice(vs) for _ in range(rng.choice([0, 1, 2, 3]))]
                n = len(p.pack(ms))
                # the last byte is the terminator; a container without it is complete in its messages
                top = n - 2
                if not ms:
                    cases.append((pid, {"op": "U", "off": 0, "msgs": ms, "cut": rng.randrange(8), "expect": "err", "look": F({"reject"})}))
                else:
                    # a cut between messages leaves fewer than stated, a cut inside one malforms it; an empty last message ends with its tag
                    whole = n - 1 - len(p.encode(*ms[-1], True))
                    inside = whole + (tail_cut(p, *ms[-1], rng) or 0)
                    cases.append((pid, {"op": "U", "off": 0, "msgs": ms, "cut": rng.choice([rng.randint(0, top), inside, inside, top]), "expect": "err", "look": F({"reject"})}))
                ck.count("cut containers")
        ck.run(b, cases)
        b.close()
    return ck.finish()


def c07():
    ck = Check("C07", "exploration", RULE + " For C07 each evaluation holds one enum position with an undeclared number (must be rejected) or a declared one (must be accepted).", DOMAIN)
    for k in rounds(ck, 1, 10):
        rng = ck.rng(k)
        b = ck.build(protocols(rng, 14, full=4))
        cases = []
        for pid, p in b.protos.items():
            seen = {}
            for mi, v in values(p, rng, 30 if not ck.thorough else 80, 0):
                for pos, size, t, path in some(rng, enum_positions(p, mi, v), 14):
                    kind = (mi,) + tuple(x if isinstance(x, str) else "*" for x in path)
                    seen[kind] = seen.get(kind, 0) + 1
                    if seen[kind] > 4:
                        continue
                    for num in bad_numbers(p, t, rng, 24 if seen[kind] == 1 else 4):
                        c = ops.corrupt(p, {"op": "R", "off": 0, "msgs": [(mi, v)], "expect": "err", "look": F({"reject"})}, (path, num))
                        cases.append((pid, c))
                        ck.count("undeclared numbers")
                    # and every declared one
                    e = p.enum(t)
                    for idx in range(len(e.values)) if seen[kind] == 1 else [rng.randrange(len(e.values))]:
                        enc = bytearray(p.encode(mi, v))
                        num = e.values[idx][1]
                        enc[pos:pos + size] = num.to_bytes(size, "little", signed=num < 0)
                        st, nv, end = p.decode(mi, bytes(enc))
                        assert st == "ok"
                        cases.append((pid, {"op": "R", "off": 0, "msgs": [(mi, nv)], "look": F({"value", "accept"})}))
                        ck.count("declared numbers")
            ck.count("kinds of enum positions", len(seen))
        ck.run(b, cases, trivial=lambda p, c: False)
        b.close()
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C08, C09
EDGE = [0, 1, 2, 127, 128, 254, 255, 256, -1, -2, -128, -129, 32766, 32767, 32768, -32767, -32768, -32769, 65535, 65536, 2**31 - 2, 2**31 - 1, -2**31 + 1, -2**31]
TOO_BIG = [2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**33, -2**31 - 1, -2**32, 2**53, 2**62, -2**62, 2**63 - 1, -2**63]


def enum_proto(enums, ns):
    p = Proto(ns=ns)
    p.enums = enums
    per = 24
    for i in range(0, len(enums), per):
        part = enums[i:i + per]
        p.messages.append(StructDef("Msg%d" % (i // per), [Mem("m%d" % j, e.name, j % 5 == 4) for j, e in enumerate(part)]))
    return p


def c08():
    ck = Check("C08", "exploration", "Enums over all pairs of the boundary numbers (as minimum and maximum, in both orders, further values between), sequential lists of 1 to 300 names, "
               "and enums with a number beyond 32 bits. Evaluations: generated constants of a protocol compared, messages holding the enums written and read, refused protocols. "
               "Non-trivial: distinct (protocol, request).", DOMAIN)
    rng = ck.rng(0)
    pairs = [(a, c) for a in EDGE for c in EDGE if a != c] + [(a,) for a in EDGE]
    rng.shuffle(pairs)
    if not ck.thorough:
        # each value is the minimum and the maximum of at least one pair whatever the seed
        keep, lo, hi = [], set(), set()
        for q in pairs:
            if min(q) not in lo or max(q) not in hi:
                keep.append(q)
                lo.add(min(q))
                hi.add(max(q))
        rest = [q for q in pairs if q not in keep]
        pairs = keep + rest[:170]
    enums = []
    for i, q in enumerate(pairs):
        vals = list(q)
        for _ in range(rng.choice([0, 0, 1, 2])):
            x = rng.randint(min(q), max(q))
            if x not in vals:
                vals.insert(rng.randint(0, len(vals)), x)
        enums.append(EnumDef("Kind%d" % i, [("Val%c" % (65 + j), x) for j, x in enumerate(vals)], True))
    for n in (1, 2, 3, 100, 127, 128, 129, 200, 255, 256, 257, 300):
        enums.append(EnumDef("List%d" % n, [("Item%d" % j, j) for j in range(n)], False))
    rng.shuffle(enums)
    protos, per = {}, 48
    for i in range(0, len(enums), per):
        protos["p%d" % (i // per)] = enum_proto(enums[i:i + per], "Enums%d" % (i // per))
    b = ck.build(protos)
    cases = []
    for pid, p in protos.items():
        cases.append((pid, {"op": "E", "look": F({"value"})}))
        ck.count("enums whose constants were compared", len(p.enums))
        for mi, s in enumerate(p.messages):
            top = max(len(p.enum(m.type).values) for m in s.members)
            for j in sorted(set(range(min(top, 6))) | {rng.randrange(top) for _ in range(12)} | {top - 1}):
                v = [[j % len(p.enum(m.type).values), 0] if m.is_list else j % len(p.enum(m.type).values) for m in s.members]
                cases.append((pid, {"op": "W", "off": 0, "pad": 1, "msgs": [(mi, v, 0)], "look": F({"bytes", "size"})}))
                cases.append((pid, {"op": "R", "off": 0, "msgs": [(mi, v)], "tail": b"", "look": F({"value", "pos"})}))
    ck.run(b, cases, trivial=lambda p, c: False)
    b.close()
    # nothing fits
    from concurrent.futures import ThreadPoolExecutor
    from ..gen import LANGS
    jobs = []
    for x in TOO_BIG:
        for o in some(rng, EDGE, 2 if not ck.thorough else 8):
            vals = [("One", x), ("Two", o)]
            rng.shuffle(vals)
            p = Proto(ns="Wide", enums=[EnumDef("Kind", vals, True)], messages=[StructDef("Msg", [Mem("kind", "Kind")])])
            jobs.append((p, rng.choice(LANGS), x))
    from ..engine import Violation
    with ThreadPoolExecutor(8) as ex:
        for (p, l, x), (rc, out, err) in zip(jobs, ex.map(lambda j: generate(j[0], j[1]), jobs)):
            ck.case_done("reject" + p.to_toml(), True)
            ck.count("enums beyond 32 bits refused")
            if rc is None or rc == 0 or out.strip():
                ck.violations.append(Violation(l, "p", p, None, "", "an enum with value %d was accepted by the generator (status %s)" % (x, rc), "doc", {"lang": l, "expect": "reject"}))
    return ck.finish()


def c09():
    ck = Check("C09", "exploration", "Generated protocols; the default of every message, obtained in every documented way (C: the default constant and Create), compared member by "
               "member and as bytes with the documented default. Non-trivial: the message has members. Distinct: (protocol text, message).", DOMAIN)
    for k in rounds(ck, 1, 8):
        rng = ck.rng(k)
        b = ck.build(protocols(rng, 26, full=6))
        cases = [(pid, {"op": "D", "mi": mi, "look": F({"value", "bytes"})}) for pid, p in b.protos.items() for mi in range(len(p.messages))]
        for pid, c in cases:
            p = b.protos[pid]
            if any(x != 0 for x in default_numbers(p, c["mi"])):
                ck.count("messages whose default holds an enum number other than 0")
        ck.run(b, cases, trivial=lambda p, c: not p.messages[c["mi"]].members)
        b.close()
    return ck.finish()


def default_numbers(p, mi):
    v = p.default(mi)
    return [p.enum(t).values[0][1] for pos, size, kind, t, path in p.layout(mi, v) if kind == "enum"]


# ------------------------------------------------------------------------------------------------ C14, C15, C17: memory
def mutate(rng, b, n=None):
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        r = rng.random()
        if not b:
            b += bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 8)))
        elif r < 0.3:
            b[rng.randrange(len(b))] = rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)])
        elif r < 0.45:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif r < 0.6:
            del b[rng.randrange(len(b)):]
        elif r < 0.7:
            i = rng.randrange(len(b) + 1)
            b[i:i] = bytes(rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(rng.choice([1, 2, 4, 8])))
        elif r < 0.8:
            i = rng.randrange(len(b))
            del b[i:i + rng.choice([1, 2, 4, 8])]
        elif r < 0.9:
            i = rng.randrange(len(b))
            for j in range(i, min(len(b), i + rng.choice([2, 4, 8]))):
                b[j] = rng.choice([0, 255])
        else:
            i, j = rng.randrange(len(b)), rng.randrange(len(b))
            b += b[min(i, j):max(i, j)][:40]
    return bytes(b)


def mutate_lengths(p, mi, v, rng):
    """one length prefix replaced by a nearby, huge or negative one"""
    enc = bytearray(p.encode(mi, v))
    ls = [x for x in p.layout(mi, v) if x[2] in ("listlen", "strlen")]
    if not ls:
        return mutate(rng, enc)
    pos, size, kind, t, path = rng.choice(ls)
    lo, hi = INT_RANGE[t]
    old = int.from_bytes(enc[pos:pos + size], "little", signed=lo < 0)
    new = rng.choice([old + 1, old - 1, old + 2, 0, 1, hi, lo, -1, hi // 2, len(enc), len(enc) - pos - size, len(enc) - pos - size + 1, rng.randint(0, 40),
                      hi // 8, hi // 8 + 1, hi // 16 + 1, 2**61, 2**60 + 1, 2**32, 2**31, 2**29 + 1])
    new = max(lo, min(hi, new))
    enc[pos:pos + size] = new.to_bytes(size, "little", signed=lo < 0)
    return bytes(enc)


def wild(p, vs, rng):
    """bytes for an untagged read: (mi, bytes)"""
    mi, v = rng.choice(vs)
    r = rng.random()
    if r < 0.15:
        return mi, bytes(rng.choice([0, 1, 2, 3, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 4, 9, 30, 80])))
    if r < 0.5:
        return mi, mutate_lengths(p, mi, v, rng)
    return mi, mutate(rng, p.encode(mi, v))


def memory_cases(ck, p, rng, n, look, lang):
    vs = values(p, rng, 24, 1)
    cases = []
    for _ in range(n):
        mi, d = wild(p, vs, rng)
        cases.append({"op": "R", "off": rng.choice([0, 0, 0, 3]), "msgs": [(mi, p.default(mi))], "bytes": d, "expect": "any", "look": look})
        ck.count("reads of arbitrary bytes")
    for _ in range(n // 3):
        mi, v = rng.choice(vs)
        e = p.encode(mi, v)
        cases.append({"op": "R", "off": 0, "msgs": [(mi, v)], "cut": rng.randint(0, max(len(e) - 1, 0)), "expect": "any", "look": look})
        cases.append({"op": "R", "off": 0, "msgs": [(mi, v), rng.choice(vs)], "tail": b"", "look": look})
        ck.count("reads of truncated and of complete messages", 2)
    for _ in range(n // 3):
        ms = [rng.choice(vs) for _ in range(rng.choice([0, 1, 2, 4]))]
        stream = b"".join(p.encode(a, x, True) for a, x in ms)
        cases.append({"op": "P", "off": rng.choice([0, 2]), "max": rng.choice([-1, -1, 1, 2, 5]), "msgs": [], "bytes": rng.choice([stream, mutate(rng, stream), mutate(rng, stream) + b"\0"]),
                      "expect": "any", "look": look})
        pk = p.pack(ms)
        m2 = mutate(rng, pk)
        r = rng.random()
        if r < 0.5:
            m2 = pk[:8] + mutate(rng, pk[8:])
        elif r < 0.7:
            m2 = pk[:4] + rng.choice([0, 1, len(ms) + 1, 255, 2**16, 2**31, 2**32 - 1]).to_bytes(4, "little") + pk[8:]
        cases.append({"op": "U", "off": 0, "msgs": [], "bytes": rng.choice([pk, m2, m2]), "expect": "any", "look": look})
        ck.count("streams and containers", 2)
    return cases, vs


def guided(ck, b, protos, rng, runs, seconds, keep):
    """inputs found by coverage-guided fuzzing of the generated C (libFuzzer), for other harnesses to judge -> [(pid, op, arg, bytes)]; those that stopped the target come first"""
    h = CFuzz(os.path.join(b.dir, "fuzz"))
    try:
        h.build({pid: (protos[pid], b.code[("c", pid)]) for pid in protos if ("c", pid) in b.code and b.usable("c", pid)})
    except BuildError:
        h.exe = None
    if h.exe is None:
        ck.skipped["coverage-guided inputs: no target could be built"] = 1
        return []
    seeds = {}
    for pid in h.protos:
        p = protos[pid]
        vs = values(p, rng, 20, 0)
        s = [("R", mi, p.encode(mi, v)) for mi, v in vs]
        for _ in range(4):
            ms = [rng.choice(vs) for _ in range(3)]
            s += [("P", rng.choice([-1, -1, 2]), b"".join(p.encode(a, x, True) for a, x in ms)), ("U", 0, p.pack(ms))]
        seeds[pid] = [x for x in s if len(x[2]) < 1000]
    out = []
    for pid, r in sorted(h.explore(seeds, runs, seconds, rng.getrandbits(31)).items()):
        ck.count("executions of the coverage-guided target", r["runs"])
        ck.count("inputs kept for new coverage", len(r["found"]))
        if not r["runs"] and not r["crashes"]:
            ck.skipped["coverage-guided inputs: target gave no statistics"] = ck.skipped.get("coverage-guided inputs: target gave no statistics", 0) + 1
        ck.count("inputs that stopped the target", len(r["crashes"]))
        out = [(pid,) + x for x in r["crashes"]] + out + [(pid,) + x for x in some(rng, r["found"], keep)]
    return out


def c14():
    ck = Check("C14", "exploration", "Generated protocols over all size types compiled with AddressSanitizer and UndefinedBehaviorSanitizer; reads of random, mutated (lengths favoured), "
               "truncated and valid bytes, streams and containers; writes and packs into buffers of every size; Create/Destroy. Afterwards everything is released with the documented "
               "functions and no block may be left. Non-trivial: distinct (protocol text, request) with crafted bytes or non-default values.",
               DOMAIN[:2] + ["ASan/UBSan (gcc 13) observe each access; allocations above 512 MB return NULL"])
    for k in rounds(ck, 1, 10):
        rng = ck.rng(k)
        b = ck.build(protocols(rng, 16, full=5), ["c"])
        cases = []
        look = F({"mem"})
        for pid, p in b.protos.items():
            cs, vs = memory_cases(ck, p, rng, 220 if not ck.thorough else 900, look, "c")
            for mi in range(len(p.messages)):
                cs.append({"op": "D", "mi": mi, "look": look})
            for mi, v in vs:
                n = len(p.encode(mi, v))
                for short in sorted({1, n, n // 2, n + 1} | {rng.randint(1, max(n, 1)) for _ in range(6 if n < 3000 else 1)}):
                    tag = rng.choice([0, 1, 2, 3])
                    tot = n + (tag & 1)
                    if 0 < short <= tot:
                        cs.append({"op": "W", "off": rng.choice([0, 0, 4]), "pad": 0, "short": short, "msgs": [(mi, v, tag)], "look": F({"mem", "error"})})
                        ck.count("writes into buffers too small")
                cs.append({"op": "W", "off": rng.choice([0, 3]), "pad": rng.choice([0, 2]), "msgs": [(mi, v, rng.choice([0, 1, 2, 3]))], "look": look})
            for _ in range(20):
                ms = [rng.choice(vs[:-1]) for _ in range(rng.choice([0, 1, 2, 4]))]
                n = len(p.pack(ms))
                cs.append({"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": look})
                cs.append({"op": "K", "off": rng.choice([0, 5]), "pad": 0, "short": rng.choice([1, rng.randint(1, n), rng.randint(1, n), min(n, 6)]), "msgs": ms, "look": F({"mem", "error"})})
                ck.count("packs into buffers too small")
            cases += [(pid, c) for c in cs]
        ck.run(b, cases)
        some_protos = {pid: b.protos[pid] for pid in (some(rng, b.protos, 8) if not ck.thorough else b.protos)}
        cases = []
        for pid, op, arg, d in guided(ck, b, some_protos, rng, *((15000, 20, 150) if not ck.thorough else (400000, 120, 2000))):
            p = b.protos[pid]
            c = {"op": op, "off": 0, "msgs": [(arg, p.default(arg))] if op == "R" else [], "bytes": d, "expect": "any", "look": look}
            cases.append((pid, dict(c, max=arg) if op == "P" else c))
        ck.run(b, cases)
        b.close()
    return ck.finish()


def c15():
    ck = Check("C15", "exploration", "Generated protocols compiled in Zig's Debug mode (all safety checks); reads of random, mutated, truncated and valid bytes, streams and containers, "
               "and the same with the n-th allocation failing for each n; after the documented releases neither the counting allocator nor the GeneralPurposeAllocator may hold a block. "
               "Non-trivial: distinct (protocol text, request) with crafted bytes or non-default values.",
               DOMAIN[:2] + ["allocations above 256 MB are refused by the allocator given to the code"])
    for k in rounds(ck, 1, 8):
        rng = ck.rng(k)
        b = ck.build(protocols(rng, 12), ["zig"])
        look = F({"mem", "alloc"})
        cases, base = [], []
        for pid, p in b.protos.items():
            cs, vs = memory_cases(ck, p, rng, 100 if not ck.thorough else 400, look, "zig")
            cases += [(pid, c) for c in cs]
            base += [(pid, c) for c in fault_cases(p, vs, rng, 14 if not ck.thorough else 40, look)]
        ck.run(b, cases)
        faults(ck, b, base, "zig", 40 if not ck.thorough else 200)
        b.close()
    return ck.finish()


def fault_cases(p, vs, rng, n, look, create=False):
    out = []
    cand = [x for x in vs[:-1]]
    for i in range(n):
        mi, v = cand[i % len(cand)] if i < len(cand) else rng.choice(cand)
        out.append({"op": "R", "off": 0, "msgs": [(mi, v)], "tail": b"", "look": look})
        if i % 3 == 0:
            out.append({"op": "R", "off": 0, "msgs": [(mi, v), rng.choice(cand)], "tail": b"", "look": look})
        ms = [rng.choice(cand) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if i % 2 == 0:
            out.append({"op": "P", "off": 0, "max": rng.choice([-1, 2]), "msgs": ms, "end": b"", "look": look})
        else:
            out.append({"op": "U", "off": 0, "msgs": ms, "look": look})
        mi, d = wild(p, cand, rng)
        out.append({"op": "R", "off": 0, "msgs": [(mi, p.default(mi))], "bytes": d, "expect": "any", "look": look})
    if create:
        out += [{"op": "D", "mi": mi, "look": look} for mi in range(len(p.messages))]
    return out


def faults(ck, b, base, lang, limit):
    """fail allocation 1, 2, 3, ... of each case until the case completes without meeting it"""
    from ..lang.base import parse_reply
    todo, k = base, 0
    h = b.lang.get(lang)
    full = 0
    while todo and k < limit:
        k += 1
        now = [(pid, dict(c, fail=k)) for pid, c in todo if b.usable(lang, pid)]
        replies = ck.run(b, now, [lang], trivial=lambda p, c: False, want_replies=True).get(lang, [])
        nxt = []
        for (pid, c), r in zip(now, replies):
            st, tk, ex = parse_reply(r)
            if ex.get("failed", "0") != "0":
                ck.count("allocations made to fail")
                nxt.append((pid, {x: y for x, y in c.items() if x != "fail"}))
            elif st in ("OK", "ERR"):
                full += 1
        todo = nxt
    ck.count("operations whose every allocation was made to fail in turn", full)
    if todo:
        ck.count("operations stopped after %d allocations" % limit, len(todo))


def c17():
    ck = Check("C17", "fault_enumeration", "Generated protocols; for each read, stream, container and Create, the 1st, 2nd, 3rd, ... allocation of the generated code is made to fail until the "
               "operation completes; each run must report ALLOCATION_FAILURE (Create: NULL) without sanitizer report, and leave no block after the documented release. "
               "Non-trivial: distinct (protocol text, request, failing allocation).",
               DOMAIN[:2] + ["the allocator is replaced through the documented NAMESPACE_MALLOC/REALLOC/FREE macros"])
    for k in rounds(ck, 1, 8):
        rng = ck.rng(k)
        b = ck.build(protocols(rng, 16, full=5), ["c"])
        base = []
        for pid, p in b.protos.items():
            vs = values(p, rng, 30 if not ck.thorough else 80, 0)
            base += [(pid, c) for c in fault_cases(p, vs, rng, 30 if not ck.thorough else 100, F({"mem", "alloc"}), True)]
        faults(ck, b, base, "c", 60 if not ck.thorough else 400)
        b.close()
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C16, C18, C19
def c16():
    ck = Check("C16", "exploration", RULE + " Every case is a sequence of one to six messages, with and without tags, at an offset in a larger buffer, whose every byte is compared afterwards.", DOMAIN)
    for k in rounds(ck, 1, 8):
        rng = ck.rng(k)
        b = ck.build(protocols(rng))
        cases = []
        for pid, p in b.protos.items():
            vs = values(p, rng, 40, 1)
            look = F({"place"})
            for _ in range(50 if not ck.thorough else 150):
                n = rng.choice([1, 2, 3, 4, 6])
                ms = [rng.choice(vs) for _ in range(n)]
                off = rng.choice([0, 1, 2, 3, 7, 8, 16, 100])
                pad = rng.choice([0, 1, 5, 33])
                cases.append((pid, {"op": "W", "off": off, "pad": pad, "msgs": [(mi, v, rng.choice([0, 1, 2, 3])) for mi, v in ms], "look": look}))
                tail = bytes(rng.getrandbits(8) for _ in range(pad))
                cases.append((pid, {"op": "R", "off": off, "msgs": ms, "tail": tail, "look": F({"value", "pos"})}))
                r = rng.random()
                if r < 0.35:
                    cases.append((pid, {"op": "K", "off": off, "pad": pad, "msgs": ms, "look": look}))
                elif r < 0.7:
                    cases.append((pid, {"op": "U", "off": off, "msgs": ms, "tail": tail, "look": F({"value"})}))
                else:
                    cases.append((pid, {"op": "P", "off": off, "max": n, "msgs": ms, "end": tail, "look": F({"value", "pos"})}))
        ck.run(b, cases)
        b.close()
    return ck.finish()


def many_messages(rng, n, ns):
    p = Proto(ns=ns, lt=rng.choice(["byte", "uint32"]), st=rng.choice(["uint16", "uint32"]))
    p.enums = [EnumDef("Mode", [("Slow", 3), ("Fast", 7)], True)]
    p.structs = [StructDef("Spot", [Mem("x", "float"), Mem("y", "float")])]
    kinds = ["byte", "bool", "uint16", "int32", "double", "string", "Mode", "Spot"]
    for i in range(n):
        mem = [Mem("v%d" % j, rng.choice(kinds), rng.random() < 0.15) for j in range(rng.choice([0, 1, 1, 2]))]
        p.messages.append(StructDef("Msg%s" % "".join(chr(97 + int(c)) for c in "%03d" % i).capitalize(), mem))
    return p


def c18():
    ck = Check("C18", "exploration", "Protocols with 1 to 255 messages (255, 254, 128 and 1 in every batch); every message written with its tag through the concrete and the generic "
               "interface, its reported type and size compared, each of the 256 tag bytes processed. Non-trivial: distinct (protocol text, request).", DOMAIN)
    for k in rounds(ck, 1, 6):
        rng = ck.rng(k)
        protos = {"p0": many_messages(rng, 255, "Many255"), "p1": many_messages(rng, 254, "Many254"), "p2": many_messages(rng, 128, "Many128"), "p3": many_messages(rng, 1, "One"),
                  "p4": many_messages(rng, 129, "Many129"), "p5": many_messages(rng, rng.randint(2, 40), "Few")}
        for i, (pid, p) in enumerate(protocols(rng, 6, full=2).items()):
            p.ns = "Mix%d" % i
            protos["p%d" % (6 + i)] = p
        b = ck.build(protos)
        cases = []
        for pid, p in b.protos.items():
            n = len(p.messages)
            vg = ValGen(p, rng, big=0)
            look = F({"bytes", "type", "size", "mem"})
            for mi in range(n):
                reps = 1 if n > 20 else 6
                for _ in range(reps):
                    v = vg.message(mi)[1]
                    for tag in (1, 3):
                        cases.append((pid, {"op": "W", "off": 0, "pad": 0, "msgs": [(mi, v, tag)], "look": look}))
                    for tag in (0, 2):
                        cases.append((pid, {"op": "W", "off": 0, "pad": 0, "msgs": [(mi, v, tag)], "look": look}))
                    ms = [(mi, v)] + [vg.message() for _ in range(rng.choice([0, 1, 2]))]
                    cases.append((pid, {"op": "P", "off": 0, "max": -1, "msgs": ms, "end": b"", "look": F({"value", "type", "mem"})}))
                    if mi % 3 == 0:
                        cases.append((pid, {"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": F({"bytes", "mem"})}))
                        cases.append((pid, {"op": "U", "off": 0, "msgs": ms, "look": F({"value", "type", "mem"})}))
            for t in range(n + 1, 256):
                body = rng.choice([b"", bytes(rng.getrandbits(8) for _ in range(rng.choice([4, 40]))), bytes(60)])
                cases.append((pid, {"op": "P", "off": 0, "max": -1, "msgs": [], "bytes": bytes([t]) + body, "expect": "err", "look": F({"reject", "mem"})}))
                ck.count("tags above the number of messages")
            cases.append((pid, {"op": "P", "off": 0, "max": -1, "msgs": [], "end": b"\0" + bytes(30), "look": F({"value", "mem"})}))
        ck.run(b, cases, trivial=lambda p, c: False)
        b.close()
    return ck.finish()


def c19():
    ck = Check("C19", "exploration", "Protocols with 8 and 16-bit length prefixes; random bytes and mutated encodings (lengths, enums, bits, splices) read in six languages; the reference decoder decides "
               "value, length or rejection, and an accepted value is written again and compared. Non-trivial: distinct (protocol text, non-empty bytes). Inputs whose strings are not UTF-8 are skipped and counted.",
               DOMAIN + ["length prefixes of at most 16 bits"])
    for k in rounds(ck, 1, 9):
        rng = ck.rng(k)
        protos = protocols(rng, sizes=["byte", "uint16", "int16"])
        b = ck.build(protos)
        cases, inputs = [], {}
        if "c" in b.lang:
            for pid, *x in guided(ck, b, b.protos, rng, *((8000, 15, 150) if not ck.thorough else (200000, 60, 1500))):
                inputs.setdefault(pid, []).append(x)
        for pid, p in b.protos.items():
            vs = values(p, rng, 30, 1)
            done = set()

            def judge(mi, d):
                if (mi, d) in done:
                    return False
                st, v, end = p.decode(mi, d)
                if st in ("utf8", "huge"):
                    ck.skipped[st] = ck.skipped.get(st, 0) + 1
                    return False
                done.add((mi, d))
                ck.count("inputs the reference decoder " + ("accepts" if st == "ok" else "rejects: " + st))
                if st == "ok":
                    cases.append((pid, {"op": "R", "off": 0, "msgs": [(mi, v)], "bytes": d[:end], "tail": d[end:], "look": F({"value", "pos"})}))
                    cases.append((pid, {"op": "W", "off": 0, "pad": 0, "msgs": [(mi, p.norm(mi, v), 0)], "look": F({"bytes"})}))
                else:
                    cases.append((pid, {"op": "R", "off": 0, "msgs": [(mi, p.default(mi))], "bytes": d, "expect": "err", "look": F({"reject"})}))
                return True
            for _ in range(130 if not ck.thorough else 500):
                for _try in range(6):
                    if judge(*wild(p, vs, rng)):
                        break
            for op, arg, d in inputs.get(pid, []):
                if op == "R":
                    judge(arg, d)
        ck.run(b, cases)
        b.close()
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C22, C23
def damaged(p, mi, v, rng):
    """the message cut short or with an undeclared enum number: bytes that every way of delivering them must reject"""
    bad = corrupt_one(p, mi, v, rng)
    if bad is not None and rng.random() < 0.5:
        return bad
    k = tail_cut(p, mi, v, rng)
    return p.encode(mi, v)[:k - 1] if k else None


def c22():
    langs = ["go", "csharp", "rust"]
    ck = Check("C22", "exploration", RULE.replace("One evaluation =", "Messages, streams of messages and containers, whole and damaged, are handed over one byte at a time, in random pieces (with reads of no bytes between), with the end of "
               "the data reported together with its last bytes, through readers that cannot be positioned, and by readers that fail after n bytes; writers get an object that can only be written to. One evaluation ="), DOMAIN)
    for k in rounds(ck, 1, 10):
        rng = ck.rng(k)
        b = ck.build(protocols(rng), langs)
        cases, failing = [], {"go": [], "csharp": []}
        for pid, p in b.protos.items():
            vs = values(p, rng, 40 if not ck.thorough else 120, 1)
            small = vs[:-1]

            def how():
                return rng.choice([1, 1, 2, 2, 3, 5]), rng.randrange(1 << 20)

            def add(c):
                cases.append((pid, dict(c, stream=how())))
            for mi, v in vs:
                add({"op": "R", "off": offsets(rng), "msgs": [(mi, v)], "tail": bytes(rng.choice([0, 0, 1, 9])), "look": F({"value", "pos"})})
                add({"op": "W", "off": rng.choice([0, 3]), "pad": 0, "msgs": [(mi, v, rng.choice([0, 1, 2, 3]))], "look": F({"bytes"})})
                bad = damaged(p, mi, v, rng)
                if bad is not None:
                    add({"op": "R", "off": rng.choice([0, 2]), "msgs": [(mi, v)], "bytes": bad, "expect": "err", "look": F({"reject"})})
                    ck.count("damaged messages")
            for _ in range(40 if not ck.thorough else 120):
                n = rng.choice([0, 1, 2, 3, 5])
                ms = [rng.choice(small) for _ in range(n)]
                mx = rng.choice([-1, -1, n, n + 1, max(n - 1, 0)])
                add({"op": "P", "off": offsets(rng), "max": mx, "msgs": ms, "end": rng.choice([b"", b"\0", b"\0\x07"]), "look": F({"value", "pos", "type"})})
                add({"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": F({"bytes"})})
                add({"op": "U", "off": offsets(rng), "msgs": ms, "tail": rng.choice([b"", bytes(4)]), "look": F({"value", "type"})})
                mi, v = rng.choice(small)
                bad = damaged(p, mi, v, rng)
                if bad is not None:
                    add({"op": "P", "off": 0, "max": -1, "msgs": ms, "end": bytes([mi + 1]) + bad, "expect": "err", "look": F({"reject"})})
                    d = p.pack(ms)
                    add({"op": "U", "off": 0, "msgs": [], "bytes": d[:4] + (n + 1).to_bytes(4, "little") + d[8:-1] + bytes([mi + 1]) + bad, "expect": "err", "look": F({"reject"})})
                    ck.count("damaged streams and containers", 2)
            # readers that fail after n bytes
            for _ in range(60 if not ck.thorough else 150):
                op = rng.choice("RPU")
                ms = [rng.choice(small) for _ in range(rng.choice([1, 1, 2, 3]))]
                off = rng.choice([0, 0, 4])
                if op == "R":
                    c = {"op": "R", "off": off, "msgs": ms, "look": F({"value", "pos", "reject"})}
                    total = sum(len(p.encode(*m)) for m in ms)
                elif op == "P":
                    mx = rng.choice([-1, len(ms)])
                    c = {"op": "P", "off": off, "max": mx, "msgs": ms, "end": b"\0" if mx < 0 else b"", "look": F({"value", "type", "reject"})}
                    total = sum(len(p.encode(*m)) + 1 for m in ms) + (1 if mx < 0 else 0)
                else:
                    c = {"op": "U", "off": off, "msgs": ms, "tail": b"", "look": F({"value", "type", "reject"})}
                    total = sum(len(p.encode(*m)) + 1 for m in ms) + 8
                if not total:
                    continue
                edges = [8 if op == "U" else 0]
                for m in ms:
                    edges.append(edges[-1] + len(p.encode(*m)) + (op != "R"))
                at = rng.choice([rng.randrange(total), total - 1, rng.choice([x for x in edges if x < total] or [0])])
                bad = dict(c, expect="err", stream=(4, off + at))
                for l in failing:
                    failing[l].append((pid, bad))
                    failing[l].append((pid, dict(c, stream=(4, off + total + 1))))
                if op == "P" and mx < 0:          # where the list would end if the data ended
                    at = rng.choice(edges)
                    failing["go"].append((pid, dict(c, end=b"", expect="err", stream=(4, off + at))))
                ck.count("readers that fail while they are read", 2)
        ck.run(b, cases)
        for l, cs in failing.items():
            ck.run(b, cs, [l])
        b.close()
    return ck.finish()


def c23():
    ck = Check("C23", "exploration", RULE.replace("One evaluation =", "Pairs of messages of one protocol (often the same type, sometimes the same value) are written, read alternately from two buffers, changed in place, and written and read again inside "
               "the callbacks of other reads and writes (streams in Go and C#, allocators in C and Zig) and in four threads at once (not TypeScript); buffers are overwritten or released before the messages are looked at. One evaluation ="), DOMAIN)
    for k in rounds(ck, 1, 10):
        rng = ck.rng(k)
        b = ck.build(protocols(rng))
        cases = []
        for pid, p in b.protos.items():
            vs = values(p, rng, 40 if not ck.thorough else 120, 0)
            by = {}
            for m in vs:
                by.setdefault(m[0], []).append(m)
            for i in range(70 if not ck.thorough else 250):
                a = rng.choice(vs) if i >= len(by) else rng.choice(by[sorted(by)[i]])
                c = rng.choice(by[a[0]]) if rng.random() < 0.6 else rng.choice(vs)
                cases.append((pid, {"op": "I", "msgs": [a, c], "look": F()}))
            cases += changes(pid, p, vs, rng, 20 if not ck.thorough else 80, {"size", "bytes", "value"}, ck)
        ck.run(b, cases)
        b.close()
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C25
def c25():
    ck = Check("C25", "exploration", "Generated protocols; every member of every struct and message compared with the documented type of its language (as the compiler sees it), and its place with the declared order in C and Go. "
               "One evaluation = all members of one protocol in one language. Non-trivial: distinct (protocol, language).", DOMAIN[:2])
    for k in rounds(ck, 2, 20):
        rng = ck.rng(k)
        b = ck.build(protocols(rng, 10, full=4))
        cases = []
        for pid, p in b.protos.items():
            cases.append((pid, {"op": "T", "look": F()}))
            for s in p.structs + p.messages:
                for m in s.members:
                    ck.count("members that are %s%s" % ("lists of " if m.is_list else "", {"num": m.type}.get(p.kind(m.type), p.kind(m.type))), len(WIRE))
        ck.run(b, cases)
        b.close()
    return ck.finish()


CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
