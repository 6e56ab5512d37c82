"""The operations a check drives through a harness, with their oracles.

A case is a dict {"op": ..., ...}; values are model values.  For each operation:
  request(p, pid, c)        the harness line
  judge(p, c, reply, lang)  None if the reply is what the model says, else the reason
  smaller(p, c)             simpler cases of the same kind
Every judge looks only at the aspects named in c["look"], so that a check reports its own property and no other."""
from __future__ import annotations
import re, copy
from .lang.base import parse_reply
from . import model


def hx(b):
    return b.hex() or "-"


# ---------------------------------------------------------------- simpler values
def small_type(p, t, v):
    k = p.kind(t)
    if k == "num":
        if t in ("float", "double"):
            if v:
                yield 0
                one = 0x3f800000 if t == "float" else 0x3ff << 52
                if v != one:
                    yield one
        elif v:
            yield 0
            if t != "bool":
                if v not in (1, -1):
                    yield 1
                if abs(v) > 3:
                    yield v // 2
                if v < 0 and t.startswith("int"):
                    yield -v if -v <= model.INT_RANGE[t][1] else -1
    elif k == "string":
        if v:
            yield b""
            s = v.decode("utf-8", "replace")
            if len(s) > 1:
                h = len(s) // 2
                yield s[:h].encode()
                yield s[h:].encode()
                if len(s) < 12:
                    for i in range(len(s)):
                        yield (s[:i] + s[i + 1:]).encode()
            if len(s) < 12:
                for i, ch in enumerate(s):
                    if ch != "a":
                        yield (s[:i] + "a" + s[i + 1:]).encode()
    elif k == "enum":
        if v:
            yield 0
    else:
        yield from small_struct(p, p.struct(t), v)


def small_list(p, t, v):
    if v:
        yield []
        if len(v) > 1:
            h = len(v) // 2
            yield v[:h]
            yield v[h:]
            if len(v) < 9:
                for i in range(len(v)):
                    yield v[:i] + v[i + 1:]
        if len(v) < 9:
            for i, e in enumerate(v):
                for s in small_type(p, t, e):
                    yield v[:i] + [s] + v[i + 1:]


def small_struct(p, s, v):
    for i, (m, x) in enumerate(zip(s.members, v)):
        for y in (small_list(p, m.type, x) if m.is_list else small_type(p, m.type, x)):
            yield v[:i] + [y] + v[i + 1:]


def small_msg(p, mi, v):
    d = p.default(mi)
    if v != d:
        yield d
    yield from small_struct(p, p.messages[mi], v)


def small_msgs(p, msgs):
    """msgs: [(mi, v, ...)]"""
    if len(msgs) > 1:
        for i in range(len(msgs)):
            yield msgs[:i] + msgs[i + 1:]
    for i, m in enumerate(msgs):
        for y in small_msg(p, m[0], m[1]):
            yield msgs[:i] + [(m[0], y) + tuple(m[2:])] + msgs[i + 1:]


def show_msg(p, mi, v):
    return {p.messages[mi].name: p.pretty(mi, v)}


def bad_status(st, reply):
    """reason if the process died, hung or the view was violated"""
    if st in ("CRASH", "PANIC", "HANG"):
        return reply[:700]
    if st == "ERR" and "HARNESS" in reply:
        return reply[:700]
    return None


class Op:
    look_all = ()

    @classmethod
    def resources(cls, c, st, ex, reply, lang):
        if "mem" in c["look"]:
            if lang == "c" and ex.get("live", "0") != "0":
                return "memory not released: %s blocks left after destroying everything (%s)" % (ex["live"], reply[:120])
            if lang == "zig" and (ex.get("live", "0") != "0" or ex.get("gpa", "ok") != "ok"):
                return "memory not released: live=%s gpa=%s (%s)" % (ex.get("live"), ex.get("gpa"), reply[:120])
        return None

    @classmethod
    def judge(cls, p, c, reply, lang):
        st, tk, ex = parse_reply(reply)
        if st in ("NONE", "SKIP"):
            return None
        r = bad_status(st, reply)
        if r:
            return r
        r = cls.resources(c, st, ex, reply, lang)
        if r:
            return ("with allocation %d failing: " % c["fail"] if c.get("fail") else "") + r
        if c.get("fail") and ex.get("failed", "0") != "0":
            if "alloc" in c["look"]:
                if st != "ERR" or lang == "c" and tk[:1] not in (["3"], ["create"]) or lang == "zig" and tk[:1] != ["OutOfMemory"]:
                    return "allocation %d failing was not reported as an allocation failure: %s" % (c["fail"], reply[:300])
            return None
        try:
            return cls.check(p, c, st, tk, ex, reply, lang)
        except (StopIteration, ValueError, IndexError) as e:
            return "unreadable reply (%s: %s): %s" % (type(e).__name__, e, reply[:300])


class Write(Op):
    """{"op":"W","off","pad","msgs":[(mi,v,tag)],"look"}; "short": how many bytes the buffer is too small (expects an error)"""

    @staticmethod
    def enc(p, c):
        return [p.encode(mi, v, bool(tag & 1)) for mi, v, tag in c["msgs"]]

    @classmethod
    def request(cls, p, pid, c):
        n = sum(map(len, cls.enc(p, c)))
        cap = c["off"] + n + c["pad"] - min(c.get("short", 0), n)
        return "W %s %d %d %d " % (pid, c["off"], cap, len(c["msgs"])) + " ".join(
            " ".join([str(mi), str(tag)] + p.tokens(mi, v)) for mi, v, tag in c["msgs"])

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        look = c["look"]
        encs = cls.enc(p, c)
        n = sum(map(len, encs))
        off = c["off"]
        if c.get("short"):
            if "error" in look and st != "ERR" and n:
                return "writing %d bytes into a buffer with room for %d did not report an error: %s" % (n, n - c["short"], reply[:200])
            return None
        if not (look & {"bytes", "place", "size", "type"}):
            return None
        if st != "OK":
            if "size" in look and not (look & {"bytes", "place", "type"}):
                return None
            return "writing failed: " + reply[:300]
        end = int(tk[0])
        buf = bytes.fromhex(tk[1]) if tk[1] != "-" else b""
        meta = [(int(tk[i]), int(tk[i + 1])) for i in range(2, len(tk), 2)]
        if "bytes" in look:
            want = b"".join(encs)
            got = buf[off:off + n]
            if got != want or end != off + n:
                return "wrote %s (end position %d), documented bytes are %s (end %d)" % (hx(buf[off:max(end, off)])[:400], end, hx(want)[:400], off + n)
        if "place" in look:
            want = b"\xaa" * off + b"".join(encs) + b"\xaa" * c["pad"]
            if buf != want or end != off + n:
                return "buffer %s (position %d), expected %s (position %d)" % (hx(buf)[:500], end, hx(want)[:500], off + n)
        if "size" in look:
            if len(encs) == 1:
                real = end - off - (1 if c["msgs"][0][2] & 1 else 0)
                if meta[0][0] != real:
                    return "reported size %d, wrote %d bytes" % (meta[0][0], real)
            else:
                real = end - off - sum(1 for m in c["msgs"] if m[2] & 1)
                if sum(m[0] for m in meta) != real:
                    return "reported sizes sum to %d, wrote %d bytes" % (sum(m[0] for m in meta), real)
        if "type" in look:
            for (mi, v, tag), (sz, ty) in zip(c["msgs"], meta):
                if ty != mi + 1:
                    return "message type of %s (declared number %d) reported as %d" % (p.messages[mi].name, mi + 1, ty)
        return None

    @classmethod
    def smaller(cls, p, c):
        for ms in small_msgs(p, c["msgs"]):
            yield dict(c, msgs=ms)
        for i, (mi, v, t) in enumerate(c["msgs"]):
            if t:
                for nt in ({0, t & 1, t & 2} - {t}):
                    yield dict(c, msgs=c["msgs"][:i] + [(mi, v, nt)] + c["msgs"][i + 1:])
        for k in ("off", "pad"):
            if c[k] > 1:
                yield dict(c, **{k: 1})
            if c[k]:
                yield dict(c, **{k: 0})


class Read(Op):
    """{"op":"R","off","msgs":[(mi,v)],"bytes":None or explicit bytes (then "expect": "ok"/"err"/"any"),"tail","look"}"""

    @classmethod
    def data(cls, p, c):
        if c.get("bytes") is not None:
            return c["bytes"]
        return b"".join(p.encode(mi, v) for mi, v in c["msgs"])

    @classmethod
    def request(cls, p, pid, c):
        d = cls.data(p, c)
        if c.get("cut") is not None:
            d = d[:c["cut"]]
        pre = bytes((0x5b + i) & 255 for i in range(c["off"]))
        return "R %s %d %d %s %s" % (pid, c["off"], len(c["msgs"]), " ".join(str(m[0]) for m in c["msgs"]), hx(pre + d + c.get("tail", b"")))

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        look = c["look"]
        if c.get("expect") == "any":
            return None
        if c.get("expect") == "err":
            if "reject" in look and st != "ERR":
                return "accepted: " + reply[:300]
            return None
        if not (look & {"value", "pos", "accept"}):
            return None
        if st != "OK":
            return "rejected: " + reply[:300]
        it = iter(tk[1:])
        if "value" in look:
            for mi, v in ((m[0], m[1]) for m in c["msgs"]):
                got = p.parse_tokens(mi, it)
                if c.get("unknown") is not None:
                    v = put(p.messages[mi], p, v, c["unknown"], ("?", "unknown"))
                if got != v if "payload" in look else p.norm(mi, got) != p.norm(mi, v):
                    return "read %s as %s, the written value is %s" % (p.messages[mi].name, p.pretty(mi, got), p.pretty(mi, v))
            rest = list(it)
            if rest:
                return "unexpected data in reply: " + " ".join(rest)[:200]
        if "pos" in look:
            end = c["off"] + len(cls.data(p, c))
            if int(tk[0]) != end:
                return "reader stopped at %s, the last byte of the data is before %d" % (tk[0], end)
        return None

    @classmethod
    def smaller(cls, p, c):
        if c.get("bytes") is None and c.get("cut") is None:
            for ms in small_msgs(p, c["msgs"]):
                yield dict(c, msgs=ms)
        elif c.get("cut") is not None:
            for ms in small_msgs(p, c["msgs"]):
                n = len(cls.data(p, dict(c, msgs=ms)))
                for cut in sorted({n - 1, n // 2, 0, min(c["cut"], n - 1)}):
                    if 0 <= cut < n:
                        yield dict(c, msgs=ms, cut=cut)
        elif c.get("expect") == "any":
            b = c["bytes"]
            if len(b) > 0:
                for nb in {b[:len(b) // 2], b[len(b) // 2:], b[:-1], b[1:]}:
                    if nb != b:
                        yield dict(c, bytes=nb)
                if len(b) < 40:
                    for i in range(len(b)):
                        yield dict(c, bytes=b[:i] + b[i + 1:])
                        if b[i]:
                            yield dict(c, bytes=b[:i] + b"\0" + b[i + 1:])
        elif "corrupt" in c:      # an enum position overwritten: (path, bad number)
            for ms in small_msgs(p, c["msgs"]):
                nc = corrupt(p, dict(c, msgs=ms), c["corrupt"])
                if nc:
                    yield nc
        if c["off"]:
            yield dict(c, off=0)
        if c.get("tail"):
            yield dict(c, tail=b"")


def corrupt(p, c, spec):
    """replace the enum at path spec[0] of the single message by the raw number spec[1]"""
    path, num = spec
    (mi, v) = c["msgs"][0][:2]
    for pos, size, kind, t, pp in p.layout(mi, v):
        if kind == "enum" and list(pp) == list(path):
            enc = bytearray(p.encode(mi, v))
            enc[pos:pos + size] = num.to_bytes(size, "little", signed=num < 0)
            return dict(c, bytes=bytes(enc), corrupt=spec)
    return None


def put(s, p, v, path, new):
    """the struct value v with what is at path replaced"""
    i = [m.name for m in s.members].index(path[0])
    m, rest, old = s.members[i], list(path[1:]), v[i]
    if m.is_list:
        e = old[rest[0]]
        e = put(p.struct(m.type), p, e, rest[1:], new) if rest[1:] else new
        old = old[:rest[0]] + [e] + old[rest[0] + 1:]
    else:
        old = put(p.struct(m.type), p, old, rest, new) if rest else new
    return v[:i] + [old] + v[i + 1:]


class Default(Op):
    @classmethod
    def request(cls, p, pid, c):
        return "D %s %d" % (pid, c["mi"])

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        if not (c["look"] & {"value", "bytes"}):
            return None
        if st != "OK":
            return "no default: " + reply[:300]
        mi = c["mi"]
        want = p.default(mi)
        enc = hx(p.encode(mi, want))
        for i, g in enumerate(" ".join(tk).split(" | ")):
            g = g.split(" ")
            got = p.parse_tokens(mi, iter(g[2:]))
            if got != want:
                return "default (way %d) is %s, documented %s" % (i + 1, p.pretty(mi, got), p.pretty(mi, want))
            if g[1] != enc:
                return "default (way %d) written as %s, documented bytes %s" % (i + 1, g[1], enc)
        return None

    @classmethod
    def smaller(cls, p, c):
        return iter(())


def got_msgs(p, it, n):
    out = []
    for _ in range(n):
        mi = int(next(it))
        if not 0 <= mi < len(p.messages):
            out.append((mi, None))
            break
        out.append((mi, p.norm(mi, p.parse_tokens(mi, it))))
    return out


class Process(Op):
    """{"op":"P","off","max","msgs":[(mi,v)],"end": b"" or what follows,"bytes": explicit or None,"cut","expect":"ok"/"err"/"any","want": number of messages expected}"""

    @classmethod
    def data(cls, p, c):
        if c.get("bytes") is not None:
            return c["bytes"]
        d = b"".join(p.encode(mi, v, True) for mi, v in c["msgs"]) + c.get("end", b"")
        if c.get("cut") is not None:
            # cut is counted inside the last message
            last = len(p.encode(c["msgs"][-1][0], c["msgs"][-1][1], True))
            d = b"".join(p.encode(mi, v, True) for mi, v in c["msgs"])
            d = d[:len(d) - last + c["cut"]]
        return d

    @classmethod
    def request(cls, p, pid, c):
        pre = bytes((0x5b + i) & 255 for i in range(c["off"]))
        return "P %s %d %d %s" % (pid, c["off"], c["max"], hx(pre + cls.data(p, c)))

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        look = c["look"]
        if c.get("expect") == "any":
            return None
        if c.get("expect") == "err":
            if "reject" in look and st != "ERR":
                return "accepted: " + reply[:300]
            return None
        if not (look & {"value", "pos", "type"}):
            return None
        if st != "OK":
            return "rejected: " + reply[:300]
        n = int(tk[1])
        want = c["msgs"] if c["max"] < 0 else c["msgs"][:c["max"]]
        got = got_msgs(p, iter(tk[2:]), n)
        if "type" in look and [g[0] for g in got] != [m[0] for m in want]:
            return "message numbers %s, written were %s" % ([g[0] + 1 for g in got], [m[0] + 1 for m in want])
        if "value" in look and got != [(mi, p.norm(mi, v)) for mi, v in want]:
            return "got %d messages %s, expected %s" % (n, str([show_msg(p, *g) if g[1] is not None else g for g in got])[:500],
                                                       str([show_msg(p, *m) for m in want])[:500])
        if "pos" in look and int(tk[0]) >= 0:
            used = sum(len(p.encode(mi, v, True)) for mi, v in want)
            lo = c["off"] + used
            hi = lo + (1 if (c["max"] < 0 or c["max"] > len(c["msgs"])) and c.get("end", b"")[:1] == b"\0" else 0)
            if not lo <= int(tk[0]) <= hi:
                return "reader left at %s after messages ending at %d" % (tk[0], lo)
        return None

    @classmethod
    def smaller(cls, p, c):
        if c.get("bytes") is not None:
            return
        keep_last = c.get("cut") is not None
        for ms in small_msgs(p, c["msgs"]):
            nc = dict(c, msgs=ms)
            if keep_last:
                if not ms:
                    continue
                last = len(p.encode(ms[-1][0], ms[-1][1], True))
                for cut in sorted({1, last // 2, last - 1, c["cut"]}):
                    if 0 < cut < last:
                        yield dict(nc, cut=cut)
            else:
                yield nc
        if c["off"]:
            yield dict(c, off=0)
        if not keep_last and c.get("expect") != "err":
            if c.get("end"):
                yield dict(c, end=b"")
            if c["max"] > len(c["msgs"]):
                yield dict(c, max=-1)


class Pack(Op):
    @classmethod
    def request(cls, p, pid, c):
        n = len(p.pack(c["msgs"]))
        return "K %s %d %d %d " % (pid, c["off"], c["off"] + n + c["pad"] - min(c.get("short", 0), n), len(c["msgs"])) + " ".join(
            " ".join([str(mi)] + p.tokens(mi, v)) for mi, v in c["msgs"])

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        look = c["look"]
        if c.get("short"):
            if "error" in look and st != "ERR":
                return "packing into a buffer %d bytes too small did not report an error: %s" % (c["short"], reply[:200])
            return None
        if not (look & {"bytes", "place", "size"}):
            return None
        if st != "OK":
            return "packing failed: " + reply[:300]
        buf = bytes.fromhex(tk[1]) if tk[1] != "-" else b""
        want = p.pack(c["msgs"])
        off = c["off"]
        if "bytes" in look and buf[off:off + len(want)] != want:
            return "packed %s, documented bytes %s" % (hx(buf[off:])[:400], hx(want)[:400])
        if "place" in look and buf != b"\xaa" * off + want + b"\xaa" * c["pad"]:
            return "buffer %s, expected %s" % (hx(buf)[:500], hx(b"\xaa" * off + want + b"\xaa" * c["pad"])[:500])
        if "place" in look and int(tk[0]) >= 0 and int(tk[0]) != off + len(want):
            return "writer left at %s, the container ends at %d" % (tk[0], off + len(want))
        if "size" in look:
            end = int(tk[0]) - off if int(tk[0]) >= 0 else len(buf[off:].rstrip(b"\xaa"))
            if int(tk[2]) != end:
                return "packed size reported as %s, packing wrote %d bytes" % (tk[2], end)
        return None

    @classmethod
    def smaller(cls, p, c):
        if c["msgs"]:
            yield dict(c, msgs=[])
        for ms in small_msgs(p, c["msgs"]):
            yield dict(c, msgs=ms)
        for k in ("off", "pad"):
            if c[k]:
                yield dict(c, **{k: 0})


class Unpack(Op):
    """{"op":"U","off","msgs","bytes","cut","tail","expect"}"""

    @classmethod
    def data(cls, p, c):
        d = c["bytes"] if c.get("bytes") is not None else p.pack(c["msgs"])
        if c.get("cut") is not None:
            d = d[:c["cut"]]
        return d

    @classmethod
    def request(cls, p, pid, c):
        pre = bytes((0x5b + i) & 255 for i in range(c["off"]))
        return "U %s %d %s" % (pid, c["off"], hx(pre + cls.data(p, c) + c.get("tail", b"")))

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        look = c["look"]
        if c.get("expect") == "any":
            return None
        if c.get("expect") == "err":
            if "reject" in look and st != "ERR":
                return "accepted: " + reply[:300]
            return None
        if not (look & {"value", "type"}):
            return None
        if st != "OK":
            return "rejected: " + reply[:300]
        got = got_msgs(p, iter(tk[2:]), int(tk[1]))
        if "type" in look and [g[0] for g in got] != [m[0] for m in c["msgs"]]:
            return "message numbers %s, packed were %s" % ([g[0] + 1 for g in got], [m[0] + 1 for m in c["msgs"]])
        if "value" in look and got != [(mi, p.norm(mi, v)) for mi, v in c["msgs"]]:
            return "unpacked %s, expected %s" % (str([show_msg(p, *g) if g[1] is not None else g for g in got])[:500],
                                                str([show_msg(p, *m) for m in c["msgs"]])[:500])
        return None

    @classmethod
    def smaller(cls, p, c):
        if c.get("bytes") is not None:
            return
        for ms in small_msgs(p, c["msgs"]):
            if c.get("cut") is not None:
                n = len(p.pack(ms))
                for cut in sorted({0, 4, 8, n // 2, n - 2, c["cut"]}):
                    if 0 <= cut < n - 1:
                        yield dict(c, msgs=ms, cut=cut)
            else:
                yield dict(c, msgs=ms)
        if c["off"]:
            yield dict(c, off=0)


class Consts(Op):
    @classmethod
    def request(cls, p, pid, c):
        return "E " + pid

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        want = [v for e in p.enums for _, v in e.values]
        if st != "OK":
            return "enum constants unavailable: " + reply[:300]
        if [int(x) for x in tk] != want:
            it = iter(tk)
            for e in p.enums:
                for n, v in e.values:
                    g = next(it, None)
                    if g is None or int(g) != v:
                        return "constant %s.%s is %s, declared %d" % (e.name, n, g, v)
        return None

    @classmethod
    def smaller(cls, p, c):
        return iter(())


class Types(Op):
    """the static types (and, in C and Go, the order) of every member of every struct and message"""

    @classmethod
    def request(cls, p, pid, c):
        return "T " + pid

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        if st != "OK":
            return "types unavailable: " + reply[:300]
        n = sum(len(s.members) for s in p.structs + p.messages)
        if int(tk[-1]) < n:
            return "HARNESS only %s of %d members compared" % (tk[-1], n)
        for x in tk[:-1]:
            what, _, how = x.rpartition(":")
            if how == "type":
                s, _, m = what.partition(".")
                d = next(y for t in p.structs + p.messages if t.name == s for y in t.members if y.name == m)
                return "%s, declared %s, does not have the documented type in this language" % (what, "[%s]" % d.type if d.is_list else d.type)
            return "%s is not where its declaration puts it" % what if how in ("order", "place") else "types not understood: " + x
        return None

    @classmethod
    def smaller(cls, p, c):
        return iter(())


class Independent(Op):
    """{"op":"I","msgs":[(mi,v),(mi,v)]}: two messages written, read, changed and written again, between and during each other's calls.
    Reply: OK then, per message: its bytes the first time, its bytes at the end, the bytes of a new default instance at the end, then four values
    (both messages, both read back after the buffers were reused), then the number of calls inside or beside others that went wrong."""

    @classmethod
    def request(cls, p, pid, c):
        return "I %s " % pid + " ".join(" ".join([str(mi)] + p.tokens(mi, v)) for mi, v in c["msgs"])

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        if st != "OK":
            return "failed: " + reply[:300]
        for i, (mi, v) in enumerate(c["msgs"]):
            want = [hx(p.encode(mi, v)), hx(p.encode(mi, v)), hx(p.encode(mi, p.default(mi)))]
            for w, g, what in zip(want, tk[3 * i:], ("written", "written again after other messages were written, read and changed", "of a new default instance written after another one was changed")):
                if w != g:
                    return "bytes of %s %s: %s, documented bytes are %s" % (p.messages[mi].name, what, g[:400], w[:400])
        it = iter(tk[6:])
        for what in ("after writing it", "read, after its buffer was reused and other messages were read and changed"):
            for mi, v in c["msgs"]:
                got = p.parse_tokens(mi, it)
                if p.norm(mi, got) != p.norm(mi, v):
                    return "%s %s is %s, expected %s" % (p.messages[mi].name, what, p.pretty(mi, got), p.pretty(mi, v))
        bad = next(it)
        if bad != "0":
            return "%s reads or writes went wrong because others ran inside or beside them" % bad
        return None

    @classmethod
    def smaller(cls, p, c):
        for i, (mi, v) in enumerate(c["msgs"]):
            for y in small_msg(p, mi, v):
                yield dict(c, msgs=c["msgs"][:i] + [(mi, y)] + c["msgs"][i + 1:])
        if c["msgs"][0] != c["msgs"][1]:
            for m in c["msgs"]:
                yield dict(c, msgs=[m, m])


class Change(Op):
    """{"op":"M","msgs":[(mi,v),...] all of one type}: one message is measured, packed-measured, written and read back, then given the next value in place
    (members, nested structs and list elements assigned, lists lengthened or shortened), measured and written again with the same writer and reader, and so on.
    Reply: OK then per value: size, packed size, bytes, the value read back; then the message itself."""

    @classmethod
    def request(cls, p, pid, c):
        cap = max(len(p.encode(mi, v)) for mi, v in c["msgs"]) + 5
        return "M %s %d %d %d " % (pid, c["msgs"][0][0], cap, len(c["msgs"])) + " ".join(" ".join(p.tokens(mi, v)) for mi, v in c["msgs"])

    @classmethod
    def check(cls, p, c, st, tk, ex, reply, lang):
        look = c["look"]
        if st != "OK":
            return "failed: " + reply[:300]
        it = iter(tk)
        for k, (mi, v) in enumerate(c["msgs"]):
            name = p.messages[mi].name
            when = " after its members were changed" if k else ""
            want = p.encode(mi, v)
            size, packed, wrote = int(next(it)), int(next(it)), next(it)
            n = len(wrote) // 2 if wrote != "-" else 0
            if "size" in look and size != n:
                return "%s reported size %d%s, wrote %d bytes" % (name, size, when, n)
            if "size" in look and packed != len(p.pack([(mi, v)])) - len(want) + n:
                return "packed size of one %s reported as %d%s, %d bytes are packed" % (name, packed, when, len(p.pack([(mi, v)])) - len(want) + n)
            if "bytes" in look and wrote != hx(want):
                return "wrote %s as %s%s, documented bytes are %s" % (name, wrote[:400], when, hx(want)[:400])
            got = p.parse_tokens(mi, it)
            if "value" in look and p.norm(mi, got) != p.norm(mi, v):
                return "read %s as %s%s, expected %s" % (name, p.pretty(mi, got), when, p.pretty(mi, v))
        mi, v = c["msgs"][-1]
        got = p.parse_tokens(mi, it)
        if "value" in look and p.norm(mi, got) != p.norm(mi, v):
            return "%s holds %s after it was set to %s and written" % (p.messages[mi].name, p.pretty(mi, got), p.pretty(mi, v))
        return None

    @classmethod
    def smaller(cls, p, c):
        yield from (dict(c, msgs=ms) for ms in small_msgs(p, c["msgs"]))


THROWN = re.compile(r"ERR \w*Error ")
OPS = {"I": Independent, "M": Change, "T": Types, "W": Write, "R": Read, "D": Default, "P": Process, "K": Pack, "U": Unpack, "E": Consts}


def request(p, pid, c):
    r = OPS[c["op"]].request(p, pid, c)
    if c.get("stream"):           # (way the stream delivers its bytes, its parameter)
        r = "%s:%d:%d%s" % (r[0], c["stream"][0], c["stream"][1], r[1:])
    return ("F %d " % c["fail"] if c.get("fail") else "") + r


def judge(p, c, reply, lang):
    if lang == "assemblyscript" and c["op"] in "RWP" and THROWN.match(reply):
        return "threw, which stops an AssemblyScript program: " + reply[:300]
    return OPS[c["op"]].judge(p, c, reply, lang)


def smaller(p, c):
    if c.get("fail"):
        for k in range(1, min(c["fail"], 4)):
            yield dict(c, fail=k)
        for n in OPS[c["op"]].smaller(p, c):
            for k in {c["fail"], max(1, c["fail"] // 2), max(1, c["fail"] - 1), 1}:
                yield dict(n, fail=k)
    else:
        yield from OPS[c["op"]].smaller(p, c)


def case_messages(c):
    """indices of the messages a case uses"""
    if "mi" in c:
        return {c["mi"]}
    return {m[0] for m in c.get("msgs", [])}


# ---- JSON
def to_json(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, (set, frozenset)):
        return {"set": sorted(x)}
    if isinstance(x, tuple):
        return {"tuple": [to_json(y) for y in x]}
    if isinstance(x, list):
        return [to_json(y) for y in x]
    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    return x


def from_json(x):
    if isinstance(x, dict):
        if set(x) == {"hex"}:
            return bytes.fromhex(x["hex"])
        if set(x) == {"set"}:
            return frozenset(x["set"])
        if set(x) == {"tuple"}:
            return tuple(from_json(y) for y in x["tuple"])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_json(y) for y in x]
    return x
