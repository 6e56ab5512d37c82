"""Independent model of a Beschi protocol: abstract syntax, TOML rendering, reference codec,
value generator.  Nothing here imports the code under test."""
from __future__ import annotations
import random, re, struct
from dataclasses import dataclass, field

SIZE = {"byte": 1, "bool": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4,
        "uint64": 8, "int64": 8, "float": 4, "double": 8}
INT_RANGE = {"byte": (0, 255), "int16": (-2**15, 2**15 - 1), "uint16": (0, 2**16 - 1),
             "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1),
             "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1)}
SIZE_TYPES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
FMT = {"byte": "<B", "uint16": "<H", "int16": "<h", "uint32": "<I", "int32": "<i",
       "uint64": "<Q", "int64": "<q"}


@dataclass
class EnumDef:
    name: str
    values: list  # [(name, int)]
    table: bool = False

    @property
    def encoding(self):
        lo = min(v for _, v in self.values)
        hi = max(v for _, v in self.values)
        for t in ("byte", "int16", "int32"):
            if INT_RANGE[t][0] <= lo and hi <= INT_RANGE[t][1]:
                return t
        return None


@dataclass
class Mem:
    name: str
    type: str
    is_list: bool = False


@dataclass
class StructDef:
    name: str
    members: list


@dataclass
class Proto:
    ns: str | None = None
    lt: str = "uint32"
    st: str = "uint32"
    enums: list = field(default_factory=list)
    structs: list = field(default_factory=list)
    messages: list = field(default_factory=list)
    explicit_sizes: bool = True

    def enum(self, n):
        for e in self.enums:
            if e.name == n:
                return e
        return None

    def struct(self, n):
        for s in self.structs:
            if s.name == n:
                return s
        return None

    def kind(self, t):
        if t in SIZE:
            return "num"
        if t == "string":
            return "string"
        if self.enum(t):
            return "enum"
        if self.struct(t):
            return "struct"
        raise KeyError(t)

    def clone(self):
        return Proto(self.ns, self.lt, self.st,
                     [EnumDef(e.name, list(e.values), e.table) for e in self.enums],
                     [StructDef(s.name, [Mem(m.name, m.type, m.is_list) for m in s.members]) for s in self.structs],
                     [StructDef(s.name, [Mem(m.name, m.type, m.is_list) for m in s.members]) for s in self.messages],
                     self.explicit_sizes)

    def is_simple_type(self, t):
        k = self.kind(t)
        if k in ("num", "enum"):
            return True
        if k == "string":
            return False
        return self.is_simple(self.struct(t))

    def is_simple(self, s):
        return all(not m.is_list and self.is_simple_type(m.type) for m in s.members)

    # ---- TOML
    def to_toml(self):
        out = []
        meta = []
        if self.ns is not None:
            meta.append(f'namespace = "{self.ns}"')
        if self.explicit_sizes or self.lt != "uint32":
            meta.append(f'list_size_type = "{self.lt}"')
        if self.explicit_sizes or self.st != "uint32":
            meta.append(f'string_size_type = "{self.st}"')
        if meta:
            out += ["[meta]"] + meta + [""]
        for kind, lst in (("structs", self.structs), ("messages", self.messages)):
            for s in lst:
                out.append(f"[[{kind}]]")
                out.append(f'_name = "{s.name}"')
                for m in s.members:
                    t = f"[{m.type}]" if m.is_list else m.type
                    out.append(f'{m.name} = "{t}"')
                out.append("")
        for e in self.enums:
            out.append("[[enums]]")
            out.append(f'_name = "{e.name}"')
            if e.table:
                out.append("_values = [")
                for n, v in e.values:
                    out.append(f'    {{ _name = "{n}", _value = {v} }},')
                out.append("]")
            else:
                out.append("_values = [" + ", ".join(f'"{n}"' for n, _ in e.values) + "]")
            out.append("")
        return "\n".join(out) + "\n"

    # ---- reference codec.  Values: ints; float/double as their bit pattern (int); enum as the
    #      index of the name in declaration order; string as UTF-8 bytes; list; struct as list
    def enc_type(self, t, v, out):
        k = self.kind(t)
        if k == "num":
            if t == "bool":
                out.append(1 if v else 0)
            elif t == "float":
                out += v.to_bytes(4, "little")
            elif t == "double":
                out += v.to_bytes(8, "little")
            else:
                out += struct.pack(FMT[t], v)
        elif k == "string":
            out += struct.pack(FMT[self.st], len(v))
            out += v
        elif k == "enum":
            e = self.enum(t)
            out += struct.pack(FMT[e.encoding], e.values[v][1])
        else:
            self.enc_struct(self.struct(t), v, out)

    def enc_struct(self, s, v, out):
        for m, x in zip(s.members, v):
            if m.is_list:
                out += struct.pack(FMT[self.lt], len(x))
                for el in x:
                    self.enc_type(m.type, el, out)
            else:
                self.enc_type(m.type, x, out)

    def encode(self, mi, v, tag=False):
        out = bytearray()
        if tag:
            out.append(mi + 1)
        self.enc_struct(self.messages[mi], v, out)
        return bytes(out)

    def pack(self, msgs):
        out = bytearray(b"BSCI") + struct.pack("<I", len(msgs))
        for mi, v in msgs:
            out += self.encode(mi, v, True)
        out.append(0)
        return bytes(out)

    # ---- layout: the wire positions of a value, for targeted corruption
    def layout(self, mi, v, tag=False):
        """[(offset, size, kind, type, path)] of every primitive on the wire, in order."""
        pos = 0
        res = []

        def prim(size, kind, t, path):
            nonlocal pos
            res.append((pos, size, kind, t, path))
            pos += size

        def ty(t, v, path):
            k = self.kind(t)
            if k == "num":
                prim(SIZE[t], "num", t, path)
            elif k == "string":
                prim(SIZE[self.st], "strlen", self.st, path)
                prim(len(v), "strbytes", "string", path)
            elif k == "enum":
                prim(SIZE[self.enum(t).encoding], "enum", t, path)
            else:
                st(self.struct(t), v, path)

        def st(s, v, path):
            for m, x in zip(s.members, v):
                p = path + (m.name,)
                if m.is_list:
                    prim(SIZE[self.lt], "listlen", self.lt, p)
                    for i, el in enumerate(x):
                        ty(m.type, el, p + (i,))
                else:
                    ty(m.type, x, p)
        if tag:
            prim(1, "tag", "byte", ())
        st(self.messages[mi], v, ())
        return res

    # ---- reference decoder: ("ok", value, end) or ("eof"|"invalid", None, None)
    def decode(self, mi, buf, off=0):
        """Reference reader.  Strings must be well-formed UTF-8, otherwise 'utf8'."""
        pos = off

        class Bad(Exception):
            pass

        def take(n):
            nonlocal pos
            if n < 0 or pos + n > len(buf):
                raise Bad("eof")
            b = buf[pos:pos + n]
            pos += n
            return b

        def ty(t):
            k = self.kind(t)
            if k == "num":
                b = take(SIZE[t])
                if t == "bool":
                    return 1 if b[0] else 0
                if t in ("float", "double"):
                    return int.from_bytes(b, "little")
                return struct.unpack(FMT[t], b)[0]
            if k == "string":
                n = struct.unpack(FMT[self.st], take(SIZE[self.st]))[0]
                b = take(n)
                try:
                    bytes(b).decode("utf-8")
                except UnicodeDecodeError:
                    raise Bad("utf8")
                return bytes(b)
            if k == "enum":
                e = self.enum(t)
                n = struct.unpack(FMT[e.encoding], take(SIZE[e.encoding]))[0]
                for i, (_, x) in enumerate(e.values):
                    if x == n:
                        return i
                raise Bad("enum")
            return st(self.struct(t))

        def st(s):
            out = []
            for m in s.members:
                if m.is_list:
                    n = struct.unpack(FMT[self.lt], take(SIZE[self.lt]))[0]
                    if n < 0:
                        raise Bad("negative")
                    l = []
                    for _ in range(n):
                        l.append(ty(m.type))
                        if len(l) > 300000:
                            raise Bad("huge")
                    out.append(l)
                else:
                    out.append(ty(m.type))
            return out
        try:
            v = st(self.messages[mi])
            return "ok", v, pos
        except Bad as e:
            return str(e), None, None

    # ---- documented default value
    def default_type(self, t):
        k = self.kind(t)
        if k == "num":
            return 0
        if k == "string":
            return b""
        if k == "enum":
            return 0
        return self.default_struct(self.struct(t))

    def default_struct(self, s):
        return [[] if m.is_list else self.default_type(m.type) for m in s.members]

    def default(self, mi):
        return self.default_struct(self.messages[mi])

    # ---- tokens for the harness line protocol
    def tok_type(self, t, v, out):
        k = self.kind(t)
        if k == "num":
            if t == "float":
                out.append("%08x" % v)
            elif t == "double":
                out.append("%016x" % v)
            else:
                out.append(str(v))
        elif k == "string":
            out.append("s" + v.hex())
        elif k == "enum":
            out.append(str(v))
        else:
            self.tok_struct(self.struct(t), v, out)

    def tok_struct(self, s, v, out):
        for m, x in zip(s.members, v):
            if m.is_list:
                out.append(str(len(x)))
                for el in x:
                    self.tok_type(m.type, el, out)
            else:
                self.tok_type(m.type, x, out)

    def tokens(self, mi, v):
        out = []
        self.tok_struct(self.messages[mi], v, out)
        return out

    # ---- readable form of a value
    def pretty_type(self, t, v):
        k = self.kind(t)
        if k == "num":
            if t == "float":
                return "%r(0x%08x)" % (struct.unpack("<f", v.to_bytes(4, "little"))[0], v)
            if t == "double":
                return "%r(0x%016x)" % (struct.unpack("<d", v.to_bytes(8, "little"))[0], v)
            if t == "bool":
                return bool(v)
            return v
        if k == "string":
            return v.decode("utf-8", "replace") if len(v) < 100 else "%d bytes of text" % len(v)
        if k == "enum":
            e = self.enum(t)
            return "%s=%d" % e.values[v] if isinstance(v, int) and 0 <= v < len(e.values) else "unknown %s" % (v,)
        return self.pretty_struct(self.struct(t), v)

    def pretty_struct(self, s, v):
        return {m.name: ([self.pretty_type(m.type, e) for e in x] if len(x) < 50 else "list of %d" % len(x)) if m.is_list
                else self.pretty_type(m.type, x) for m, x in zip(s.members, v)}

    def pretty(self, mi, v):
        return self.pretty_struct(self.messages[mi], v)

    # ---- normalise NaNs (payload and sign of a NaN are not compared)
    def norm_type(self, t, v):
        k = self.kind(t)
        if t == "float":
            return 0x7fc00000 if (v & 0x7fffffff) > 0x7f800000 else v
        if t == "double":
            return 0x7ff8 << 48 if (v & (2**63 - 1)) > (0x7ff << 52) else v
        if k == "struct":
            return self.norm_struct(self.struct(t), v)
        return v

    def norm_struct(self, s, v):
        return [[self.norm_type(m.type, e) for e in x] if m.is_list else self.norm_type(m.type, x)
                for m, x in zip(s.members, v)]

    def norm(self, mi, v):
        return self.norm_struct(self.messages[mi], v)

    def parse_tokens(self, mi, toks):
        """Inverse of tokens(); consumes from a list iterator. Unknown enum constants -> ('?', n)."""
        it = toks

        def ty(t):
            k = self.kind(t)
            x = next(it)
            if k == "num":
                if t in ("float", "double"):
                    return int(x, 16)
                return int(x)
            if k == "string":
                if x[:1] != "s":
                    raise ValueError("string token " + x)
                return bytes.fromhex(x[1:])
            if k == "enum":
                return int(x) if not x.startswith("?") else ("?", x[1:])
            raise AssertionError

        def tyx(t):
            if self.kind(t) == "struct":
                return st(self.struct(t))
            return ty(t)

        def st(s):
            out = []
            for m in s.members:
                if m.is_list:
                    n = int(next(it))
                    out.append([tyx(m.type) for _ in range(n)])
                else:
                    out.append(tyx(m.type))
            return out
        return st(self.messages[mi])


# ------------------------------------------------------------------ generation
NATO = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet",
        "kilo", "lima", "mike", "november", "oscar", "papa", "quebec", "romeo", "sierra", "tango",
        "uniform", "victor", "whiskey", "yankee", "zulu"]
# ordinary names that generated code also uses for its own parameters and locals; none is a keyword anywhere
WORDS = """el size len length count tag data value val message msg msgs msg_type buffer offset position reader writer err ret result num n_items idx
           da dv dr dw dst src br bw stream alloc allocator bytes buf pos index str string_value text max id time date version header payload body
           status code flag size_in_bytes message_type get set dataReader dataWriter dataAccess bufferReader nextValue newMsg msgList msgType
           isFinished currentOffset Name Value Data Size Count ID URL xPos Length Message Buffer Position Offset kind label i0 i1 i2""".split()
SUFFIXES = ["read", "el", "size", "count", "value", "data", "type", "list", "buffer", "length", "name"]
STRUCT_NAMES = ["Color", "Spectrum", "Segment", "Layer", "Entry", "Leaf", "Bundle", "Parcel", "Shape", "Region", "Cluster", "Widget", "Header", "Item", "Event", "Range", "Token", "Node", "Point", "Vector"]
MSG_NAMES = ["Login", "Logout", "Chat", "Motion", "Spawn", "Attack", "Trade", "Ping", "Status", "Update", "Invite", "Score", "State", "Text", "Key", "User"]
ENUM_NAMES = ["Mode", "Role", "Grade", "Phase", "Rank", "Team", "Weather", "Season", "Kind", "Tag", "Option", "Symbol"]
VAL_NAMES = ["Idle", "Active", "Busy", "Gone", "Red", "Green", "Blue", "North", "South", "East", "West", "High", "Low",
             "Minor", "Major", "First", "Second", "Third", "Early", "Late", "Fast", "Slow"]


def fold(name):
    """what is left of a name when the conventions of every language are applied to it"""
    return name.replace("_", "").lower()


def member_names(rng, n):
    """n names, distinct even after capitalising or snake_casing."""
    seen, out = set(), []
    while len(out) < n:
        r = rng.random()
        lower = [x for x in out if x.isalpha() and x.islower()]
        if r < 0.2:
            w = rng.choice("abcdefghijklmnopqrstuvwxyz")
            snake = w
        elif r < 0.35:
            w = rng.choice(NATO)
            snake = w
        elif r < 0.5:
            w = rng.choice(WORDS)
            snake = re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", w).lower()
        elif r < 0.6 and lower:                # named after another member
            x = rng.choice(lower)
            w, snake = rng.choice([(x + "_" + t, x + "_" + t) for t in SUFFIXES] + [(x + t.capitalize(), x + "_" + t) for t in SUFFIXES])
        elif r < 0.8:
            a, b = rng.choice(NATO), rng.choice(NATO)
            w, snake = a + b.capitalize(), a + "_" + b
        elif r < 0.9:
            a = rng.choice(NATO)
            d = str(rng.randrange(10))
            w, snake = a + d, a + d
        else:
            a, b = rng.choice(NATO), rng.choice(NATO)
            w, snake = a + "_" + b, a + "_" + b
        key = snake.replace("_", "")
        if key in seen:
            continue
        seen.add(key)
        out.append(w)
    return out


ENUM_BOUND = [0, 1, 2, 3, 126, 127, 128, 129, 200, 254, 255, 256, 257, 511, 32766, 32767, 32768, 65535, 65536,
              2**31 - 2, 2**31 - 1, -1, -2, -127, -128, -129, -32767, -32768, -32769, -2**31, -2**31 + 1, 1000, -1000]


def gen_enum(rng, name, want=None):
    n = rng.choice([1, 2, 2, 3, 4, 5, 8])
    names = rng.sample(VAL_NAMES, n)
    if rng.random() < 0.3 and want is None:
        return EnumDef(name, [(x, i) for i, x in enumerate(names)], False)
    enc = want or rng.choice(["byte", "int16", "int32"])
    lo, hi = INT_RANGE[enc]
    pool = [b for b in ENUM_BOUND if lo <= b <= hi]
    vals = []
    while len(vals) < n:
        v = rng.choice(pool) if rng.random() < 0.7 else rng.randint(lo, hi)
        if v not in vals:
            vals.append(v)
    return EnumDef(name, list(zip(names, vals)), True)


def gen_proto(rng, ns=None, sizes=None, forward_refs=True, max_msgs=4, allow_empty_msg=True, deep=False):
    p = Proto(ns=ns)
    if sizes:
        p.lt, p.st = sizes
    else:
        p.lt, p.st = rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES)
    ne = rng.choice([1, 1, 2, 2, 3])
    for nm in rng.sample(ENUM_NAMES, ne):
        p.enums.append(gen_enum(rng, nm))
    base = list(SIZE) + ["string"]
    nstructs = rng.choice([2, 3, 3, 4, 5])
    names = rng.sample(STRUCT_NAMES, nstructs)
    for i, nm in enumerate(names):
        simple = rng.random() < 0.4
        k = rng.choice([1, 2, 2, 3, 4])
        mem = []
        for mn in member_names(rng, k):
            prev = [s.name for s in p.structs]
            r = rng.random()
            if simple:
                prev = [s.name for s in p.structs if p.is_simple(s)]
                if prev and r < 0.35:
                    t = rng.choice(prev)
                elif r < 0.6:
                    t = rng.choice(p.enums).name
                else:
                    t = rng.choice([b for b in base if b != "string"])
                mem.append(Mem(mn, t, False))
            else:
                if prev and r < 0.4:
                    t = rng.choice(prev)
                elif r < 0.55:
                    t = rng.choice(p.enums).name
                elif r < 0.75:
                    t = "string"
                else:
                    t = rng.choice(base)
                mem.append(Mem(mn, t, rng.random() < 0.4))
        p.structs.append(StructDef(nm, mem))
    # now and then the same member name at several nesting levels
    if rng.random() < 0.5:
        shared = "items"
        for s in p.structs:
            for m in s.members:
                if m.is_list and not any(x.name == shared for x in s.members) and rng.random() < 0.7:
                    m.name = shared
                    break
    nm_msgs = rng.randint(1, max_msgs)
    alltypes = base + [e.name for e in p.enums] + [s.name for s in p.structs] * 2
    for nm in rng.sample(MSG_NAMES, nm_msgs):
        if allow_empty_msg and rng.random() < 0.06:
            p.messages.append(StructDef(nm, []))
            continue
        k = rng.choice([1, 2, 3, 4, 5, 6, 7])
        simple = rng.random() < 0.15
        mem = []
        types = alltypes
        if simple:
            types = [t for t in alltypes if p.is_simple_type(t)]
        for mn in member_names(rng, k):
            mem.append(Mem(mn, rng.choice(types), (not simple) and rng.random() < 0.4))
        if rng.random() < 0.3:
            for m in mem:
                if m.is_list and p.kind(m.type) == "struct":
                    m.name = "items"
                    break
        p.messages.append(StructDef(nm, mem))
    if forward_refs and rng.random() < 0.5:
        rng.shuffle(p.structs)
    return p


def full_proto(rng, ns, lt, st):
    """Deterministically contains every member type, alone and listed, and every nesting the
    generator knows, so that each batch covers them whatever the seed."""
    p = Proto(ns=ns, lt=lt, st=st)
    p.enums = [gen_enum(rng, "Mode", "byte"), gen_enum(rng, "Role", "int16"), gen_enum(rng, "Grade", "int32"),
               EnumDef("Phase", [("Early", 0), ("Late", 1), ("Busy", 2)], False)]
    base = list(SIZE) + ["string"]
    names = member_names(rng, 60)
    it = iter(names)
    Color = StructDef("Color", [Mem(next(it), t) for t in rng.sample([b for b in base if b != "string"], 3)])
    Leaf = StructDef("Leaf", [Mem(next(it), rng.choice(["Mode", "Role", "Grade"])), Mem(next(it), "Color"), Mem(next(it), rng.choice(list(SIZE)))])
    Entry = StructDef("Entry", [Mem("label", "string"), Mem("items", rng.choice(["string", "uint16", "Leaf"]), True), Mem("leafy", "Leaf")])
    Bundle = StructDef("Bundle", [Mem("items", "Entry", True), Mem("name", "string"), Mem("single", "Entry"), Mem("roles", "Role", True)])
    Grid = StructDef("Grid", [Mem(next(it), t, True) for t in rng.sample(base + ["Mode", "Grade"], len(base) + 2)])
    p.structs = [Color, Leaf, Entry, Bundle, Grid]
    a = StructDef("Login", [Mem(next(it), t) for t in base])
    b = StructDef("Chat", [Mem(next(it), t, True) for t in base])
    c = StructDef("Motion", [Mem(next(it), e.name, l) for e in p.enums for l in (False, True)])
    d = StructDef("Spawn", [Mem("items", "Bundle", True), Mem("hold", "Bundle"), Mem("leaf", "Leaf"), Mem("leaves", "Leaf", True), Mem("colors", "Color", True)])
    e = StructDef("Score", [Mem(next(it), "Leaf"), Mem(next(it), "Phase"), Mem(next(it), "Color"), Mem(next(it), "int32")])
    f = StructDef("Ping", [])
    g = StructDef("Board", [Mem("grids", "Grid", True), Mem(next(it), rng.choice(base))] + ([Mem("grid", "Grid")] if rng.random() < 0.3 else []))
    p.messages = [a, b, c, d, e, f, g]
    return p


def length_names(rng, ns, lt, st):
    """members named like the lengths of their neighbours.  C is left out: its structs have those names for the lengths themselves."""
    p = Proto(ns=ns, lt=lt, st=st)
    p.skip = ("c",)
    p.enums = [gen_enum(rng, "Mode")]
    x = rng.choice(["items", "name", "e"])
    t1, t2 = rng.choice([lt, "uint32"]), rng.choice([st, lt, "int16"])
    p.structs = [StructDef("Pair", [Mem(x + "_len", t1), Mem(x, rng.choice(["string", "uint16", "Mode"]), True)]),
                 StructDef("Turned", [Mem(x, rng.choice(["Pair", "string"]), True), Mem(x + "_len", t2), Mem("spare", "bool")])]
    for i, (t, l) in enumerate([("uint16", True), ("string", True), ("Mode", True), ("Pair", True), ("Turned", True), ("string", False), ("Turned", False), ("Mode", False)]):
        mem = [Mem(x, t, l), Mem(x + "_len", rng.choice([lt, st, "Mode", "string"])), Mem(x + rng.choice(["_els_len", "_len_len", "_read", "Read", "_el"]), rng.choice([lt, "string", "Mode"]), rng.random() < 0.4)]
        rng.shuffle(mem)
        p.messages.append(StructDef("M" + NATO[i], mem))
    p.messages.append(StructDef("Last", [Mem(x + "Read", "Mode"), Mem(x, "Mode"), Mem(x + "s", "Mode", True), Mem(x + "s_el", "Mode")]))
    return p


def chain(rng, p, depth, stem="Link", simple_end=False):
    """depth structs, each holding the next, mostly in lists, under equal and different member names; -> name of the outermost"""
    style = rng.choice(["lists", "lists", "mixed"])
    same = rng.choice(["items", None, None])
    prev = None
    for i in range(depth):
        nm = "%s%s" % (stem, NATO[i].capitalize())
        if prev is None:
            mem = [Mem("tip", rng.choice(["uint16", p.enums[0].name, "double"])), Mem("note", "string")] if not simple_end else [Mem("tip", "int16"), Mem("kind", p.enums[0].name)]
        else:
            mem = [Mem("id", rng.choice(["byte", "int32", "bool"]))] if rng.random() < 0.5 else []
            listed = style == "lists" or rng.random() < 0.6
            mem.append(Mem(same or member_names(rng, 1)[0], prev, listed))
            if rng.random() < 0.4 and mem[-1].name != "label":
                mem.append(Mem("label", "string", rng.random() < 0.3))
            if rng.random() < 0.2:
                mem.append(Mem("again", prev, not listed))
            seen = set()
            mem = [m for m in mem if not (fold(m.name) in seen or seen.add(fold(m.name)))]
            if prev is not None and not any(m.type == prev for m in mem):
                mem.append(Mem("link", prev, True))
        p.structs.append(StructDef(nm, mem))
        prev = nm
    return prev


def wide_proto(rng, ns, lt, st):
    """large in every direction the format allows: chains of structs, hundreds of enum values, dozens of members, of structs and of enums"""
    p = Proto(ns=ns, lt=lt, st=st)
    p.enums = [gen_enum(rng, "Mode"), EnumDef("Grade", [("Item%d" % i, i) for i in range(rng.choice([128, 129, 255, 256, 257, 300]))], False)]
    xs = rng.sample(range(-200, 70000), 140)
    p.enums.append(EnumDef("Rank", [("Item%d" % i, x) for i, x in enumerate(xs)], True))
    for i in range(6):
        p.enums.append(gen_enum(rng, "Kind" + NATO[i].capitalize()))
    a = chain(rng, p, rng.choice([5, 6, 7]))
    b = chain(rng, p, rng.choice([4, 5]), "Ring", True)
    for i in range(20):
        nm = "Cell" + NATO[i].capitalize()
        if i < 8:       # a chain of simple structs
            mem = [Mem("v", rng.choice([t for t in SIZE] + ["Mode", "Grade", "Rank"]))] + ([Mem("inner", "Cell" + NATO[i - 1].capitalize())] if i else [])
        else:
            mem = [Mem(x, rng.choice(list(SIZE) + ["string", "Rank", "Cell" + NATO[rng.randrange(i)].capitalize()]), rng.random() < 0.3) for x in member_names(rng, rng.choice([1, 2, 3]))]
        p.structs.append(StructDef(nm, mem))
    cells = ["Cell" + NATO[i].capitalize() for i in range(20)]
    ms = member_names(rng, 60)
    types = list(SIZE) + ["string"] + [e.name for e in p.enums]
    p.messages = [StructDef("Login", [Mem("top", a, True)]), StructDef("Logout", [Mem("one", a), Mem("count", "uint16"), Mem("rest", b, True)]),
                  StructDef("Chat", [Mem(n, rng.choice(types), rng.random() < 0.15) for n in ms[:rng.choice([33, 45, 60])]]),
                  StructDef("Motion", [Mem(n, rng.choice([t for t in types if t != "string"] + cells[:8])) for n in ms[:rng.choice([20, 33])]]),
                  StructDef("Spawn", [Mem("c%d" % i, c, rng.random() < 0.5) for i, c in enumerate(rng.sample(cells, 9))]),
                  StructDef("Trade", [Mem("ranks", "Rank", True), Mem("grade", "Grade"), Mem("grades", "Grade", True), Mem("deep", cells[7]), Mem("deeps", cells[7], True)])]
    rng.shuffle(p.structs)
    return p


FLOAT_BITS = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0x007fffff,
              0x00800000, 0x7f7fffff, 0xff7fffff, 0x3eaaaaab, 0x4b800000]
DOUBLE_BITS = [0, 1 << 63, 0x3ff << 52, 0xbff << 52, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 1, (1 << 63) | 1,
               (1 << 52) - 1, 1 << 52, (0x7ff << 52) - 1, 0x3fd5555555555555, 0x4340000000000000]
STR_ATOMS = ["a", "Z", "0", " ", "é", "ß", "€", "日", "😀", "\ufeff", "\u0000", "\n", "\"", "\\", "\u0301", "\uffff", "\U0010ffff", "\x7f", "\u0080", "\u07ff", "\u0800"]


class ValGen:
    def __init__(self, proto, rng, big=0.01, budget=400, avoid_nan=False, unicode_lists=True):
        self.p, self.rng, self.big, self.avoid_nan = proto, rng, big, avoid_nan
        self.budget0 = budget
        self.budget = budget

    def maxlen(self, szt):
        return INT_RANGE[szt][1]

    def integer(self, t):
        lo, hi = INT_RANGE[t]
        r = self.rng.random()
        if r < 0.25:
            return self.rng.choice([lo, hi, lo + 1, hi - 1, max(lo, -1), 0, 1, min(hi, 127), min(hi, 128), min(hi, 255), min(hi, 256),
                                    min(hi, 32768), min(hi, 65535), min(hi, 65536), min(hi, 2**31), min(hi, 2**53 + 1), min(hi, 2**63)])
        if r < 0.5:
            return max(lo, min(hi, self.rng.randint(-50, 300)))
        return self.rng.randint(lo, hi)

    def float_bits(self, bits):
        while True:
            if self.rng.random() < 0.4:
                v = self.rng.choice(FLOAT_BITS if bits == 32 else DOUBLE_BITS)
            elif self.rng.random() < 0.5:
                x = self.rng.choice([self.rng.uniform(-1000, 1000), float(self.rng.randint(-1000, 1000))])
                v = struct.unpack("<I", struct.pack("<f", x))[0] if bits == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
            else:
                v = self.rng.getrandbits(bits)
            # only canonical NaNs
            if bits == 32 and (v & 0x7fffffff) > 0x7f800000:
                v = 0x7fc00000
                if self.avoid_nan:
                    continue
            if bits == 64 and (v & (2**63 - 1)) > (0x7ff << 52):
                v = 0x7ff8 << 48
                if self.avoid_nan:
                    continue
            return v

    def text(self, n):
        """n bytes of text, often with characters across any boundary that an implementation may cut it at"""
        s = "p" * min(n, self.rng.randint(0, 4))
        atom = self.rng.choice(["x", "é", "€", "😀", "é€😀x"])
        s += atom * ((n - len(s)) // len(atom.encode()))
        return s + "y" * (n - len(s.encode()))

    def string(self):
        r = self.rng.random()
        mx = self.maxlen(self.p.st)
        if r < 0.2:
            s = ""
        elif r < 0.5:
            s = "".join(self.rng.choice("abcdefXYZ 019_") for _ in range(self.rng.randint(1, 12)))
        elif r < 1 - self.big:
            s = "".join(self.rng.choice(STR_ATOMS) for _ in range(self.rng.randint(1, 6)))
        else:
            n = self.rng.choice([127, 128, 129, 200, 254, 255, 256, 300, 1000, 32767, 32768, 40000, 65535, 65536, 70000])
            s = self.text(min(self.rng.choice([n, n, self.rng.randint(7, 130), self.rng.randint(130, 9000)]), mx))
        b = s.encode("utf-8")
        assert len(b) <= mx
        self.budget -= len(b) // 4
        return b

    def val(self, t):
        k = self.p.kind(t)
        if k == "num":
            if t == "bool":
                return self.rng.randint(0, 1)
            if t == "float":
                return self.float_bits(32)
            if t == "double":
                return self.float_bits(64)
            return self.integer(t)
        if k == "string":
            return self.string()
        if k == "enum":
            return self.rng.randrange(len(self.p.enum(t).values))
        return self.struct(self.p.struct(t))

    def list(self, t):
        mx = self.maxlen(self.p.lt)
        r = self.rng.random()
        if r < 0.25 or self.budget <= 0:
            n = 0
        elif r < 1 - self.big or not self.p.is_simple_type(t) and t != "string":
            n = self.rng.choice([1, 1, 2, 2, 3, 4, 5])
        else:
            n = self.rng.choice([127, 128, 129, 200, 254, 255, 256, 300])
            if self.rng.random() < 0.2 and t in ("byte", "bool", "uint16"):
                n = self.rng.choice([32767, 32768, 33000, 65535, 65536, 66000])
        n = min(n, mx)
        self.budget -= n
        return [self.val(t) for _ in range(n)]

    def struct(self, s):
        return [self.list(m.type) if m.is_list else self.val(m.type) for m in s.members]

    def message(self, mi=None):
        self.budget = self.budget0
        if mi is None:
            mi = self.rng.randrange(len(self.p.messages))
        return mi, self.struct(self.p.messages[mi])
