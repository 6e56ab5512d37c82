"""Which protocol files are valid, decided from the documentation alone (and the cases its test suite lists as bad).

verdict(doc) -> ("accept"|"reject"|"free", why).  "free": the documentation does not say."""
import string, tomllib

BASE = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"]
RESERVED = BASE + ["string", "list"]
SIZES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]


def spaces(s):
    return any(c in s for c in string.whitespace)


def odd_space(s):
    return any(c.isspace() and c not in string.whitespace for c in s)


class V:
    def __init__(self):
        self.rej, self.free = [], []


def name_rules(v, n, what):
    if not isinstance(n, str):
        v.rej.append("%s name is not a string" % what)
        return False
    if n == "":
        v.rej.append("empty %s name" % what)
    if spaces(n):
        v.rej.append("whitespace in %s name" % what)
    elif odd_space(n) or "[" in n or "]" in n:
        v.free.append("unusual %s name" % what)
    if n in RESERVED:
        v.rej.append("%s named like a base type" % what)
    elif n.isascii() and n.lower() in RESERVED:
        # the documentation says "the same as"; String, Float, Double are types of the languages generated for, so taking them would give code that is not valid
        v.rej.append("%s named like a base type but for case" % what)
    elif n.casefold() in RESERVED:
        v.free.append("unusual %s name" % what)
    return True


def verdict(doc):
    v = V()
    meta = doc.get("meta", {})
    for k in doc:
        if k not in ("meta", "structs", "messages", "enums"):
            v.free.append("unknown top-level key")
    if not isinstance(meta, dict):
        v.free.append("meta is not a table")
        meta = {}
    ns = meta.get("namespace")
    if "namespace" in meta:
        if not isinstance(ns, str):
            v.free.append("namespace is not a string")
        elif spaces(ns):
            v.rej.append("whitespace in namespace")
        elif ns == "" or odd_space(ns):
            v.free.append("unusual namespace")
    for k in ("list_size_type", "string_size_type"):
        if k in meta and (not isinstance(meta[k], str) or meta[k] not in SIZES):
            v.rej.append(k + " is not an integral type")
    for k in meta:
        if k not in ("namespace", "list_size_type", "string_size_type"):
            v.free.append("unknown key in meta")
    tabs = {}
    for k in ("structs", "messages", "enums"):
        t = doc.get(k, [])
        if not isinstance(t, list):
            v.free.append(k + " is not an array")
            t = []
        good = [x for x in t if isinstance(x, dict)]
        if len(good) != len(t):
            v.rej.append("something other than a table in " + k)
        tabs[k] = good
    names = []
    for k, what in (("structs", "struct"), ("messages", "message"), ("enums", "enum")):
        for s in tabs[k]:
            if "_name" not in s:
                v.rej.append(what + " without _name")
            elif name_rules(v, s["_name"], what):
                names.append(s["_name"])
    if len(set(names)) != len(names):
        v.rej.append("name not unique")
    snames = [s["_name"] for s in tabs["structs"] if isinstance(s.get("_name"), str)]
    mnames = [s["_name"] for s in tabs["messages"] if isinstance(s.get("_name"), str)]
    enames = [s["_name"] for s in tabs["enums"] if isinstance(s.get("_name"), str)]
    ok_types = set(BASE) | {"string"} | set(snames) | set(enames)
    edges = {}
    for k in ("structs", "messages"):
        for s in tabs[k]:
            me = s.get("_name") if isinstance(s.get("_name"), str) else None
            for m, t in s.items():
                if m.startswith("_"):
                    if m != "_name":
                        v.free.append("member starting with _")
                    continue
                if m == "":
                    v.free.append("empty member name")
                if spaces(m):
                    v.rej.append("whitespace in member name")
                elif odd_space(m):
                    v.free.append("unusual member name")
                if m in RESERVED:
                    v.rej.append("member named like a base type")
                if not isinstance(t, str):
                    v.rej.append("member type is not a string")
                    continue
                if t in ok_types:
                    inner = t
                elif t[:1] == "[" and t[-1:] == "]" and len(t) > 1:
                    inner = t[1:-1]
                    if inner[:1] == "[" and inner[-1:] == "]":
                        v.rej.append("list of lists")
                        continue
                else:
                    inner = t
                if inner not in ok_types:
                    v.rej.append("message in a %s" % k[:-1] if inner in mnames else "unknown type")
                if me is not None and inner in snames:
                    edges.setdefault((k, me), set()).add(inner)
    # circular references
    state = {}

    def visit(n):
        stack = [(n, iter(sorted(edges.get(("structs", n), ()))))]
        state[n] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                if state.get(y) == 1:
                    return True
                if y not in state:
                    state[y] = 1
                    stack.append((y, iter(sorted(edges.get(("structs", y), ())))))
                    break
            else:
                state[x] = 2
                stack.pop()
        return False
    if any(visit(n) for n in snames if n not in state):
        v.rej.append("circular reference")
    # enums
    for e in tabs["enums"]:
        vals = e.get("_values")
        for k in e:
            if k not in ("_name", "_values"):
                v.free.append("unknown key in enum")
        if "_values" not in e or not isinstance(vals, list) or not vals:
            v.rej.append("enum without a list of values")
            continue
        pairs = []
        if all(isinstance(x, str) for x in vals):
            pairs = [(x, i) for i, x in enumerate(vals)]
        elif all(isinstance(x, dict) for x in vals):
            for x in vals:
                if not isinstance(x.get("_name"), str) or type(x.get("_value")) is not int:
                    v.rej.append("enum value without string _name or integer _value")
                else:
                    pairs.append((x["_name"], x["_value"]))
                if set(x) - {"_name", "_value"}:
                    v.free.append("unknown key in enum value")
        else:
            v.rej.append("enum values neither all strings nor all tables")
            continue
        if len({n for n, _ in pairs}) != len(pairs):
            v.rej.append("enum value name not unique")
        if len({x for _, x in pairs}) != len(pairs):
            v.rej.append("enum number not unique")
        for n, x in pairs:
            if n in snames or n in mnames:
                v.rej.append("enum value named like a struct or message")
            if spaces(n):
                v.rej.append("whitespace in enum value name")
            elif n == "" or odd_space(n):
                v.free.append("unusual enum value name")
            if not -2**31 <= x <= 2**31 - 1:
                v.rej.append("enum number beyond int32")
    if len(tabs["messages"]) > 255:
        v.rej.append("more than 255 messages")
    if v.rej:
        return "reject", v.rej[0]
    if v.free:
        return "free", v.free[0]
    return "accept", ""


def verdict_text(raw):
    """of the bytes of a protocol file"""
    try:
        s = raw.decode("utf-8")
    except UnicodeDecodeError:
        return "reject", "not UTF-8"
    if s.startswith("\ufeff"):
        return "free", "byte order mark"
    if "\r" in s.replace("\r\n", ""):
        return "free", "bare carriage return"
    try:
        doc = tomllib.loads(s)
    except tomllib.TOMLDecodeError:
        return "reject", "not TOML"
    except RecursionError:
        return "free", "nested too deeply for the TOML reader"
    except ValueError:
        return "free", "number too long for the TOML reader"
    return verdict(doc)


# ---------------------------------------------------------------- writing TOML
def q(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u%04x" % ord(c)
        else:
            out += c
    return out + '"'


def key(s):
    return s if s and all(c.isascii() and (c.isalnum() or c in "_-") for c in s) else q(s)


def val(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, str):
        return q(x)
    if isinstance(x, list):
        return "[" + ", ".join(val(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{ " + ", ".join(key(k) + " = " + val(y) for k, y in x.items()) + " }"
    raise TypeError(x)


def dump(doc):
    """TOML text of a document; scalars first"""
    head, rest = [], []
    for k, x in doc.items():
        if isinstance(x, dict):
            rest.append("[%s]" % key(k))
            rest += [key(a) + " = " + val(b) for a, b in x.items()] + [""]
        elif isinstance(x, list) and x and all(isinstance(y, dict) for y in x):
            for y in x:
                rest.append("[[%s]]" % key(k))
                rest += [key(a) + " = " + val(b) for a, b in y.items()] + [""]
        else:
            head.append(key(k) + " = " + val(x))
    return "\n".join(head + [""] + rest) + "\n"


def doc_of(p):
    """document of a model protocol"""
    d = {}
    meta = {}
    if p.ns is not None:
        meta["namespace"] = p.ns
    if p.explicit_sizes or p.lt != "uint32":
        meta["list_size_type"] = p.lt
    if p.explicit_sizes or p.st != "uint32":
        meta["string_size_type"] = p.st
    if meta:
        d["meta"] = meta
    for k, l in (("structs", p.structs), ("messages", p.messages)):
        if l:
            d[k] = [dict([("_name", s.name)] + [(m.name, "[%s]" % m.type if m.is_list else m.type) for m in s.members]) for s in l]
    if p.enums:
        d["enums"] = [{"_name": e.name, "_values": [{"_name": n, "_value": x} for n, x in e.values] if e.table else [n for n, _ in e.values]} for e in p.enums]
    return d
