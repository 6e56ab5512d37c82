"""The checks that judge the generator's own behaviour: C10-C13."""
from __future__ import annotations
import copy, glob, json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .. import env, gen, model, ops, rules
from ..batch import Batch, WIRE, HarnessError, generate
from ..engine import Check, Violation, proto_json
from ..gen import LANGS
from ..lang import BY_NAME
from ..model import SIZE_TYPES, SIZE, ValGen, Proto, StructDef, EnumDef, Mem, full_proto, gen_proto, length_names
from ..pool import Pool
from .wire import protocols, values, DOMAIN, F, many_messages, some, offsets

OTHER_LANGS = ["swift", "assemblyscript"]

# ------------------------------------------------------------------------------------------------ C10
WS = [" ", "\t", "\n", "\r", "\x0b", "\x0c"]
BAD_TYPES = ["", "[", "]", "[]", "[[]]", "[[float]]", "[[Color]]", "floats", "int", "int8", "uint8", "char", "Float", "FLOAT", " float", "float ", "[ float ]", "[float", "float]",
             "list", "[list]", "float[]", "string[]", "double,", "None", "object", "[[[byte]]]", "bool?", "Missing", "[Missing]", "meta", "float float"]
BAD_SIZES = ["float", "double", "bool", "string", "list", "uint8", "int8", "int", "", "UINT16", "uint16 ", "[uint16]", 4, True, 1.5, [], ["uint16"], "size_t", "uint128"]


def anystruct(rng, d):
    c = [(k, i) for k in ("structs", "messages") for i in range(len(d.get(k, [])))]
    return d[(c := rng.choice(c))[0]][c[1]] if c else None


def members(s):
    return [m for m in s if not m.startswith("_")]


def rebuild(s, pairs):
    s.clear()
    for k, v in pairs:
        s[k] = v


def rename_key(s, old, new):
    rebuild(s, [(new if k == old else k, v) for k, v in list(s.items())])


def m_space_in_name(rng, d):
    k = rng.choice(["structs", "messages", "enums"])
    if d.get(k):
        s = rng.choice(d[k])
        n = s.get("_name")
        if isinstance(n, str):
            i = rng.randint(0, len(n))
            s["_name"] = n[:i] + rng.choice(WS) + n[i:]


def m_space_in_member(rng, d):
    s = anystruct(rng, d)
    if s and members(s):
        m = rng.choice(members(s))
        i = rng.randint(0, len(m))
        rename_key(s, m, m[:i] + rng.choice(WS) + m[i:])


def m_space_in_value(rng, d):
    e = rng.choice([e for e in d.get("enums") or [] if isinstance(e, dict) and isinstance(e.get("_values"), list) and e["_values"]] or [None])
    if e:
        i = rng.randrange(len(e["_values"]))
        x = e["_values"][i]
        n = x.get("_name") if isinstance(x, dict) else x
        if isinstance(n, str):
            j = rng.randint(0, len(n))
            n = n[:j] + rng.choice(WS) + n[j:]
            e["_values"][i] = dict(x, _name=n) if isinstance(x, dict) else n


def m_space_in_ns(rng, d):
    n = d.setdefault("meta", {}).get("namespace", "App")
    i = rng.randint(0, len(n))
    d["meta"]["namespace"] = n[:i] + rng.choice(WS) + n[i:]


def m_bad_type(rng, d):
    s = anystruct(rng, d)
    if s:
        t = rng.choice(BAD_TYPES + [m.get("_name") for m in d.get("messages", []) if isinstance(m.get("_name"), str)] * 3
                       + ["[%s]" % m.get("_name") for m in d.get("messages", []) if isinstance(m.get("_name"), str)])
        if members(s) and rng.random() < 0.7:
            s[rng.choice(members(s))] = t
        else:
            s["extra"] = t


def m_nonstring_type(rng, d):
    s = anystruct(rng, d)
    if s:
        s["extra"] = rng.choice([5, 1.5, True, ["float"], [], {"a": "b"}, {}, -1])


def m_no_name(rng, d):
    k = rng.choice(["structs", "messages", "enums"])
    if d.get(k):
        rng.choice(d[k]).pop("_name", None)


def m_odd_name(rng, d):
    k = rng.choice(["structs", "messages", "enums"])
    if d.get(k):
        rng.choice(d[k])["_name"] = rng.choice([5, True, [], {}, 1.5, "", "", ["a"]])


def m_reserved(rng, d):
    k = rng.choice(["structs", "messages", "enums"])
    if d.get(k):
        w = rng.choice(rules.RESERVED)
        r = rng.random()
        if r < 0.25:
            w = w.capitalize()
        elif r < 0.5:
            w = "".join(rng.choice([c, c.upper()]) for c in w)
        rng.choice(d[k])["_name"] = w


def m_reserved_member(rng, d):
    s = anystruct(rng, d)
    if s:
        w = rng.choice(rules.RESERVED)
        if members(s):
            m = rng.choice(members(s))
            rename_key(s, m, w)
        else:
            s[w] = "float"


def m_duplicate(rng, d):
    ks = [k for k in ("structs", "messages", "enums") if d.get(k)]
    a, b = rng.choice(ks), rng.choice(ks)
    x, y = rng.choice(d[a]), rng.choice(d[b])
    if x is y and len(d[a]) > 1:
        y = rng.choice([z for z in d[a] if z is not x])
    if "_name" in x:
        if x is y or rng.random() < 0.3:
            y = copy.deepcopy(y)
            for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
                d[b].insert(rng.randint(0, len(d[b])), y)
        y["_name"] = x["_name"]


def m_size(rng, d):
    d.setdefault("meta", {})[rng.choice(["list_size_type", "string_size_type"])] = rng.choice(BAD_SIZES)


def m_cycle(rng, d):
    """a cycle of length 1..6 among new or existing structs, possibly through lists, entered from outside or not at all"""
    ss = d.setdefault("structs", [])
    names = [s["_name"] for s in ss if isinstance(s.get("_name"), str)]
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    ring = []
    for i in range(n):
        if names and rng.random() < 0.5:
            nm = rng.choice(names)
            if nm not in ring:
                ring.append(nm)
                continue
        nm = "Ring%d" % i
        if nm not in names:
            ss.insert(rng.randint(0, len(ss)), {"_name": nm, "first": "byte"})
        if nm not in ring:
            ring.append(nm)
    by = {s.get("_name"): s for s in ss if isinstance(s.get("_name"), str)}
    closed = rng.random() < 0.75
    for i, a in enumerate(ring):
        if i == len(ring) - 1 and not closed:
            break
        b = ring[(i + 1) % len(ring)]
        by[a]["ring%d" % rng.randint(0, 3)] = b if rng.random() < 0.6 else "[%s]" % b
    if rng.random() < 0.5:
        s = anystruct(rng, d)
        if s is not None and s not in ss:
            s["entry"] = rng.choice(ring)


def m_graph(rng, d):
    """a random graph of structs"""
    n = rng.randint(2, 12)
    nodes = [{"_name": "Node%d" % i, "weight": "uint16"} for i in range(n)]
    acyclic = rng.random() < 0.6
    order = list(range(n))
    rng.shuffle(order)
    for _ in range(rng.randint(1, 2 * n)):
        a, b = rng.randrange(n), rng.randrange(n)
        if acyclic:
            if a == b:
                continue
            if order[a] > order[b]:
                a, b = b, a
        nodes[a]["to%d" % b] = rng.choice(["Node%d", "[Node%d]", "[Node%d]"]) % b
    rng.shuffle(nodes)
    d["structs"] = d.get("structs", []) + nodes


def m_diamonds(rng, d):
    """layers of structs, every one of which mentions all of the next layer: few structs, very many paths"""
    layers, width = rng.choice([(14, 3), (20, 3), (26, 2), (12, 4)])
    nodes = []
    for i in range(layers):
        for j in range(width):
            s = {"_name": "Layer%dx%d" % (i, j), "weight": "uint16"}
            if i + 1 < layers:
                for k in range(width):
                    s["to%d" % k] = "[Layer%dx%d]" % (i + 1, k)
            nodes.append(s)
    if rng.random() < 0.5:
        nodes[-1]["back"] = rng.choice(["[Layer0x0]", "Layer%dx0" % (layers - 2), "[Layer%dx%d]" % (layers - 1, width - 1)])
    if rng.random() < 0.5:
        rng.shuffle(nodes)
    d["structs"] = d.get("structs", []) + nodes


def m_enum(rng, d):
    es = d.setdefault("enums", [])
    if not es:
        es.append({"_name": "Fresh", "_values": ["One", "Two"]})
    e = rng.choice(es)
    vals = e.get("_values")
    r = rng.randrange(16)
    if r == 0:
        e.pop("_values", None)
    elif r == 1:
        e["_values"] = rng.choice([[], 5, "One", {}, True, {"One": 1}])
    elif not isinstance(vals, list) or not vals:
        return
    elif r == 2:
        again = copy.deepcopy(rng.choice(vals))
        for _ in range(rng.choice([1, 1, 2, 3, 7])):
            vals.insert(rng.randint(0, len(vals)), again)
    elif r == 3:
        vals.insert(rng.randint(0, len(vals)), rng.choice([5, True, 1.5, ["x"], []]))
    elif r == 4:
        vals.insert(rng.randint(0, len(vals)), {"_name": "Mixed", "_value": 77} if isinstance(vals[0], str) else "Mixed")
    elif r in (5, 6, 7, 8, 9):
        if isinstance(vals[0], str):
            e["_values"] = vals = [{"_name": n, "_value": i} for i, n in enumerate(vals) if isinstance(n, str)]
        x = rng.choice(vals) if vals else {}
        if not isinstance(x, dict):
            return
        if r == 5:
            x.pop(rng.choice(["_name", "_value"]), None)
        elif r == 6:
            x["_name"] = rng.choice([5, True, 1.5, []])
        elif r == 7:
            x["_value"] = rng.choice(["1", True, False, 1.5, 1.0, [], {}, ""])
        elif r == 8:
            x["_value"] = rng.choice([2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**32, 2**63 - 1, -2**63, 2**40])
        else:
            y = rng.choice(vals)
            if isinstance(y, dict) and "_value" in y and y is not x:
                for z in [x] + rng.sample(vals, min(len(vals), rng.choice([0, 0, 1, 2, 6]))):
                    if isinstance(z, dict):
                        z["_value"] = y["_value"]
                for j in range(rng.choice([0, 0, 1, 2])):
                    vals.insert(rng.randint(0, len(vals)), {"_name": "Again%d" % j, "_value": y["_value"]})
    elif r == 10:
        ss = [s.get("_name") for k in ("structs", "messages") for s in d.get(k, []) if isinstance(s.get("_name"), str)]
        if ss:
            if rng.random() < 0.2:
                e["_values"] = vals = ["Item%d" % i for i in range(rng.choice([20, 100, 300]))]
            x = rng.choice([rng.randrange(len(vals)), len(vals) - 1])
            if isinstance(vals[x], dict):
                vals[x]["_name"] = rng.choice(ss)
            else:
                vals[x] = rng.choice(ss)
    elif r == 11:
        # same value names in two enums: allowed
        es.append({"_name": "Copy%d" % rng.randint(0, 99), "_values": copy.deepcopy(vals)})
    elif r == 12:
        e["_values"] = ["Item%d" % i for i in range(rng.choice([1, 2, 255, 256, 257, 300]))]
    elif r == 13:
        # negative, sparse, unordered
        xs = rng.sample(range(-40000, 40000), rng.randint(1, 6))
        e["_values"] = [{"_name": "Item%d" % i, "_value": x} for i, x in enumerate(xs)]
    elif r == 14:
        lo = rng.choice([-2**31, -1, 0, 2**31 - 2])
        e["_values"] = [{"_value": lo, "_name": "Lo"}, {"_name": "Hi", "_value": rng.choice([lo, lo + 1, 2**31 - 1, 2**31])}]
    else:
        e["_name"] = rng.choice(["Fresh", "Two words", "", "Kind"])


def m_many(rng, d):
    n = rng.choice([253, 254, 255, 256, 257, 300])
    have = d.setdefault("messages", [])
    del have[2:]
    for i in range(n - len(have)):
        have.insert(rng.randint(0, len(have)), {"_name": "Bulk%d" % i, "v": "byte"} if i % 3 else {"_name": "Bulk%d" % i})


def m_drop(rng, d):
    k = rng.choice(["structs", "messages", "enums", "meta"])
    if isinstance(d.get(k), list) and d[k] and rng.random() < 0.7:
        d[k].pop(rng.randrange(len(d[k])))
        if not d[k]:
            del d[k]
    else:
        d.pop(k, None)


def m_shape(rng, d):
    k = rng.choice(["structs", "messages", "enums", "meta"])
    d[k] = rng.choice([[5], ["x"], [[]], 5, "x", [{}], {}, [{"_name": "Lone"}], True])


def m_unusual(rng, d):
    """names that are not identifiers, but contain no whitespace: allowed"""
    w = rng.choice(["💩", "größe", "a-b", "a.b", "名前", "x" * 300, "9lives", "a/b", "e\u0301", "$", "%s", "{0}", "*/", "return", "class", "<T>", "#", "\\n", "'", '"'])
    r = rng.random()
    if r < 0.4:
        s = anystruct(rng, d)
        if s:
            s[w] = rng.choice(["float", "[string]", "bool"])
    elif r < 0.7:
        k = rng.choice(["structs", "messages", "enums"])
        if d.get(k):
            s = rng.choice(d[k])
            old = s.get("_name")
            s["_name"] = w
            if k != "messages" and isinstance(old, str):
                for kk in ("structs", "messages"):
                    for t in d.get(kk, []):
                        for m in members(t):
                            if t[m] == old:
                                t[m] = w
                            elif t[m] == "[%s]" % old:
                                t[m] = "[%s]" % w
    else:
        d.setdefault("meta", {})["namespace"] = w


def m_empty(rng, d):
    k = rng.choice(["structs", "messages"])
    d.setdefault(k, []).append({"_name": "Empty%d" % rng.randint(0, 99)})


def m_use(rng, d):
    """use any known type somewhere: allowed unless it closes a circle"""
    s = anystruct(rng, d)
    t = rng.choice(rules.BASE + ["string"] + [x["_name"] for k in ("structs", "enums") for x in d.get(k, []) if isinstance(x.get("_name"), str)] * 2)
    if s is not None:
        s["used%d" % rng.randint(0, 9)] = rng.choice([t, "[%s]" % t])


def m_under(rng, d):
    s = anystruct(rng, d)
    if s is not None:
        s["_comment"] = rng.choice([5, "float", "anything at all"])


MUTATIONS = [m_space_in_name, m_space_in_member, m_space_in_value, m_space_in_ns, m_bad_type, m_bad_type, m_nonstring_type, m_no_name, m_odd_name, m_reserved, m_reserved_member, m_duplicate, m_duplicate,
             m_size, m_cycle, m_cycle, m_graph, m_graph, m_enum, m_enum, m_enum, m_many, m_drop, m_shape, m_unusual, m_empty, m_use, m_use, m_under]


def small_base(rng):
    p = gen_proto(rng, ns=rng.choice([None, "App", "Game"]), max_msgs=3)
    d = rules.doc_of(p)
    if rng.random() < 0.3:
        d.pop("meta", None)
    return d


def gen_doc(rng, i):
    d = small_base(rng)
    ops_ = []
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
        m = rng.choice(MUTATIONS)
        try:
            m(rng, d)
        except (TypeError, AttributeError, KeyError, IndexError):
            pass        # an earlier change left something this one does not apply to
        ops_.append(m.__name__[2:])
    if rng.random() < 0.3:
        items = list(d.items())
        rng.shuffle(items)
        d = dict(items)
    return d, ops_


def mess(rng, raw):
    """TOML text damaged at the level of bytes"""
    b = bytearray(raw)
    for _ in range(rng.choice([1, 1, 2, 4])):
        r = rng.random()
        i = rng.randrange(len(b) + 1)
        if r < 0.4:
            b[i:i] = rng.choice([b'"', b"[", b"]", b"=", b"\n", b"#", b" ", b"'", b"_", b"\xff", b"\xe9", b"{", b"}", b",", b"0", b"\\", b"\x00", b"\xf0\x9f\x92\xa9"])
        elif r < 0.7 and b:
            i = min(i, len(b) - 1)
            del b[i:i + rng.choice([1, 1, 2, 10])]
        elif r < 0.85:
            del b[i:]
        else:
            lines = bytes(b).split(b"\n")
            j, k = rng.randrange(len(lines)), rng.randrange(len(lines))
            lines[j], lines[k] = lines[k], lines[j]
            b = bytearray(b"\n".join(lines))
    return bytes(b)


SENTINEL = "do not touch\n" * 3


def judge_cli(pool, raw, lang, mode, extra=(), expect=None):
    """run the command on a protocol file -> reason or None.  mode: stdout | new | old (an output file that exists already)"""
    v, why = rules.verdict_text(raw)
    if expect:
        v, why = expect, "the options"
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        fn = os.path.join(d, "p.toml")
        with open(fn, "wb") as f:
            f.write(raw)
        out = os.path.join(d, "result.txt")
        args = ["-l", lang, "-p", fn] + list(extra)
        if mode != "stdout":
            args += ["-o", out]
        if mode == "old":
            with open(out, "w") as f:
                f.write(SENTINEL)
        rc, so, se = pool.run(args)
        if rc is None:
            return "the generator (%s) did not finish within 20 s of CPU time on a file of %d bytes" % (lang, len(raw))
        text = open(out, "rb").read() if os.path.exists(out) else None
        if rc < 0:
            return "the generator was killed by signal %d" % -rc
        if rc == 0:
            if v == "reject":
                return "accepted (status 0) although invalid: %s" % why
            if mode == "stdout":
                if len(so) < 40:
                    return "status 0 but no code on standard output"
            else:
                if so.strip():
                    return "status 0 with --output, but printed %r" % so[:100]
                if text is None or text == SENTINEL.encode() or len(text) < 40:
                    return "status 0 but no code in the output file"
        else:
            if v == "accept":
                return "rejected (status %d) although valid: %s" % (rc, se.strip()[-300:])
            if so.strip():
                return "failed (status %d), but printed %r to standard output" % (rc, so[:200])
            if not se.strip():
                return "failed (status %d) without an error message" % rc
            if mode == "old" and text != SENTINEL.encode():
                return "failed (status %d), but changed the existing output file" % rc
            if mode == "new" and text is not None:
                return "failed (status %d), but created the output file" % rc
        return None
    finally:
        shutil.rmtree(d, True)


def shrink_doc(pool, doc, lang, mode, extra, expect, reason, deadline=60):
    """remove what is not needed for the disagreement"""
    import time
    end = time.monotonic() + deadline
    word = reason.split(" ")[0]

    def bad(d):
        r = judge_cli(pool, rules.dump(d).encode(), lang, mode, extra, expect)
        return r if r and r.split(" ")[0] == word else None

    def smaller(d):
        for k in list(d):
            n = copy.deepcopy(d)
            del n[k]
            yield n
        for k, x in d.items():
            if isinstance(x, list):
                if len(x) > 8:
                    for lo in range(0, len(x), max(1, len(x) // 4)):
                        n = copy.deepcopy(d)
                        del n[k][lo:lo + max(1, len(x) // 4)]
                        yield n
                for i, y in enumerate(x):
                    n = copy.deepcopy(d)
                    del n[k][i]
                    yield n
                    if isinstance(y, dict):
                        for kk in y:
                            n = copy.deepcopy(d)
                            del n[k][i][kk]
                            yield n
                        if isinstance(y.get("_values"), list):
                            for j in range(len(y["_values"])):
                                n = copy.deepcopy(d)
                                del n[k][i]["_values"][j]
                                yield n
            elif isinstance(x, dict):
                for kk in x:
                    n = copy.deepcopy(d)
                    del n[k][kk]
                    yield n
    again = True
    while again and time.monotonic() < end:
        again = False
        for n in smaller(doc):
            if time.monotonic() > end:
                break
            r = bad(n)
            if r:
                doc, reason, again = n, r, True
                break
    return doc, reason


def replay_c10(x):
    pool = Pool(1)
    try:
        return judge_cli(pool, x["toml"].encode("utf-8", "surrogateescape"), x["lang"], x["mode"], x.get("extra", ()), x.get("expect"))
    finally:
        pool.close()


MISUSE = {"no protocol": ["-l", "c"], "no language": ["-p", "GOOD"], "unknown language": ["-l", "cobol", "-p", "GOOD"], "missing file": ["-l", "c", "-p", "NONE"], "a directory": ["-l", "c", "-p", "DIR"],
          "unknown option": ["-l", "c", "-p", "GOOD", "--nonsense"], "a protocol given as a word": ["GOOD"], "an option without its value": ["-p", "GOOD", "-l"], "nothing": []}
GOOD = '[[messages]]\n_name = "Ping"\nx = "float"\n'


def judge_misuse(pool, what, output):
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        words = {"GOOD": os.path.join(d, "good.toml"), "NONE": os.path.join(d, "none.toml"), "DIR": d}
        open(words["GOOD"], "w").write(GOOD)
        target = os.path.join(d, "t.txt")
        open(target, "w").write(SENTINEL)
        rc, so, se = pool.run((["-o", target] if output else []) + [words.get(w, w) for w in MISUSE[what]])
        if rc == 0 or rc is None:
            return "status %s" % rc
        if so.strip():
            return "printed %r" % so[:80]
        if not se.strip():
            return "no error message"
        if open(target).read() != SENTINEL:
            return "changed the output file"
        return None
    finally:
        shutil.rmtree(d, True)


def replay_misuse(x):
    pool = Pool(1)
    try:
        return judge_misuse(pool, x["what"], x["output"])
    finally:
        pool.close()


def c10():
    ck = Check("C10", "exploration", "Documents made from a generated valid protocol by zero to three changes drawn from 28 kinds (names, types, enums, sizes, circular and acyclic graphs, counts around 255, "
               "odd shapes, unusual but allowed names) or by damage to the TOML text; an independent reading of the documented rules says accept, reject or undecided. One evaluation = one run of the command "
               "in one of the eight languages, writing to standard output, a new file or an existing file. Non-trivial: distinct document the rules decide (accept or reject).",
               ["where the documentation does not decide (unknown keys, non-ASCII white space, names beginning with _), only termination and a clean failure are required",
                "the command's main() runs in a forked child of a process that has imported it; termination is judged by 20 s of CPU time"])
    pool = Pool(8)
    n = 2600 if not ck.thorough else 40000
    jobs = []
    rng = ck.rng(0)
    for i in range(n):
        d, how = gen_doc(rng, i)
        raw = rules.dump(d).encode()
        doc = d
        if rng.random() < 0.12:
            raw = mess(rng, raw)
            doc = None
            how = how + ["bytes"]
        jobs.append((raw, doc, how, rng.choice(LANGS), rng.choice(["stdout", "new", "old", "old"]), (), None))
    for i in range(6 if not ck.thorough else 40):
        d = small_base(rng)
        m_diamonds(rng, d)
        # Go, Rust and Zig write out the measurement of listed structs in place: the text they generate for these grows with the number of paths, which no rule forbids
        ok = rules.verdict_text(rules.dump(d).encode())[0] != "reject"
        jobs.append((rules.dump(d).encode(), d, ["diamonds"], rng.choice([l for l in LANGS if not ok or l not in ("go", "rust", "zig")]), rng.choice(["stdout", "old"]), (), None))
    for l in LANGS:                                  # acceptance in every language
        for i in range(10 if not ck.thorough else 60):
            d = small_base(rng)
            if i % 3 == 1:
                m_many(rng, d)
            elif i % 3 == 2:
                m_graph(rng, d)
            jobs.append((rules.dump(d).encode(), d, ["every language"], l, rng.choice(["stdout", "new", "old"]), (), None))
    for i in range(40):                              # --namespace is subject to the same rules
        d = small_base(rng)
        ns = rng.choice(["Other", "a_b", "ns2"])
        ok = rng.random() < 0.4
        if not ok:
            j = rng.randint(0, len(ns))
            ns = ns[:j] + rng.choice(WS[:2]) + ns[j:]
        jobs.append((rules.dump(d).encode(), d, ["--namespace"], rng.choice(LANGS), rng.choice(["stdout", "new", "old"]), ("--namespace", ns), "accept" if ok else "reject"))

    def one(j):
        raw, doc, how, lang, mode, extra, expect = j
        return judge_cli(pool, raw, lang, mode, extra, expect)
    res = pool.map(one, jobs)
    for (raw, doc, how, lang, mode, extra, expect), why in zip(jobs, res):
        v, reason = rules.verdict_text(raw)
        if expect:
            v, reason = expect, "--namespace"
        ck.case_done(raw + repr(extra).encode(), v != "free")
        ck.count("rules say " + v)
        if v == "reject":
            ck.count("rejected for: " + reason)
        if why:
            ck.violations.append(Violation(lang, "doc", None, None, "", why, "doc", {"toml": raw.decode("utf-8", "surrogateescape"), "lang": lang, "mode": mode, "extra": list(extra), "expect": expect,
                                                                                     "_doc": doc, "changes": how}))
        elif len(raw) < 700:
            ck.sample({"toml": raw.decode("utf-8", "replace"), "rules": v, "why": reason, "language": lang, "output": mode}, 6)
    # command line misuse and unreadable protocols
    for what in MISUSE:
        for o in (False, True):
            ck.case_done("misuse " + what + str(o), True)
            why = judge_misuse(pool, what, o)
            if why:
                ck.violations.append(Violation("cli", "doc", None, None, "", "command line misuse (%s): %s" % (what, why), "misuse", {"what": what, "output": o}))
    ck.violations = ck.violations[:60]
    done = set()
    keep = []
    for v in sorted(ck.violations, key=lambda v: len(v.extra.get("toml", ""))):
        k = re.sub(r"[0-9']+", "", v.reason)[:60]
        if k in done:
            continue
        done.add(k)
        doc = v.extra.pop("_doc", None)
        if doc is not None and len(keep) < 4:
            doc, v.reason = shrink_doc(pool, doc, v.lang, v.extra["mode"], v.extra["extra"], v.extra["expect"], v.reason)
            v.extra["toml"] = rules.dump(doc)
        keep.append(v)
    for v in ck.violations:
        v.extra.pop("_doc", None)
    ck.violations = keep[:6]
    pool.close()
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C12
def respell(rng, p):
    """the same protocol in other TOML notation, comments and spacing"""
    def sp():
        return " " * rng.choice([0, 1, 1, 3]) + ("\t" if rng.random() < 0.1 else "")

    def s(x):
        r = rng.random()
        if r < 0.3:
            return "'%s'" % x
        if r < 0.4:
            return '"""%s"""' % x
        if r < 0.5:
            return "'''%s'''" % x
        if r < 0.65 and x:
            i = rng.randrange(len(x))
            return '"%s\\u%04x%s"' % (x[:i], ord(x[i]), x[i + 1:])
        return '"%s"' % x

    def k(x):
        return x if rng.random() < 0.7 else rng.choice(['"%s"', "'%s'"]) % x

    def n(x):
        r = rng.random()
        if x >= 0 and r < 0.3:
            return rng.choice(["0x%x", "0x%X", "0o%o"]) % x
        if x >= 0 and r < 0.4:
            return "+%d" % x
        if abs(x) >= 1000 and r < 0.7:
            return "{:_}".format(x)
        return str(x)

    def com():
        return rng.choice(["", "", "", "  # a comment", "#x = 5", " # [[messages]]"])

    def nl():
        return "\n" * rng.choice([1, 1, 1, 2]) + ("# note: /* */ \"\n" if rng.random() < 0.1 else "")

    secs = []
    meta = []
    if p.ns is not None:
        meta.append(("namespace", s(p.ns)))
    if p.explicit_sizes or p.lt != "uint32":
        meta.append(("list_size_type", s(p.lt)))
    if p.explicit_sizes or p.st != "uint32":
        meta.append(("string_size_type", s(p.st)))
    if not p.explicit_sizes or rng.random() < 0.5:
        pass
    rng.shuffle(meta)
    head = ""
    if meta:
        r = rng.random()
        if r < 0.2:
            head = "meta%s=%s{ %s }%s\n" % (sp(), sp(), ", ".join(k(a) + " = " + b for a, b in meta), com())
        elif r < 0.4:
            head = "".join("meta.%s%s=%s%s%s\n" % (k(a), sp(), sp(), b, com()) for a, b in meta)
        else:
            secs.append(["[meta]" + com() + nl() + "".join(sp() + k(a) + sp() + "=" + sp() + b + com() + nl() for a, b in meta)])

    def struct(kind, st):
        ms = [(m.name, "[%s]" % m.type if m.is_list else m.type) for m in st.members]
        rows = [k(a) + sp() + "=" + sp() + s(b) + com() + nl() for a, b in ms]
        rows.insert(rng.randint(0, len(rows)), k("_name") + " = " + s(st.name) + com() + nl())
        return rng.choice(["[[%s]]", "[[ %s ]]", "  [[%s]]"]) % kind + com() + nl() + "".join(sp() + r for r in rows)

    def inline(st):
        ms = [("_name", s(st.name))] + [(k(m.name), s("[%s]" % m.type if m.is_list else m.type)) for m in st.members]
        return "{ " + ", ".join(a + " = " + b for a, b in ms) + " }"
    for kind, l in (("structs", p.structs), ("messages", p.messages)):
        if not l:
            continue
        if rng.random() < 0.2:
            head += "%s = [%s%s%s]\n" % (kind, nl(), ("," + nl()).join(inline(x) for x in l), rng.choice(["", ",", "\n"]))
        else:
            secs.append([struct(kind, x) for x in l])
    if p.enums:
        es = []
        for e in p.enums:
            if e.table:
                vs = "[" + nl() + ("," + nl()).join("{ " + ", ".join(rng.sample(["_name = " + s(a), "_value = " + n(b)], 2)) + " }" for a, b in e.values) + rng.choice(["", ",", "\n"]) + "]"
            else:
                vs = "[" + rng.choice(["", "\n  "]) + ("," + rng.choice([" ", "\n", " # c\n"])).join(s(a) for a, _ in e.values) + rng.choice(["", ",", "\n"]) + "]"
            rows = [k("_name") + " = " + s(e.name) + com() + nl(), k("_values") + " = " + vs + nl()]
            rng.shuffle(rows)
            es.append("[[enums]]" + com() + nl() + "".join(rows))
        secs.append(es)
    # interleave the kinds, keeping the order inside each
    out = []
    secs = [x for x in secs if x]
    while secs:
        i = rng.randrange(len(secs))
        out.append(secs[i].pop(0))
        secs = [x for x in secs if x]
    text = head + nl() + nl().join(out)
    if rng.random() < 0.3:
        text = text.replace("\n", "\r\n")
    return text


def option_sets(rng, lang):
    o = [[], ["--indent", rng.choice(["\t", "  ", " ", "      "])], ["--embed-protocol"], ["--namespace", "Renamed"]]
    if lang == "go":
        o.append(["--go-no-rename"])
    if lang == "rust":
        o.append(["--rust-no-rename"])
    if lang == "typescript":
        o.append(["--typescript-use-namespace"])
    o.append(sum(rng.sample(o[1:], min(len(o) - 1, rng.choice([2, 3]))), []))
    return o


def first_diff(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r against %r" % (i + 1, x[:160], y[:160])
    return "one has %d lines, the other %d" % (len(la), len(lb))


def two_runs(a, b):
    """run descriptions {toml, lang, opts, how} -> texts or an explanation"""
    res = []
    for x in (a, b):
        res.append(gen_how(**x))
    (ca, ea), (cb, eb) = res
    if ea or eb:
        return "one of the runs failed: %s" % (ea or eb)
    if ca != cb:
        return "the generated text differs: " + first_diff(ca, cb)
    return None


def gen_how(toml, lang, opts, how):
    """how: {"seed": hash seed, "cwd": other|same, "out": stdout|new|old, "path": abs|rel, "env": {...}} -> (code, error)"""
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        sub = os.path.join(d, how.get("dir", "work"))
        os.makedirs(sub)
        fn = os.path.join(sub, how.get("file", "p.toml"))
        with open(fn, "wb") as f:
            f.write(toml.encode())
        cwd = sub if how.get("path") == "rel" else d
        args = ["-l", lang, "-p", how.get("file", "p.toml") if how.get("path") == "rel" else fn] + list(opts)
        out = os.path.join(d, "o.txt")
        if how["out"] != "stdout":
            args += ["-o", out]
        if how["out"] == "old":
            with open(out, "w") as f:
                f.write("older and longer content\n" * 20000)
        form = how.get("form")                       # other spellings of the same arguments
        if form:
            short = {"-l": "--lang", "-p": "--protocol", "-o": "--output"}
            own, rest = args[:4], args[4:]
            own = own if form == 1 else [short.get(x, x) for x in own] if form == 2 else ["%s=%s" % (short[x], y) for x, y in zip(own[::2], own[1::2])] if form == 3 else [own[2] + own[3], own[0] + own[1]]
            args = rest + own if form % 2 else own[2:] + rest + own[:2] if len(own) == 4 else own[1:] + rest + own[:1]
            args = ["-n" if x == "--namespace" and form in (1, 4) else x for x in args]
        e = dict(env.ENV, PYTHONPATH=env.REPO, PYTHONHASHSEED=str(how["seed"]))
        e.update(how.get("env", {}))
        r = subprocess.run([gen.PY, "-m", "beschi"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if r.returncode:
            return None, "status %d: %s" % (r.returncode, r.stderr.decode("utf-8", "replace")[-300:])
        if how["out"] == "stdout":
            t = r.stdout.decode("utf-8")
            return (t[:-1] if t.endswith("\n") else t), None
        return open(out, encoding="utf-8", newline="").read(), None
    finally:
        shutil.rmtree(d, True)


def c12():
    ck = Check("C12", "exploration", "Generated protocols; for each of eight languages and several option sets a reference run is compared, text against text, with runs that differ in hash seed, directory, file name, "
               "relative path, time zone, locale, standard output or a new or existing longer output file, and with respellings of the protocol (interleaved tables, comments, spacing, quoting, escapes, "
               "number notations, inline and dotted tables, CRLF). Non-trivial: distinct (protocol text, language, options, variation).", DOMAIN[:1])
    rng = ck.rng(0)
    n = 8 if not ck.thorough else 60
    protos = list(protocols(rng, n, full=2).values())
    for p in protos[::2]:
        p.explicit_sizes = rng.random() < 0.5
    jobs = []
    for i, p in enumerate(protos):
        text = rng.choice(["", "# größe – 日本 😀\n"]) + p.to_toml()
        for l in LANGS:
            for o in some(rng, option_sets(rng, l), 2):
                a = {"toml": text, "lang": l, "opts": o, "how": {"seed": 0, "out": "stdout"}}
                v = [("another hash seed, directory and name, time zone", dict(a, how={"seed": rng.randint(1, 2**32 - 1), "out": "stdout", "dir": "el se", "file": "other name.toml", "env": {"TZ": "Asia/Tokyo", "USER": "x"}})),
                     ("a new output file", dict(a, how={"seed": rng.randint(1, 9999), "out": "new", "path": "rel"})),
                     ("an existing output file in an ASCII locale", dict(a, how={"seed": 3, "out": "old", "env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}}))]
                if "--embed-protocol" not in o:
                    v.append(("another notation", dict(a, toml=respell(rng, p), how={"seed": rng.randint(1, 9999), "out": rng.choice(["stdout", "new"])})))
                    v.append(("another notation", dict(a, toml=respell(rng, p))))
                jobs.append((p, a, v))

    def one(j):
        p, a, vs = j
        base, err = gen_how(**a)
        out = []
        for what, b in vs:
            if err:
                out.append((what, b, "generation failed: " + err))
                continue
            got, e2 = gen_how(**b)
            if e2:
                out.append((what, b, "%s: %s" % (what, e2)))
            elif got != base:
                out.append((what, b, "with %s the generated %s code differs: %s" % (what, a["lang"], first_diff(base, got))))
            else:
                out.append((what, b, None))
        return out
    with ThreadPoolExecutor(8) as ex:
        for (p, a, vs), out in zip(jobs, ex.map(one, jobs)):
            for what, b, why in out:
                ck.case_done(json.dumps(b, sort_keys=True), True)
                ck.count("compared with " + what)
                if why:
                    ck.violations.append(Violation(a["lang"], "text", None, None, "", why, "text", {"a": a, "b": b}))
    if jobs:
        b = jobs[0][2][-1][1]
        ck.sample({"language": b["lang"], "options": b["opts"], "respelled": b["toml"][:1500]})
    ck.violations.sort(key=lambda v: len(v.extra["a"]["toml"]))
    ck.violations = ck.violations[:6]
    return ck.finish()


def replay_c12(x):
    return two_runs(x["a"], x["b"])


# ------------------------------------------------------------------------------------------------ C11
C_WARN = ["-pedantic-errors", "-Wall", "-Wextra", "-Werror", "-O0", "-g", "-Wno-float-equal", "-Wno-padded", "-Wno-unused-parameter"]


def sh(cmd, cwd, timeout=300, extra_env=None):
    e = dict(env.ENV)
    e.update(extra_env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise HarnessError("compiler timed out: %s" % cmd[:6])
    if r.returncode < 0:
        raise HarnessError("compiler killed: %s" % cmd[:6])
    return r.returncode, r.stdout


def errors(out, n=6):
    l = [x for x in out.splitlines() if re.search(r"\b(error|warning|undefined|multiple definition)\b", x)]
    return "\n".join((l or out.splitlines())[:n])[:1200]


def strict_c(d, protos, code):
    bad = {}

    def one(pid):
        p = protos[pid]
        U = (p.ns or "beschi").upper()
        with open(os.path.join(d, pid + ".h"), "w") as f:
            f.write(code[pid])
        with open(os.path.join(d, pid + ".c"), "w") as f:
            f.write("#define %s_IMPLEMENTATION\n#include \"%s.h\"\n#undef %s_IMPLEMENTATION\n#include \"%s.h\"\n" % (U, pid, U, pid))
        with open(os.path.join(d, "u_" + pid + ".c"), "w") as f:
            f.write('#include "%s.h"\n' % pid)
        for std, cc, flags in (("C99", "gcc-13", ["-std=c99", "-Wno-declaration-after-statement"]), ("C++20", "g++-13", ["-x", "c++", "-std=c++20"])):
            o = "%s.%s.o" % (pid, std[1:])
            rc, out = sh([cc] + C_WARN + flags + ["-c", pid + ".c", "-o", o], d)
            if rc:
                return pid, "%s: %s" % (std, errors(out))
        rc, out = sh(["gcc-13"] + C_WARN + ["-std=c99", "-c", "u_" + pid + ".c", "-o", "u_" + pid + ".o"], d)
        if rc:
            return pid, "header without implementation: " + errors(out)
        return pid, None
    with ThreadPoolExecutor(8) as ex:
        for pid, why in ex.map(one, protos):
            if why:
                bad[pid] = why
    good = [p for p in protos if p not in bad]
    # several protocols in one program, and one header included in two files
    with open(os.path.join(d, "main.c"), "w") as f:
        f.write("".join('#include "%s.h"\n' % p for p in good) + "int main(void) { return 0; }\n")
    rc, out = sh(["gcc-13"] + C_WARN + ["-std=c99", "main.c"] + [x for p in good for x in (p + ".99.o", "u_" + p + ".o")] + ["-o", "prog"], d)
    if rc:
        bad[good[0]] = "all headers in one program: " + errors(out)
    return bad


def strict_rust(d, protos, code):
    bad = {}
    todo = list(protos)
    for pid in todo:
        open(os.path.join(d, pid + ".rs"), "w").write(code[pid])
    for _ in range(len(todo) + 1):
        if not todo:
            break
        open(os.path.join(d, "lib.rs"), "w").write("".join("pub mod %s;\n" % p for p in todo))
        rc, out = sh(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-D", "warnings", "lib.rs"], d)
        if not rc:
            break
        who = [p for p in todo if re.search(r"--> (?:\./)?%s\.rs:" % p, out)]
        if not who:
            raise HarnessError("rust: " + out[:2000])
        for p in who:
            bad[p] = errors("\n".join(b for b in re.split(r"\n(?=error|warning)", out) if "%s.rs:" % p in b), 8) + "\n" + "\n".join(x for x in out.splitlines() if "--> " + p in x)[:300]
            todo.remove(p)
    return bad


def strict_go(d, protos, code):
    open(os.path.join(d, "go.mod"), "w").write("module bv\n\ngo 1.21\n")
    for p in protos:
        os.makedirs(os.path.join(d, p))
        open(os.path.join(d, p, p + ".go"), "w").write(code[p])
    rc, out = sh(["go", "build", "-gcflags=-e", "./..."], d)
    bad = {}
    if rc:
        for p in protos:
            l = [x for x in out.splitlines() if re.search(r"\b%s/" % p, x) and not x.startswith("#")]
            if l:
                bad[p] = "\n".join(l[:6])
        if not bad:
            raise HarnessError("go: " + out[:2000])
    return bad


def strict_csharp(d, protos, code):
    from ..lang.csharp import sdk
    csc, refs, ver = sdk()
    bad = {}
    todo = list(protos)
    for p in todo:
        open(os.path.join(d, p + ".cs"), "w").write(code[p])
    for _ in range(len(protos) + 1):
        if not todo:
            break
        rsp = ["-nologo", "-target:library", "-out:o.dll", "-deterministic", "-langversion:12", "-nostdlib", "-noconfig", "-warn:4", "-warnaserror+", "-nowarn:1701,1702"]
        rsp += ['-r:"%s"' % r for r in sorted(glob.glob(refs + "/*.dll"))] + [p + ".cs" for p in todo]
        open(os.path.join(d, "c.rsp"), "w").write("\n".join(rsp))
        rc, out = sh(["dotnet", "exec", csc, "@c.rsp"], d)
        if not rc:
            break
        who = [p for p in todo if re.search(r"\b%s\.cs\(" % p, out)]
        if not who:
            raise HarnessError("csharp: " + out[:2000])
        for p in who:
            bad[p] = "\n".join([x for x in out.splitlines() if "%s.cs(" % p in x][:6])
            todo.remove(p)
    return bad


def strict_ts(d, protos, code):
    # the flags of the project's own harness
    opts = {"module": "umd", "target": "es2020", "moduleResolution": "node", "types": [], "esModuleInterop": True, "noImplicitAny": True, "noEmitOnError": True,
            "noErrorTruncation": True, "noFallthroughCasesInSwitch": True, "noPropertyAccessFromIndexSignature": True, "noImplicitOverride": True, "noImplicitReturns": True,
            "noImplicitThis": True, "noEmit": True, "lib": ["es2020", "dom"]}
    for p in protos:
        open(os.path.join(d, p + ".ts"), "w").write(code[p])
    json.dump({"compilerOptions": opts, "files": [p + ".ts" for p in protos]}, open(os.path.join(d, "tsconfig.json"), "w"))
    rc, out = sh(["/opt/veriftools/node/node_modules/.bin/tsc", "-p", "tsconfig.json", "--pretty", "false"], d)
    bad = {}
    if rc:
        for p in protos:
            l = [x for x in out.splitlines() if x.startswith(p + ".ts(")]
            if l:
                bad[p] = "\n".join(l[:6])
        if not bad:
            raise HarnessError("tsc: " + out[:2000])
    return bad


def strict_zig(d, protos, code):
    h = BY_NAME["zig"](d)
    h.build({p: (protos[p], code[p]) for p in protos})
    return dict(h.bad)


STRICT = {"c": strict_c, "csharp": strict_csharp, "go": strict_go, "rust": strict_rust, "typescript": strict_ts, "zig": strict_zig}


def compile_all(protos, langs=WIRE, extra=None, tomls=None):
    """-> {(lang, pid): why} for the code that is not clean"""
    b = Batch(protos, langs, extra, tomls).generate()
    bad = dict(b.broken)

    def one(l):
        code = {pid: b.code[(l, pid)] for pid in protos if (l, pid) in b.code}
        d = os.path.join(b.dir, "strict", l)
        os.makedirs(d, exist_ok=True)
        return l, STRICT[l](d, {p: protos[p] for p in code}, code) if code else {}
    with ThreadPoolExecutor(len(langs)) as ex:
        for l, r in ex.map(one, langs):
            for pid, why in r.items():
                bad[(l, pid)] = "generated code does not compile cleanly: " + why
    b.close()
    return bad


def type_matrix(rng, ns, lt, st):
    """small protocol with every type and list, for one pair of size types"""
    p = Proto(ns=ns, lt=lt, st=st)
    p.enums = [EnumDef("Mode", [("Slow", rng.choice([-5, 0, 300])), ("Fast", 7)], True), EnumDef("Phase", [("Early", 0), ("Late", 1)], False)]
    p.structs = [StructDef("Spot", [Mem("x", "float"), Mem("mode", "Mode")]), StructDef("Entry", [Mem("label", "string"), Mem("spots", "Spot", True), Mem("names", "string", True)])]
    if rng.random() < 0.5:
        p.structs.reverse()
    types = list(SIZE) + ["string", "Mode", "Phase", "Spot", "Entry"]
    rng.shuffle(types)
    p.messages = [StructDef("Plain", [Mem("m%d" % i, t) for i, t in enumerate(types)]), StructDef("Listed", [Mem("l%d" % i, t, True) for i, t in enumerate(types)])]
    # messages with a single member of one kind
    for i, t in enumerate(rng.sample(types, 3)):
        p.messages.append(StructDef("Only%s" % "ABC"[i], [Mem("only", t, rng.random() < 0.5)]))
    rng.shuffle(p.messages)
    return p


def single(rng, ns, t, is_list, lt, st):
    """the smallest protocol that uses one type in one way: helpers for every other type are unused"""
    p = Proto(ns=ns, lt=lt, st=st)
    if t == "Mode":
        p.enums = [EnumDef("Mode", [("Slow", rng.choice([-5, 0, 300, 70000])), ("Fast", 7)], True)]
    if t == "Spot":
        p.structs = [StructDef("Spot", [Mem("x", "int16")])]
    if t == "Entry":
        p.structs = [StructDef("Entry", [Mem("label", rng.choice(["string", "bool"]), rng.random() < 0.5)])]
    p.messages = [StructDef("Msg", [Mem("only", t, is_list)] if t else [])]
    return p


def crowded(rng, ns, values, structs, enums):
    """very many enum values, structs or enums"""
    def name(prefix, i):
        return prefix + "".join(chr(97 + int(c)) for c in "%04d" % i)
    p = Proto(ns=ns, lt=rng.choice(SIZE_TYPES), st=rng.choice(SIZE_TYPES))
    p.enums = [EnumDef(name("Kind", i), [(name("Val", j), j) for j in range(values)], False) for i in range(enums)]
    p.structs = [StructDef(name("Spot", i), [Mem("x", rng.choice(["int32", "byte", "double", p.enums[i % enums].name]))]) for i in range(structs)]
    p.structs.append(StructDef("Entry", [Mem("label", "string")]))
    for i in range(3):
        e, t = (rng.choice(l).name for l in (p.enums, p.structs)) if i else (p.enums[-1].name, "Entry")
        p.messages.append(StructDef(name("Only", i), [Mem("e", e), Mem("kinds", e, True), Mem("spot", t), Mem("spots", t, True), Mem("names", "string", True)]))
    return p


def c11():
    ck = Check("C11", "exploration", "Generated protocols: a matrix of all 49 pairs of list and string size types over a protocol with every type alone and listed, protocols that use a single type in a single way, "
               "protocols of 255 messages, of more than a thousand enum values, enums and structs, of an enum that names every byte, and random ones. One evaluation = the code of one protocol in one language through its compiler with the warnings of the project's harness as errors "
               "(C as C99 and C++20 with and without implementation and linked together; Rust -D warnings; C# warnings as errors; tsc with the project's options; Zig and Go). Non-trivial: distinct (protocol text, language).",
               DOMAIN[:2] + ["Zig analyses lazily: its code is compiled with a program that uses the whole public API"])
    for k in range(1 if not ck.thorough else 8):
        rng = ck.rng(k)
        protos = {}
        zig = set()
        i = 0
        for lt in SIZE_TYPES:
            for st in SIZE_TYPES:
                pid = "p%d" % i
                protos[pid] = type_matrix(rng, "Sz%dx" % i, lt, st)
                i += 1
        types = list(SIZE) + ["string", "Mode", "Spot", "Entry"]
        for t in types:
            for is_list in (False, True):
                protos["p%d" % i] = single(rng, "One%dx" % i, t, is_list, rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES))
                i += 1
        protos["p%d" % i] = single(rng, None, None, False, "uint32", "uint32")
        i += 1
        for q in list(protocols(rng, 14, full=3).values()):
            q.ns = "Rand%d" % i
            protos["p%d" % i] = q
            i += 1
        for _ in range(4):
            protos["p%d" % i] = length_names(rng, "Lens%dx" % i, rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES))
            i += 1
        for depth in (2, 3, 4, 5, 7):
            for _ in range(2):
                q = Proto(ns="Deep%d" % i, lt=rng.choice(SIZE_TYPES), st=rng.choice(SIZE_TYPES))
                q.enums = [EnumDef("Mode", [("Slow", rng.choice([0, 1, 300])), ("Fast", 7)], True)]
                a = model.chain(rng, q, depth)
                q.messages = [StructDef("Only", [Mem("top", a, True)]), StructDef("Both", [Mem("items", a, True), Mem("one", a), Mem("more", a, True)])]
                rng.shuffle(q.structs)
                protos["p%d" % i] = q
                i += 1
        protos["p%d" % i] = many_messages(rng, 255, "Many")
        protos["p%d" % (i + 1)] = crowded(rng, "Crowd", rng.randint(1001, 1500), 3, 3)
        protos["p%d" % (i + 2)] = crowded(rng, "Town", 3, rng.randint(350, 700), 1001 - 350)
        protos["p%d" % (i + 3)] = crowded(rng, "Whole", 256, 3, 1)          # every number of a byte has a name
        protos["p%d" % (i + 3)].enums[0].values.sort(key=lambda x: rng.random())
        protos["p%d" % (i + 3)].enums[0].table = True
        bad = {}
        pids = list(protos)
        cut = [{p: protos[p] for p in pids[j::3]} for j in range(3)]
        for part in cut:
            bad.update(compile_all(part))
        for pid, p in protos.items():
            for l in WIRE:
                ck.case_done(l + p.to_toml(), True)
                ck.count("compiled in " + l)
        for (l, pid), why in bad.items():
            ck.violations.append(Violation(l, pid, protos[pid], None, "", why, "strict"))
        ck.sample({"protocol": protos["p60"].to_toml(), "compilers": WIRE})
    ck.violations.sort(key=lambda v: len(v.proto.to_toml()))
    seen, keep = {}, []
    for v in ck.violations:
        seen[v.lang] = seen.get(v.lang, 0) + 1
        if seen[v.lang] <= 2:
            keep.append(v)
    ck.violations = keep[:8]
    return ck.finish()


# ------------------------------------------------------------------------------------------------ C13
NASTY = ["# */", "# /* open", "# */ int x = ; /*", "# // \\", "# \t tab", "# é 日 😀", "# ''' \"\"\" `${x}`", "# {{ }} %s %d", "# -->", "# \\u0000 \\", "# }}", "# #endif", "#", "# / * / /**/ */",
         "# next\u0085line", "# line\u2028separator", "# paragraph\u2029separator", "# nb\u00a0sp \u200b\u200d\ufeff", "# \u202b\u202e\u2066 rtl", "# /\\", "# ??/ ??= ??' .", "# @ # $ % ^ & ` ~",
         "# \U0001f1e9\U0001f1ea \U000e0001", "# {p} {0} %(x)s", "# <summary> </summary> <![CDATA[ ]]>", "# r#\" \"# b' '", "# //! /// /*! /**", "# \u0130\u0131 \u212a", "# " + "long " * 200]


def capitalised(p):
    q = p.clone()
    for s in q.structs + q.messages:
        for m in s.members:
            m.name = m.name[0].upper() + m.name[1:]
    return q


def c13():
    ck = Check("C13", "exploration", "Generated protocols, each generated with several option sets (--indent, --embed-protocol with comment delimiters in the file, --namespace, the rename-suppressing options, combinations), "
               "compiled in six languages, and driven with the same writes, reads, defaults and constants as without options; --namespace is also compared, as text, with the namespace written in the file. "
               "Non-trivial: distinct (protocol, options, request) with values other than the default.", DOMAIN)
    for k in range(1 if not ck.thorough else 8):
        rng = ck.rng(k)
        bases = list(protocols(rng, 6, full=2).values())
        protos, extra, tomls = {}, {}, {}
        norename = set()
        usens = set()
        nasty = []
        for i, p in enumerate(bases):
            for j in range(5):
                pid = "p%d" % len(protos)
                q = p.clone()
                opts = []
                want_ns = "V%dx%d" % (i, j)
                toml_ns = want_ns
                kinds = [["indent"], ["embed"], ["namespace"], ["norename"], ["indent", "embed", "namespace", "norename"]][j]
                if "namespace" in kinds:
                    toml_ns = rng.choice([None, "Original", p.ns or "Orig"])
                    opts += [rng.choice(["--namespace", "-n"]), want_ns]
                q.ns = toml_ns
                if "indent" in kinds:
                    opts += ["--indent", rng.choice(["\t", "  ", " ", "      ", "   "])]
                text = q.to_toml()
                if "embed" in kinds:
                    opts.append("--embed-protocol")
                    lines = text.split("\n")
                    nasty = nasty or rng.sample(NASTY, len(NASTY))
                    mine, nasty = nasty[:9], nasty[9:]
                    for c in mine:
                        at = rng.choice([a for a in range(len(lines)) if not lines[a].startswith("    {") and not lines[a].startswith("]")])
                        lines.insert(at, c)
                    text = "\n".join(lines)
                q.ns = want_ns
                protos[pid] = q
                tomls[pid] = text
                for l in WIRE:
                    o = list(opts)
                    if "norename" in kinds:
                        if l == "go":
                            o.append("--go-no-rename")
                            norename.add(("go", pid))
                        if l == "rust":
                            o.append("--rust-no-rename")
                            norename.add(("rust", pid))
                        if l == "typescript":
                            o.append("--typescript-use-namespace")
                            usens.add(pid)
                    extra[(l, pid)] = o
                ck.count("protocols generated with " + " and ".join(kinds))

        def configure(l, h):
            if l in ("go", "rust"):
                h.no_rename = {pid for (a, pid) in norename if a == l}
            if l == "typescript":
                h.use_namespace = set(usens)
        b = Batch(protos, WIRE, extra, tomls).build(configure)
        for (l, pid), why in b.broken.items():
            ck.violations.append(Violation(l, pid, protos[pid], None, "", "with %s: %s" % (" ".join(map(repr, extra[(l, pid)])), why), "option-build",
                                           {"args": list(extra[(l, pid)]), "text": tomls[pid], "nr": (l, pid) in norename, "un": l == "typescript" and pid in usens}))
        cases = []
        for pid, p in protos.items():
            for mi, v in values(p, rng, 22 if not ck.thorough else 60, 0):
                cases.append((pid, {"op": "W", "off": offsets(rng), "pad": 1, "msgs": [(mi, v, rng.choice([0, 1, 2, 3]))], "look": F({"bytes", "size", "type"})}))
                cases.append((pid, {"op": "R", "off": offsets(rng), "msgs": [(mi, v)], "tail": b"", "look": F({"value", "pos"})}))
                e = p.encode(mi, v)
                if e:
                    cases.append((pid, {"op": "R", "off": 0, "msgs": [(mi, v)], "cut": rng.randrange(len(e)), "expect": "err", "look": F({"reject"})}))
            for mi in range(len(p.messages)):
                cases.append((pid, {"op": "D", "mi": mi, "look": F({"value", "bytes"})}))
            ms = values(p, rng, 4, 0)[-3:]
            cases.append((pid, {"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": F({"bytes"})}))
            cases.append((pid, {"op": "U", "off": 0, "msgs": ms, "look": F({"value"})}))
            cases.append((pid, {"op": "E", "look": F({"value"})}))
        before = len(ck.violations)
        ck.run(b, cases)
        for v in ck.violations[before:]:
            v.kind = "option-case"
            v.extra = {"args": list(extra[(v.lang, v.pid)]), "text": tomls[v.pid], "nr": (v.lang, v.pid) in norename, "un": v.lang == "typescript" and v.pid in usens}
            v.reason = "with %s: %s" % (" ".join(map(repr, v.extra["args"])), v.reason)
        b.close()
        # strict compilers on code generated with options (what C11 does without)
        small = {pid: protos[pid] for pid in list(protos)[:10 if not ck.thorough else 30]}
        ex2 = {(l, pid): [x for x in extra[(l, pid)] if x != "--rust-no-rename" and x != "--typescript-use-namespace"] for pid in small for l in WIRE}
        for (l, pid), why in compile_all(small, [x for x in WIRE if x != "zig"], ex2, tomls).items():
            if (l, pid) not in b.broken:
                ck.violations.append(Violation(l, pid, protos[pid], None, "", "with %s: %s" % (" ".join(map(repr, ex2[(l, pid)])), why), "option-build", {"args": ex2[(l, pid)], "text": tomls[pid], "strict": True}))
        ck.count("compiled with warnings as errors", len(small) * 5)
        # the namespace option and the namespace in the file give the same text
        jobs = []
        for i in range(24 if not ck.thorough else 120):
            p = rng.choice(bases)
            ns = rng.choice(["Alpha", "game_state", "MyApp", "x", "HTTPServer2"])
            a, c = p.clone(), p.clone()
            a.ns = rng.choice([None, "Somewhere", ns])
            c.ns = ns
            l = LANGS[i % len(LANGS)]
            o = rng.choice([[], ["--indent", "  "]])
            jobs.append(({"toml": a.to_toml(), "lang": l, "opts": o + ["--namespace", ns], "how": {"seed": 0, "out": "stdout"}}, {"toml": c.to_toml(), "lang": l, "opts": o, "how": {"seed": 0, "out": "stdout"}}))
        with ThreadPoolExecutor(8) as exr:
            for (a, c), why in zip(jobs, exr.map(lambda j: two_runs(*j), jobs)):
                ck.case_done(json.dumps(a), True)
                ck.count("--namespace compared with the namespace in the file")
                if why:
                    ck.violations.append(Violation(a["lang"], "text", None, None, "", "--namespace against the namespace in the file: " + why, "text", {"a": a, "b": c}))
    seen, keep = {}, []
    for v in sorted(ck.violations, key=lambda v: (v.kind, len(v.extra.get("text", "")))):
        seen[(v.lang, v.kind)] = seen.get((v.lang, v.kind), 0) + 1
        if seen[(v.lang, v.kind)] <= 1:
            keep.append(v)
    ck.violations = keep[:8]
    return ck.finish()


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13}
