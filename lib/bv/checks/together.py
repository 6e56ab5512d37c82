"""C24: the code of several protocols in one program."""
from __future__ import annotations
import json, os, subprocess
from .. import env, ops
from ..batch import Batch, WIRE
from ..engine import Check, Violation, proto_json, proto_from_json
from ..lang.c import HOW
from ..lang.swift import Swift, HERE as SWRT
from ..model import SIZE_TYPES, gen_enum
from .wire import DOMAIN, F, RULE, protocols, values, offsets, cuts, rounds, some


def sibling(rng, p, ns):
    """the same names with other contents: sizes, order, member types, enum numbers"""
    q = p.clone()
    q.ns = ns
    q.lt, q.st = rng.choice(SIZE_TYPES), rng.choice(SIZE_TYPES)
    for i, e in enumerate(q.enums):
        if rng.random() < 0.7:
            q.enums[i] = gen_enum(rng, e.name)
    plain = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "string"] + [e.name for e in q.enums]
    for s in q.structs + q.messages:
        if rng.random() < 0.5:
            rng.shuffle(s.members)
        for m in s.members:
            if m.type in plain and rng.random() < 0.3:
                m.type = rng.choice(plain)
    if rng.random() < 0.5:
        rng.shuffle(q.messages)
    return q


STEMS = [("App%d", "App%dTwo", "Ap%d"), ("net%d", "net%d_proto", "network%d"), ("Game%d", "Game%dr", "Game%dState"), ("x%d", "x%dy", "y%d"), ("msg%d", "Msg%ds", "message%d"), ("A%d", "A%d1", "AA%d"),
         ("BESCHI_%d", "BESCHI_%dx", "Beschi%dy"), ("ui%d", "ui%dnt", "ui%d_"), ("io%d", "IO%dx", "iostate%d"), ("Data%d", "Data%dNet", "NetData%d"), (None, "Other%d", "Wire%d")]


def sets(rng, n):
    """n sets of two or three protocols; most share all their names"""
    out = []
    base = list(protocols(rng, 8, full=3).values())
    stems = rng.sample(STEMS[:-1], n - 1) + [STEMS[-1]]
    for i in range(n):
        names = list(stems[i])
        rng.shuffle(names)
        if i % 2:
            names = names[:2] if None in names[:2] or None not in names else [None, names[0]]
        p = base[i % len(base)].clone()
        p.ns = names[0]
        l = [p]
        for j, ns in enumerate(names[1:]):
            if rng.random() < 0.75:
                l.append(sibling(rng, p, ns))
            else:
                q = rng.choice(base).clone()
                q.ns = ns
                l.append(q)
        for q in l:         # the namespaces of different sets meet in one program as well
            q.ns = q.ns and q.ns % i
        out.append(l)
    return out


def set_up(plan, ps):
    """-> (extra, configure, prepare): TypeScript with namespaces has the whole set in one file"""
    extra = {("typescript", pid): ["--typescript-use-namespace"] for pid in ps if plan[pid][3]}

    def prepare(b):
        for pid in extra:
            pid = pid[1]
            code = [b.code[("typescript", q)] for q in plan[pid][0] if ("typescript", q) in b.code]
            if ("typescript", pid) in b.code:
                joined.setdefault(pid, "\n".join(code))
        for pid, code in joined.items():
            b.code[("typescript", pid)] = code
    joined = {}

    def configure(l, h):
        if l == "c":
            shared = {}
            h.together = {pid: shared.setdefault(tuple(plan[pid][0]), tuple(plan[pid][:3])) for pid in ps}
        if l == "typescript":
            h.use_namespace = {x[1] for x in extra}
    return extra, configure, prepare


def report(v, plan, protos):
    pids, how, seed, ns = plan[v.pid]
    v.kind = "together-build" if v.case is None else "together"
    v.extra = {"set": {p: proto_json(protos[p]) for p in pids}, "plan": [pids, how, seed, ns], "pid": v.pid}
    v.reason = "together with %s (%s): %s" % (", ".join(str(protos[p].ns) for p in pids if p != v.pid), "sources combined as '%s'" % how if v.lang == "c" else "one program", v.reason)
    return v


def swift_clashes(protos, sets):
    """{pid: why} for files of one Swift module that declare the same; -> (that, number of pairs compared)"""
    b = Batch(protos, ["swift"]).generate()
    found, pairs = {}, 0
    h = Swift(b.dir)
    files = {pid: h.put(pid + ".swift", code) for (_, pid), code in b.code.items()}
    out = subprocess.run([h.node(), os.path.join(SWRT, "swift.js"), "--tops"] + list(files.values()), capture_output=True, text=True, timeout=300, env=env.ENV).stdout.splitlines()
    tops = {pid: json.loads(x) for pid, x in zip(files, out)}
    for pids in sets:
        for i, a in enumerate(pids):
            for c in pids[:i]:
                if tops.get(a) is None or tops.get(c) is None:
                    continue
                pairs += 1
                same = sorted(set(tops[a]) & set(tops[c]))
                if same:
                    found[a] = "invalid redeclaration in one module of: " + ", ".join(same)[:300]
    b.close()
    return found, pairs


def replay_together(x):
    e, l = x["extra"], x["lang"]
    protos = {p: proto_from_json(d) for p, d in e["set"].items()}
    plan = {p: e["plan"] for p in protos}
    if l == "swift":
        return swift_clashes(protos, [e["plan"][0]])[0].get(e["pid"])
    extra, configure, prepare = set_up(plan, protos)
    b = Batch(protos, [l], extra).generate()
    prepare(b)
    b.build(configure)
    pid = e["pid"]
    why = b.broken.get((l, pid))
    if why or "case" not in x:
        return why
    case = ops.from_json(x["case"])
    r = b.lang[l].run([ops.request(protos[pid], pid, case)], stall=150)[0]
    print("request:", ops.request(protos[pid], pid, case)[:2000])
    print("reply:  ", str(r)[:2000])
    return ops.judge(protos[pid], case, r, l)


def c24():
    ck = Check("C24", "exploration", RULE.replace("One evaluation =", "Sets of two or three protocols with different namespaces, most with the same names inside but other types, sizes, orders and numbers, are used in one program (C: all headers in every source file in "
               "any order and number, the implementations in files of their own, crosswise or all in one, and a C++ file that includes all; TypeScript: half of the sets with --typescript-use-namespace in one file; Swift: only what the files declare for their module is compared). One evaluation ="), DOMAIN)
    for k in rounds(ck, 1, 10):
        rng = ck.rng(k)
        protos, plan = {}, {}
        n = 6
        for i, l in enumerate(sets(rng, n)):
            pids = ["s%d_%d" % (i, j) for j in range(len(l))]
            how = HOW[(i + k) % len(HOW)]
            ns = i % 2 == 0 and all(p.ns for p in l)
            for pid, p in zip(pids, l):
                protos[pid] = p
                plan[pid] = [pids, how, "%d/%d/%d" % (ck.seed, k, i), ns]
            ck.count("sets of %d protocols" % len(l))
            ck.count("C sources combined as '%s'" % how)
            if ns:
                ck.count("TypeScript namespaces in one file")
        extra, configure, prepare = set_up(plan, protos)
        b = Batch(protos, WIRE, extra).generate()
        prepare(b)
        b.build(configure)
        for (l, pid), why in b.broken.items():
            ck.violations.append(report(Violation(l, pid, protos[pid], None, "", why, "build"), plan, protos))
        ck.count("protocols generated", len(protos))
        cases = []
        for pid, p in protos.items():
            add = lambda c: cases.append((pid, c))
            vs = values(p, rng, 40 if not ck.thorough else 120, 1)
            add({"op": "E", "look": F({"value"})})
            for mi in range(len(p.messages)):
                add({"op": "D", "mi": mi, "look": F({"value", "bytes"})})
            for mi, v in vs:
                add({"op": "W", "off": offsets(rng), "pad": rng.choice([0, 3]), "msgs": [(mi, v, rng.choice([0, 1, 2, 3]))], "look": F({"bytes", "size", "type"})})
                add({"op": "R", "off": offsets(rng), "msgs": [(mi, v)], "tail": b"", "look": F({"value", "pos"})})
            for mi, v in some(rng, vs[:-1], 8):
                for cut in cuts(p, mi, v, rng, 4):
                    add({"op": "R", "off": 0, "msgs": [(mi, v)], "cut": cut, "expect": "err", "look": F({"reject"})})
            for _ in range(8):
                ms = [rng.choice(vs[:-1]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
                add({"op": "P", "off": offsets(rng), "max": rng.choice([-1, -1, len(ms), 1]), "msgs": ms, "look": F({"value", "pos", "type"})})
                add({"op": "K", "off": 0, "pad": 0, "msgs": ms, "look": F({"bytes", "size"})})
                add({"op": "U", "off": 0, "msgs": ms, "look": F({"value", "type"})})
        rng.shuffle(cases)          # calls of the protocols alternate
        clash, pairs = swift_clashes(protos, [x for x in {tuple(p[0]): p[0] for p in plan.values()}.values()])
        ck.evals += pairs
        ck.count("pairs of Swift files compared", pairs)
        for pid, why in clash.items():
            ck.violations.append(report(Violation("swift", pid, protos[pid], None, "", why, "build"), plan, protos))
        before = len(ck.violations)
        ck.run(b, cases)
        ck.violations[before:] = [report(v, plan, protos) for v in ck.violations[before:]]
        b.close()
    return ck.finish()


CHECKS = {"C24": c24}
