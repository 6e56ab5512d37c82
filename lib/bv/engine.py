"""Runs cases, collects what contradicts the oracle, shrinks it, and reports."""
from __future__ import annotations
import hashlib, json, os, random, sys, threading, time, dataclasses, copy
from concurrent.futures import ThreadPoolExecutor
from . import env, ops, model
from .batch import Batch, HarnessError, WIRE
from .lang import BY_NAME
from .lang.base import BuildError

KNOWN = os.path.join(env.VERIF, "known_findings.txt")
EVID = os.environ.get("BV_EVIDENCE") or os.path.join(env.VERIF, "evidence")


def proto_json(p):
    return dataclasses.asdict(p)


def proto_from_json(d):
    p = model.Proto(**{k: v for k, v in d.items() if k not in ("enums", "structs", "messages")})
    p.enums = [model.EnumDef(e["name"], [tuple(x) for x in e["values"]], e["table"]) for e in d["enums"]]
    for k in ("structs", "messages"):
        setattr(p, k, [model.StructDef(s["name"], [model.Mem(m["name"], m["type"], m["is_list"]) for m in s["members"]]) for s in d[k]])
    return p


@dataclasses.dataclass
class Violation:
    lang: str
    pid: str
    proto: object
    case: dict | None
    reply: str
    reason: str
    kind: str = "case"            # case | build | doc
    extra: dict = dataclasses.field(default_factory=dict)
    shrink: object = None


class Check:
    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.monotonic()
        self.tier, self.seed = env.TIER, env.SEED
        self.evals = 0
        self.nontriv = set()
        self.samples = []
        self.classes = {}
        self.violations = []
        self.hung = set()           # languages in which a call did not return
        self.skipped = {}
        self.may_skip = False       # the emulated languages: code outside the emulator is not judged
        self.lock = threading.Lock()
        self.more = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *salt):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def count(self, cls, n=1):
        self.classes[cls] = self.classes.get(cls, 0) + n

    def case_done(self, key, nontrivial, n=1):
        self.evals += n
        if nontrivial:
            self.nontriv.add(hashlib.blake2b(key.encode() if isinstance(key, str) else key, digest_size=8).digest())

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def elapsed(self):
        return time.monotonic() - self.t0

    # ---- wire cases
    def run(self, batch, cases, langs=None, trivial=None, want_replies=False):
        """cases: [(pid, case)]; judged in every language of the batch."""
        langs = langs or batch.langs
        prep = [(pid, c, ops.request(batch.protos[pid], pid, c)) for pid, c in cases]
        text = {pid: p.to_toml() for pid, p in batch.protos.items()}
        seen = set()                # indices of prep judged in at least one language
        if prep:
            for i in range(3):
                pid, c, r = prep[(i * 7919 + 13) % len(prep)]
                if len(r) < 400:
                    self.sample({"protocol": pid, "request": r})
        errs = []
        out = {}

        def one(l):
            h = batch.lang.get(l)
            if h is None or h.exe is None or l in self.hung:
                return
            idx = [i for i, x in enumerate(prep) if batch.usable(l, x[0])]
            mine = [prep[i] for i in idx]
            if not mine:
                return
            try:
                replies = h.run([x[2] for x in mine], deadline=self.t0 + (480 if not self.thorough else 10**5))
            except Exception as e:
                errs.append(e)
                return
            bad, late = [], 0
            done = set()
            if want_replies:
                out[l] = replies
            for i, (pid, c, r), rep in zip(idx, mine, replies):
                if rep is None:
                    late += 1
                    continue
                if rep.startswith("SKIP"):
                    with self.lock:
                        self.skipped["not emulated: " + rep[5:80]] = self.skipped.get("not emulated: " + rep[5:80], 0) + 1
                    continue
                done.add(i)
                if rep.startswith("HANG") and l in self.hung:
                    continue
                if rep.startswith("HANG"):      # a loaded machine, or a call that does not return
                    rep = h.run([r], stall=100)[0]
                    if rep.startswith("HANG"):
                        self.hung.add(l)        # every further case would take as long: the language is left out from here on
                why = ops.judge(batch.protos[pid], c, rep, l)
                if why:
                    bad.append(Violation(l, pid, batch.protos[pid], c, rep, why, extra={"args": list(batch._extra(l, pid))}))
            with self.lock:
                if late:
                    self.skipped["not attempted (crashes, hangs or out of time) in " + l] = self.skipped.get("not attempted (crashes, hangs or out of time) in " + l, 0) + late
                self.evals += len(done)
                self.count("judged in " + l, len(done))
                self.violations += bad
                seen.update(done)
        with ThreadPoolExecutor(len(langs)) as ex:
            list(ex.map(one, langs))
        if errs:
            raise errs[0]
        for i in seen:
            pid, c, r = prep[i]
            if not (trivial or is_trivial)(batch.protos[pid], c):
                self.nontriv.add(hashlib.blake2b((text[pid] + r).encode(), digest_size=8).digest())
        return out

    def build(self, protos, langs=WIRE, extra=None, configure=None, tomls=None):
        b = Batch(protos, langs, extra, tomls).build(configure)
        for (l, pid), why in b.broken.items():
            self.violations.append(Violation(l, pid, protos[pid], None, "", why, "build", {"args": list(b._extra(l, pid))}))
        self.count("protocols generated", len(protos))
        return b

    # ---- reporting
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                line = line.strip()
                if line.startswith("finding: property=%s " % self.prop):
                    rest = line.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    out.append((key[4:] if key.startswith("key=") else key, what))
        return out

    def finish(self):
        vs = pick(self.violations)
        known = self.known()
        shown = []
        deadline = time.monotonic() + (90 if not self.thorough else 240)
        for v in vs:
            try:
                if v.kind == "case" and time.monotonic() < deadline:
                    v = shrink_case(v, deadline)
                elif v.kind == "build" and time.monotonic() < deadline:
                    v = shrink_build(v, deadline)
            except (HarnessError, BuildError) as e:
                sys.stderr.write("shrinking stopped: %s\n" % e)
            shown.append(v)
        rep = []
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for old in os.listdir(os.path.join(EVID, "replay")):
            if old.startswith(self.prop + "-"):
                os.unlink(os.path.join(EVID, "replay", old))
        new = 0
        hit = set()
        for i, v in enumerate(shown):
            k = [x for x in known if x[0] and x[0] in v.reason]
            if k:
                hit.add(k[0])
                continue
            new += 1
            path = os.path.join(EVID, "replay", "%s-%d.json" % (self.prop, i + 1))
            d = {"property": self.prop, "lang": v.lang, "kind": v.kind, "reason": v.reason, "reply": v.reply[:3000], "seed": self.seed,
                 "tier": self.tier, "extra": v.extra}
            if v.proto is not None:
                d["protocol"] = proto_json(v.proto)
                d["toml"] = v.proto.to_toml()
            if v.case is not None:
                d["case"] = ops.to_json(v.case)
                if v.kind == "case":
                    d["request"] = ops.request(v.proto, "p", v.case)
            with open(path, "w", encoding="utf-8") as f:
                json.dump(d, f, indent=1, ensure_ascii=False)
            rep.append(os.path.relpath(path, env.VERIF))
            sys.stdout.write("  [%s] %s\n" % (v.lang, v.reason.replace("\n", "\n      ")[:1500]))
            if v.proto is not None and len(v.proto.to_toml()) < 1500:
                sys.stdout.write("      protocol:\n" + "".join("        " + l + "\n" for l in v.proto.to_toml().splitlines() if l))
        for key, what in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nontriv), "rule": self.rule,
               "samples": self.samples or [{"note": "no sample"}], "classes": dict(sorted(self.classes.items()))}
        if self.skipped:
            cov["skipped"] = self.skipped
        cov.update(self.more)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": new}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s%s" % (
            self.prop, self.tier, self.seed, self.evals, len(self.nontriv), self.elapsed(), "" if not new else ", %d violation(s)" % new))
        for r in rep:
            print("VIOLATION property=%s replay=%s" % (self.prop, r))
        if self.evals == 0 and not new and self.skipped and self.may_skip:
            print("nothing could be judged: %s" % list(self.skipped)[:3])
        elif self.evals == 0 and not new:
            raise HarnessError("nothing was evaluated")
        return 1 if new else 0


def is_trivial(p, c):
    """A case is trivial when it carries only default values (all zero, empty) and no corruption."""
    if c.get("bytes") is not None or c.get("cut") is not None:
        return len(c.get("bytes") or b"x") == 0
    if "msgs" in c:
        return all(m[1] == p.default(m[0]) for m in c["msgs"])
    return False


def pick(vs, per_lang=2, total=6):
    """the simplest violations, a few per language and kind of operation"""
    def size(v):
        if v.kind not in ("case", "option-case"):
            return 0
        try:
            return len(ops.request(v.proto, "p", v.case))
        except Exception:
            return 10**6
    out, seen = [], {}
    for v in sorted(vs, key=lambda v: (v.kind != "build", v.kind == "option-case", size(v))):
        k = (v.lang, v.kind, (v.case or {}).get("op"))
        if seen.get(k, 0) >= 1 or sum(1 for o in out if o.lang == v.lang) >= per_lang:
            continue
        seen[k] = seen.get(k, 0) + 1
        out.append(v)
        if len(out) >= total:
            break
    return out


# ---------------------------------------------------------------- shrinking
def _try(h, p, pid, lang, cands, deadline=None):
    """first candidate case that still fails -> (case, reply, reason) or None"""
    for i in range(0, len(cands), 16):
        part = cands[i:i + 16]
        reps = h.run([ops.request(p, pid, c) for c in part], stall=20, max_crash=20, max_hang=1, deadline=deadline)
        for c, r in zip(part, reps):
            if r is None:
                continue
            why = ops.judge(p, c, r, lang)
            if why:
                return c, r, why
    return None


def shrink_values(h, v, deadline):
    while time.monotonic() < deadline:
        cands = []
        for c in ops.smaller(v.proto, v.case):
            cands.append(c)
            if len(cands) >= 80:
                break
        if not cands:
            break
        got = _try(h, v.proto, v.pid, v.lang, cands, deadline)
        if not got:
            break
        v.case, v.reply, v.reason = got
    return v


def _drop_type(p, t, v, sname, j):
    if p.kind(t) != "struct":
        return v
    return _drop_struct(p, p.struct(t), v, sname, j)


def _drop_struct(p, s, v, sname, j):
    out = []
    for i, (m, x) in enumerate(zip(s.members, v)):
        if s.name == sname and i == j:
            continue
        out.append([_drop_type(p, m.type, e, sname, j) for e in x] if m.is_list else _drop_type(p, m.type, x, sname, j))
    return out


def _map_case(c, f):
    if "msgs" not in c:
        return dict(c)
    return dict(c, msgs=[(m[0], f(m[0], m[1])) + tuple(m[2:]) for m in c["msgs"]])


def prune(p, c):
    """keep only what the case's messages need -> (proto, case)"""
    used = sorted(ops.case_messages(c)) if c is not None else list(range(len(p.messages)))
    if c is not None and not used:
        used = [0]
    q = p.clone()
    q.messages = [q.messages[i] for i in used]
    ren = {o: n for n, o in enumerate(used)}
    nc = c
    if c is not None:
        nc = dict(c)
        if "mi" in c:
            nc["mi"] = ren[c["mi"]]
        if "msgs" in c:
            nc["msgs"] = [(ren[m[0]],) + tuple(m[1:]) for m in c["msgs"]]
    return _gc(q), nc


def _gc(q):
    need, todo = set(), [m.type for s in q.messages for m in s.members]
    while todo:
        t = todo.pop()
        if t in need:
            continue
        need.add(t)
        s = q.struct(t)
        if s:
            todo += [m.type for m in s.members]
    q.structs = [s for s in q.structs if s.name in need]
    q.enums = [e for e in q.enums if e.name in need]
    return q


def proto_candidates(p, c):
    """smaller protocols with the case carried over"""
    out = []
    if c is None or (c.get("bytes") is None or "corrupt" in c):
        q, nc = prune(p, c)
        if q.to_toml() != p.to_toml() and not (c and c["op"] == "E"):
            out.append((q, nc))
        for s in p.messages + p.structs:
            if len(s.members) < 2 and s in p.structs:
                continue
            for j in range(len(s.members)):
                q = p.clone()
                for s2 in q.messages + q.structs:
                    if s2.name == s.name:
                        del s2.members[j]
                nc = None if c is None else _map_case(c, lambda mi, v: _drop_struct(p, p.messages[mi], v, s.name, j))
                if nc is not None and "corrupt" in nc:
                    try:
                        nc = ops.corrupt(q, nc, nc["corrupt"])
                    except Exception:
                        nc = None
                    if nc is None:
                        continue
                if nc is not None and nc.get("cut") is not None:
                    n = len(ops.OPS[nc["op"]].data(q, dict(nc, cut=None)))
                    nc["cut"] = min(nc["cut"], max(n - 1, 0))
                    if nc["op"] != "R":
                        continue
                out.append((_gc(q) if c is None else q, nc))
        if c is None:
            for i in range(len(p.messages)):
                if len(p.messages) > 1:
                    q = p.clone()
                    del q.messages[i]
                    out.append((_gc(q), None))
        if (p.lt, p.st) != ("uint32", "uint32") and (c is None or c.get("bytes") is None):
            for lt, st in (("uint32", "uint32"), ("uint32", p.st), (p.lt, "uint32")):
                if (lt, st) != (p.lt, p.st):
                    q = p.clone()
                    q.lt, q.st = lt, st
                    if c is None or c.get("cut") is None:
                        out.append((q, c))
    return out


def _uniq_ns(cands):
    res = {}
    for i, (q, nc) in enumerate(cands):
        q = q.clone()
        if q.ns is not None:
            q.ns = "Nx%d" % i
        res["q%d" % i] = (q, nc)
    return res


def shrink_protocol(v, deadline, judge_build=False):
    rounds = 0
    while time.monotonic() < deadline and rounds < 8:
        rounds += 1
        cands = proto_candidates(v.proto, v.case)[:24]
        if v.proto.ns is None:
            for q, _ in cands:
                q.ns = "Nx"
        if not cands:
            break
        m = _uniq_ns(cands)
        b = Batch({k: x[0] for k, x in m.items()}, [v.lang], {v.lang: v.extra.get("args", ())}).build()
        best = None
        for pid in m:
            q, nc = m[pid]
            if judge_build:
                why = b.broken.get((v.lang, pid))
                hit = (None, "", why) if why else None
            else:
                hit = _try(b.lang[v.lang], q, pid, v.lang, [nc], deadline) if b.usable(v.lang, pid) else None
            if hit:
                n = len(q.to_toml())
                if best is None or n < best[0]:
                    best = (n, q, nc, hit)
        b.close()
        if best is None:
            break
        _, v.proto, nc, (_, v.reply, v.reason) = best
        v.case = nc
        v.pid = "q0"
    return v


def shrink_case(v, deadline):
    v = copy.copy(v)
    end = min(deadline, time.monotonic() + 40)
    b = Batch({v.pid: v.proto}, [v.lang], {v.lang: v.extra.get("args", ())}).build()
    if b.usable(v.lang, v.pid):
        h = b.lang[v.lang]
        got = _try(h, v.proto, v.pid, v.lang, [v.case])
        if got:
            v.case, v.reply, v.reason = got
            v = shrink_values(h, v, end)
            b.close()
            v = shrink_protocol(v, end)
        else:
            v.extra = dict(v.extra, note="not reproduced alone; needs the requests before it")
    return v


def shrink_build(v, deadline):
    v = copy.copy(v)
    return shrink_protocol(v, min(deadline, time.monotonic() + 40), True)
