"""C26: what the options of the command do to the text of the generated code."""
from __future__ import annotations
import re
from concurrent.futures import ThreadPoolExecutor
from ..engine import Check, Violation
from ..gen import LANGS
from .text import NASTY, first_diff, gen_how
from .wire import DOMAIN, protocols, some

RENAMES = {"go": "--go-no-rename", "rust": "--rust-no-rename", "typescript": "--typescript-use-namespace"}


def reindent(text, old, new):
    out = []
    for l in text.split("\n"):
        n = 0
        while l.startswith(old, n * len(old)):
            n += 1
        out.append(new * n + l[n * len(old):])
    return "\n".join(out)


def inserted(plain, more):
    """the lines that more has and plain has not, when they are one piece"""
    a, b = plain.split("\n"), more.split("\n")
    n = len(b) - len(a)
    if n <= 0:
        return None
    i = 0
    while i < len(a) and a[i] == b[i]:
        i += 1
    return b[i:i + n] if a[i:] == b[i + n:] else None


def bare(s):
    return "".join(c for c in s if not c.isspace() and c not in "\ufeff\u202a\u202b\u202c\u202d\u202e\u2066\u2067\u2068\u2069")


def embeds(text, lines):
    body = bare("".join(lines))
    slashes = bare("".join(re.sub(r"^\s*//", "", l) for l in lines))
    if bare(text) not in body and bare(text) not in slashes:
        return "the comment does not contain the text of the protocol"
    if not any(bare(l) == bare(n) for n in NASTY for l in text.splitlines()):
        at = 0
        for l in text.splitlines():
            while l.strip() and at < len(lines) and not lines[at].rstrip().endswith(l.rstrip()):
                at += 1
            if at == len(lines):
                return "the comment does not contain this line of the protocol as it is: %r" % l
            at += 1 if l.strip() else 0
    return None


def judge(x):
    """x: {"rel": ..., "a": run, "b": run}; why the texts of the two runs are not related as they should be, or None"""
    (ta, ea), (tb, eb) = gen_how(**x["a"]), gen_how(**x["b"])
    if ea or eb:
        return "%sgeneration failed: %s" % ("" if ea else "with %s " % x["b"]["opts"], ea or eb)
    if x["rel"] == "same":
        return None if ta == tb else "the text differs: " + first_diff(ta, tb)
    if x["rel"] == "indent":
        o = x["a"]["opts"]
        old = o[o.index("--indent") + 1]                                 # the default indentation is the language's affair
        wants = [reindent(ta, old, new) for new in ([x["indent"]] if x["indent"] else ["    ", "\t", "  ", "   ", "        "])]
        want = wants[0]
        return None if tb in wants else "the texts for indentations %r and %r differ in more than that: %s" % (old, x["indent"], first_diff(want, tb))
    l = inserted(ta, tb)
    return "--embed-protocol changes the text in other ways than adding a piece" if l is None else embeds(x["a"]["toml"], l)


def replay_options(x):
    return judge(x)


def shrink(x, why):
    """drop whole tables and then comment lines of the protocol file while the relation stays broken in the same way"""
    def cut(t):
        blocks = re.split(r"(?m)^(?=\[)", t)
        for i in range(len(blocks)):
            yield "".join(blocks[:i] + blocks[i + 1:])
        ls = t.splitlines(True)
        for i in range(len(ls)):
            if ls[i].lstrip().startswith("#") or not ls[i].strip():
                yield "".join(ls[:i] + ls[i + 1:])
    budget, found = 60, True
    while found and budget > 0:
        found = False
        for t in cut(x["a"]["toml"]):
            budget -= 1
            if budget < 0:
                break
            y = dict(x, a=dict(x["a"], toml=t), b=dict(x["b"], toml=t))
            w = judge(y)
            if w and "generation failed" not in w:
                x, why, found = y, w, True
                break
    return x, why


def c26():
    ck = Check("C26", "exploration", "Generated protocols in all eight languages; the texts generated with and without an option are compared through the relation that the option's description gives: --indent (every level of the indentation replaced, nothing "
               "else), --embed-protocol (one piece added, containing the whole text of the file, comment delimiters and unusual characters included), "
               "options of other languages (no effect), order and spelling of the arguments (no effect), and pairs of these. Non-trivial: distinct (protocol text, language, relation, options).", DOMAIN[:1])
    jobs = []
    for k in range(1 if not ck.thorough else 10):
        rng = ck.rng(k)
        for i, p in enumerate(protocols(rng, 12, full=2).values()):
            if i % 3 == 0:
                p.ns = None if i % 2 else p.ns
            text = p.to_toml()
            lines = text.split("\n")
            at = [a for a in range(len(lines)) if not lines[a].startswith("    {") and not lines[a].startswith("]")]
            for _ in range(rng.choice([0, 2, 8])):
                lines.insert(rng.choice(at), rng.choice(["# a comment", "  # indented", "\t# tab", "", "   ", "# größe 日本 😀", "# trailing   ", "#[table]", "# x = 1", "#" * 90]))
            plain = "\n".join(lines)
            if rng.random() < 0.3:
                plain = plain.rstrip("\n") + rng.choice(["", "# last line without end", "\n\n\n"])
            for c in rng.sample(NASTY, 6):
                lines.insert(rng.choice(at), c)
            nasty = "\n".join(lines)
            for l in LANGS:
                run = lambda toml, *opts, **how: {"toml": toml, "lang": l, "opts": list(opts), "how": dict({"seed": 0, "out": "stdout"}, **how)}
                ns = ["--namespace", "Renamed"] if rng.random() < 0.3 else []
                base = ns + ([RENAMES[l]] if l in RENAMES and not (l == "typescript" and not p.ns and not ns) and rng.random() < 0.3 else [])
                other = rng.choice([" ", "  ", "   ", "    ", "     ", "      ", "        ", "\t\t", "\t ", None])
                jobs.append({"rel": "indent", "a": run(text, "--indent", "\t", *base), "b": run(text, *(["--indent", other] if other else []), *base), "indent": other})
                for t, o in ((plain, base), (nasty, base + ["--indent", other] if other else base)):
                    jobs.append({"rel": "embed", "a": run(t, *o), "b": run(t, "--embed-protocol", *o)})
                groups = [[o] for o in base if o in RENAMES.values()] + ([ns] if ns else []) + [["--embed-protocol"]] + ([["--indent", other]] if other else [])
                rng.shuffle(groups)
                a = sum(groups, [])
                rng.shuffle(groups)
                jobs.append({"rel": "same", "what": "order and spelling of the arguments", "a": run(plain, *a), "b": run(plain, *sum(groups, []), form=rng.randint(1, 4))})
                jobs.append({"rel": "same", "what": "options of other languages", "a": run(text, *base), "b": run(text, *base, *[o for m, o in RENAMES.items() if m != l])})
    with ThreadPoolExecutor(8) as ex:
        for x, why in zip(jobs, ex.map(judge, jobs)):
            ck.case_done(repr(sorted(x.items(), key=str)), True)
            ck.count("relation: " + x.get("what", "--indent" if x["rel"] == "indent" else "--embed-protocol"))
            ck.count("judged in " + x["a"]["lang"])
            if why:
                ck.violations.append(Violation(x["a"]["lang"], "text", None, None, "", why, "options", x))
    for x in jobs[:3]:
        ck.sample({"language": x["a"]["lang"], "options": x["b"]["opts"], "protocol": x["b"]["toml"][:600]})
    ck.violations.sort(key=lambda v: len(v.extra["a"]["toml"]))
    ck.violations = ck.violations[:4]
    for v in ck.violations[:2]:
        v.extra, v.reason = shrink(v.extra, v.reason)
    return ck.finish()


CHECKS = {"C26": c26}
