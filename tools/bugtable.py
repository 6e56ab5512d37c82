"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
head = open(p, encoding="utf-8").read().split("\n## Planted bugs")[0]
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json"), encoding="utf-8"))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
text = """
## Planted bugs

Each passes the build and the 175 stable tests, has a demonstration that fails only with it, and was written from the property and the
code. All are caught by the quick check of their property (seed 1); "caught by" names it and others that were seen to report it.
Besides these, about 600 one-line mutations of writers, boilerplate and core were run against the checks (roughly one mutation in eight
survives: comments and white space of the generated code, wording of messages, initial values that are overwritten, code of dialects that
were not under test, and equivalent conditions), and reverting each of the 52 fixes of code is reported by the check of its property. What survivors
taught: prefix sizes left to their default were in no generated protocol (a wrong default went unnoticed), white space in enum
value names was not asked for, an exception in AssemblyScript passed as a rejection, calls that do not return used up the time limit.
The reverse was tried too: 43 behaviour-keeping rewrites of the AssemblyScript and Swift templates leave C20 and C21 quiet.

| id | property | needs | caught by |
|---|---|---|---|
"""
open(p, "w", encoding="utf-8").write(head + text + "\n".join(rows) + "\n")
