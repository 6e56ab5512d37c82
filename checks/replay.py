#!/usr/bin/env python3
"""replay.py FILE...: run the reproduction written by a check against /repo's current tree.

Prints what is observed; exit 1 when the violation shows again, 0 when it does not, 2 when it cannot be judged."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))


def replay(x):
    from bv import engine, ops
    from bv.batch import Batch
    from bv.checks import options, text, together
    kind, e, l = x["kind"], x.get("extra", {}), x["lang"]
    if kind == "doc":
        return text.replay_c10(e)
    if kind == "misuse":
        return text.replay_misuse(e)
    if kind == "text":
        return text.replay_c12(e)
    if kind == "options":
        return options.replay_options(e)
    if kind.startswith("together"):
        return together.replay_together(x)
    p = engine.proto_from_json(x["protocol"])
    if kind == "strict":
        return text.compile_all({"p": p}, [l]).get((l, "p"))
    tomls = {"p": e["text"]} if "text" in e else {}
    if kind == "option-build" and e.get("strict"):
        return text.compile_all({"p": p}, [l], {(l, "p"): e["args"]}, tomls).get((l, "p"))
    case = ops.from_json(x["case"]) if "case" in x else None
    ks = ["p"]

    def configure(name, h):
        if e.get("nr"):
            h.no_rename = {"p"}
        if e.get("un"):
            h.use_namespace = {"p"}
    b = Batch({"p": p}, [l], {(l, "p"): e.get("args", [])}, tomls).build(configure)
    why = b.broken.get((l, "p"))
    if why or case is None:
        return why
    r = b.lang[l].run([ops.request(p, "p", case)], stall=150)[0]
    print("request:", ops.request(p, "p", case)[:2000])
    print("reply:  ", str(r)[:2000])
    return ops.judge(p, case, r, l)


def main():
    rc = 0
    for f in sys.argv[1:]:
        x = json.load(open(f, encoding="utf-8"))
        print("%s: property %s, %s" % (f, x["property"], x["lang"]))
        e = x.get("extra", {})
        print(e.get("text") or e.get("toml") or x.get("toml") or json.dumps(e, indent=1))
        try:
            why = replay(x)
        except Exception:
            traceback.print_exc()
            rc = max(rc, 2)
            continue
        print("VIOLATED: " + why if why else "not violated")
        if why and rc != 2:
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
