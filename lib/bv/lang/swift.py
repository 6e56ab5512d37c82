"""Swift has no compiler here: swrt/swift.js parses the generated code, checks what can be checked without its type inference and rewrites it
as JavaScript whose values carry their Swift types, so that a mixed or overflowing operation stops as it would under the Swift compiler or runtime."""
import os, shutil
from .base import Lang, W
from .ts import NODE, RUNTIME

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "swrt")
NATIVE = {"byte": "UInt8", "bool": "Bool", "uint16": "UInt16", "int16": "Int16", "uint32": "UInt32", "int32": "Int32", "uint64": "UInt64", "int64": "Int64", "float": "Float",
          "double": "Double", "string": "String"}


class Swift(Lang):
    name = "swift"
    cli_name = "swift"
    ext = ".swift"

    def main(self):
        self.put("main.js", 'const { serve } = require("./rt");\nserve({' + ", ".join(f'"{p}": require("./h_{p}").cmd' for p in self.protos) + "});\n")

    def write_sources(self):
        self.put("rt.ts", RUNTIME)
        shutil.copy(os.path.join(HERE, "swrt.js"), self.dir)
        for p, proto in self.protos.items():
            self.put(f"{p}.swift", self.code[p])
            self.put(f"h_{p}.js", adapter(p, proto))

    def node(self):
        return "/usr/local/bin/node" if os.path.exists("/usr/local/bin/node") else "node"

    def compile(self):
        rc, out = self.sh([NODE + "/.bin/esbuild", "rt.ts", "--platform=node", "--format=cjs", "--outfile=rt.js", "--log-level=error"])
        if rc:
            return False, out
        rc, out = self.sh([self.node(), os.path.join(HERE, "swift.js"), self.dir] + [os.path.join(self.dir, p + ".swift") for p in self.protos])
        bad = [l for l in out.splitlines() if ": error: " in l]
        if bad:
            return False, "\n".join(bad)
        for p in list(self.protos):
            why = [l for l in out.splitlines() if l.startswith("unsupported (%s-swift)" % p)]
            if why or not os.path.exists(os.path.join(self.dir, p + ".js")):
                self.skipped[p] = (why or [out])[0][-300:]
                del self.protos[p]
        self.main()
        self.exe = os.path.join(self.dir, "main.js")
        return True, ""

    def command(self):
        return [self.node(), "--max-old-space-size=3072", "--stack-size=4000", self.exe]


def adapter(pid, P):
    w = W("  ")
    w('const r = require("./rt"), S = require("./swrt");')
    w(f'const q = require("./{pid}"), $ = q.$, t = q.types;')
    w('const flt = (t, n) => { const h = r.t(); return S.fromBytes(t, Uint8Array.from(Buffer.from(h, "hex")).reverse()); };')
    w('const on = (v, t) => v instanceof S.I && v.t === t ? r.o(" " + v.v) : r.o(" !" + (v && v.t));')
    w('const of = (v, t) => v instanceof S.F && v.t === t ? r.o(" " + Buffer.from(S.bytesOf(v)).reverse().toString("hex")) : r.o(" !" + (v && v.t));')
    w('const len = v => { if (!(v instanceof S.Arr)) throw new Error("HARNESS not an array"); r.on(v.l.length); return v.l; };')

    def build(t, old=None):
        k = P.kind(t)
        if k == "num":
            return {"float": 'flt("Float")', "double": 'flt("Double")', "bool": "(r.i() !== 0)"}.get(t, f'$.int("{NATIVE[t]}", r.big())')
        if k == "string":
            return "r.s()"
        if k == "enum":
            return f"be_{t}()"
        return f'b_{t}(' + (f'keep && {old} || ' if old else "") + f'$.make(t.{t}, "", []))'

    def dump(t, x):
        k = P.kind(t)
        if k == "num":
            return f"r.obool({x});" if t == "bool" else f'{"of" if t in ("float", "double") else "on"}({x}, "{NATIVE[t]}");'
        if k == "string":
            return f"r.os({x});"
        if k == "enum":
            return f"de_{t}({x});"
        return f"d_{t}({x});"

    names = []
    w("let keep = false;       // assign into the message and the structs that are there")
    for e in P.enums:
        w(f"const e_{e.name} = [" + ", ".join(f'$.get(t.{e.name}, "{n}")' for n, _ in e.values) + "];")
        w(f"function be_{e.name}() {{ return e_{e.name}[r.i()]; }}")
        w(f"function de_{e.name}(v) {{ const k = e_{e.name}.indexOf(v); r.o(k >= 0 ? ' ' + k : ' ?' + (v && v.raw && v.raw.v)); }}")
        names.append(e.name)
    for s in P.structs + P.messages:
        names += [s.name, s.name + ".init$"] + [s.name + "." + m.name for m in s.members]
        with w.block(f"function b_{s.name}(v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f'{{ const n = r.i(); const a = keep ? $.get(v, "{m.name}").l : [], l = []; for (let k = 0; k < n; k++) l.push({build(m.type, 'a[k]')}); $.put(v, "{m.name}", $.arr(l)); }}')
                else:
                    w(f'$.put(v, "{m.name}", ' + build(m.type, f'$.get(v, "{m.name}")') + ");")
            w("return v;")
        with w.block(f"function d_{s.name}(v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f'for (const x of len($.get(v, "{m.name}"))) {{ {dump(m.type, "x")} }}')
                else:
                    w(dump(m.type, f'$.get(v, "{m.name}")'))
    for s in P.messages:
        names += [s.name + "." + f for f in ("FromBytes$_", "WriteBytes$data:tag", "GetSizeInBytes$", "GetMessageType$")]
    names += ["Message", "MessageType", "Message.UnpackMessages$_", "ProcessRawBytes$_:max", "Array.GetPackedSize$", "Array.PackMessages$_"]
    w("const hidden = " + str(names).replace("'", '"') + ".filter(n => q.hidden.includes(n));")
    w("const classes = [" + ", ".join(f"t.{s.name}" for s in P.messages) + "];")
    w("const builders = [" + ", ".join(f"b_{s.name}" for s in P.messages) + "];")
    w("const dumpers = [" + ", ".join(f"d_{s.name}" for s in P.messages) + "];")
    w("""function make(mid) { return builders[mid]($.make(classes[mid], "", [])); }
function mid(m) { return classes.findIndex(c => m instanceof c); }
function same(a, b, what) { if (a !== b) throw new Error("HARNESS " + what + " differs: " + a + " / " + b); }
function shown(f) { const mk = r.mark(); f(); const x = r.since(mk); r.cut(mk); return x; }
const msgs = l => { if (!(l instanceof S.Arr)) throw new Error("HARNESS not an array of messages"); return l.l; };
const pad = (d, cap) => { const b = Buffer.alloc(Math.max(cap, d.n), 0xAA); b.set(d.bytes); return b; };
const fresh = off => new S.NSMutableData(Buffer.alloc(off, 0xAA));
// the bytes as Data whose indices start at 0, or as a slice of a larger Data
const whole = b => new S.Data(Buffer.from(b));
const slice = (b, lead) => { const l = Buffer.alloc(b.length + lead + 3, 0x5c); l.set(b, lead); return new S.Data(l, lead, lead + b.length); };
function outcome(f) { try { return f(); } catch (e) { if (e instanceof S.SwErr) return "thrown"; throw e; } }
const dumpAll = l => { r.on(l.length); for (const m of l) { const id = mid(m); r.on(id); dumpers[id](m); } };
function command(c) {
  if (hidden.length) throw new Error("HARNESS not public: " + hidden);
  if (c === 'W') {
    const off = r.i(), cap = r.i(), n = r.i(); const d = fresh(off); const st = [];
    for (let k = 0; k < n; k++) { const id = r.i(), tag = r.i(); const m = make(id);
      const sz = $.call(m, "GetSizeInBytes$", []), ty = $.get($.call(m, "GetMessageType$", []), "rawValue"); st.push([sz, ty]);
      $.call(m, "WriteBytes$data:tag", [d, (tag & 1) !== 0]); }
    r.o("OK " + d.n + " "); r.oh(pad(d, cap)); for (const [a, b] of st) { on(a, "UInt32"); on(b, "UInt8"); }
  } else if (c === 'R') {
    const off = r.i(), n = r.i(); const mids = []; for (let k = 0; k < n; k++) mids.push(r.i());
    const b = r.hex(); const lead = b.length % 3;
    const alt = n === 1 && off === 0 ? [() => $.call(classes[mids[0]], "FromBytes$_", [whole(b)]), () => $.call(classes[mids[0]], "FromBytes$_", [slice(b, lead)])] : [];
    const alts = alt.map(f => outcome(() => { const m = f(); return shown(() => dumpers[mids[0]](m)); }));
    const l = [], dr = $.make(t.DataReader, "fromData", [lead ? slice(b, lead) : whole(b)]); $.put(dr, "currentOffset", $.int("Int", BigInt(off)));
    const got = outcome(() => { for (const id of mids) l.push($.call(classes[id], "FromBytes$dataReader", [dr])); return shown(() => l.forEach((m, k) => dumpers[mids[k]](m))); });
    for (const a of alts) same(a, got, "FromBytes");
    if (got === "thrown") { r.o("ERR thrown"); return; }
    r.o("OK " + $.get(dr, "currentOffset").v + got);
  } else if (c === 'D') {
    const id = r.i(); const m = $.make(classes[id], "", []); const d = fresh(0);
    $.call(m, "WriteBytes$data:tag", [d, false]);
    r.o("OK " + $.get($.call(m, "GetMessageType$", []), "rawValue").v + " "); r.oh(d.bytes); dumpers[id](m);
  } else if (c === 'P') {
    const off = r.i(), max = $.int("Int", BigInt(r.i())); const b = r.hex().subarray(off);
    const got = [whole(b), slice(b, off)].map(d => outcome(() => shown(() => dumpAll(msgs(q.funcs["ProcessRawBytes$_:max"](d, max))))));
    same(got[0], got[1], "ProcessRawBytes");
    const dr = $.make(t.DataReader, "fromData", [whole(b)]); for (const k of [0, b.length, b.length + 3]) { $.put(dr, "currentOffset", $.int("Int", BigInt(k))); same($.call(dr, "IsFinished$", []), k >= b.length, "IsFinished"); }
    r.o(got[0] === "thrown" ? "ERR thrown" : "OK -1" + got[0]);
  } else if (c === 'U') {
    const off = r.i(); const b = r.hex().subarray(off);
    const got = [whole(b), slice(b, off)].map(d => outcome(() => shown(() => dumpAll(msgs($.call(t.Message, "UnpackMessages$_", [d]))))));
    same(got[0], got[1], "UnpackMessages");
    r.o(got[0] === "thrown" ? "ERR thrown" : "OK -1" + got[0]);
  } else if (c === 'K') {
    const off = r.i(), cap = r.i(), n = r.i(); const d = fresh(off); const l = []; for (let k = 0; k < n; k++) l.push(make(r.i()));
    const a = $.chk($.arr(l), $.A(t.Message)); const ps = $.call(a, "GetPackedSize$", []); $.call(a, "PackMessages$_", [d]);
    r.o("OK " + d.n + " "); r.oh(pad(d, cap)); on(ps, "Int");
  } else if (c === 'M') {
    const id = r.i(), cap = r.i(), n = r.i(); let m = null; r.o("OK");
    for (let k = 0; k < n; k++) {
      if (!m) m = make(id); else { keep = true; try { builders[id](m); } finally { keep = false; } }
      on($.call(m, "GetSizeInBytes$", []), "UInt32"); on($.call($.chk($.arr([m]), $.A(t.Message)), "GetPackedSize$", []), "Int");
      const d = fresh(0); $.call(m, "WriteBytes$data:tag", [d, false]); r.o(" "); r.oh(d.bytes);
      dumpers[id]($.call(classes[id], "FromBytes$_", [whole(Buffer.from(d.bytes))])); }
    dumpers[id](m);
  } else if (c === 'E') {""")
    w("    r.o('OK'); " + " ".join(f'on($.get($.get(t.{e.name}, "{n}"), "rawValue"), "{NATIVE[e.encoding]}");' for e in P.enums for n, _ in e.values))
    w("""  } else r.o('ERR cmd');
}
exports.cmd = c => {
  try { command(c); }
  catch (e) {
    r.cut(0);
    if (e instanceof S.Trap || e instanceof S.CE) r.o("PANIC " + e.message.replace(/[\\r\\n]+| # /g, " "));
    else if (e instanceof S.SwErr) r.o("ERR thrown");
    else if (String(e && e.message).startsWith("HARNESS")) throw e;
    else r.o("SKIP " + String(e && e.message).replace(/[\\r\\n]+| # /g, " ").slice(0, 300));
  }
};""")
    return w.text()
