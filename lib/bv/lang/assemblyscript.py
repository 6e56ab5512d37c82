"""AssemblyScript has no compiler here: asrt/emu.js works out the types of the generated code as the AssemblyScript compiler does and
rewrites it, with every conversion made explicit, to JavaScript."""
import json, os, shutil
from .base import Lang, W
from .ts import NODE, RUNTIME, INDEP

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "asrt")


class AssemblyScript(Lang):
    name = "assemblyscript"
    cli_name = "assemblyscript"
    ext = ".ts"

    def write_sources(self):
        self.put("rt.ts", RUNTIME)
        shutil.copy(os.path.join(HERE, "asrt.js"), self.dir)
        self.put("main.js", 'const { serve } = require("./rt");\nserve({' + ", ".join(f'"{p}": require("./h_{p}").cmd' for p in self.protos) + "});\n")
        for p, proto in self.protos.items():
            self.put(f"{p}.ts", self.code[p])
            self.put(f"h_{p}.js", adapter(p, proto))

    def node(self):
        return "/usr/local/bin/node" if os.path.exists("/usr/local/bin/node") else "node"

    def emulate(self, pids):
        return self.sh([self.node(), os.path.join(HERE, "emu.js"), self.dir] + [os.path.join(self.dir, p + ".ts") for p in pids])

    def compile(self):
        rc, out = self.sh([NODE + "/.bin/esbuild", "rt.ts", "--platform=node", "--format=cjs", "--outfile=rt.js", "--log-level=error"])
        if rc:
            return False, out
        rc, out = self.emulate(list(self.protos))
        if rc == 1 and self.pids_in(out):
            return False, out
        if rc:                      # the emulator gave up: leave out what it cannot digest
            for p in list(self.protos):
                rc, out = self.emulate([p])
                if rc and (rc != 1 or not self.pids_in(out)):
                    self.skipped[p] = out[-300:]
                    del self.protos[p]
                elif rc:
                    return False, out
            self.put("main.js", 'const { serve } = require("./rt");\nserve({' + ", ".join(f'"{p}": require("./h_{p}").cmd' for p in self.protos) + "});\n")
        self.exe = os.path.join(self.dir, "main.js")
        return True, ""

    def command(self):
        return [self.node(), "--max-old-space-size=2048", self.exe]


def adapter(pid, P):
    w = W("  ")
    w('const r = require("./rt"), A = require("./asrt");')
    w(f'const q = require("./{pid}");')

    def build(t, old=None):
        k = P.kind(t)
        if k == "num":
            return {"float": "r.f()", "double": "r.d()", "bool": "(r.i() !== 0)", "uint64": "r.big()", "int64": "r.big()"}.get(t, "r.i()")
        if k == "string":
            return "r.s()"
        if k == "enum":
            return f"be_{t}()"
        return f"b_{t}(keep && {old} || new q.{t}())" if old else f"b_{t}(new q.{t}())"

    def dump(t, x):
        k = P.kind(t)
        if k == "num":
            return {"float": "r.of", "double": "r.od", "bool": "r.obool", "uint64": "r.onb", "int64": "r.onb"}.get(t, "r.on") + f"({x});"
        if k == "string":
            return f"r.os({x});"
        if k == "enum":
            return f"de_{t}({x});"
        return f"d_{t}({x});"

    for e in P.enums:
        w(f"const e_{e.name} = [" + ", ".join(f"q.{e.name}.{n}" for n, _ in e.values) + "];")
        w(f"function be_{e.name}() {{ return e_{e.name}[r.i()]; }}")
        w(f"function de_{e.name}(v) {{ const k = e_{e.name}.indexOf(v); r.o(k >= 0 ? ' ' + k : v === q.{e.name}._Unknown ? ' ?unknown' : ' ?' + v); }}")
    w("let keep = false;       // assign into the message and the lists that are there")
    for s in P.structs + P.messages:
        with w.block(f"function b_{s.name}(v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"{{ const n = r.i(); const l = keep ? v.{m.name} : []; for (let k = 0; k < n; k++) l[k] = {build(m.type, 'l[k]')}; l.length = n; v.{m.name} = l; }}")
                else:
                    w(f"v.{m.name} = {build(m.type, 'v.' + m.name)};")
            w("return v;")
        with w.block(f"function d_{s.name}(v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"r.on(v.{m.name}.length); for (let k = 0; k < v.{m.name}.length; k++) {{ {dump(m.type, f'v.{m.name}[k]')} }}")
                else:
                    w(dump(m.type, f"v.{m.name}"))
    w("const classes = [" + ", ".join(f"q.{s.name}" for s in P.messages) + "];")
    w("const builders = [" + ", ".join(f"b_{s.name}" for s in P.messages) + "];")
    w("const dumpers = [" + ", ".join(f"d_{s.name}" for s in P.messages) + "];")
    def change(x, t):
        k = P.kind(t)
        return {"string": '"changed"', "enum": f"q.{t}.{P.enum(t).values[-1][0]}" if k == "enum" else ""}.get(k) or {"bool": "true", "uint64": "1n", "int64": "1n"}.get(t, "1")

    for s in P.structs + P.messages:
        with w.block(f"function c_{s.name}(v) {{"):          # change every member in place
            for m in s.members:
                x, k = f"v.{m.name}", P.kind(m.type)
                if m.is_list:
                    w(f"for (let k = 0; k < {x}.length; k++) {{ " + (f"c_{m.type}({x}[k]);" if k == "struct" else f"{x}[k] = {change(x, m.type)};") + " }")
                    w(f"{x}.push({f'new q.{m.type}()' if k == 'struct' else change(x, m.type)});")
                elif k == "struct":
                    w(f"c_{m.type}({x});")
                else:
                    w(f"{x} = {change(x, m.type)};")
    w("const changers = [" + ", ".join(f"c_{s.name}" for s in P.messages) + "];")
    w("function make(mid) { return builders[mid](new classes[mid]()); }")
    w("function mid(m) { return classes.findIndex(c => m instanceof c); }")
    w("""function view(n, lead) { const a = new Uint8Array(lead + n + 9); a.fill(0xAA); return new A.DataView(a.buffer, lead, n); }
function reader(b, off, lead) { const v = view(b.length, lead); r.inside(v).set(b); const da = new q.DataAccess(v); da.currentOffset = off; return [v, da]; }
function same(a, b, what) { if (a !== b) throw new Error("HARNESS " + what + " differs: " + a + " / " + b); }
function next(id, da) { return classes[id].fromBytesDA(da); }
function one(id, b) { return classes[id].fromBytes(reader(b, 0, 3)[0]); }
@INDEP@
exports.cmd = function (c) {
  if (c === 'W') {
    const off = r.i(), cap = r.i(), n = r.i(); const v = view(cap, off % 2 ? 7 : 0); const da = new q.DataAccess(v); da.currentOffset = off;
    const st = []; const single = n === 1 && off === 0; let alt = null, ok = true, okAlt = true;
    for (let k = 0; k < n; k++) { const id = r.i(), tag = r.i(); const m = make(id); st.push([m.getSizeInBytes(), m.getMessageType()]);
      ok = m.writeBytesDA(da, (tag & 1) !== 0) && ok;
      if (single) { alt = view(cap, 3); okAlt = m.writeBytes(alt, (tag & 1) !== 0); } }
    if (!r.outsideClean(v)) throw new Error("HARNESS wrote outside the view");
    if (alt && !r.outsideClean(alt)) throw new Error("HARNESS wrote outside the DataView");
    if (alt && (ok !== okAlt || Buffer.compare(Buffer.from(r.inside(alt)), Buffer.from(r.inside(v))) !== 0)) throw new Error("HARNESS writeBytes writes other bytes than writeBytesDA");
    if (ok !== true) { r.o("ERR " + ok); return; }
    r.o("OK " + da.currentOffset + " "); r.oh(r.inside(v)); for (const [a, b] of st) { r.on(a); r.on(b); }
  } else if (c === 'R') {
    const off = r.i(), n = r.i(); const mids = []; for (let k = 0; k < n; k++) mids.push(r.i());
    const b = r.hex(); const [v, da] = reader(b, off, off % 2 ? 7 : 0);
    const l = []; for (const id of mids) { const m = classes[id].fromBytesDA(da); if (m === null) break; l.push(m); }
    if (n === 1 && off === 0) { const m = classes[mids[0]].fromBytes(v); same(m === null, l.length === 0, "fromBytes"); if (m) { const mk = r.mark(); dumpers[mids[0]](m); const x = r.since(mk); r.cut(mk); dumpers[mids[0]](l[0]); const y = r.since(mk); r.cut(mk); same(x, y, "fromBytes"); } }
    if (l.length < n) { r.o("ERR null"); return; }
    r.o("OK " + da.currentOffset); l.forEach((m, k) => dumpers[mids[k]](m));
  } else if (c === 'D') {
    const id = r.i(); const m = new classes[id](); const v = view(m.getSizeInBytes(), 0);
    if (m.writeBytes(v, false) !== true) { r.o("ERR false"); return; }
    r.o("OK " + m.getMessageType() + " "); r.oh(r.inside(v)); dumpers[id](m);
  } else if (c === 'P') {
    const off = r.i(), max = r.i(); const b = r.hex(); const [v, da] = reader(b, off, off % 2 ? 7 : 0);
    const l = q.ProcessRawBytesDA(da, max); r.o("OK " + (da.hasError ? -1 : da.currentOffset)); r.on(l.length); const mk = r.mark(); for (const m of l) { const id = mid(m); r.on(id); dumpers[id](m); }
    const past = new q.DataAccess(v); for (const k of [0, v.byteLength, v.byteLength + 3]) { past.currentOffset = k; same(past.isFinished(), k >= v.byteLength, "isFinished at " + k + " of " + v.byteLength); }
    if (off === 0) {
      const a = r.since(mk); r.cut(mk); for (const m of q.ProcessRawBytes(v, max)) { const id = mid(m); r.on(id); dumpers[id](m); } const b1 = r.since(mk); r.cut(mk); same(a, b1, "ProcessRawBytes");
      if (max !== 0) for (const m of [q.Message.fromBytes(v), q.Message.fromBytesDA(new q.DataAccess(v))]) {
        same(m === null, l.length === 0, "Message.fromBytes"); if (m === null) continue;
        const id = mid(m); r.on(id); dumpers[id](m); const x = r.since(mk); r.cut(mk); r.on(mid(l[0])); dumpers[mid(l[0])](l[0]); const y = r.since(mk); r.cut(mk); same(x, y, "Message.fromBytes"); }
      r.o(a); }
  } else if (c === 'U') {
    const off = r.i(); const b = r.hex().subarray(off); const v = view(b.length, off); r.inside(v).set(b);
    const l = q.UnpackMessages(v); r.o("OK -1"); r.on(l.length); for (const m of l) { const id = mid(m); r.on(id); dumpers[id](m); }
  } else if (c === 'K') {
    const off = r.i(), cap = r.i(), n = r.i(); const whole = view(cap, off % 2 ? 7 : 0); const v = new A.DataView(whole.buffer, whole.byteOffset + off, cap - off);
    const l = []; for (let k = 0; k < n; k++) l.push(make(r.i()));
    const ps = q.GetPackedSize(l); q.PackMessages(l, v);
    if (!r.outsideClean(whole)) throw new Error("HARNESS wrote outside the view");
    r.o("OK -1 "); r.oh(r.inside(whole)); r.on(ps);
  } else if (c === 'M') {
    const id = r.i(), cap = r.i(), n = r.i(); const v = view(cap, 3); const da = new q.DataAccess(v), rd = new q.DataAccess(v); let m = null; r.o("OK");
    for (let k = 0; k < n; k++) {
      if (!m) m = make(id); else { keep = true; try { builders[id](m); } finally { keep = false; } }
      r.on(m.getSizeInBytes()); r.on(q.GetPackedSize([m]));
      da.currentOffset = 0; same(m.writeBytesDA(da, false), true, "writeBytesDA"); r.o(" "); r.oh(r.inside(v).subarray(0, da.currentOffset));
      rd.currentOffset = 0; dumpers[id](classes[id].fromBytesDA(rd)); }
    dumpers[id](m);
  } else if (c === 'T') {
    const T = @TYPES@; r.o("OK"); let n = 0;
    for (const [s, m, t] of T) { n++; const x = (q.$shapes[s] || {})[m]; if (x !== undefined && !x.includes("?") && x !== t) r.o(" " + s + "." + m + ":type"); }
    r.on(n);
  } else if (c === 'I') { indep();
  } else if (c === 'E') {""".replace("@TYPES@", types(P)).replace("@INDEP@", INDEP.replace("@VIEW@", "view").replace("reader(Buffer.concat([ea, ea]))", "reader(Buffer.concat([ea, ea]), 0, 3)").replace("reader(Buffer.concat([eb, eb]))", "reader(Buffer.concat([eb, eb]), 0, 3)")))
    w("    r.o('OK'); " + " ".join(f"r.on(q.{e.name}.{n});" for e in P.enums for n, _ in e.values))
    w("  } else r.o('ERR cmd');\n};")
    return w.text()


AT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64", "string": "string"}


def types(P):
    return json.dumps([[s.name, m.name, ("[%s]" if m.is_list else "%s") % AT.get(m.type, m.type)] for s in P.structs + P.messages for m in s.members])
