import os, json
from .base import Lang, W

NODE = "/opt/veriftools/node/node_modules"

RUNTIME = r'''
import * as fs from "fs";
let w: string[] = []; let wp = 0; let ob: string[] = [];
export function t(): string { return w[wp++]; }
export function i(): number { return parseInt(t(), 10); }
export function big(): bigint { return BigInt(t()); }
const cv = new DataView(new ArrayBuffer(8));
export function f(): number { cv.setUint32(0, parseInt(t(), 16)); return cv.getFloat32(0); }
export function d(): number { const h = t(); cv.setUint32(0, parseInt(h.slice(0, 8), 16)); cv.setUint32(4, parseInt(h.slice(8), 16)); return cv.getFloat64(0); }
export function s(): string { return Buffer.from(t().slice(1), "hex").toString("utf8"); }
export function hex(): Uint8Array { const h = t(); return h === "-" ? new Uint8Array(0) : new Uint8Array(Buffer.from(h, "hex")); }
export function o(x: string) { ob.push(x); }
export function on(v: any) {
  if (typeof v === "number" && !Number.isInteger(v)) { o(" !" + v); return; }
  if (typeof v !== "number" && typeof v !== "bigint") { o(" !" + typeof v); return; }
  o(" " + (Object.is(v, -0) ? "0" : String(v))); }
export function onb(v: any) { if (typeof v !== "bigint") { o(" !" + typeof v); return; } o(" " + v); }
export function obool(v: any) { o(v === true ? " 1" : v === false ? " 0" : " !" + typeof v); }
export function of(v: any) { if (typeof v !== "number") { o(" !" + typeof v); return; } cv.setFloat32(0, v);
  if (Number.isNaN(v)) { o(" 7fc00000"); return; } // the engine may keep a payload or not
  if (cv.getFloat32(0) !== v) { o(" !inexact"); return; }
  o(" " + (cv.getUint32(0)).toString(16).padStart(8, "0")); }
export function od(v: any) { if (typeof v !== "number") { o(" !" + typeof v); return; } if (Number.isNaN(v)) { o(" 7ff8000000000000"); return; } cv.setFloat64(0, v); o(" " + cv.getUint32(0).toString(16).padStart(8, "0") + cv.getUint32(4).toString(16).padStart(8, "0")); }
export function os(v: any) { if (typeof v !== "string") { o(" !" + typeof v); return; } if (!(v as any).isWellFormed()) { o(" s!surrogate"); return; } o(" s" + Buffer.from(v, "utf8").toString("hex")); }
export function oh(b: Uint8Array) { o(b.length === 0 ? "-" : Buffer.from(b).toString("hex")); }
// a view of n bytes inside a larger buffer: `lead` bytes before it, 9 after it
export function view(n: number, lead: number): DataView { const a = new Uint8Array(lead + n + 9); a.fill(0xAA); return new DataView(a.buffer, lead, n); }
export function outsideClean(v: DataView): boolean { const a = new Uint8Array(v.buffer); for (let k = 0; k < a.length; k++) if ((k < v.byteOffset || k >= v.byteOffset + v.byteLength) && a[k] !== 0xAA) return false; return true; }
export function inside(v: DataView): Uint8Array { return new Uint8Array(v.buffer, v.byteOffset, v.byteLength); }
export const mark = () => ob.length;
export const since = (m: number) => ob.slice(m).join("");
export const cut = (m: number) => { ob.length = m; };
// the lines of a file of type assertions that do not hold
export function mistyped(name: string): string[] {
  const ts = eval("require")("@NODE@/typescript"); const f = __dirname + "/" + name + ".ts";
  const p = ts.createProgram([f], { noEmit: true, strict: true, target: ts.ScriptTarget.ES2021, module: ts.ModuleKind.ES2020, moduleResolution: ts.ModuleResolutionKind.Bundler, types: [], lib: ["lib.es2021.d.ts", "lib.dom.d.ts"] });
  const sf = p.getSourceFile(f); const lines = sf.text.split("\n");
  return [...p.getSyntacticDiagnostics(sf), ...p.getSemanticDiagnostics(sf)].map((d: any) => { const l = lines[sf.getLineAndCharacterOfPosition(d.start).line]; return l.includes("// ") ? l.split("// ")[1] : "HARNESS:" + String(d.messageText).replace(/\s+/g, "_"); });
}
export type Cmd = (c: string) => void;
export function serve(table: Record<string, Cmd>) {
  let rest = ""; const chunk = Buffer.alloc(1 << 20);
  const dec = new (require("string_decoder").StringDecoder)("utf8");
  const one = (line: string) => {
    w = line.split(" ").filter(x => x.length); wp = 0; ob = [];
    try { const c = t(); const pid = t(); table[pid](c); }
    catch (e: any) { ob = ["ERR " + (e && e.name) + " " + String(e && e.message).replace(/[\r\n]+/g, " ").replace(/ # /g, " ")]; }
    const buf = Buffer.from(ob.join("") + "\n"); let p = 0;
    while (p < buf.length) { try { p += fs.writeSync(1, buf, p); } catch (e: any) { if (e.code !== "EAGAIN") throw e; } }
  };
  for (;;) {
    const n = fs.readSync(0, chunk, 0, chunk.length, null);
    if (n <= 0) break;
    rest += dec.write(chunk.subarray(0, n));
    const lines = rest.split("\n"); rest = lines.pop()!;
    for (const l of lines) one(l);
  }
  if (rest.length) one(rest);
}
'''


INDEP = r"""function enc(m) { const v = @VIEW@(m.getSizeInBytes(), 0); m.writeBytes(v, false); return Buffer.from(r.inside(v)); }
function again(id, m, want) { let bad = 0;
  try { if (Buffer.compare(enc(one(id, want)), want)) bad++; } catch (e) { bad++; }
  try { if (Buffer.compare(enc(m), want) || m.getSizeInBytes() !== want.length) bad++; } catch (e) { bad++; }
  return bad; }
function indep() {
  const ia = r.i(), a = make(ia), ib = r.i(), b = make(ib); let bad = 0;
  const ea = enc(a), eb = enc(b), da = ea.toString("hex") || "-", db = eb.toString("hex") || "-";
  const [va, ra] = reader(Buffer.concat([ea, ea])), [vb, rb] = reader(Buffer.concat([eb, eb])); const l = [];
  for (let k = 0; k < 4; k++) l.push(next(k % 2 ? ib : ia, k % 2 ? rb : ra));
  changers[ia](l[0]); changers[ib](l[1]); r.inside(va).fill(0x55); r.inside(vb).fill(0x55);
  changers[ia](new classes[ia]()); changers[ib](new classes[ib]());
  bad += again(ia, a, ea) + again(ib, b, eb);
  r.o("OK " + da + " "); r.oh(enc(a)); r.o(" "); r.oh(enc(new classes[ia]())); r.o(" " + db + " "); r.oh(enc(b)); r.o(" "); r.oh(enc(new classes[ib]()));
  dumpers[ia](a); dumpers[ib](b); dumpers[ia](l[2]); dumpers[ib](l[3]); r.on(bad);
}"""


class TypeScript(Lang):
    name = "typescript"
    cli_name = "typescript"
    ext = ".ts"
    use_namespace = frozenset()      # protocols generated with --typescript-use-namespace

    def write_sources(self):
        self.put("rt.ts", RUNTIME.replace("@NODE@", NODE))
        imp = "".join(f'import {{ cmd as cmd_{p} }} from "./h_{p}";\n' for p in self.protos)
        self.put("main.ts", imp + 'import { serve } from "./rt";\nserve({' + ", ".join(f'"{p}": cmd_{p}' for p in self.protos) + "});\n")
        for p, proto in self.protos.items():
            self.put(f"{p}.ts", self.code[p] + (f"\nexport {{ {proto.ns} }};\n" if p in self.use_namespace else ""))
            self.put(f"h_{p}.ts", adapter(p, proto, proto.ns if p in self.use_namespace else None))
            self.put(f"t_{p}.ts", types(p, proto, proto.ns if p in self.use_namespace else None))

    def compile(self):
        rc, out = self.sh([NODE + "/.bin/esbuild", "main.ts", "--bundle", "--platform=node", "--format=cjs", "--outfile=harness.js", "--log-level=error", "--sourcemap=inline"])
        if rc:
            return False, out
        self.exe = os.path.join(self.dir, "harness.js")
        return True, out

    def command(self):
        return ["/usr/local/bin/node" if os.path.exists("/usr/local/bin/node") else "node", "--max-old-space-size=2048", self.exe]


def adapter(pid, P, ns=None):
    w = W("  ")
    w("// @ts-nocheck")
    w('import * as r from "./rt";')
    if ns:
        w(f'import {{ {ns} as q }} from "./{pid}";')
    else:
        w(f'import * as q from "./{pid}";')

    def build(t, old=None):
        k = P.kind(t)
        if k == "num":
            return {"float": "r.f()", "double": "r.d()", "bool": "(r.i() !== 0)", "uint64": "r.big()", "int64": "r.big()"}.get(t, "r.i()")
        if k == "string":
            return "r.s()"
        if k == "enum":
            return f"be_{t}()"
        return f"b_{t}(keep && {old} || new q.{t}())" if old else f"b_{t}(new q.{t}())"

    def dump(t, x):
        k = P.kind(t)
        if k == "num":
            return {"float": "r.of", "double": "r.od", "bool": "r.obool", "uint64": "r.onb", "int64": "r.onb"}.get(t, "r.on") + f"({x});"
        if k == "string":
            return f"r.os({x});"
        if k == "enum":
            return f"de_{t}({x});"
        return f"d_{t}({x});"

    w("let keep = false;       // assign into the message and the lists that are there")
    for e in P.enums:
        w(f"function be_{e.name}() {{ return [" + ", ".join(f"q.{e.name}.{n}" for n, _ in e.values) + "][r.i()]; }")
        w(f"function de_{e.name}(v) {{ const a = [" + ", ".join(f"q.{e.name}.{n}" for n, _ in e.values) + "]; const k = a.indexOf(v); r.o(k < 0 ? ' ?' + v : ' ' + k); }")
    for s in P.structs + P.messages:
        with w.block(f"function b_{s.name}(v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"{{ const n = r.i(); const l = keep ? v.{m.name} : []; for (let k = 0; k < n; k++) l[k] = {build(m.type, 'l[k]')}; l.length = n; v.{m.name} = l; }}")
                else:
                    w(f"v.{m.name} = {build(m.type, f'v.{m.name}')};")
            w("return v;")
        with w.block(f"function d_{s.name}(v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"r.on(v.{m.name}.length); for (let k = 0; k < v.{m.name}.length; k++) {{ {dump(m.type, f'v.{m.name}[k]')} }}")
                else:
                    w(dump(m.type, f"v.{m.name}"))
    names = "[" + ", ".join(f"q.{s.name}" for s in P.messages) + "]"
    w(f"const classes = {names};")
    w("const builders = [" + ", ".join(f"b_{s.name}" for s in P.messages) + "];")
    w("const dumpers = [" + ", ".join(f"d_{s.name}" for s in P.messages) + "];")
    def change(x, t):
        k = P.kind(t)
        return {"string": '"changed"', "enum": f"q.{t}.{P.enum(t).values[-1][0]}" if k == "enum" else ""}.get(k) or {"bool": "true", "uint64": "1n", "int64": "1n"}.get(t, "1")

    for s in P.structs + P.messages:
        with w.block(f"function c_{s.name}(v) {{"):          # change every member in place
            for m in s.members:
                x, k = f"v.{m.name}", P.kind(m.type)
                if m.is_list:
                    w(f"for (let k = 0; k < {x}.length; k++) {{ " + (f"c_{m.type}({x}[k]);" if k == "struct" else f"{x}[k] = {change(x, m.type)};") + " }")
                    w(f"{x}.push({f'new q.{m.type}()' if k == 'struct' else change(x, m.type)});")
                elif k == "struct":
                    w(f"c_{m.type}({x});")
                else:
                    w(f"{x} = {change(x, m.type)};")
    w("const changers = [" + ", ".join(f"c_{s.name}" for s in P.messages) + "];")
    w("function make(mid) { return builders[mid](new classes[mid]()); }")
    w("function mid(m) { return classes.findIndex(c => m instanceof c); }")
    w(INDEP.replace("@VIEW@", "r.view"))
    w("""function reader(b) { const v = r.view(b.length, 3); r.inside(v).set(b); return [v, new q.DataAccess(v)]; }
function next(id, da) { return classes[id].fromBytes(da); }
function one(id, b) { return classes[id].fromBytes(reader(b)[0]); }
export function cmd(c) {
  if (c === 'W') {
    const off = r.i(), cap = r.i(), n = r.i(); const v = r.view(cap, off % 2 ? 7 : 0); const da = new q.DataAccess(v); da.currentOffset = off;
    const st = []; const single = n === 1 && off === 0; let alt = null;
    for (let k = 0; k < n; k++) { const id = r.i(), tag = r.i(); const m = make(id); st.push([m.getSizeInBytes(), m.getMessageType()]);
      m.writeBytes(da, (tag & 1) !== 0);
      if (single) { alt = r.view(cap, 3); m.writeBytes(alt, (tag & 1) !== 0); } }
    if (!r.outsideClean(v)) throw new Error("HARNESS wrote outside the view");
    if (alt && !r.outsideClean(alt)) throw new Error("HARNESS wrote outside the DataView");
    if (alt && Buffer.compare(Buffer.from(r.inside(alt)), Buffer.from(r.inside(v))) !== 0) throw new Error("HARNESS DataView entry point writes other bytes");
    r.o("OK " + da.currentOffset + " "); r.oh(r.inside(v)); for (const [a, b] of st) { r.on(a); r.on(b); }
  } else if (c === 'R') {
    const off = r.i(), n = r.i(); const mids = []; for (let k = 0; k < n; k++) mids.push(r.i());
    const b = r.hex(); const v = r.view(b.length, off % 2 ? 7 : 0); r.inside(v).set(b); const da = new q.DataAccess(v); da.currentOffset = off;
    const l = mids.map(id => classes[id].fromBytes(da));
    r.o("OK " + da.currentOffset); const mk = r.mark(); l.forEach((m, k) => dumpers[mids[k]](m));
    if (n === 1 && off === 0) {
      const a = r.since(mk); r.cut(mk);
      dumpers[mids[0]](classes[mids[0]].fromBytes(v)); const b1 = r.since(mk); r.cut(mk);
      const ab = new Uint8Array(b).buffer; dumpers[mids[0]](classes[mids[0]].fromBytes(ab)); const b2 = r.since(mk); r.cut(mk);
      if (a !== b1) throw new Error("HARNESS DataView entry point differs"); if (a !== b2) throw new Error("HARNESS ArrayBuffer entry point differs");
      r.o(a);
    }
  } else if (c === 'D') {
    const id = r.i(); const m = new classes[id](); const v = r.view(m.getSizeInBytes(), 0); m.writeBytes(v, false);
    r.o("OK " + m.getMessageType() + " "); r.oh(r.inside(v)); dumpers[id](m);
    const C = q.MessageTypeMap.get(m.getMessageType()); const x = new C(); if (mid(x) !== id) throw new Error("HARNESS MessageTypeMap");
  } else if (c === 'P' || c === 'U') {
    const off = r.i(); const max = c === 'P' ? r.i() : 0; const b = r.hex(); const v = r.view(b.length, off % 2 ? 7 : 0); r.inside(v).set(b);
    const da = new q.DataAccess(v); da.currentOffset = off;
    const go = (x) => c === 'P' ? q.ProcessRawBytes(x, max) : q.UnpackMessages(x);
    const l = go(da); r.o("OK " + da.currentOffset); r.on(l.length); const mk = r.mark(); for (const m of l) { const id = mid(m); r.on(id); dumpers[id](m); }
    if (off === 0) { const a = r.since(mk); r.cut(mk); for (const m of go(v)) { const id = mid(m); r.on(id); dumpers[id](m); } const b1 = r.since(mk); r.cut(mk);
      if (a !== b1) throw new Error("HARNESS DataView entry point differs"); r.o(a); }
  } else if (c === 'K') {
    const off = r.i(), cap = r.i(), n = r.i(); const v = r.view(cap, off % 2 ? 7 : 0); const da = new q.DataAccess(v); da.currentOffset = off;
    const l = []; for (let k = 0; k < n; k++) l.push(make(r.i()));
    const ps = q.GetPackedSize(l); q.PackMessages(l, da);
    if (!r.outsideClean(v)) throw new Error("HARNESS wrote outside the view");
    if (off === 0) { const alt = r.view(cap, 3); q.PackMessages(l, alt); if (!r.outsideClean(alt)) throw new Error("HARNESS wrote outside the DataView");
      if (Buffer.compare(Buffer.from(r.inside(alt)), Buffer.from(r.inside(v))) !== 0) throw new Error("HARNESS DataView entry point writes other bytes"); }
    r.o("OK " + da.currentOffset + " "); r.oh(r.inside(v)); r.on(ps);
  } else if (c === 'M') {
    const id = r.i(), cap = r.i(), n = r.i(); const v = r.view(cap, 3); const da = new q.DataAccess(v), rd = new q.DataAccess(v); let m = null; r.o("OK");
    for (let k = 0; k < n; k++) {
      if (!m) m = make(id); else { keep = true; try { builders[id](m); } finally { keep = false; } }
      r.on(m.getSizeInBytes()); r.on(q.GetPackedSize([m]));
      da.currentOffset = 0; m.writeBytes(da, false); r.o(" "); r.oh(r.inside(v).slice(0, da.currentOffset));
      rd.currentOffset = 0; dumpers[id](classes[id].fromBytes(rd)); }
    dumpers[id](m);
  } else if (c === 'T') {
    r.o("OK"); for (const x of r.mistyped("t_" + pid)) r.o(" " + x); r.on(TYPES);
  } else if (c === 'I') { indep();
  } else if (c === 'E') {""")
    w("    r.o('OK'); " + " ".join(f"r.on(q.{e.name}.{n});" for e in P.enums for n, _ in e.values))
    w("  } else r.o('ERR cmd');\n}")
    w(f'const pid = "{pid}";')
    w(f"const TYPES = {sum(len(s.members) for s in P.structs + P.messages)};")
    return w.text()


def types(pid, P, ns=None):
    """assertions about static types, one per line: the line says which member"""
    T = {"bool": "boolean", "string": "string", "int64": "bigint", "uint64": "bigint"}
    out = [f'import {{ {ns} as q }} from "./{pid}";' if ns else f'import * as q from "./{pid}";',
           "type Is<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;"]
    for s in P.structs + P.messages:
        for m in s.members:
            t = T.get(m.type, "number") if P.kind(m.type) in ("num", "string") else "q." + m.type
            out.append(f'export const x{len(out)}: Is<q.{s.name}["{m.name}"], {t}{"[]" if m.is_list else ""}> = true; // {s.name}.{m.name}:type')
    return "\n".join(out) + "\n"
