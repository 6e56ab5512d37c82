// Swift's integers, value types and the parts of its standard library and Foundation that generated code uses
"use strict";
const names = new Map();
const jm = mg => { let r = names.get(mg); if (r === undefined) { r = mg.replace(/[^\w$]/g, x => x === ":" ? "$$" : x === "{" || x === "}" ? "" : "$" + x.codePointAt(0).toString(16)); names.set(mg, r); } return r; };
class Trap extends Error {}             // the program is stopped
class CE extends Error {}               // the compiler would have refused
class Unsup extends Error {}            // not emulated
class SwErr extends Error { constructor(v) { super("thrown"); this.value = v; } }
const ce = w => { throw new CE("compile error: " + w); };
const trap = w => { throw new Trap("Fatal error: " + w); };
const unsup = w => { throw new Unsup(w); };

// ---- numbers
class I { constructor(t, v) { this.t = t; this.v = v; } }
class F { constructor(t, v) { this.t = t; this.v = v; } }
class Lit { constructor(v) { this.v = v; } }
class FLit { constructor(v) { this.v = v; } }
class Desc { constructor(k, name) { this.k = k; this.name = name; } }
const T = {};
for (const [n, bits, signed] of [["Int8", 8, 1], ["UInt8", 8, 0], ["Int16", 16, 1], ["UInt16", 16, 0], ["Int32", 32, 1], ["UInt32", 32, 0], ["Int64", 64, 1], ["UInt64", 64, 0], ["Int", 64, 1], ["UInt", 64, 0]]) {
  const d = T[n] = new Desc("int", n);
  d.bits = bits; d.signed = !!signed;
  d.lo = signed ? -(1n << BigInt(bits - 1)) : 0n; d.hi = (1n << BigInt(signed ? bits - 1 : bits)) - 1n;
}
for (const n of ["Float", "Double"]) { T[n] = new Desc("float", n); T[n].bits = n === "Float" ? 32 : 64; }
for (const n of ["Bool", "String", "Data", "NSMutableData", "NSData", "Void", "Array", "MemoryLayout"]) T[n] = new Desc(n, n);
const Any = new Desc("any", "Any");
const int = (t, v) => v < T[t].lo || v > T[t].hi ? trap(`${v} is not representable as ${t}`) : new I(t, v);
const Int = v => new I("Int", BigInt(v));
const num = v => v instanceof Lit ? Number(v.v) : v instanceof I ? v.t === "Int" ? Number(v.v) : ce(`cannot convert value of type '${v.t}' to expected type 'Int'`) : ce("expected an Int");
const cv = new DataView(new ArrayBuffer(8));

// ---- values
class Obj { }
class Struct { }
class Enum { }
class Imp { constructor(n) { this.n = n; } }
class Arr { constructor(l, el) { this.l = l; this.el = el || null; } }
class Rng { constructor(lo, hi, t) { this.lo = lo; this.hi = hi; this.t = t; } }   // half open, BigInt
class Tup { constructor(l) { this.l = l; } }
class Data {
  constructor(b, start = 0, end = b.length) { this.b = b; this.start = start; this.end = end; }     // indices start ..< end of b
  get bytes() { return this.b.subarray(this.start, this.end); }
}
class NSMutableData { constructor(b) { this.b = Buffer.alloc(64); this.n = 0; if (b) this.add(b); }
  add(x) { if (this.n + x.length > this.b.length) { const b = Buffer.alloc(Math.max(this.b.length * 2, this.n + x.length)); this.b.copy(b, 0, 0, this.n); this.b = b; } this.b.set(x, this.n); this.n += x.length; }
  get bytes() { return this.b.subarray(0, this.n); } }
class Ptr { constructor(get, len, off = 0) { this.get = get; this.len = len; this.off = off; } }      // get() -> bytes
class Buf { constructor(b) { this.b = b; } }                                                            // UnsafeRawBufferPointer
class Ref { constructor(get, set) { this.get = get; this.set = set; } }
const dec = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
const utf8 = s => Buffer.from(s, "utf8");
const seg = new Intl.Segmenter();

function kind(v) {
  if (v === null || v === undefined) return "nil";
  if (v instanceof I || v instanceof F) return v.t;
  if (v instanceof Lit) return "an integer literal";
  if (typeof v === "boolean") return "Bool";
  if (typeof v === "string") return "String";
  if (v instanceof Arr) return "[" + (v.el ? v.el.name || v.el.$name : "?") + "]";
  return v.constructor && (v.constructor.$name || v.constructor.name) || typeof v;
}
function toFloat(t, v) { return new F(t, t === "Float" ? Math.fround(v) : v); }
function bytesOf(v) {
  if (v instanceof I) { cv.setBigInt64(0, BigInt.asIntN(64, v.v), true); return new Uint8Array(cv.buffer.slice(0, T[v.t].bits / 8)); }
  if (v instanceof F) { if (v.bits !== undefined) return v.bits; if (v.t === "Float") { cv.setFloat32(0, v.v, true); return new Uint8Array(cv.buffer.slice(0, 4)); } cv.setFloat64(0, v.v, true); return new Uint8Array(cv.buffer.slice(0, 8)); }
  if (typeof v === "boolean") return Uint8Array.of(v ? 1 : 0);
  if (v instanceof Enum && v.constructor.$raw) return unsup("bytes of an enum");
  unsup("bytes of " + kind(v));
}
function fromBytes(t, b) {
  const d = T[t];
  if (b.length < d.bits / 8) trap("load beyond the end");
  const v = new Uint8Array(8); v.set(b.subarray(0, d.bits / 8));
  const w = new DataView(v.buffer);
  if (d.k === "float") { const r = new F(t, t === "Float" ? w.getFloat32(0, true) : w.getFloat64(0, true)); r.bits = v.slice(0, d.bits / 8); return r; }
  const x = w.getBigUint64(0, true);
  return new I(t, d.signed ? BigInt.asIntN(d.bits, x) : x);
}

function make() {
  const $ = { I, F, Data, NSMutableData, Arr, T, Any, Obj, Struct, Enum, SwErr, Trap, CE, Unsup, ce, trap, unsup };
  const ext = { Array: {}, Data: {}, String: {} };
  const arrs = new Map(), opts = new Map();
  $.A = el => { let d = arrs.get(el); if (!d) { d = new Desc("arr", "[" + (el.name || el.$name) + "]"); d.el = el; arrs.set(el, d); } return d; };
  $.O = el => { let d = opts.get(el); if (!d) { d = new Desc("opt", (el.name || el.$name) + "?"); d.el = el; opts.set(el, d); } return d; };
  $.lit = v => new Lit(v);
  $.flit = v => new FLit(v);
  $.imp = n => new Imp(n);
  $.interp = s => s;
  $.any = new Desc("anything", "_");
  $.int = int;
  $.ref = (g, s) => new Ref(g, s);
  $.arr = l => new Arr(l, null);
  $.tup = l => new Tup(l);
  $.part = (t, i, n) => t instanceof Tup && t.l.length === n ? t.l[i] : ce("tuple pattern for " + kind(t));
  $.typeOf = v => v instanceof Lit || v instanceof FLit ? descOf($.def(v)) : descOf(v);
  $.b = v => typeof v === "boolean" ? v : ce(`cannot convert value of type '${kind(v)}' to expected condition type 'Bool'`);
  $.not = v => !$.b(v);
  $.force = v => v === null || v === undefined ? trap("Unexpectedly found nil while unwrapping an Optional value") : v;
  $.nn = (v, f) => v === null || v === undefined ? f() : v;
  $.tryq = f => { try { return f(); } catch (e) { if (e instanceof SwErr) return null; throw e; } };
  $.tryf = f => { try { return f(); } catch (e) { if (e instanceof SwErr) trap("'try!' expression unexpectedly raised an error"); throw e; } };
  $.cp = v => v instanceof Struct ? v.$copy() : v instanceof Arr ? copyArr(v) : v;
  const copyArr = a => { const r = new Arr(a.l.length && (a.l[0] instanceof Struct || a.l[0] instanceof Arr) ? a.l.map($.cp) : a.l.slice(), a.el); return r; };
  $.def = v => v instanceof Lit ? int("Int", v.v) : v instanceof FLit ? new F("Double", v.v) : v === undefined ? ce("constant inferred to have type '()'") : v instanceof Arr && !v.el ? $.chk(v, $.A(Any)) : v;
  const descOf = v => v instanceof I || v instanceof F ? T[v.t] : typeof v === "boolean" ? T.Bool : typeof v === "string" ? T.String : v instanceof Arr ? $.A(v.el || Any) : v && v.constructor;
  $.same = (old, v) => {
    if (old === undefined || old === null) return $.def(v);
    if (old instanceof I || old instanceof F || typeof old === "boolean" || typeof old === "string" || old instanceof Struct || old instanceof Enum || old instanceof Arr) return $.chk(v, descOf(old));
    return v;
  };
  const isSub = (c, d) => { for (; c; c = Object.getPrototypeOf(c)) if (c === d) return true; return false; };
  $.chk = (v, t) => {
    const no = () => ce(`cannot convert value of type '${kind(v)}' to specified type '${t.name || t.$name}'`);
    if (typeof t === "function") {
      if (v instanceof t) return v;
      if (v instanceof Imp) return $.get(t, v.n);
      if (v === null || v === undefined) no();
      if (typeof v === "function" && t === v) return v;
      no();
    }
    switch (t.k) {
      case "any": return v instanceof Lit || v instanceof FLit ? $.def(v) : v;
      case "int":
        if (v instanceof Lit) return v.v < t.lo || v.v > t.hi ? ce(`integer literal '${v.v}' overflows when stored into '${t.name}'`) : new I(t.name, v.v);
        if (v instanceof Imp) return $.get(t, v.n);
        return v instanceof I && v.t === t.name ? v : no();
      case "float":
        if (v instanceof Lit || v instanceof FLit) return toFloat(t.name, Number(v.v));
        return v instanceof F && v.t === t.name ? v : no();
      case "Bool": return typeof v === "boolean" ? v : no();
      case "String": return typeof v === "string" ? v : no();
      case "Data": return v instanceof Data ? v : no();
      case "NSMutableData": return v instanceof NSMutableData ? v : no();
      case "NSData": return v instanceof NSMutableData ? v : no();
      case "opt": return v === null || v === undefined ? null : $.chk(v, t.el);
      case "arr":
        if (!(v instanceof Arr)) no();
        if (!v.el) { v.el = t.el; if (v.l.length) v.l = v.l.map(x => $.chk(x, t.el)); }
        else if (v.el !== t.el && t.el !== Any && !(typeof v.el === "function" && typeof t.el === "function" && isSub(v.el, t.el))) { if (v.el === Any && v.l.every(x => typeof t.el === "function" && x instanceof t.el)) return new Arr(v.l, t.el); no(); }
        return v;
      case "Void": return v;
      case "Array": return v;
    }
    unsup("type " + t.name);
  };
  // ---- operators
  const OPS = {
    "+": (a, b) => a + b, "-": (a, b) => a - b, "*": (a, b) => a * b, "/": (a, b) => b === 0n ? trap("Division by zero") : a / b, "%": (a, b) => b === 0n ? trap("Division by zero in remainder operation") : a % b,
    "&": (a, b) => a & b, "|": (a, b) => a | b, "^": (a, b) => a ^ b, "&+": (a, b) => a + b, "&-": (a, b) => a - b, "&*": (a, b) => a * b,
  };
  const CMP = { "<": (a, b) => a < b, ">": (a, b) => a > b, "<=": (a, b) => a <= b, ">=": (a, b) => a >= b, "==": (a, b) => a === b, "!=": (a, b) => a !== b };
  const wrap = (t, v) => T[t].signed ? BigInt.asIntN(T[t].bits, v) : BigInt.asUintN(T[t].bits, v);
  const equal = (a, b) => {
    if (a === null || a === undefined || b === null || b === undefined) return (a ?? null) === (b ?? null);
    if (a instanceof Imp && b instanceof Enum) a = $.get(b.constructor, a.n);
    if (b instanceof Imp && a instanceof Enum) b = $.get(a.constructor, b.n);
    if (a instanceof Enum && b instanceof Enum) return a.constructor === b.constructor ? a === b : ce("'==' of different enums");
    if (typeof a === "string" && typeof b === "string") return a.normalize("NFC") === b.normalize("NFC");
    if (typeof a === "boolean" && typeof b === "boolean") return a === b;
    if (a instanceof Data && b instanceof Data) return Buffer.compare(a.bytes, b.bytes) === 0;
    if (a instanceof Arr && b instanceof Arr) return a.l.length === b.l.length && a.l.every((x, i) => $.bin("==", x, b.l[i]));
    if (typeof a === "function" && typeof b === "function") return a === b;
    if (a instanceof Arr && b instanceof Data || a instanceof Data && b instanceof Arr) ce("'==' of Data and an array");
    ce(`binary operator '==' cannot be applied to operands of type '${kind(a)}' and '${kind(b)}'`);
  };
  $.bin = (op, a, b) => {
    const no = () => ce(`binary operator '${op}' cannot be applied to operands of type '${kind(a)}' and '${kind(b)}'`);
    if (op === "===" || op === "!==") return (a === b) === (op === "===");
    const ai = a instanceof I, bi = b instanceof I, al = a instanceof Lit, bl = b instanceof Lit;
    if ((ai || al) && (bi || bl)) {
      if (CMP[op]) {
        if (ai && bl && (b.v < T[a.t].lo || b.v > T[a.t].hi) || bi && al && (a.v < T[b.t].lo || a.v > T[b.t].hi)) ce(`integer literal overflows`);
        return CMP[op](a.v, b.v);
      }
      if (op === "<<" || op === ">>") {
        if (al) { if (bl) return new Lit(op === "<<" ? a.v << b.v : a.v >> b.v); a = int("Int", a.v); }
        let n = b.v; if (op === ">>") n = -n;
        if (n >= 128n) n = 128n; if (n <= -128n) n = -128n;
        return new I(a.t, wrap(a.t, n >= 0n ? a.v << n : a.v >> -n));
      }
      const f = OPS[op]; if (!f) unsup("operator " + op);
      if (al && bl) return new Lit(f(a.v, b.v));
      if (ai && bi && a.t !== b.t) no();
      const t = ai ? a.t : b.t;
      if (al && (a.v < T[t].lo || a.v > T[t].hi) || bl && (b.v < T[t].lo || b.v > T[t].hi)) ce(`integer literal overflows when stored into '${t}'`);
      const v = f(a.v, b.v);
      if (op[0] === "&" && op.length === 2) return new I(t, wrap(t, v));
      if (v < T[t].lo || v > T[t].hi) trap("arithmetic overflow: " + a.v + " " + op + " " + b.v + " in " + t);
      return new I(t, v);
    }
    const af = a instanceof F, bf = b instanceof F, afl = a instanceof FLit || al, bfl = b instanceof FLit || bl;
    if ((af || afl) && (bf || bfl)) {
      const x = Number(a.v), y = Number(b.v);
      if (af && bf && a.t !== b.t) no();
      if (CMP[op]) return CMP[op](x, y);
      const v = { "+": x + y, "-": x - y, "*": x * y, "/": x / y }[op];
      if (v === undefined) no();
      return af || bf ? toFloat(af ? a.t : b.t, v) : new FLit(v);
    }
    if (op === "==") return equal(a, b);
    if (op === "!=") return !equal(a, b);
    if (typeof a === "string" && typeof b === "string") { if (op === "+") return a + b; if (CMP[op]) return CMP[op](a, b); no(); }
    if (a instanceof Arr && b instanceof Arr && op === "+") return $.chk(new Arr(a.l.concat(b.l), null), $.A(a.el || b.el || Any));
    if (a instanceof Data && b instanceof Data && op === "+") return new Data(Buffer.concat([a.bytes, b.bytes]));
    if (a instanceof Ptr && (op === "+" || op === "-")) return new Ptr(a.get, a.len, a.off + (op === "+" ? num(b) : -num(b)));
    if (a === null || a === undefined || b === null || b === undefined) ce("value of optional type must be unwrapped");
    no();
  };
  $.un = (op, a) => {
    if (op === "-") { if (a instanceof Lit) return new Lit(-a.v); if (a instanceof FLit) return new FLit(-a.v); if (a instanceof I) return T[a.t].signed ? int(a.t, -a.v) : ce(`unary operator '-' on ${a.t}`); if (a instanceof F) return new F(a.t, -a.v); }
    if (op === "+") return a;
    if (op === "~") { if (a instanceof I) return new I(a.t, wrap(a.t, ~a.v)); if (a instanceof Lit) return new Lit(~a.v); }
    ce(`unary operator '${op}' on ${kind(a)}`);
  };
  $.range = (a, b, closed) => {
    if (a === undefined || b === undefined) return { part: true, a, b, closed };
    if (a instanceof Lit && b instanceof Lit) a = $.def(a), b = $.def(b);
    if (a instanceof Lit) a = $.chk(a, T[b.t] || ce("range of " + kind(b)));
    if (b instanceof Lit) b = $.chk(b, T[a.t] || ce("range of " + kind(a)));
    if (!(a instanceof I) || !(b instanceof I) || a.t !== b.t) ce(`range of '${kind(a)}' and '${kind(b)}'`);
    if (a.v > b.v) trap("Range requires lowerBound <= upperBound");
    return new Rng(a.v, closed ? b.v + 1n : b.v, a.t);
  };
  const LIMIT = 20000000n;
  $.iter = s => {
    if (s instanceof Arr) return s.l.slice();
    if (s instanceof Rng) return (function* () { for (let i = s.lo; i < s.hi; i++) yield new I(s.t, i); })();
    if (s instanceof Data) return [...s.bytes].map(x => new I("UInt8", BigInt(x)));
    if (s && s.stride) return s.stride;
    if (typeof s === "string") unsup("characters");
    if (s === null) ce("for-in over an optional");
    unsup("iteration over " + kind(s));
  };
  $.match = (v, p) => {
    if (p === $.any) return true;
    if (p instanceof Rng) return v instanceof I && v.v >= p.lo && v.v < p.hi;
    if (p && p.part) return (p.a === undefined || $.bin(">=", v, p.a)) && (p.b === undefined || $.bin(p.closed ? "<=" : "<", v, p.b));
    if (p instanceof Imp) { if (v instanceof Enum) return $.get(v.constructor, p.n) === v; unsup("pattern"); }
    if (v instanceof Enum && p instanceof Enum && v.constructor !== p.constructor) return false;
    return $.bin("==", v, p);
  };
  // ---- types
  $.type = (c, name, k, info) => { c.$name = name; c.$kind = k; c.$info = info; };
  $.cases = (c, raw, vals) => {
    c.$raw = raw; c.$cases = vals.map(([n, v]) => { const e = new c(); e.n = n; e.raw = raw ? new I(raw, BigInt(v)) : null; c["c_" + n] = e; return e; });
    c.$by = new Map(c.$cases.map(e => [e.raw ? e.raw.v : e.n, e]));
  };
  $.raw = (c, labels, args) => {
    if (labels !== "rawValue" || !c.$raw) ce(`'${c.$name}' cannot be constructed because it has no accessible initializer (${labels})`);
    return c.$by.get($.chk(args[0], T[c.$raw]).v) || null;
  };
  $.make = (c, labels, args) => {
    if (c instanceof Desc) return $.conv(c, labels, args);
    if (typeof c !== "function") ce("not a type");
    if (c.$kind === "enum") return $.raw(c, labels, args);
    const o = new c();
    const m = o["i_" + jm(labels)];
    if (m) { const r = m.apply(o, args); delete o.$ini; for (const n of c.$info.must) if (o["s_" + n] === undefined) ce(`return from initializer without initializing '${n}'`); return r; }
    if (c.$info.inits.length) ce(`no initializer of '${c.$name}' takes (${labels})`);
    if (c.$info.must.length && labels === "") ce(`missing argument for parameter '${c.$info.must[0]}' in call`);
    if (labels === "") return o;
    if (c.$kind === "struct") {
      const l = labels.split(":");
      let at = -1;
      l.forEach((n, i) => { const k = c.$info.memb.indexOf(n); if (k <= at) ce(`argument '${n}' in call to '${c.$name}'`); at = k; o.$ini = true; o["p_" + n] = args[i]; delete o.$ini; });
      for (const n of c.$info.must) if (!l.includes(n)) ce(`missing argument for parameter '${n}' in call`);
      return o;
    }
    ce(`no initializer of '${c.$name}' takes (${labels})`);
  };
  $.superInit = () => undefined;
  $.mut = (root, v) => root instanceof Struct || root instanceof Arr || root instanceof Data ? ce("cannot use mutating member on immutable value") : v;
  $.extend = (t, n, f) => { ext[t][n] = f; };
  // ---- conversions
  $.conv = (t, labels, args) => {
    const a = args[0];
    if (typeof t === "function") return $.make(t, labels, args);
    const no = () => ce(`no initializer of '${t.name}' takes (${labels}: ${args.map(kind)})`);
    if (t.k === "int") {
      if (labels === "") return new I(t.name, 0n);
      if (labels === "littleEndian") return $.chk(a, t);
      if (labels === "bigEndian") return swap($.chk(a, t));
      if (labels === "bitPattern") {
        if (a instanceof I && T[a.t].bits === t.bits && T[a.t].signed !== t.signed) return new I(t.name, wrap(t.name, a.v));
        if (a instanceof Lit) return new I(t.name, wrap(t.name, a.v));
        no();
      }
      if (labels === "_") {
        if (a instanceof Lit) return $.chk(a, t);
        if (a instanceof I) return a.v < t.lo || a.v > t.hi ? trap(`Not enough bits to represent the passed value (${a.v} as ${t.name})`) : new I(t.name, a.v);
        if (a instanceof F || a instanceof FLit) { if (!Number.isFinite(a.v)) trap("value cannot be converted because it is infinite or NaN"); const v = BigInt(Math.trunc(a.v)); return v < t.lo || v > t.hi ? trap("value out of range") : new I(t.name, v); }
        if (typeof a === "string") unsup("number from a string");
        no();
      }
      if (!(a instanceof I || a instanceof Lit)) no();
      if (labels === "truncatingIfNeeded") return new I(t.name, wrap(t.name, a.v));
      if (labels === "exactly") return a.v < t.lo || a.v > t.hi ? null : new I(t.name, a.v);
      if (labels === "clamping") return new I(t.name, a.v < t.lo ? t.lo : a.v > t.hi ? t.hi : a.v);
      no();
    }
    if (t.k === "float") {
      if (labels === "") return new F(t.name, 0);
      if (labels === "bitPattern") { const x = $.chk(a, t.name === "Float" ? T.UInt32 : T.UInt64); return fromBytes(t.name, bytesOf(x)); }
      if (labels === "_" && a && a.v !== undefined) return a instanceof F && a.t === t.name ? a : toFloat(t.name, Number(a.v));
      no();
    }
    if (t.k === "Bool") { if (labels === "_" && typeof a === "boolean") return a; if (labels === "") return false; no(); }
    if (t.k === "arr") {
      if (labels === "") return new Arr([], t.el);
      if (labels === "repeating:count") return new Arr(Array.from({ length: count(args[1]) }, () => $.cp($.chk(a, t.el))), t.el);
      if (labels === "_") return $.chk(new Arr([...$.iter(a)], null), t);
      no();
    }
    if (t.k === "Array") { if (labels === "repeating:count") { const x = $.def(a); return new Arr(Array.from({ length: count(args[1]) }, () => $.cp(x)), descOf(x)); } if (labels === "_") return new Arr([...$.iter(a)], a.el || null); no(); }
    if (t.k === "String") {
      if (labels === "") return "";
      if (labels === "data:encoding" || labels === "bytes:encoding") {
        enc(args[1]);
        if (a instanceof Data && labels === "data:encoding" || labels === "bytes:encoding" && (a instanceof Data || a instanceof Arr || a instanceof Buf)) { try { return dec.decode(raw(a)); } catch (e) { return null; } }
        no();
      }
      if (labels === "decoding:as") return new TextDecoder("utf-8", { ignoreBOM: true }).decode(raw(a));
      if (labels === "_" && typeof a === "string") return a;
      if (labels === "_" && (a instanceof I || a instanceof Lit)) return String(a.v);
      unsup("String(" + labels + ")");
    }
    if (t.k === "Data") {
      if (labels === "") return new Data(Buffer.alloc(0));
      if (labels === "_") { if (a instanceof Data) return new Data(Buffer.from(a.bytes)); if (a instanceof NSMutableData) return new Data(Buffer.from(a.bytes)); if (a instanceof Arr) return new Data(Buffer.from(raw(a))); if (a instanceof Buf) return new Data(Buffer.from(a.b)); if (typeof a === "string") ce("Data of a String"); }
      if (labels === "count" || labels === "repeating:count") return new Data(Buffer.alloc(count(args[args.length - 1]), labels === "count" ? 0 : Number($.chk(a, T.UInt8).v)));
      if (labels === "capacity") return new Data(Buffer.alloc(0));
      if (labels === "bytes:count") { const n = count(args[1]); return new Data(Buffer.from(peek(a, n))); }
      if (labels === "referencing") return new Data(Buffer.from(a.bytes));
      unsup("Data(" + labels + ")");
    }
    if (t.k === "NSMutableData" || t.k === "NSData") { if (labels === "") return new NSMutableData(); if (labels === "data") return new NSMutableData(raw(a)); if (labels === "capacity") return new NSMutableData(); unsup(t.k + "(" + labels + ")"); }
    unsup(t.name + "(" + labels + ")");
  };
  const count = v => { const n = num(v); return n < 0 ? trap("negative count") : n > 1e8 ? unsup("huge allocation") : n; };
  const enc = v => v instanceof Imp && v.n === "utf8" || v === UTF8 ? 1 : v instanceof Imp || v && v.encoding ? unsup("encoding") : ce("not an encoding");
  const UTF8 = { encoding: "utf8" };
  const ENC = { has: n => n === "utf8" ? UTF8 : { encoding: n } };
  const raw = v => v instanceof Data || v instanceof NSMutableData ? v.bytes : v instanceof Buf ? v.b : v instanceof Arr ? Uint8Array.from(v.l, x => Number($.chk(x, T.UInt8).v)) : ce("not bytes: " + kind(v));
  const swap = x => { const b = bytesOf(x).slice().reverse(); return fromBytes(x.t, b); };
  function peek(p, n) {                   // n bytes of memory
    if (p === null || p === undefined) ce("nil pointer");
    let b, o = 0;
    if (p instanceof Ref) { const v = p.get(); if (v instanceof Arr || v instanceof Data) b = raw(v); else b = bytesOf(v); }
    else if (p instanceof Ptr) { b = p.get(); o = p.off; }
    else if (p instanceof Arr || p instanceof Data) b = raw(p);
    else ce("not a pointer: " + kind(p));
    if (n < 0 || o < 0 || o + n > b.length) trap(`memory error: ${n} bytes read at ${o} of ${b.length}`);
    return b.subarray(o, o + n);
  }
  function poke(p, bytes) {
    if (!(p instanceof Ref)) unsup("write through this pointer");
    const v = p.get();
    if (v === undefined) unsup("write to an uninitialised variable");
    const b = Uint8Array.from(bytesOf(v));
    if (bytes.length > b.length) trap(`memory error: ${bytes.length} bytes written to ${b.length}`);
    b.set(bytes);
    p.set(typeof v === "boolean" ? b[0] !== 0 : fromBytes(v.t, b));
  }
  const load = (b, t, off) => { if (!(t instanceof Desc) || !T[t.name]) unsup("load"); if (off < 0 || off + t.bits / 8 > b.length) trap("load out of bounds"); return t.k === "int" || t.k === "float" ? fromBytes(t.name, b.subarray(off)) : unsup("load"); };
  $.cast = (how, v, t) => {
    if (how === "as") {
      if (v instanceof NSMutableData && t === T.Data) return new Data(Buffer.from(v.bytes));
      if (v instanceof Data && (t === T.NSData || t === T.NSMutableData)) { if (t === T.NSMutableData) ce("cannot convert Data to NSMutableData with 'as'"); return new NSMutableData(v.bytes); }
      return $.chk(v, t);
    }
    const ok = typeof t === "function" ? v instanceof t : t === Any ? true : (() => { try { $.chk(v, t); return !(v instanceof Lit); } catch (e) { return false; } })();
    if (how === "is") return ok;
    if (how === "as?") return ok ? v : null;
    return ok ? v : trap("Could not cast value");
  };
  // ---- members
  const user = o => o instanceof Obj || o instanceof Struct || o instanceof Enum || typeof o === "function" && o.$name;
  $.get = (o, n) => {
    if (user(o)) {
      const v = o["p_" + n];
      if (v !== undefined) return v;
      if (typeof o === "function") {
        if (o["c_" + n]) return o["c_" + n];
        if (n === "allCases" && o.$cases) return new Arr(o.$cases.slice(), o);
        ce(`type '${o.$name}' has no member '${n}'`);
      }
      if (o instanceof Enum && n === "rawValue" && o.raw) return o.raw;
      if (("p_" + n) in o) ce(`'${n}' used before being initialized`);
      ce(`value of type '${o.constructor.$name}' has no member '${n}'`);
    }
    if (o instanceof Desc) {
      if (o.k === "int") { if (n === "max") return new I(o.name, o.hi); if (n === "min") return new I(o.name, o.lo); if (n === "bitWidth") return Int(o.bits); if (n === "zero") return new I(o.name, 0n); }
      if (o.k === "String" && n === "Encoding") return ENC;
      if (o.k === "float" && ["nan", "infinity", "zero"].includes(n)) return new F(o.name, { nan: NaN, infinity: Infinity, zero: 0 }[n]);
      if (o.k === "any" && (n === "size" || n === "stride")) unsup("size of a type");
      unsup(o.name + "." + n);
    }
    if (o === ENC) return ENC.has(n);
    if (o instanceof I) {
      if (n === "littleEndian") return o; if (n === "bigEndian" || n === "byteSwapped") return swap(o);
      if (n === "bitWidth") return Int(T[o.t].bits); if (n === "nonzeroBitCount") return Int(o.v.toString(2).replace(/[^1]/g, "").length); if (n === "magnitude") return new I(o.t.replace(/^U?/, "U"), o.v < 0n ? -o.v : o.v);
      unsup("integer ." + n);
    }
    if (o instanceof F) { if (n === "bitPattern") return fromBytes(o.t === "Float" ? "UInt32" : "UInt64", bytesOf(o)); if (n === "isNaN") return Number.isNaN(o.v); unsup("float ." + n); }
    if (typeof o === "string") {
      if (n === "count") return Int([...seg.segment(o)].length); if (n === "isEmpty") return o.length === 0;
      if (n === "utf8") return new Arr([...utf8(o)].map(x => new I("UInt8", BigInt(x))), T.UInt8);
      if (n === "utf16") return new Arr(Array.from({ length: o.length }, (_, i) => new I("UInt16", BigInt(o.charCodeAt(i)))), T.UInt16);
      if (n === "unicodeScalars") return { count: [...o].length, scalars: true };
      unsup("String." + n);
    }
    if (o instanceof Arr) {
      if (n === "count" || n === "endIndex") return Int(o.l.length); if (n === "isEmpty") return o.l.length === 0; if (n === "startIndex") return Int(0);
      if (n === "first") return o.l.length ? o.l[0] : null; if (n === "last") return o.l.length ? o.l.at(-1) : null; if (n === "indices") return new Rng(0n, BigInt(o.l.length), "Int");
      unsup("Array." + n);
    }
    if (o instanceof Data) {
      if (n === "count") return Int(o.end - o.start); if (n === "startIndex") return Int(o.start); if (n === "endIndex") return Int(o.end); if (n === "isEmpty") return o.end === o.start;
      if (n === "first") return o.end > o.start ? new I("UInt8", BigInt(o.b[o.start])) : null; if (n === "indices") return new Rng(BigInt(o.start), BigInt(o.end), "Int");
      unsup("Data." + n);
    }
    if (o instanceof NSMutableData) { if (n === "length" || n === "count") return n === "length" ? Int(o.n) : ce("NSMutableData has no member 'count'"); if (n === "bytes" || n === "mutableBytes") return new Ptr(() => o.bytes, o.n); unsup("NSMutableData." + n); }
    if (o instanceof Buf) { if (n === "baseAddress") return o.b.length ? new Ptr(() => o.b, o.b.length) : null; if (n === "count") return Int(o.b.length); if (n === "isEmpty") return !o.b.length; unsup("buffer ." + n); }
    if (o instanceof Rng) { if (n === "lowerBound") return new I(o.t, o.lo); if (n === "upperBound") return new I(o.t, o.hi); if (n === "count") return Int(o.hi - o.lo); if (n === "isEmpty") return o.hi === o.lo; unsup("Range." + n); }
    if (o && o.layout) { if (n === "size" || n === "stride" || n === "alignment") return Int(o.layout); unsup("MemoryLayout." + n); }
    if (o && o.scalars && n === "count") return Int(o.count);
    if (o && o.over) { if (n === "partialValue") return o.over[0]; if (n === "overflow") return o.over[1]; }
    if (o instanceof Tup && /^\d+$/.test(n)) return o.l[+n];
    if (o === null || o === undefined) ce(`member '${n}' of an optional or missing value`);
    unsup(kind(o) + "." + n);
  };
  $.put = (o, n, v) => {
    if (!user(o)) { if (o instanceof NSMutableData && n === "length") { const k = count(v); if (k < o.n) o.n = k; else o.add(Buffer.alloc(k - o.n)); return; } unsup("assignment to ." + n); }
    if (!(("p_" + n) in o)) ce(`value of type '${kind(o)}' has no member '${n}'`);
    o["p_" + n] = v;
  };
  const bounds = (r, lo, hi) => {
    if (r && r.part) { r = new Rng(r.a === undefined ? BigInt(lo) : BigInt(num(r.a)), r.b === undefined ? BigInt(hi) : BigInt(num(r.b) + (r.closed ? 1 : 0)), "Int"); if (r.lo > r.hi) trap("Range requires lowerBound <= upperBound"); }
    if (r.t !== "Int") ce(`range of ${r.t} as indices`);
    if (r.lo < BigInt(lo) || r.hi > BigInt(hi)) trap(`Range out of bounds: ${r.lo}..<${r.hi} of ${lo}..<${hi}`);
    return [Number(r.lo), Number(r.hi)];
  };
  $.idx = (o, i) => {
    const rng = i instanceof Rng || i && i.part;
    if (o instanceof Arr) {
      if (rng) { const [a, b] = bounds(i, 0, o.l.length); return new Arr(o.l.slice(a, b), o.el); }
      const k = num(i); return k < 0 || k >= o.l.length ? trap("Index out of range") : o.l[k];
    }
    if (o instanceof Data) {
      if (rng) { const [a, b] = bounds(i, o.start, o.end); return new Data(o.b, a, b); }
      const k = num(i); return k < o.start || k >= o.end ? trap("Index out of range") : new I("UInt8", BigInt(o.b[k]));
    }
    if (o instanceof Buf) {
      if (rng) { const [a, b] = bounds(i, 0, o.b.length); return new Buf(o.b.subarray(a, b)); }
      const k = num(i); return k < 0 || k >= o.b.length ? trap("Index out of range") : new I("UInt8", BigInt(o.b[k]));
    }
    if (o === null) ce("subscript of an optional");
    unsup("subscript of " + kind(o));
  };
  $.putidx = (o, i, v) => {
    if (o instanceof Arr) { const k = num(i); if (k < 0 || k >= o.l.length) trap("Index out of range"); o.l[k] = o.el ? $.chk(v, o.el) : v; return; }
    unsup("subscript assignment");
  };
  $.layout = t => t instanceof Desc && t.bits ? { layout: t.bits / 8 } : t === T.Bool ? { layout: 1 } : unsup("MemoryLayout");
  $.callv = (f, args) => typeof f === "function" ? f(...args) : unsup("call of a value");
  const over = (a, b, f) => { if (b instanceof Lit) b = $.chk(b, T[a.t]); if (b.t !== a.t) ce("mixed integer types"); const v = f(a.v, b.v); return { over: [new I(a.t, wrap(a.t, v)), v < T[a.t].lo || v > T[a.t].hi] }; };
  const seq = o => o instanceof Arr || o instanceof Data || o instanceof Rng;
  $.call = (o, mg, args) => {
    if (user(o)) {
      const m = o["m_" + jm(mg)];
      if (m) return m.apply(o, args);
      ce(`value of type '${kind(o)}' has no member '${mg}'`);
    }
    if (o === null || o === undefined) ce(`call of '${mg}' on an optional or missing value`);
    const e = o instanceof Arr ? ext.Array : o instanceof Data ? ext.Data : typeof o === "string" ? ext.String : null;
    if (e && e[jm(mg)]) return e[jm(mg)].apply(o, args);
    const [a, b] = args;
    if (typeof o === "string") {
      if (mg === "data$using") { enc(a); return new Data(utf8(o)); }
      if (mg === "data$using:allowLossyConversion") { enc(a); return new Data(utf8(o)); }
      if (mg === "lengthOfBytes$using") { enc(a); return Int(utf8(o).length); }
      if (mg === "hasPrefix$_") return o.startsWith(a);
    }
    if (seq(o)) {
      const l = () => [...$.iter(o)];
      const fresh = x => x.map(v => $.def(v));
      switch (mg) {
        case "map${}": case "map$_": { const r = fresh(l().map(x => a(x))); return new Arr(r, r.length ? descOf(r[0]) : null); }
        case "compactMap${}": case "compactMap$_": { const r = fresh(l().map(x => a(x)).filter(x => x !== null)); return new Arr(r, r.length ? descOf(r[0]) : o.el || null); }
        case "filter${}": case "filter$_": return new Arr(l().filter(x => $.b(a(x))), o.el);
        case "forEach${}": case "forEach$_": l().forEach(x => a(x)); return;
        case "reduce$_:_": case "reduce$_:{}": { let r = a; for (const x of l()) { const y = b(r, x); r = r instanceof Lit || r instanceof FLit ? y : $.same(r, y); } return r; }
        case "enumerated$": return { stride: l().map((x, i) => new Tup([Int(i), x])) };
        case "reversed$": return new Arr(l().reverse(), o.el || null);
        case "contains$_": return l().some(x => $.bin("==", x, a));
        case "allSatisfy${}": return l().every(x => $.b(a(x)));
        case "elementsEqual$_": case "starts$with": { const x = l(), y = [...$.iter(a)]; return (mg === "starts$with" ? x.length >= y.length : x.length === y.length) && y.every((v, i) => $.bin("==", x[i], v)); }
      }
    }
    if (o instanceof Arr) {
      if (mg === "append$_") { o.l.push(o.el ? $.chk(a, o.el) : a); return; }
      if (mg === "append$contentsOf") { for (const x of $.iter(a)) o.l.push(o.el ? $.chk(x, o.el) : x); return; }
      if (mg === "reserveCapacity$_") { const n = num(a); if (n > 2 ** 33) trap("out of memory"); return; }
      if (mg === "removeAll$" || mg === "removeAll$keepingCapacity") { o.l.length = 0; return; }
      if (mg === "withUnsafeBytes${}") return a(new Buf(Buffer.concat(o.l.map(bytesOf))));
    }
    if (o instanceof Data) {
      if (mg === "subdata$in") { const [x, y] = bounds(a, o.start, o.end); return new Data(Buffer.from(o.b.subarray(x, y))); }
      if (mg === "withUnsafeBytes${}" || mg === "withUnsafeBytes$_") return a(new Buf(o.bytes));
      if (mg === "suffix$from") { const [x, y] = bounds({ part: true, a }, o.start, o.end); return new Data(o.b, x, y); }
      if (mg === "prefix$_") return new Data(o.b, o.start, Math.min(o.end, o.start + count(a)));
      if (mg === "suffix$_") return new Data(o.b, Math.max(o.start, o.end - count(a)), o.end);
      if (mg === "dropFirst$_") return new Data(o.b, Math.min(o.end, o.start + count(a)), o.end);
      if (mg === "prefix$upTo") { const [x, y] = bounds({ part: true, b: a }, o.start, o.end); return new Data(o.b, x, y); }
      if (mg === "index$_:offsetBy") return Int(num(a) + num(b));
      if (mg === "append$_") { const x = a instanceof I || a instanceof Lit ? Uint8Array.of(Number($.chk(a, T.UInt8).v)) : raw(a); const n = Buffer.concat([o.bytes, x]); o.b = n; o.start = 0; o.end = n.length; return; }
    }
    if (o instanceof NSMutableData) {
      if (mg === "append$_") { o.add(raw(a instanceof Data ? a : ce("NSMutableData.append of " + kind(a)))); return; }
      if (mg === "append$_:length") { o.add(peek(a, num(b))); return; }
    }
    if (o instanceof Buf) {
      if (mg === "load$as" || mg === "loadUnaligned$as") return load(o.b, a, 0);
      if (mg === "load$fromByteOffset:as" || mg === "loadUnaligned$fromByteOffset:as") { const off = num(a); if (mg[4] === "$" && b.bits && off % (b.bits / 8)) trap("load from misaligned raw pointer"); return load(o.b, b, off); }
    }
    if (o instanceof Ptr) {
      if (mg === "advanced$by") return new Ptr(o.get, o.len, o.off + num(a));
      if (mg === "load$as" || mg === "loadUnaligned$as") return load(o.get().subarray(o.off), a, 0);
      if (mg === "load$fromByteOffset:as" || mg === "loadUnaligned$fromByteOffset:as") return load(o.get().subarray(o.off), b, num(a));
    }
    if (o instanceof I) {
      if (mg === "addingReportingOverflow$_") return over(o, a, (x, y) => x + y);
      if (mg === "subtractingReportingOverflow$_") return over(o, a, (x, y) => x - y);
      if (mg === "multipliedReportingOverflow$by") return over(o, a, (x, y) => x * y);
      if (mg === "isMultiple$of") return o.v % a.v === 0n;
    }
    if (o instanceof Desc) unsup(o.name + "." + mg);
    unsup(kind(o) + "." + mg);
  };
  $.glob = (mg, args) => {
    const [a, b, c] = args;
    switch (mg) {
      case "fatalError$": case "fatalError$_": case "preconditionFailure$": case "preconditionFailure$_": return trap(String(a));
      case "precondition$_": case "assert$_": case "precondition$_:_": case "assert$_:_": return $.b(a) ? undefined : trap("precondition failed");
      case "memcpy$_:_:_": { const n = num(c); if (n < 0) trap("memory error"); poke(a, peek(b, n)); return; }
      case "withUnsafeBytes$of:{}": case "withUnsafeBytes$of:_": { const v = a instanceof Ref ? a.get() : $.def(a); return b(new Buf(bytesOf(v))); }
      case "min$_:_": case "max$_:_": { const x = a instanceof Lit && b.t ? $.chk(a, T[b.t]) : a, y = b instanceof Lit && x.t ? $.chk(b, T[x.t]) : b; if (x.t !== y.t) ce("min/max of different types"); return ($.bin("<=", x, y)) === (mg[1] === "i") ? x : y; }
      case "abs$_": return a instanceof I ? int(a.t, a.v < 0n ? -a.v : a.v) : unsup("abs");
      case "stride$from:to:by": case "stride$from:through:by": { const l = []; const s = BigInt(num(c)); if (s <= 0n) unsup("stride"); for (let i = BigInt(num(a)); mg.includes("to") ? i < BigInt(num(b)) : i <= BigInt(num(b)); i += s) l.push(Int(i)); return new Arr(l, T.Int); }
      case "print$_": return;
    }
    unsup("function " + mg);
  };
  return $;
}
module.exports = { make, bytesOf, fromBytes, I, F, Data, NSMutableData, Arr, T, Trap, CE, Unsup, SwErr, Enum };
