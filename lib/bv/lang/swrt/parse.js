// A parser for the part of Swift that generated code uses.  Anything else raises Unsupported.
"use strict";
class Unsupported extends Error {}
class Wrong extends Error {}       // code that the Swift compiler refuses
const OPCH = "/=-+!*%<>&|^~?";

function lex(src) {
  const out = [];
  let i = 0, line = 1, nl = true, sp = true;
  const n = src.length;
  const push = (k, v) => { out.push({ k, v, nl, sp, line, spa: false }); nl = false; sp = false; };
  while (i < n) {
    const c = src[i];
    if (c === "\n") { nl = true; sp = true; line++; i++; if (out.length) out[out.length - 1].spa = true; continue; }
    if (/\s/.test(c) || c === "\ufeff") { sp = true; i++; if (out.length) out[out.length - 1].spa = true; continue; }
    if (c === "/" && src[i + 1] === "/") { while (i < n && src[i] !== "\n" && src[i] !== "\r") i++; continue; }
    if (c === "/" && src[i + 1] === "*") {
      let d = 1; i += 2;
      while (i < n && d) { if (src.startsWith("/*", i)) { d++; i += 2; } else if (src.startsWith("*/", i)) { d--; i += 2; } else { if (src[i] === "\n") { line++; nl = true; } i++; } }
      if (d) throw new Wrong(line + ": unterminated comment");
      sp = true; if (out.length) out[out.length - 1].spa = true;
      continue;
    }
    if (c === "#") throw new Unsupported(line + ": directive");
    if (c === "`") { const e = src.indexOf("`", i + 1); if (e < 0) throw new Wrong(line + ": unterminated `"); push("id", src.slice(i + 1, e)); out[out.length - 1].q = true; i = e + 1; continue; }
    let m;
    if ((m = /^[\p{L}_\u{80}-\u{10ffff}][\p{L}\p{N}_\u{80}-\u{10ffff}]*/u.exec(src.slice(i, i + 300)))) { push("id", m[0]); i += m[0].length; continue; }
    if (c === "$" && (m = /^\$\d+/.exec(src.slice(i, i + 20)))) { push("id", m[0]); i += m[0].length; continue; }
    if ((m = /^(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][-+]?[0-9]+)?)/.exec(src.slice(i, i + 80)))) {
      const t = m[0].replace(/_/g, "");
      push(/^0[xbo]/.test(t) || /^[0-9]+$/.test(t) ? "int" : "float", t); i += m[0].length; continue;
    }
    if (c === '"') {
      if (src.startsWith('"""', i)) throw new Unsupported(line + ": multi-line string");
      let s = "", interp = false; i++;
      for (;;) {
        if (i >= n || src[i] === "\n") throw new Wrong(line + ": unterminated string");
        if (src[i] === '"') { i++; break; }
        if (src[i] === "\\") {
          const e = src[i + 1]; i += 2;
          if (e === "(") { interp = true; let d = 1; while (d && i < n) { if (src[i] === "(") d++; if (src[i] === ")") d--; i++; } }
          else if (e === "u") { m = /^\{([0-9a-fA-F]+)\}/.exec(src.slice(i, i + 12)); if (!m) throw new Wrong(line + ": escape"); s += String.fromCodePoint(parseInt(m[1], 16)); i += m[0].length; }
          else if (!("0\\tnr\"'".includes(e))) throw new Wrong(line + ": escape");
          else s += { 0: "\0", "\\": "\\", t: "\t", n: "\n", r: "\r", '"': '"', "'": "'" }[e];
        } else s += src[i++];
      }
      push("str", s); out[out.length - 1].interp = interp; continue;
    }
    if (src.startsWith("..<", i) || src.startsWith("...", i)) { push("op", src.slice(i, i + 3)); i += 3; continue; }
    if (OPCH.includes(c)) {
      let j = i;
      while (j < n && OPCH.includes(src[j]) && !(j > i && (src.startsWith("//", j) || src.startsWith("/*", j)))) j++;
      let v = src.slice(i, j);
      if (/^[?!]+[^=?]/.test(v) && !sp && out.length) v = v[0];       // postfix ! or ? directly followed by an operator
      if (v.length > 1 && /^[?!]+$/.test(v) && v !== "??") v = v[0];
      push("op", v); i += v.length; continue;
    }
    if ("(){}[],:;.@".includes(c)) { push("p", c); i++; continue; }
    throw new Wrong(line + ": character " + c);
  }
  nl = true; sp = true;
  push("eof", "");
  return out;
}

const MODS = new Set(["public", "private", "internal", "fileprivate", "open", "final", "static", "override", "required", "mutating", "nonmutating", "lazy", "convenience", "indirect", "dynamic", "weak", "unowned"]);
const PREC = { "<<": 160, ">>": 160, "*": 150, "/": 150, "%": 150, "&": 150, "&*": 150, "+": 140, "-": 140, "|": 140, "^": 140, "&+": 140, "&-": 140, "..<": 135, "...": 135, "??": 131,
  "<": 130, ">": 130, "<=": 130, ">=": 130, "==": 130, "!=": 130, "===": 130, "!==": 130, "~=": 130, "&&": 120, "||": 110, "=": 90, "+=": 90, "-=": 90, "*=": 90, "/=": 90, "%=": 90, "|=": 90, "&=": 90, "^=": 90, "<<=": 90, ">>=": 90 };

function parse(src) {
  const T = lex(src);
  let p = 0;
  const pk = (o = 0) => T[Math.min(p + o, T.length - 1)];
  const is = v => pk().v === v && pk().k !== "str" && !pk().q;
  const at = () => pk().line;
  const eat = v => is(v) ? (p++, true) : false;
  const need = v => { if (!eat(v)) throw new Wrong(at() + ": expected " + v + ", found " + pk().v); };
  const ident = () => { const t = pk(); if (t.k !== "id") throw new Wrong(at() + ": expected a name, found " + t.v); p++; return t.v; };
  const unsup = w => { throw new Unsupported(at() + ": " + w); };

  // ---- types
  function type() {
    let t;
    while (is("@")) { p++; ident(); }
    if (is("inout")) unsup("inout parameter");
    if (is("some") || is("any")) unsup("opaque type");
    if (eat("[")) { t = { k: "arr", el: type() }; if (is(":")) unsup("dictionary type"); need("]"); }
    else if (eat("(")) {
      const l = [];
      while (!is(")")) { if (pk().k === "id" && pk(1).v === ":") p += 2; else if (pk().k === "id" && pk(1).k === "id" && pk(2).v === ":") p += 3; l.push(type()); if (!eat(",")) break; }
      need(")");
      t = l.length === 1 ? l[0] : l.length ? { k: "tuple", l } : { k: "name", n: "Void" };
      t = Object.assign({}, t);
    } else {
      let n = ident();
      while (is(".") && pk(1).k === "id") { p++; n += "." + ident(); }
      t = { k: "name", n };
      if (is("<")) { p++; t.g = [type()]; while (eat(",")) t.g.push(type()); if (pk().v[0] !== ">") throw new Wrong(at() + ": expected >"); if (pk().v.length > 1) pk().v = pk().v.slice(1); else p++; if (n === "Array") t = { k: "arr", el: t.g[0] }; else if (n === "Optional") t = { k: "opt", el: t.g[0] }; }
    }
    for (;;) {
      if ((is("?") || is("!")) && !pk().sp) { p++; t = { k: "opt", el: t }; } else break;
    }
    if (is("throws") && pk(1).v === "->") p++;
    if (is("->")) { p++; type(); return { k: "fn" }; }
    return t;
  }

  // ---- expressions
  const noBrace = [false];
  const brace = (v, f) => { noBrace.push(v); try { return f(); } finally { noBrace.pop(); } };
  const startsOk = t => "([{,;:.".includes(t.v) && t.k === "p";
  function infix(t) {                     // is the operator token binary here?
    const prev = T[p - 1], next = pk(1);
    const left = t.sp || (prev && prev.k === "p" && "([{,;:".includes(prev.v));
    const right = t.spa || (next.k === "p" && ")]},;:.".includes(next.v)) || next.k === "eof";
    return left === right;
  }
  function expr(min = 0) {
    let l = unary();
    for (;;) {
      const t = pk();
      if (t.k === "id" && !t.q && (t.v === "as" || t.v === "is") && min <= 132) {
        if (t.nl && noBrace.at(-1)) break;
        p++;
        let how = t.v;
        if (how === "as" && (is("?") || is("!"))) { how += pk().v; p++; }
        l = { k: "cast", how, e: l, t: type(), line: t.line };
        continue;
      }
      if (t.k !== "op") break;
      if (t.v === "?" && infix(t)) {
        if (min > 100) break;
        p++;
        const a = brace(noBrace.at(-1), () => expr(100)); need(":"); const b = expr(100);
        l = { k: "tern", c: l, a, b, line: t.line };
        continue;
      }
      const pr = PREC[t.v];
      if (pr === undefined) { if (t.nl) break; unsup("operator " + t.v); }
      if (!infix(t)) { if (t.nl) break; throw new Wrong(t.line + ": spaces around " + t.v); }
      if (pr < min) break;
      p++;
      if (pr === 90) { const r = expr(90); return { k: "assign", op: t.v, l, r, line: t.line }; }
      const r = expr(pr === 131 ? 131 : pr + 1);
      if ((pr === 130 || pr === 135) && pk().k === "op" && PREC[pk().v] === pr && infix(pk())) throw new Wrong(t.line + ": non-associative operators");
      l = { k: "bin", op: t.v, l, r, line: t.line };
    }
    return l;
  }
  function unary() {
    const t = pk();
    if (t.k === "id" && !t.q && t.v === "try") {
      p++;
      let how = "try";
      if ((is("?") || is("!")) && !pk().sp) { how += pk().v; p++; }
      return { k: "try", how, e: expr(91), line: t.line };
    }
    if (t.k === "id" && !t.q && t.v === "await") unsup("await");
    if (t.k === "op") {
      if (t.v === "&") { p++; return { k: "ref", e: postfix(), line: t.line }; }
      if ("-!+~".includes(t.v) && t.v.length === 1) { p++; const e = unary(); if (t.v === "-" && (e.k === "int" || e.k === "float")) return Object.assign({}, e, { v: e.v[0] === "-" ? e.v.slice(1) : "-" + e.v }); return { k: "un", op: t.v, e, line: t.line }; }
      if (t.v === "..." || t.v === "..<") { p++; const r = unary(); return { k: "bin", op: t.v, l: null, r, line: t.line }; }
      throw new Wrong(t.line + ": operator " + t.v);
    }
    return postfix();
  }
  function args() {                       // after (
    const l = [];
    brace(false, () => {
      while (!is(")")) {
        let label = "_";
        if (pk().k === "id" && pk(1).k === "p" && pk(1).v === ":") { label = pk().v; p += 2; }
        if (pk().k === "op" && PREC[pk().v] > 90 && (pk(1).v === ")" || pk(1).v === ",") && pk(1).k === "p") { l.push({ label, e: { k: "opfn", op: pk().v, line: at() } }); p++; }
        else l.push({ label, e: expr() });
        if (!eat(",")) break;
      }
    });
    need(")");
    return l;
  }
  function closure() {                    // at {
    const line = at();
    need("{");
    let params = null;
    const save = p;
    const tryParams = () => {
      const l = [];
      if (eat("(")) {
        while (!is(")")) { if (pk().k !== "id") return null; const nm = ident(); l.push(nm); if (eat(":")) type(); if (!eat(",")) break; }
        if (!eat(")")) return null;
      } else {
        while (pk().k === "id") { l.push(ident()); if (!eat(",")) break; }
        if (!l.length) return null;
      }
      if (is("throws")) p++;
      if (is("->")) { p++; type(); }
      return eat("in") ? l : null;
    };
    try { params = tryParams(); } catch (e) { params = null; }
    if (!params) p = save;
    const body = brace(false, () => stmts());
    need("}");
    return { k: "closure", params, body, line };
  }
  function postfix() {
    let e = primary();
    for (;;) {
      const t = pk();
      if (t.k === "p" && t.v === "(" && !t.nl && !t.sp) { p++; e = { k: "call", f: e, args: args(), line: t.line }; continue; }
      if (t.k === "p" && t.v === "{" && !t.nl && !noBrace.at(-1) && (e.k === "call" || e.k === "mem" || e.k === "id") && !(e.trail)) {
        const c = closure();
        e = e.k === "call" ? Object.assign({}, e, { args: e.args.concat([{ label: "{}", e: c }]), trail: true }) : { k: "call", f: e, args: [{ label: "{}", e: c }], trail: true, line: t.line };
        continue;
      }
      if (t.k === "p" && t.v === "[" && !t.nl && !t.sp) { p++; const a = brace(false, () => expr()); if (is(",") || is(":")) unsup("subscript"); need("]"); e = { k: "idx", e, i: a, line: t.line }; continue; }
      if (t.k === "p" && t.v === "." && (pk(1).k === "id" || pk(1).k === "int")) { p++; const n = pk(); p++; e = { k: "mem", e, n: n.v, line: t.line }; continue; }
      if (t.k === "op" && t.v === "!" && !t.sp) { p++; e = { k: "force", e, line: t.line }; continue; }
      if (t.k === "op" && t.v === "?" && !t.sp && (pk(1).v === "." || pk(1).v === "(" || pk(1).v === "[")) unsup("optional chaining");
      if (t.k === "op" && (t.v === "..." || t.v === "..<") && !t.sp && !infix(t)) { p++; e = { k: "bin", op: t.v, l: e, r: null, line: t.line }; continue; }
      return e;
    }
  }
  function primary() {
    const t = pk();
    if (t.k === "int") { p++; return { k: "int", v: BigInt(t.v).toString(), line: t.line }; }
    if (t.k === "float") { p++; return { k: "float", v: t.v, line: t.line }; }
    if (t.k === "str") { p++; return { k: "str", v: t.v, interp: t.interp, line: t.line }; }
    if (t.k === "p" && t.v === "(") {
      p++;
      const l = brace(false, () => { const l = []; while (!is(")")) { if (pk().k === "id" && pk(1).v === ":") p += 2; l.push(expr()); if (!eat(",")) break; } return l; });
      need(")");
      if (l.length === 1) return { k: "par", e: l[0], line: t.line };
      return { k: "tuple", l, line: t.line };
    }
    if (t.k === "p" && t.v === "[") {
      const save = p;
      p++;
      const l = [];
      brace(false, () => { while (!is("]")) { l.push(expr()); if (is(":")) unsup("dictionary"); if (!eat(",")) break; } });
      need("]");
      if (is("(") && !pk().sp && !pk().nl && l.length === 1) { p = save; return { k: "type", t: type(), line: t.line }; }
      return { k: "array", l, line: t.line };
    }
    if (t.k === "p" && t.v === "{") return closure();
    if (t.k === "p" && t.v === ".") { p++; return { k: "imp", n: ident(), line: t.line }; }
    if (t.k === "id") {
      if (!t.q && ["true", "false"].includes(t.v)) { p++; return { k: "bool", v: t.v, line: t.line }; }
      if (!t.q && t.v === "nil") { p++; return { k: "nil", line: t.line }; }
      if (!t.q && ["if", "switch"].includes(t.v)) unsup(t.v + " expression");
      if (!t.q && ["let", "var", "func", "in", "else", "return", "case", "guard", "while", "for", "throw", "class", "struct", "enum", "import", "break", "continue"].includes(t.v)) throw new Wrong(t.line + ": unexpected " + t.v);
      p++;
      if (is("<") && !pk().sp && /^[A-Z]/.test(t.v)) {            // Foo<Bar>(...)
        const save = p; p--;
        try { const ty = type(); if (is("(") || is(".")) return { k: "type", t: ty, line: t.line }; } catch (e) { }
        p = save;
      }
      return { k: "id", n: t.v, line: t.line };
    }
    throw new Wrong(t.line + ": unexpected " + (t.v || "end of file"));
  }

  // ---- statements
  function block() { need("{"); const b = brace(false, () => stmts()); need("}"); return b; }
  function stmts() {
    const l = [];
    let first = true;
    for (;;) {
      while (eat(";")) first = true;
      if (is("}") || pk().k === "eof" || (pk().k === "id" && !pk().q && (pk().v === "case" || pk().v === "default") && caseDepth)) return l;
      if (!first && !pk().nl) throw new Wrong(at() + ": statements on a line must be separated by ;");
      l.push(stmt());
      first = false;
    }
  }
  let caseDepth = 0;
  const inCase = (v, f) => { const s = caseDepth; caseDepth = v; try { return f(); } finally { caseDepth = s; } };
  function binding(kind, needInit) {
    if (is("(")) unsup("tuple binding");
    const name = ident();
    let t = null, init = null;
    if (eat(":")) t = type();
    if (eat("=")) init = expr();
    return { kind, name, t, init };
  }
  function conds() {
    const l = [];
    brace(true, () => {
      do {
        if (is("let") || is("var")) {
          const kind = pk().v, line = at(); p++;
          const name = ident();
          let t = null;
          if (eat(":")) t = type();
          const init = eat("=") ? expr() : { k: "id", n: name, line };
          l.push({ bind: { kind, name, t, init }, line });
        } else if (is("case")) unsup("pattern condition");
        else l.push({ e: expr(), line: at() });
      } while (eat(","));
    });
    return l;
  }
  function pattern() {
    if (is("let") || is("var") || is("is") || is("_")) { if (eat("_")) return { k: "any" }; unsup("binding pattern"); }
    return expr();
  }
  function stmt() {
    const t = pk(), line = t.line;
    let label = null;
    if (t.k === "id" && pk(1).v === ":" && pk(1).k === "p" && pk(2).k === "id" && ["for", "while", "repeat", "switch", "do", "if"].includes(pk(2).v)) { label = t.v; p += 2; }
    const v = pk().k === "id" && !pk().q ? pk().v : null;
    if (v && (MODS.has(v) || ["let", "var", "func", "struct", "class", "enum", "extension", "protocol", "typealias", "import", "init", "deinit", "subscript"].includes(v)) || is("@")) return decl();
    if (v === "if") { p++; return ifst(line); }
    if (v === "guard") { p++; const c = conds(); if (!eat("else")) throw new Wrong(at() + ": guard without else"); return { k: "guard", c, els: inCase(0, () => block()), line }; }
    if (v === "while") { p++; const c = conds(); return { k: "while", c, body: inCase(0, () => block()), label, line }; }
    if (v === "repeat") { p++; const body = inCase(0, () => block()); need("while"); return { k: "repeat", body, c: expr(), label, line }; }
    if (v === "for") {
      p++;
      if (is("case")) unsup("for pattern");
      let kind = "let";
      if (is("let") || is("var")) { kind = pk().v; p++; }
      let name;
      if (eat("(")) { name = [ident()]; while (eat(",")) name.push(ident()); need(")"); }
      else { name = ident(); if (eat(":")) type(); }
      need("in");
      const seq = brace(true, () => expr());
      let where = null;
      if (eat("where")) where = brace(true, () => expr());
      return { k: "for", kind, name, seq, where, body: inCase(0, () => block()), label, line };
    }
    if (v === "switch") {
      p++;
      const e = brace(true, () => expr());
      need("{");
      const cases = [];
      while (!is("}")) {
        const c = { pats: null, body: null, line: at() };
        if (eat("default")) need(":");
        else {
          if (is("@")) { p++; ident(); continue; }
          need("case");
          c.pats = [];
          do { const q = brace(false, () => pattern()); let w = null; if (eat("where")) w = expr(); c.pats.push({ p: q, w }); } while (eat(","));
          need(":");
        }
        c.body = inCase(1, () => stmts());
        if (!c.body.length) throw new Wrong(c.line + ": case without statements");
        cases.push(c);
      }
      need("}");
      return { k: "switch", e, cases, label, line };
    }
    if (v === "do") {
      p++;
      const body = inCase(0, () => block());
      const catches = [];
      while (eat("catch")) { let pat = null, name = "error"; if (!is("{")) { if (is("let")) { p++; name = ident(); } else pat = brace(true, () => pattern()); } catches.push({ pat, name, body: inCase(0, () => block()) }); }
      return { k: "do", body, catches, label, line };
    }
    if (v === "defer") { p++; return { k: "defer", body: inCase(0, () => block()), line }; }
    if (v === "return") { p++; return { k: "return", e: is("}") || is(";") || (pk().nl && !/^[\w"(.\-!\[]/.test(pk().v || '"')) || pk().k === "eof" || is("case") || is("default") ? null : expr(), line }; }
    if (v === "throw") { p++; return { k: "throw", e: expr(), line }; }
    if (v === "break" || v === "continue") { p++; let l = null; if (pk().k === "id" && !pk().nl) l = ident(); return { k: v, label: l, line }; }
    if (v === "fallthrough") unsup("fallthrough");
    return { k: "expr", e: expr(), line };
  }
  function ifst(line) {
    const c = conds();
    const then = inCase(0, () => block());
    let els = null;
    if (eat("else")) { if (is("if")) { const l = at(); p++; els = [ifst(l)]; } else els = inCase(0, () => block()); }
    return { k: "if", c, then, els, line };
  }

  // ---- declarations
  function decl() {
    const mods = new Set(), line = at();
    for (;;) {
      if (is("@")) { p++; ident(); if (is("(") && !pk().sp) { let d = 0; do { if (is("(")) d++; if (is(")")) d--; p++; } while (d); } continue; }
      if (pk().k === "id" && (MODS.has(pk().v) || (pk().v === "class" && ["func", "var", "override", "public", "let"].includes(pk(1).v)))) { const m = pk().v; mods.add(m); p++; if (is("(") && !pk().sp) { while (!eat(")")) p++; } continue; }
      break;
    }
    const k = ident();
    if (k === "import") { ident(); while (eat(".")) ident(); return { k: "import", line }; }
    if (k === "let" || k === "var") {
      const l = [];
      do {
        const b = binding(k);
        if (k === "var" && is("{") && !b.init) {
          const save = p;
          p++;
          if (is("get")) { p++; const body = block(); if (is("set") || is("willSet")) unsup("setter"); need("}"); b.get = body; }
          else if (is("willSet") || is("didSet") || is("set") || is("mutating")) unsup("property observer");
          else { p = save; b.get = block(); }
        } else if (is("{")) unsup("property observer");
        b.line = line;
        l.push(b);
      } while (eat(","));
      return { k: "var", l, mods, line };
    }
    if (k === "typealias") { const n = ident(); if (is("<")) unsup("generic alias"); need("="); return { k: "alias", n, t: type(), line }; }
    if (k === "func" || k === "init") {
      let name = "init";
      if (k === "func") { if (pk().k !== "id") unsup("operator function"); name = ident(); }
      else if (is("?") || is("!")) unsup("failable initialiser");
      const generics = [];
      if (eat("<")) { do { generics.push(ident()); if (eat(":")) { type(); while (eat("&")) type(); } } while (eat(",")); need(">"); }
      need("(");
      const params = [];
      while (!is(")")) {
        const ext = ident();
        let loc = ext;
        if (pk().k === "id") loc = ident();
        need(":");
        let t = null;
        const esc = () => { while (is("@")) { p++; ident(); } };
        esc();
        t = type();
        if (is("...")) unsup("variadic");
        let def = null;
        if (eat("=")) def = brace(false, () => expr());
        params.push({ ext, loc, t, def });
        if (!eat(",")) break;
      }
      need(")");
      let throws = false, ret = null;
      if (is("async")) unsup("async");
      if (eat("throws")) throws = true;
      else if (is("rethrows")) unsup("rethrows");
      if (eat("->")) ret = type();
      if (is("where")) unsup("where clause");
      const body = inCase(0, () => block());
      return { k: "func", name, generics, params, throws, ret, body, mods, line };
    }
    if (["class", "struct", "enum", "extension"].includes(k)) {
      let n = ident();
      while (eat(".")) n += "." + ident();
      if (is("<")) unsup("generic type");
      const sup = [];
      if (eat(":")) do { sup.push(type()); } while (eat(","));
      let where = false;
      if (eat("where")) { where = ""; while (!is("{")) { if (pk().k === "eof") throw new Wrong(at() + ": expected {"); where += pk().v; p++; } }
      need("{");
      const l = [];
      let first = true;
      while (!is("}")) {
        if (eat(";")) { first = true; continue; }
        if (!first && !pk().nl) throw new Wrong(at() + ": declarations must be separated by ;");
        first = false;
        if (k === "enum" && is("case")) {
          p++;
          do { const c = { k: "case", n: ident(), line: at() }; if (is("(")) unsup("associated values"); if (eat("=")) c.v = expr(91); l.push(c); } while (eat(","));
        } else {
          if (pk().k !== "id" && !is("@")) throw new Wrong(at() + ": unexpected " + pk().v);
          if (!MODS.has(pk().v) && !["let", "var", "func", "init", "struct", "class", "enum", "typealias"].includes(pk().v) && !is("@")) throw new (["case", "subscript", "deinit", "protocol", "extension"].includes(pk().v) ? Unsupported : Wrong)(at() + ": unexpected " + pk().v);
          l.push(decl());
        }
      }
      need("}");
      return { k, n, sup, where, l, mods, line };
    }
    unsup("declaration " + k);
  }
  const l = [];
  let first = true;
  while (pk().k !== "eof") {
    if (eat(";")) { first = true; continue; }
    if (!first && !pk().nl) throw new Wrong(at() + ": declarations must be separated by ;");
    first = false;
    if (pk().k !== "id" && !is("@")) throw new Wrong(at() + ": unexpected " + pk().v);
    l.push(decl());
  }
  return l;
}
module.exports = { parse, Unsupported, Wrong };
