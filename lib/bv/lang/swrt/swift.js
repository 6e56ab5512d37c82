// Rewrites Swift as JavaScript over swrt.js.   node swift.js OUTDIR FILE.swift...
// Exit 1 and "file:line: error" for code the Swift compiler refuses, exit 2 for code outside the supported part of the language.
"use strict";
const { parse, Unsupported, Wrong } = require("./parse.js");
const INTS = ["Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Int", "UInt"];
const ALIAS = { Float32: "Float", Float64: "Double" };
const BUILTIN = new Set([...INTS, "Float", "Double", "Bool", "String", "Data", "NSMutableData", "Void", "Array", "MemoryLayout", "NSData"]);
const LOOSE = new Set(["Any", "AnyObject", "Error", "UnsafeRawBufferPointer", "UnsafeMutableRawBufferPointer", "UnsafeRawPointer", "UnsafeMutableRawPointer", "UnsafePointer", "UnsafeMutablePointer", "UnsafeBufferPointer", "Range", "ClosedRange", "ArraySlice", "Substring", "Never", "Sequence", "Hashable", "Equatable", "CaseIterable", "CustomStringConvertible", "Sendable", "Codable"]);
const MUTATING = new Set(["append", "removeAll", "removeLast", "removeFirst", "insert", "reserveCapacity", "popLast", "reverse", "sort", "swapAt"]);
const q = JSON.stringify;

function compile(src) {
  const top = parse(src);
  const types = new Map(), funcs = new Map(), gvars = new Map(), nss = new Map(), exts = [], aliases = new Map();
  const at = (n, w, C = Wrong) => { throw new C((n && n.line || 0) + ": " + w); };
  const mangle = (name, labels) => name + "$" + labels.join(":");
  const fmangle = f => mangle(f.name, f.params.map(p => p.ext));
  let id = 0;

  function isNamespace(d) { return d.k === "enum" && !d.sup.length && !d.l.some(m => m.k === "case") && d.l.some(m => ["class", "struct", "enum"].includes(m.k) || m.k === "func"); }
  function collect(l, ns) {
    for (const d of l) {
      if (d.k === "import") continue;
      if (d.k === "alias") { aliases.set(d.n, d.t); continue; }
      if (isNamespace(d)) {
        if (ns) at(d, "nested namespace", Unsupported);
        nss.set(d.n, d); collect(d.l.map(m => (m.k === "func" || m.k === "var") && !m.mods.has("static") ? at(m, "instance member of a namespace", Unsupported) : m), d.n);
      } else if (["class", "struct", "enum"].includes(d.k)) {
        if (types.has(d.n)) { if (types.get(d.n).ns === ns) at(d, "invalid redeclaration of '" + d.n + "'"); at(d, "two types of one name", Unsupported); }
        d.ns = ns; types.set(d.n, d);
        collect(d.l.filter(m => ["class", "struct", "enum", "alias"].includes(m.k)), ns);
        d.methods = new Map(); d.smethods = new Map(); d.props = new Map(); d.sprops = new Map(); d.inits = new Map(); d.cases = new Map();
        for (const m of d.l) {
          const st = m.mods && (m.mods.has("static") || m.mods.has("class"));
          if (m.k === "func") {
            const tab = m.name === "init" ? d.inits : st ? d.smethods : d.methods, mg = fmangle(m);
            if (tab.has(mg)) { if (JSON.stringify(tab.get(mg).params.map(p => p.t)) === JSON.stringify(m.params.map(p => p.t))) at(m, "invalid redeclaration of '" + m.name + "'"); at(m, "overloads by type", Unsupported); }
            tab.set(mg, m);
          } else if (m.k === "var") for (const b of m.l) {
            const tab = st ? d.sprops : d.props;
            if (tab.has(b.name)) at(m, "invalid redeclaration of '" + b.name + "'");
            tab.set(b.name, b);
          } else if (m.k === "case") { if (d.cases.has(m.n)) at(m, "invalid redeclaration of '" + m.n + "'"); d.cases.set(m.n, m); }
        }
      } else if (d.k === "extension") { d.ns = ns; exts.push(d); }
      else if (d.k === "func") { const mg = fmangle(d); if (funcs.has(mg)) at(d, "overloads by type", Unsupported); d.ns = ns; funcs.set(mg, d); }
      else if (d.k === "var") for (const b of d.l) { b.ns = ns; gvars.set(b.name, b); }
      else at(d, d.k, Unsupported);
    }
  }
  collect(top, null);
  for (const x of exts.slice()) if (types.has(x.n.split(".").pop())) {
    const d = types.get(x.n.split(".").pop());
    for (const m of x.l) { if (m.k !== "func" || m.name === "init") at(m, "extension member", Unsupported); (m.mods.has("static") || m.mods.has("class") ? d.smethods : d.methods).set(fmangle(m), m); d.l.push(m); }
    exts.splice(exts.indexOf(x), 1);
  }
  const superOf = d => { const s = d.k === "class" && d.sup[0] && d.sup[0].k === "name" ? types.get(d.sup[0].n.split(".").pop()) : null; return s && s.k === "class" ? s : null; };
  const find = (d, tab, n) => { for (; d; d = superOf(d)) if (d[tab].has(n)) return d[tab].get(n); return null; };
  // functions of one mangled name: do they all throw, or none?
  const throwing = new Map();
  const note = (mg, t) => throwing.set(mg, throwing.has(mg) && throwing.get(mg) !== t ? null : t);
  const optionals = f => { const l = [[]]; for (const p of f.params) { const k = l.length; for (let j = 0; j < k; j++) { if (p.def) l.push(l[j].concat([])); l[j] = l[j].concat([p]); } } return l; };
  const allFuncs = [...funcs.values(), ...[...types.values()].flatMap(d => d.l.filter(m => m.k === "func")), ...exts.flatMap(d => d.l.filter(m => m.k === "func"))];
  for (const f of allFuncs) for (const ps of optionals(f)) note(mangle(f.name, ps.map(p => p.ext)), f.throws);

  // ---- types
  function ty(t, c, n) {
    if (!t) return "$.Any";
    if (t.k === "arr") return `$.A(${ty(t.el, c, n)})`;
    if (t.k === "opt") return `$.O(${ty(t.el, c, n)})`;
    if (t.k === "tuple" || t.k === "fn") return "$.Any";
    let name = t.n;
    if (c.generics && c.generics.has(name)) return c.generics.get(name);
    const parts = name.split(".");
    if (parts.at(-1) === "Type" && parts.length > 1) return "$.Any";
    if (parts.length > 1 && (nss.has(parts[0]) || parts[0] === "Swift" || parts[0] === "Foundation")) {
      parts.shift(); name = parts.join(".");
      if (types.has(name)) return "t_" + name;
    } else if (types.has(parts[parts.length - 1])) {
      const d = types.get(parts[parts.length - 1]);
      if (d.ns && d.ns !== c.ns && parts.length === 1) at(n, "cannot find type '" + name + "' in scope");
      return "t_" + parts[parts.length - 1];
    }
    if (name === "Self") return c.type ? "t_" + c.type.n : "$.Any";
    if (aliases.has(name)) return ty(aliases.get(name), c, n);
    name = ALIAS[name] || name;
    if (BUILTIN.has(name)) return `$.T.${name}`;
    if (LOOSE.has(name) || name === "Element" || t.g) return "$.Any";
    if (/^[a-z]/.test(name)) at(n, "cannot find type '" + name + "' in scope");
    at(n, "type " + name, Unsupported);
  }
  const isType = n => types.has(n) || BUILTIN.has(ALIAS[n] || n) || aliases.has(n);

  // ---- scopes
  const sub = (c, o = {}) => Object.assign({}, c, { scope: new Map(), up: c }, o);
  function look(c, n) { for (; c; c = c.up) if (c.scope && c.scope.has(n)) return c.scope.get(n); return null; }
  function declare(c, n, o, node) {
    if (n === "_") return Object.assign({ js: "v__" + ++id }, o);
    if (c.scope.has(n) && c.scope.get(n).kind !== "param") at(node, "invalid redeclaration of '" + n + "'");
    const v = Object.assign({ js: "v_" + n.replace(/[^\w]/g, x => "$" + x.codePointAt(0).toString(16)) + "_" + ++id }, o);
    c.scope.set(n, v); return v;
  }
  const self = c => c.type || c.ext ? "self" : null;

  // ---- expressions
  const isLv = e => e.k === "id" || e.k === "mem" || e.k === "idx" || e.k === "par" && isLv(e.e) || e.k === "tern" || e.k === "force";
  const cp = (e, c) => { const s = ex(e, c); return isLv(e) ? `$.cp(${s})` : s; };
  function root(e, c) {                   // js of the value that must be mutable for a change below e, null if it is a class reference or variable
    while (e.k === "mem" || e.k === "idx" || e.k === "par" || e.k === "force") e = e.e;
    if (e.k === "id") {
      if (e.n === "self") return c.selfMut ? null : c.type && c.type.k === "class" ? null : "self";
      const v = look(c, e.n);
      if (v) return v.kind === "var" ? null : v.js;
      if (c.type && find(c.type, c.isStatic ? "sprops" : "props", e.n)) return c.type.k === "class" || c.selfMut ? null : "self";
    }
    return null;
  }
  function ident(e, c) {
    const n = e.n;
    if (c.generics && c.generics.has(n)) return c.generics.get(n);
    if (n === "self") { if (!self(c)) at(e, "cannot find 'self' in scope"); return "self"; }
    if (n === "Self") return c.isStatic ? "self" : "self.constructor";
    const v = look(c, n);
    if (v) return v.js;
    if (c.type) {
      if (!c.isStatic && find(c.type, "props", n)) return "self.p_" + n;
      if (c.isStatic && find(c.type, "sprops", n)) return "self.p_" + n;
      if (c.isStatic && c.type.cases && c.type.cases.has(n)) return `$.get(self, ${q(n)})`;
    }
    if (gvars.has(n)) return "g_" + n;
    if (types.has(n) || isType(n)) return ty({ k: "name", n }, c, e);
    if (c.ext) return `$.get(self, ${q(n)})`;
    if (n === "error") at(e, "cannot find 'error' in scope");
    at(e, "cannot find '" + n + "' in scope", /^[a-z_]/.test(n) ? Wrong : Unsupported);
  }
  function nsBase(e, c) { return e.k === "id" && !look(c, e.n) && (nss.has(e.n) || e.n === "Swift" || e.n === "Foundation"); }
  const needTry = (mg, e, c) => { if (throwing.get(mg) === true && !c.tries) at(e, "call can throw but is not marked with 'try'"); if (throwing.get(mg) === true && c.tries === 1 && !c.canThrow) at(e, "errors thrown from here are not handled"); };
  function call(e, c) {
    const labels = e.args.map(a => a.label);
    const args = e.args.map(a => ex(a.e, c)).join(", ");
    const cargs = e.args.map(a => cp(a.e, c)).join(", ");
    let f = e.f;
    while (f.k === "par") f = f.e;
    if (f.k === "mem" && nsBase(f.e, c)) f = { k: "id", n: f.n, line: f.line, ns: f.e.n };
    if (f.k === "type") return `$.conv(${ty(f.t, c, e)}, ${q(labels.join(":"))}, [${args}])`;
    if (f.k === "id") {
      const n = f.n, mg = mangle(n, labels);
      if (c.generics && c.generics.has(n)) return `$.conv(${c.generics.get(n)}, ${q(labels.join(":"))}, [${args}])`;
      const v = f.ns ? null : look(c, n);
      if (v) return `$.callv(${v.js}, [${args}])`;
      if (!f.ns && c.type) {
        if (!c.isStatic && find(c.type, "methods", mg)) { needTry(mg, e, c); const m = find(c.type, "methods", mg); if (m.mods.has("mutating") && !c.selfMut) at(e, "cannot use mutating member on immutable value"); return `self.m_${jm(mg)}(${args})`; }
        if (c.isStatic && find(c.type, "smethods", mg)) { needTry(mg, e, c); return `self.m_${jm(mg)}(${args})`; }
        const near = [...c.type[c.isStatic ? "smethods" : "methods"].keys()].some(k => k.split("$")[0] === n);
        if (near && !hasDefault(mg)) at(e, "incorrect argument labels in call to '" + n + "'");
        if (hasDefault(mg)) { needTry(mg, e, c); return `$.call(self, ${q(mg)}, [${args}])`; }
      }
      if (funcs.has(mg) || [...funcs.values()].some(g => g.name === n && optionals(g).some(ps => mangle(n, ps.map(p => p.ext)) === mg))) {
        const g = [...funcs.values()].find(g => g.name === n);
        if (g.ns && g.ns !== c.ns && !f.ns) at(e, "cannot find '" + n + "' in scope");
        needTry(mg, e, c); return `f_${jm(mg)}(${args})`;
      }
      if (n === "Self") return `$.make(${ident(f, c)}, ${q(labels.join(":"))}, [${cargs}])`;
      if (types.has(n)) { needTry(mangle("init", labels), e, c); const t = ty({ k: "name", n: f.ns && nss.has(f.ns) ? f.ns + "." + n : n }, c, e); return types.get(n).k === "enum" ? `$.raw(${t}, ${q(labels.join(":"))}, [${args}])` : `$.make(${t}, ${q(labels.join(":"))}, [${cargs}])`; }
      if (isType(n)) return `$.conv(${ty({ k: "name", n }, c, e)}, ${q(labels.join(":"))}, [${args}])`;
      if ([...funcs.values()].some(g => g.name === n)) at(e, "incorrect argument labels in call to '" + n + "'");
      if (c.ext) { const k = [...c.ext.l].some(m => m.k === "func" && m.name === n); if (k) return `$.call(self, ${q(mg)}, [${args}])`; }
      return `$.glob(${q(mg)}, [${args}])`;
    }
    if (f.k === "mem") {
      const mg = mangle(f.n, labels);
      if (f.e.k === "id" && f.e.n === "super") {
        if (f.n === "init") return `$.superInit(super.constructor, self)`;
        needTry(mg, e, c); return `super.m_${jm(mg)}(${args})`;
      }
      if (f.n === "init") {
        if (f.e.k === "id" && f.e.n === "Self" && c.type && c.type.k === "class") { const i = c.type.inits.get(mangle("init", labels)); if (!i || !(i.mods.has("required") || c.type.mods.has("final"))) at(e, "constructing an object of class type 'Self' with a metatype value must use a 'required' initializer"); }
        if (f.e.k === "id" && f.e.n === "self" && !c.isStatic) return `self.i_${jm(labels.join(":"))}(${cargs})`;
        return `$.make(${ex(f.e, c)}, ${q(labels.join(":"))}, [${cargs}])`;
      }
      needTry(mg, e, c);
      const base = ex(f.e, c);
      if (MUTATING.has(f.n)) { const r = root(f.e, c); if (r) return `$.call($.mut(${r}, ${base}), ${q(mg)}, [${cargs}])`; }
      return `$.call(${base}, ${q(mg)}, [${MUTATING.has(f.n) ? cargs : args}])`;
    }
    if (f.k === "closure") return `$.callv(${ex(f, c)}, [${args}])`;
    at(e, "call", Unsupported);
  }
  const jm = mg => mg.replace(/[^\w$]/g, x => x === ":" ? "$$" : x === "{" ? "" : x === "}" ? "" : "$" + x.codePointAt(0).toString(16));
  const hasDefault = mg => allFuncs.some(f => f.params.some(p => p.def) && optionals(f).some(ps => mangle(f.name, ps.map(p => p.ext)) === mg));
  function ex(e, c) {
    switch (e.k) {
      case "int": return `$.lit(${BigInt(e.v)}n)`;
      case "float": return `$.flit(${Number(e.v)})`;
      case "bool": return e.v;
      case "nil": return "null";
      case "str": return e.interp ? `$.interp(${q(e.v)})` : q(e.v);
      case "par": return `(${ex(e.e, c)})`;
      case "id": return ident(e, c);
      case "imp": return `$.imp(${q(e.n)})`;
      case "type": return ty(e.t, c, e);
      case "array": return `$.arr([${e.l.map(x => cp(x, c)).join(", ")}])`;
      case "tuple": return `$.tup([${e.l.map(x => cp(x, c)).join(", ")}])`;
      case "mem":
        if (nsBase(e.e, c)) { if (types.has(e.n)) return ty({ k: "name", n: e.e.n + "." + e.n }, c, e); if (gvars.has(e.n)) return "g_" + e.n; if (isType(e.n)) return ty({ k: "name", n: e.n }, c, e); at(e, "type '" + e.e.n + "' has no member '" + e.n + "'"); }
        if (e.n === "self") return ex(e.e, c);
        if (e.e.k === "type" && e.e.t.n === "MemoryLayout") return `$.get($.layout(${ty(e.e.t.g[0], c, e)}), ${q(e.n)})`;
        if (e.e.k === "id" && e.e.n === "super") return `super.p_${e.n}`;
        return `$.get(${ex(e.e, c)}, ${q(e.n)})`;
      case "idx": return `$.idx(${ex(e.e, c)}, ${ex(e.i, c)})`;
      case "force": return `$.force(${ex(e.e, c)})`;
      case "try": {
        if (e.how === "try?") return `$.tryq(() => ${ex(e.e, Object.assign({}, c, { tries: 2 }))})`;
        if (e.how === "try!") return `$.tryf(() => ${ex(e.e, Object.assign({}, c, { tries: 2 }))})`;
        return ex(e.e, Object.assign({}, c, { tries: 1 }));
      }
      case "un": return e.op === "!" ? `$.not(${ex(e.e, c)})` : `$.un(${q(e.op)}, ${ex(e.e, c)})`;
      case "tern": return `($.b(${ex(e.c, c)}) ? ${ex(e.a, c)} : ${ex(e.b, c)})`;
      case "bin":
        if (e.op === "&&" || e.op === "||") return `($.b(${ex(e.l, c)}) ${e.op} $.b(${ex(e.r, c)}))`;
        if (e.op === "??") return `$.nn(${ex(e.l, c)}, () => ${ex(e.r, c)})`;
        if (e.op === "..<" || e.op === "...") return `$.range(${e.l ? ex(e.l, c) : "undefined"}, ${e.r ? ex(e.r, c) : "undefined"}, ${e.op === "..."})`;
        return `$.bin(${q(e.op)}, ${ex(e.l, c)}, ${ex(e.r, c)})`;
      case "cast": return `$.cast(${q(e.how)}, ${ex(e.e, c)}, ${ty(e.t, c, e)})`;
      case "call": return call(e, c);
      case "ref": {
        const r = root(e.e, c);
        if (e.e.k === "id" && look(c, e.e.n) && look(c, e.e.n).kind !== "var") at(e, "cannot pass immutable value as inout argument: '" + e.e.n + "' is not a 'var'");
        return `$.ref(() => ${ex(e.e, c)}, $v => { ${assign(e.e, "$v", c)} })`;
      }
      case "closure": {
        const n = sub(c, { canThrow: true, tries: 0, ret: null, brk: [], inClosure: true });
        let s = "";
        if (e.params) e.params.forEach((p, i) => { const v = declare(n, p, { kind: "let" }, e); s += `const ${v.js} = $a[${i}]; `; });
        else for (let i = 0; i < 4; i++) n.scope.set("$" + i, { js: `$a[${i}]`, kind: "let" });
        const assigns = x => x.k === "assign" || x.k === "try" && assigns(x.e);
        if (e.body.length === 1 && e.body[0].k === "expr" && !assigns(e.body[0].e)) return `((...$a) => { ${s}return ${ex(e.body[0].e, n)}; })`;
        return `((...$a) => { ${s}${body(e.body, n)} })`;
      }
      case "opfn": return `((a, b) => $.bin(${q(e.op)}, a, b))`;
      case "assign": at(e, "assignment used as an expression");
    }
    at(e, e.k, Unsupported);
  }
  function assign(l, v, c, node) {
    while (l.k === "par") l = l.e;
    if (l.k === "id") {
      if (l.n === "_") return `${v};`;
      const o = look(c, l.n);
      if (o) {
        if (o.kind === "let" && o.later) return `${o.js} = ${o.t ? `$.chk(${v}, ${o.t})` : `$.def(${v})`};`;
        if (o.kind !== "var") at(l, `cannot assign to value: '${l.n}' is ${o.kind === "param" ? "a 'let' constant" : "a 'let' constant"}`);
        return `${o.js} = ${o.t ? `$.chk(${v}, ${o.t})` : `$.same(${o.js}, ${v})`};`;
      }
      if (c.type && find(c.type, c.isStatic ? "sprops" : "props", l.n)) {
        if (c.type.k !== "class" && !c.selfMut && !c.isStatic) at(l, "cannot assign to property: 'self' is immutable");
        return `self.p_${l.n} = ${v};`;
      }
      if (gvars.has(l.n)) { if (gvars.get(l.n).kind === "let") at(l, "cannot assign to value: '" + l.n + "' is a 'let' constant"); return `g_${l.n} = $.same(g_${l.n}, ${v});`; }
      at(l, "cannot find '" + l.n + "' in scope");
    }
    if (l.k === "mem") { const r = root(l, c); return `$.put(${r ? `$.mut(${r}, ${ex(l.e, c)})` : ex(l.e, c)}, ${q(l.n)}, ${v});`; }
    if (l.k === "idx") { const r = root(l, c); return `$.putidx(${r ? `$.mut(${r}, ${ex(l.e, c)})` : ex(l.e, c)}, ${ex(l.i, c)}, ${v});`; }
    at(l, "assignment to this expression", Unsupported);
  }

  // ---- statements
  const body = (l, c) => {
    const d = l.findIndex(s => s.k === "defer");
    if (d < 0) return l.map(s => st(s, c)).join("\n");
    return l.slice(0, d).map(s => st(s, c)).join("\n") + `\ntry {\n${body(l.slice(d + 1), c)}\n} finally {\n${body(l[d].body, sub(c))}\n}`;
  };
  function ends(l) { const s = l[l.length - 1]; return !!s && (["return", "throw", "break", "continue"].includes(s.k) || s.k === "expr" && s.e.k === "call" && s.e.f.k === "id" && ["fatalError", "preconditionFailure"].includes(s.e.f.n) || s.k === "if" && s.els && ends(s.then) && ends(s.els) || s.k === "switch" && s.cases.every(x => ends(x.body)) || s.k === "do" && ends(s.body) && s.catches.every(x => ends(x.body))); }
  function condJs(list, c, fail) {        // declarations and tests, with `fail` run when one does not hold
    let s = "";
    for (const x of list) {
      if (x.bind) {
        const v0 = ex(x.bind.init, c);
        const v = declare(c, x.bind.name, { kind: x.bind.kind }, x);
        s += `let ${v.js} = $.cp($.def(${v0})); if (${v.js} === null || ${v.js} === undefined) { ${fail} }\n`;
      } else s += `if (!$.b(${ex(x.e, c)})) { ${fail} }\n`;
    }
    return s;
  }
  function st(s, c) {
    switch (s.k) {
      case "expr":
        if (s.e.k === "try" && s.e.e.k === "assign") s = { k: "expr", e: s.e.e, line: s.line, t: 1 };
        if (s.e.k === "assign") {
          const a = s.e, c2 = s.t ? Object.assign({}, c, { tries: 1 }) : c;
          if (a.op === "=") return assign(a.l, a.l.k === "id" && a.l.n === "_" ? ex(a.r, c2) : cp(a.r, c2), c2, s);
          return assign(a.l, `$.bin(${q(a.op.slice(0, -1))}, ${ex(a.l, c2)}, ${ex(a.r, c2)})`, c2, s);
        }
        return ex(s.e, c) + ";";
      case "var":
        return s.l.map(b => {
          if (b.get) at(s, "local computed variable", Unsupported);
          const v0 = b.init ? cp(b.init, c) : null;
          const t = b.t ? ty(b.t, c, s) : null;
          if (!b.init && !b.t) at(s, "type annotation missing in pattern");
          const v = declare(c, b.name, { kind: b.kind, t, later: b.kind === "let" && !b.init }, s);
          if (!b.init) return `let ${v.js} = ${b.t.k === "opt" ? "null" : "undefined"};`;
          return `let ${v.js} = ${t ? `$.chk(${v0}, ${t})` : `$.def(${v0})`};`;
        }).join("\n");
      case "if": {
        const L = ++id, n = sub(c);
        const t = condJs(s.c, n, `break E${L};`) + body(s.then, sub(n));
        if (!s.els) return `E${L}: {\n${t}\n}`;
        return `I${L}: {\nE${L}: {\n${t}\nbreak I${L};\n}\n${body(s.els, sub(c))}\n}`;
      }
      case "guard": {
        if (!ends(s.els)) at(s, "'guard' body must not fall through");
        const els = body(s.els, sub(c));
        return condJs(s.c, c, els);
      }
      case "while": { const n = sub(c, { brk: [...c.brk, { loop: true, label: s.label }] }); return `${s.label ? "U_" + s.label + ": " : ""}for (;;) {\n${condJs(s.c, n, "break;")}${body(s.body, sub(n))}\n}`; }
      case "repeat": { const n = sub(c, { brk: [...c.brk, { loop: true }] }); if (s.label) at(s, "label", Unsupported); return `do {\n${body(s.body, n)}\n} while ($.b(${ex(s.c, c)}));`; }
      case "for": {
        const seq = ex(s.seq, c), n = sub(c, { brk: [...c.brk, { loop: true, label: s.label }] });
        const k = "it" + ++id;
        const names = Array.isArray(s.name) ? s.name.map((x, i) => [declare(n, x, { kind: s.kind }, s), `$.part(${k}, ${i}, ${s.name.length})`]) : [[declare(n, s.name, { kind: s.kind }, s), k]];
        return `${s.label ? "U_" + s.label + ": " : ""}for (const ${k} of $.iter(${seq})) {\n${names.map(([v, x]) => `let ${v.js} = ${s.kind === "var" ? `$.cp(${x})` : x};\n`).join("")}${s.where ? `if (!$.b(${ex(s.where, n)})) continue;\n` : ""}${body(s.body, sub(n))}\n}`;
      }
      case "switch": {
        const L = "S" + ++id, v = "s" + id;
        const n = sub(c, { brk: [...c.brk, { sw: L, label: s.label }] });
        let r = `${L}: {\nconst ${v} = ${ex(s.e, c)};\n`;
        let dflt = null;
        for (const k of s.cases) {
          if (!k.pats) { dflt = k; continue; }
          const m = sub(n);
          r += `if (${k.pats.map(x => `($.match(${v}, ${x.p.k === "any" ? "$.any" : ex(x.p, m)})${x.w ? ` && $.b(${ex(x.w, m)})` : ""})`).join(" || ")}) {\n${body(k.body, m)}\nbreak ${L};\n}\n`;
        }
        r += dflt ? `{\n${body(dflt.body, sub(n))}\n}` : `$.ce("switch must be exhaustive");`;
        return r + "\n}";
      }
      case "do": {
        if (!s.catches.length) return `{\n${body(s.body, sub(c))}\n}`;
        const all = s.catches.some(k => !k.pat);
        let r = `try {\n${body(s.body, sub(c, { canThrow: all || c.canThrow }))}\n} catch ($e) {\nif (!($e instanceof $.SwErr)) throw $e;\n`;
        const L = "C" + ++id;
        r += `${L}: {\n`;
        for (const k of s.catches) {
          const n = sub(c);
          const v = declare(n, k.name, { kind: "let" }, s);
          r += `${k.pat ? `if ($.match($e.value, ${ex(k.pat, n)})) ` : ""}{\nconst ${v.js} = $e.value;\n${body(k.body, n)}\nbreak ${L};\n}\n`;
        }
        return r + `throw $e;\n}\n}`;
      }
      case "return":
        if (c.isInit) return "return self;";
        if (!s.e) { if (c.ret && c.ret !== "$.T.Void") at(s, "non-void function should return a value"); return "return;"; }
        if (c.ret === "$.T.Void" && !c.inClosure) return `${ex(s.e, c)}; return;`;
        return `return ${c.ret ? `$.chk(${ex(s.e, c)}, ${c.ret})` : ex(s.e, c)};`;
      case "throw": if (!c.canThrow) at(s, "error is not handled because the enclosing function is not declared 'throws'"); return `throw new $.SwErr(${ex(s.e, c)});`;
      case "break": case "continue": {
        if (s.label) return `${s.k} U_${s.label};`;
        const t = s.k === "continue" ? c.brk.filter(x => x.loop).at(-1) : c.brk.at(-1);
        if (!t) at(s, `'${s.k}' is only allowed inside a loop`);
        return t.sw ? `break ${t.sw};` : s.k + ";";
      }
      case "func": at(s, "nested function", Unsupported);
    }
    at(s, s.k, Unsupported);
  }

  // ---- functions and types
  function params(f, c) {
    let s = "";
    for (const p of f.params) { const v = declare(c, p.loc, { kind: "param" }, f); p.js = v.js; s += `${v.js} = $.chk(${v.js}, ${ty(p.t, c, f)});\n`; }
    return s;
  }
  function func(f, c0, how) {             // how: (jsName, params, body) => text
    const isInit = f.name === "init";
    const c = sub(c0, { canThrow: f.throws, tries: 0, brk: [], isInit, ret: isInit ? null : f.ret ? f.generics.length ? null : ty(f.ret, c0, f) : "$.T.Void", selfMut: isInit || f.mods.has("mutating") || (c0.type && c0.type.k === "class") });
    let bind = "";
    if (f.generics.length) {
      c.generics = new Map(c0.generics || []);
      for (const g of f.generics) {
        const js = "G_" + g + "_" + ++id;
        const by = f.params.find(p => p.t.k === "name" && p.t.n === g + ".Type"), of = f.params.find(p => p.t.k === "name" && p.t.n === g);
        if (!by && !of) at(f, "generic function whose type arguments are not among its parameters", Unsupported);
        if (f.params.some(p => p.def)) at(f, "generic function with default arguments", Unsupported);
        c.generics.set(g, js);
        bind += `const ${js} = ${by ? `@${f.params.indexOf(by)}@` : `$.typeOf(@${f.params.indexOf(of)}@)`};\n`;
      }
    }
    if (f.generics.length && f.ret) c.ret = ty(f.ret, c, f);
    const head0 = params(f, c);
    const head = bind.replace(/@(\d+)@/g, (_, k) => f.params[+k].js) + head0;
    const inner = sub(c);
    let b;
    if (!isInit && f.body.length === 1 && f.body[0].k === "expr" && f.ret && f.body[0].e.k !== "assign" && !ends(f.body)) b = `return $.chk(${ex(f.body[0].e, inner)}, ${c.ret});`;
    else {
      b = body(f.body, inner);
      if (!isInit && c.ret !== "$.T.Void") b += `\n$.ce("missing return in ${f.name}");`;
    }
    let out = how(jm(fmangle(f)), f.params.map(p => p.js).join(", "), head + b);
    for (const ps of optionals(f)) if (ps.length < f.params.length) {
      const given = ps.map(p => p.js);
      out += "\n" + how(jm(mangle(f.name, ps.map(p => p.ext))), given.join(", "), f.params.filter(p => !ps.includes(p)).map(p => `let ${p.js} = ${ex(p.def, c0)};\n`).join("") + head + b);
    }
    return out;
  }
  const base = { scope: new Map(), up: null, brk: [], tries: 0, canThrow: false };
  function typeDecl(d) {
    const sup = superOf(d);
    if (d.sup.length && d.k === "class" && !sup && types.has((d.sup[0].n || "").split(".").pop())) at(d, "inheritance from non-class type");
    const c = Object.assign({}, base, { type: d, ns: d.ns });
    let o = `class t_${d.n} extends ${sup ? "t_" + sup.n : d.k === "class" ? "$.Obj" : d.k === "struct" ? "$.Struct" : "$.Enum"} {\n`;
    if (d.k !== "enum") {
      const inst = sub(c, { isStatic: true });
      o += `constructor() { super();\n${[...d.props.values()].filter(b => !b.get).map(b => b.init ? `this.s_${b.name} = ${b.t ? `$.chk(${cp(b.init, inst)}, ${ty(b.t, c, b)})` : `$.def(${cp(b.init, inst)})`};\n` : b.t && b.t.k === "opt" && b.kind === "var" ? `this.s_${b.name} = null;\n` : `this.s_${b.name} = undefined;\n`).join("")}}\n`;
    } else if (d.props.size) at(d, "enum property", d.props.size && [...d.props.values()].every(b => b.get) ? Unsupported : Wrong);
    for (const b of d.props.values()) {
      if (sup && find(sup, "props", b.name)) at(b, "cannot override with a stored property '" + b.name + "'");
      if (b.get) {
        if (!b.t) at(b, "computed property must have an explicit type");
        const g = sub(c, { ret: ty(b.t, c, b), selfMut: d.k === "class" });
        o += `get p_${b.name}() { const self = this;\n${b.get.length === 1 && b.get[0].k === "expr" ? `return $.chk(${ex(b.get[0].e, g)}, ${g.ret});` : body(b.get, g)}\n}\nset p_${b.name}(v) { $.ce("'${b.name}' is a get-only property"); }\n`;
      } else o += `get p_${b.name}() { return this.s_${b.name}; }\nset p_${b.name}(v) { ${b.kind === "let" ? `if (!this.$ini) $.ce("cannot assign to property: '${b.name}' is a 'let' constant"); ` : ""}this.s_${b.name} = ${b.t ? `$.chk(v, ${ty(b.t, c, b)})` : `$.same(this.s_${b.name}, v)`}; }\n`;
      if (!b.init && !b.t) at(b, "type annotation missing in pattern");
    }
    if (d.k === "struct") o += `$copy() { const r = Object.create(t_${d.n}.prototype); ${[...d.props.values()].filter(b => !b.get).map(b => `r.s_${b.name} = $.cp(this.s_${b.name});`).join(" ")} return r; }\n`;
    for (const f of d.l) if (f.k === "func") {
      const stat = f.mods.has("static") || f.mods.has("class"), mg = fmangle(f);
      if (f.mods.has("class") && d.k !== "class") at(f, "class methods are only allowed within classes");
      if (f.mods.has("mutating") && d.k === "class") at(f, "'mutating' is not valid on instance methods in classes");
      if (d.k !== "class" && (f.mods.has("override") || f.mods.has("required"))) at(f, "'override' can only be specified on class members");
      if (d.k === "class") {
        if (f.name === "init") {
          const si = sup && (sup.inits.get(mg) || (!sup.inits.size && mg === "init$" ? { mods: new Set() } : null));
          if (si && !f.mods.has("override") && !(f.mods.has("required") && si.mods.has("required"))) at(f, "overriding declaration requires an 'override' keyword");
          if (!si && f.mods.has("override")) at(f, "initializer does not override a designated initializer from its superclass");
        } else {
          const s = sup && find(sup, stat ? "smethods" : "methods", mg);
          if (s && !f.mods.has("override")) at(f, "overriding declaration requires an 'override' keyword");
          if (!s && f.mods.has("override")) at(f, "method does not override any method from its superclass");
          if (s && (s.mods.has("final") || s.mods.has("static"))) at(f, "cannot override static or final method");
          if (s && s.mods.has("public") && !f.mods.has("public") && d.mods.has("public")) at(f, "overriding method must be as accessible as the declaration it overrides");
          if (s && s.throws !== f.throws && f.throws) at(f, "cannot override non-throwing method with throwing method");
        }
      }
      const pub = f.mods.has("public") || f.mods.has("open");
      if (pub && d.mods.has("public")) for (const p of f.params.concat([{ t: f.ret }])) { const t = p.t && p.t.k === "name" && types.get(p.t.n.split(".").pop()); if (t && !t.mods.has("public")) at(f, "method cannot be declared public because it uses an internal type"); }
      if (f.name === "init") o += func(f, c, (n, ps, b) => `i_${n.slice(5)}(${ps}) { const self = this; this.$ini = true;\n${b}\nreturn self; }`) + "\n";
      else o += func(f, Object.assign({}, c, { isStatic: stat }), (n, ps, b) => `${stat ? "static " : ""}m_${n}(${ps}) { const self = this;\n${b}\n}`) + "\n";
    }
    o += "}\n";
    const memb = [...d.props.values()].filter(b => !b.get && !(b.kind === "let" && b.init)).map(b => b.name);
    o += `$.type(t_${d.n}, ${q(d.n)}, ${q(d.k)}, ${q({ inits: [...d.inits.keys()], memb, must: [...d.props.values()].filter(b => !b.get && !b.init && !(b.t && b.t.k === "opt")).map(b => b.name) })});\n`;
    for (const b of d.sprops.values()) { if (!b.init) at(b, "static property", Unsupported); o += `t_${d.n}.p_${b.name} = $.def(${b.t ? `$.chk(${ex(b.init, c)}, ${ty(b.t, c, b)})` : ex(b.init, c)});\n`; }
    if (d.k === "enum") {
      let raw = null;
      if (d.sup.length && d.sup[0].k === "name" && BUILTIN.has(ALIAS[d.sup[0].n] || d.sup[0].n)) raw = d.sup[0].n;
      else if (d.sup.length && !["Error", "Hashable", "Equatable", "CaseIterable", "Sendable"].includes(d.sup[0].n)) ty(d.sup[0], c, d);
      if (raw && !d.cases.size) at(d, "an enum with no cases cannot declare a raw type");
      if (raw && !INTS.includes(raw)) at(d, "raw type", Unsupported);
      let next = 0n;
      const seen = new Set(), vals = [];
      for (const k of d.cases.values()) {
        if (k.v && !raw) at(k, "enum case cannot have a raw value if the enum does not have a raw type");
        if (k.v && k.v.k !== "int") at(k, "raw value for enum case must be a literal");
        const v = k.v ? BigInt(k.v.v) : next; next = v + 1n;
        if (raw) {
          const bits = raw === "Int" || raw === "UInt" ? 64 : +raw.replace(/\D/g, ""), un = raw[0] === "U";
          if (v < (un ? 0n : -(1n << BigInt(bits - 1))) || v >= (1n << BigInt(un ? bits : bits - 1))) at(k, `integer literal '${v}' overflows when stored into '${raw}'`);
          if (seen.has(v)) at(k, "raw value for enum case is not unique");
          seen.add(v);
        }
        vals.push([k.n, v.toString()]);
      }
      o += `$.cases(t_${d.n}, ${raw ? q(raw) : "null"}, ${q(vals)});\n`;
    }
    return o;
  }
  function hidden() {                     // what users of the module cannot see
    const l = [];
    const vis = x => x.mods.has("public") || x.mods.has("open");
    for (const d of types.values()) {
      if (!vis(d)) { l.push(d.n); continue; }
      for (const m of d.l) if (m.k === "var" && !vis(m)) l.push(...m.l.map(b => d.n + "." + b.name)); else if (m.k === "func" && !vis(m)) l.push(d.n + "." + fmangle(m));
      if (d.k === "struct" && !d.inits.size) l.push(d.n + ".init$");
    }
    for (const f of funcs.values()) if (!vis(f)) l.push(fmangle(f));
    for (const x of exts) for (const m of x.l) if (!vis(m) && !vis(x)) l.push(x.n + "." + fmangle(m));
    return l;
  }
  let out = '"use strict";\nconst $ = require("./swrt.js").make();\n';
  const done = new Set();
  const emitType = d => { if (done.has(d)) return; done.add(d); const s = superOf(d); if (s) emitType(s); out += typeDecl(d); };
  for (const d of types.values()) emitType(d);
  for (const b of gvars.values()) { if (!b.init) at(b, "global", Unsupported); out += `let g_${b.name} = ${b.t ? `$.chk(${ex(b.init, Object.assign({}, base, { ns: b.ns }))}, ${ty(b.t, Object.assign({}, base, { ns: b.ns }), b)})` : `$.def(${ex(b.init, Object.assign({}, base, { ns: b.ns }))})`};\n`; }
  for (const f of funcs.values()) {
    const pub = f.mods.has("public");
    if (pub) for (const p of f.params.concat([{ t: f.ret }])) { const t = p.t && p.t.k === "name" && types.get(p.t.n.split(".").pop()); if (t && !t.mods.has("public")) at(f, "function cannot be declared public because it uses an internal type"); }
    out += func(f, Object.assign({}, base, { ns: f.ns }), (n, ps, b) => `function f_${n}(${ps}) {\n${b}\n}`) + "\n";
  }
  for (const d of exts) {
    if (!["Array", "Data", "String"].includes(d.n)) at(d, "extension of " + d.n, Unsupported);
    for (const f of d.l) {
      if (f.k !== "func" || f.mods.has("static") || f.mods.has("mutating") || f.name === "init") at(f, "extension member", Unsupported);
      out += func(f, Object.assign({}, base, { ext: d, ns: d.ns }), (n, ps, b) => `$.extend(${q(d.n)}, ${q(n)}, function (${ps}) { const self = this;\n${b}\n});`) + "\n";
    }
  }
  out += `module.exports = { $, types: { ${[...types.keys()].map(n => `${q(n)}: t_${n}`).join(", ")} }, funcs: { ${[...funcs.keys()].map(m => `${q(m)}: f_${jm(m)}`).join(", ")} }, hidden: ${q(hidden())} };\n`;
  return out;
}

// what a file declares for the whole module: two files of one module may not declare the same
function tops(src) {
  const out = [], open = d => !(d.mods && (d.mods.has("private") || d.mods.has("fileprivate")));
  const sig = f => f.name + "(" + f.params.map(p => p.ext).join(":") + ") " + JSON.stringify([f.params.map(p => p.t), f.ret], (k, v) => k === "line" ? undefined : v);
  for (const d of parse(src)) {
    if (!open(d)) continue;
    if (["class", "struct", "enum"].includes(d.k)) out.push("type " + d.n);
    else if (d.k === "alias") out.push("type " + (d.n || d.name));
    else if (d.k === "func") out.push("function " + sig(d));
    else if (d.k === "var") for (const b of d.l) out.push("variable " + b.name);
    else if (d.k === "extension") for (const f of d.l) if (f.k === "func" && open(f)) out.push("extension of " + d.n + (d.where ? " where " + d.where : "") + " function " + sig(f));
  }
  return out;
}

module.exports = { compile, tops };
if (require.main === module && process.argv[2] === "--tops") {
  for (const f of process.argv.slice(3)) {
    let x = null;
    try { x = tops(require("fs").readFileSync(f, "utf8")); } catch (e) { }
    console.log(JSON.stringify(x));
  }
} else if (require.main === module) {
  const fs = require("fs"), path = require("path");
  let rc = 0;
  const dir = process.argv[2];
  for (const f of process.argv.slice(3)) {
    try { fs.writeFileSync(path.join(dir, path.basename(f).replace(/\.swift$/, ".js")), compile(fs.readFileSync(f, "utf8"))); }
    catch (e) {
      if (e instanceof Wrong) { console.log(`${path.basename(f)}:${e.message.replace(": ", ": error: ")}`); rc = rc || 1; }
      else { console.log(`unsupported (${path.basename(f).replace(/\W/g, "-")}) ${e instanceof Unsupported ? e.message : e.stack}`); rc = 2; }
    }
  }
  process.exit(rc);
}
