// AssemblyScript on node: types of scalar expressions are worked out as AssemblyScript does, and every place where a value changes
// its type (declaration, assignment, argument, return, operand, cast) gets the conversion AssemblyScript would do.
// node emu.js OUTDIR file.ts ... -> file.js each;  diagnostics "file.ts:line: error: text" on stdout, status 1 when there are any
"use strict";
const path = require("path"), fs = require("fs");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const SC = new Set(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "bool"]);
const BITS = { u8: 8, i8: 8, u16: 16, i16: 16, u32: 32, i32: 32, u64: 64, i64: 64, usize: 32, isize: 32, f32: 32, f64: 64, bool: 1 };
const isInt = t => SC.has(t) && t !== "f32" && t !== "f64";
const signed = t => /^i/.test(t);
const big = t => t === "u64" || t === "i64";

function assignable(a, b, signs) {            // Type#isAssignableTo of the AssemblyScript compiler, values only
  if (a === b) return true;
  if (isInt(a)) {
    if (isInt(b)) return (!signs || a === "bool" || signed(a) === signed(b)) && BITS[a] <= BITS[b];
    return BITS[a] <= (b === "f32" ? 23 : 52);
  }
  return !isInt(b) && BITS[a] <= BITS[b];
}
const common = (a, b, signs) => assignable(b, a, signs) ? a : assignable(a, b, signs) ? b : null;

class Unsup extends Error {}
const BUILTINS = new Set(("memory load store changetype unchecked idof sizeof alignof offsetof assert trace abort unreachable StaticArray Map Set Math Mathf NativeMath NativeMathf JSMath Int8Array Int16Array "
  + "Uint16Array Int32Array Uint32Array Int64Array Uint64Array Float32Array Float64Array Uint8ClampedArray ArrayBufferView Date RegExp Symbol isNaN isFinite parseInt parseFloat console process heap inline unsafe operator "
  + "lazy final global external isInteger isSigned isFloat isString isArray isArrayLike isReference isFunction isNullable isDefined isConstant isManaged isVoid nameof reinterpret bswap min max select clz ctz popcnt rotl rotr abs "
  + "ceil floor trunc nearest sqrt copysign instantiate runtime performance NaN Infinity TypeError SyntaxError URIError FinalizationRegistry Iterator BigInt JSON Object Function Number Boolean auto v128 simd native nonnull valueof returnof indexof "
  + "u8 i8 u16 i16 u32 i32 u64 i64 usize isize f32 f64 bool ASC_TARGET ASC_NO_ASSERT ASC_MEMORY_BASE ASC_OPTIMIZE_LEVEL ASC_SHRINK_LEVEL String DataView Uint8Array Array ArrayBuffer Error RangeError").split(" "));

function compile(files, outdir) {
  const opts = { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, noLib: true, strict: true, useDefineForClassFields: true, types: [] };
  const prelude = path.join(__dirname, "prelude.d.ts");
  const program = ts.createProgram([prelude, ...files], opts);
  const ck = program.getTypeChecker();
  const diags = [];

  function typeText(n) {                      // TypeNode -> scalar name, "ref" or undefined
    if (!n) return undefined;
    if (ts.isParenthesizedTypeNode(n)) return typeText(n.type);
    if (n.kind === ts.SyntaxKind.NumberKeyword) return "f64";
    if (n.kind === ts.SyntaxKind.BooleanKeyword) return "bool";
    if (n.kind === ts.SyntaxKind.StringKeyword) return "ref";
    if (ts.isTypeReferenceNode(n)) {
      const t = n.typeName.getText();
      if (SC.has(t)) return t;
      const s = ck.getSymbolAtLocation(n.typeName);
      if (s && (s.flags & ts.SymbolFlags.Enum)) return "i32";
      if (s && (s.flags & ts.SymbolFlags.Alias) && (ck.getAliasedSymbol(s).flags & ts.SymbolFlags.Enum)) return "i32";
      if (s && (s.flags & ts.SymbolFlags.TypeAlias)) return typeText(s.declarations[0].type);
      if (s && (s.flags & ts.SymbolFlags.TypeParameter)) return undefined;
      return "ref";
    }
    return "ref";
  }
  function decl(n) { const s = ck.getSymbolAtLocation(n); return s && (s.valueDeclaration || (s.declarations || [])[0]); }
  function typeNodeOf(e) {                    // the TypeNode an expression was declared with, if any
    if (ts.isParenthesizedExpression(e)) return typeNodeOf(e.expression);
    if (ts.isNonNullExpression(e)) return typeNodeOf(e.expression);
    if (ts.isAsExpression(e)) return e.type;
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
      const d = decl(ts.isIdentifier(e) ? e : e.name);
      if (!d) return undefined;
      if (d.type) return d.type;
      if (d.initializer) return typeNodeOf(d.initializer);
      return undefined;
    }
    if (ts.isCallExpression(e)) { const d = sig(e); return d && d.type; }
    if (ts.isElementAccessExpression(e)) return elemNode(typeNodeOf(e.expression));
    return undefined;
  }
  function elemNode(t) {
    if (!t) return undefined;
    if (ts.isArrayTypeNode(t)) return t.elementType;
    if (ts.isTypeReferenceNode(t) && t.typeArguments && /Array$/.test(t.typeName.getText())) return t.typeArguments[0];
    return undefined;
  }
  function sig(e) { const s = ck.getResolvedSignature(e); return s && s.declaration; }
  function typeOf(e, ctx) {                   // scalar type, "ref", "lit" (integer literal) or undefined
    if (ts.isParenthesizedExpression(e)) return typeOf(e.expression, ctx);
    if (ts.isNumericLiteral(e)) return /^(0x[0-9a-f]+|\d+)$/i.test(e.getText()) ? "lit" : "f64";
    if (e.kind === ts.SyntaxKind.TrueKeyword || e.kind === ts.SyntaxKind.FalseKeyword) return "bool";
    if (ts.isStringLiteralLike(e) || ts.isTemplateExpression(e) || ts.isNewExpression(e) || ts.isArrayLiteralExpression(e) || e.kind === ts.SyntaxKind.NullKeyword || e.kind === ts.SyntaxKind.ThisKeyword) return "ref";
    if (ts.isAsExpression(e)) return typeText(e.type);
    if (ts.isNonNullExpression(e)) return typeOf(e.expression);
    if (ts.isPrefixUnaryExpression(e)) return e.operator === ts.SyntaxKind.ExclamationToken ? "bool" : typeOf(e.operand);
    if (ts.isPostfixUnaryExpression(e)) return typeOf(e.operand);
    if (ts.isConditionalExpression(e)) { const a = typeOf(e.whenTrue), b = typeOf(e.whenFalse); return a === "lit" ? b : b === "lit" || a === b ? a : (SC.has(a) && SC.has(b) ? common(a, b, false) || undefined : undefined); }
    if (ts.isElementAccessExpression(e)) {
      const t = elemNode(typeNodeOf(e.expression));
      if (t) return typeText(t);
      const nn = ck.typeToString(ck.getTypeAtLocation(e.expression));
      return nn === "Uint8Array" ? "u8" : undefined;
    }
    if (ts.isCallExpression(e)) { const d = sig(e); return d && d.type ? typeText(d.type) : undefined; }
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
      const d = decl(ts.isIdentifier(e) ? e : e.name);
      if (!d) return undefined;
      if (ts.isEnumMember(d)) return "i32";
      if (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isPropertyDeclaration(d) || ts.isPropertySignature(d)) return declType(d);
      return undefined;
    }
    if (ts.isBinaryExpression(e)) {
      const k = e.operatorToken.kind, S = ts.SyntaxKind;
      if (CMP.has(k)) return "bool";
      if (ARI.has(k)) return operands(e, false).type;
      if (BIT.has(k)) { const l = typeOf(e.left); return l === "lit" ? typeOf(e.right) : l; }
      if (k === S.AmpersandAmpersandToken || k === S.BarBarToken) { const l = typeOf(e.left), r = typeOf(e.right); return l === r ? l : undefined; }
      if (k === S.EqualsToken || COMP[k]) return typeOf(e.left);
      return undefined;
    }
    return undefined;
  }
  function declType(d) {
    if (d.type) return typeText(d.type);
    if (d.initializer) { const t = typeOf(d.initializer); return t === "lit" ? "i32" : t; }
    return undefined;
  }
  const S = ts.SyntaxKind;
  const CMP = new Set([S.LessThanToken, S.LessThanEqualsToken, S.GreaterThanToken, S.GreaterThanEqualsToken, S.EqualsEqualsToken, S.ExclamationEqualsToken, S.EqualsEqualsEqualsToken, S.ExclamationEqualsEqualsToken]);
  const REL = new Set([S.LessThanToken, S.LessThanEqualsToken, S.GreaterThanToken, S.GreaterThanEqualsToken]);
  const ARI = new Set([S.PlusToken, S.MinusToken, S.AsteriskToken, S.SlashToken, S.PercentToken]);
  const BIT = new Set([S.AmpersandToken, S.BarToken, S.CaretToken, S.LessThanLessThanToken, S.GreaterThanGreaterThanToken, S.GreaterThanGreaterThanGreaterThanToken]);
  const COMP = { [S.PlusEqualsToken]: S.PlusToken, [S.MinusEqualsToken]: S.MinusToken, [S.AsteriskEqualsToken]: S.AsteriskToken, [S.SlashEqualsToken]: S.SlashToken, [S.PercentEqualsToken]: S.PercentToken,
    [S.AmpersandEqualsToken]: S.AmpersandToken, [S.BarEqualsToken]: S.BarToken, [S.CaretEqualsToken]: S.CaretToken, [S.LessThanLessThanEqualsToken]: S.LessThanLessThanToken, [S.GreaterThanGreaterThanEqualsToken]: S.GreaterThanGreaterThanToken };
  function operands(e, signs) {
    let l = typeOf(e.left), r = typeOf(e.right);
    if (l === "lit" && r === "lit") return { type: "i32" };
    if (l === "lit") l = SC.has(r) ? r : undefined;
    if (r === "lit") r = SC.has(l) ? l : undefined;
    if (!SC.has(l) || !SC.has(r)) return { type: l === "ref" || r === "ref" ? "ref" : undefined };
    const c = common(l, r, signs);
    if (!c) { error(e, `operator cannot be applied to types '${l}' and '${r}'`); return { type: undefined }; }
    return { type: c };
  }
  const reported = new Set();
  function error(n, text) {
    const sf = n.getSourceFile(); const { line } = sf.getLineAndCharacterOfPosition(n.getStart());
    const m = `${path.basename(sf.fileName)}:${line + 1}: error: ${text}: ${n.getText().slice(0, 120)}`;
    if (!reported.has(m)) { reported.add(m); diags.push(m); }
  }

  const factory = ts.factory;
  const call = (f, ...a) => factory.createCallExpression(factory.createPropertyAccessExpression(factory.createIdentifier("$"), f), undefined, a);
  const transformer = context => sf => {
    let retType = [];
    // convert node (already visited as `v`, originally `e`) to type t
    function conv(e, v, t, explicit) {
      if (!SC.has(t)) return v;
      const f = typeOf(e);
      if (f === t) return v;
      if (f === "ref") return v;
      if (SC.has(f) && !explicit && !assignable(f, t, false)) error(e, `conversion from type '${f}' to '${t}' requires an explicit cast`);
      return call(t, v);
    }
    const V = n => ts.visitNode(n, visit);
    function init(d) { const t = declType(d); return d.initializer && conv(d.initializer, V(d.initializer), t); }
    function visit(n) {
      if (ts.isAsExpression(n)) { const t = typeText(n.type); return SC.has(t) ? conv(n.expression, V(n.expression), t, true) : V(n.expression); }
      if (ts.isVariableDeclaration(n) && n.initializer) return factory.updateVariableDeclaration(n, n.name, n.exclamationToken, n.type, init(n));
      if (ts.isPropertyDeclaration(n)) {
        const t = declType(n);
        const v = n.initializer ? init(n) : SC.has(t) ? call(t, factory.createNumericLiteral("0")) : undefined;
        return factory.updatePropertyDeclaration(n, n.modifiers, n.name, n.questionToken || n.exclamationToken, n.type, v);
      }
      if (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isArrowFunction(n) || ts.isFunctionExpression(n) || ts.isGetAccessor(n)) {
        retType.push(n.type ? typeText(n.type) : undefined);
        const r = ts.visitEachChild(n, visit, context);
        retType.pop();
        return r;
      }
      if (ts.isReturnStatement(n) && n.expression) return factory.updateReturnStatement(n, conv(n.expression, V(n.expression), retType[retType.length - 1]));
      if (ts.isNewExpression(n) && n.expression.getText() === "Array") {
        const t = n.typeArguments ? typeText(n.typeArguments[0]) : undefined;
        const a = n.arguments && n.arguments.length ? [conv(n.arguments[0], V(n.arguments[0]), "i32")] : [factory.createNumericLiteral("0")];
        return call("newArray", ...a, factory.createStringLiteral(t || "ref"));
      }
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
        const d = sig(n);
        const ps = d && d.parameters;
        const args = (n.arguments || []).map((a, i) => {
          const v = V(a);
          if (!ps || !ps[i]) return v;
          let t = typeText(ps[i].type);
          if (t === undefined && ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) { const el = elemNode(typeNodeOf(n.expression.expression)); t = el && typeText(el); }
          return conv(a, v, t);
        });
        if (ts.isCallExpression(n)) return factory.updateCallExpression(n, V(n.expression), undefined, args);
        return factory.updateNewExpression(n, V(n.expression), undefined, args);
      }
      if (ts.isElementAccessExpression(n)) {
        const t = typeOf(n.argumentExpression);
        if (SC.has(t) && !assignable(t, "i32", false)) error(n.argumentExpression, `conversion from type '${t}' to 'i32' requires an explicit cast`);
      }
      if (ts.isElementAccessExpression(n)) return factory.updateElementAccessExpression(n, V(n.expression), call("index", V(n.argumentExpression), V(n.expression)));
      if (ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n) && (n.operator === S.PlusPlusToken || n.operator === S.MinusMinusToken)) {
        const t = typeOf(n.operand);
        if (SC.has(t) && (ts.isExpressionStatement(n.parent) || ts.isForStatement(n.parent) || ts.isPrefixUnaryExpression(n))) {
          const op = n.operator === S.PlusPlusToken ? S.PlusToken : S.MinusToken;
          return factory.createParenthesizedExpression(factory.createAssignment(V(n.operand), call(t, factory.createBinaryExpression(V(n.operand), op, call(t, factory.createNumericLiteral("1"))))));
        }
        return ts.visitEachChild(n, visit, context);
      }
      if (ts.isPrefixUnaryExpression(n) && n.operator === S.MinusToken) {
        const t = typeOf(n.operand);
        return SC.has(t) ? call(t, factory.createPrefixUnaryExpression(S.MinusToken, V(n.operand))) : ts.visitEachChild(n, visit, context);
      }
      if (ts.isBinaryExpression(n)) {
        const k = n.operatorToken.kind;
        if (k === S.EqualsToken) return factory.updateBinaryExpression(n, V(n.left), n.operatorToken, conv(n.right, V(n.right), typeOf(n.left)));
        if (COMP[k]) {
          const t = typeOf(n.left);
          if (!SC.has(t)) return ts.visitEachChild(n, visit, context);
          return factory.createParenthesizedExpression(factory.createAssignment(V(n.left), call(t, factory.createBinaryExpression(V(n.left), COMP[k], conv(n.right, V(n.right), t)))));
        }
        if (CMP.has(k) || ARI.has(k) || BIT.has(k)) {
          const { type: c } = operands(n, REL.has(k));
          if (!SC.has(c)) return ts.visitEachChild(n, visit, context);
          const b = factory.createBinaryExpression(conv(n.left, V(n.left), c, true), n.operatorToken, conv(n.right, V(n.right), c, true));
          return CMP.has(k) ? factory.createParenthesizedExpression(b) : call(c, b);
        }
      }
      return ts.visitEachChild(n, visit, context);
    }
    return ts.visitNode(sf, visit);
  };
  function shape(n) {                         // a declared type as text: scalars, string, names of classes and enums, [element]; "?" if not known
    const el = elemNode(n);
    if (el) return "[" + shape(el) + "]";
    if (!n) return "?";
    if (ts.isParenthesizedTypeNode(n)) return shape(n.type);
    if (n.kind === ts.SyntaxKind.StringKeyword || ts.isTypeReferenceNode(n) && n.typeName.getText() === "String") return "string";
    const t = typeText(n);
    if (t && t !== "ref" && !(ts.isTypeReferenceNode(n) && !SC.has(n.typeName.getText()))) return t;
    if (!ts.isTypeReferenceNode(n)) return "?";
    let y = ck.getSymbolAtLocation(n.typeName);
    if (y && (y.flags & ts.SymbolFlags.Alias)) y = ck.getAliasedSymbol(y);
    if (y && (y.flags & ts.SymbolFlags.TypeAlias)) return shape(y.declarations[0].type);
    return y && (y.flags & (ts.SymbolFlags.Class | ts.SymbolFlags.Enum)) ? y.name : "?";
  }
  function shapes(sf) {
    const out = {};
    (function walk(n) { if (ts.isClassDeclaration(n) && n.name) { const o = out[n.name.text] = {}; for (const m of n.members) if (ts.isPropertyDeclaration(m)) o[m.name.getText()] = shape(m.type); } ts.forEachChild(n, walk); })(sf);
    return out;
  }
  for (const f of files) {
    const sf = program.getSourceFile(f);
    for (const d of program.getSyntacticDiagnostics(sf)) {
      const { line } = sf.getLineAndCharacterOfPosition(d.start);
      diags.push(`${path.basename(f)}:${line + 1}: error: ${ts.flattenDiagnosticMessageText(d.messageText, " ")}`);
    }
    // names that do not exist, wrong numbers of arguments, missing members: the same in AssemblyScript, except where its library has more than the prelude
    for (const d of program.getSemanticDiagnostics(sf)) {
      if (![2304, 2339, 2551, 2552, 2554, 2300, 2451, 2511, 2515, 2420, 2654].includes(d.code)) continue;
      const { line } = sf.getLineAndCharacterOfPosition(d.start);
      const text = ts.flattenDiagnosticMessageText(d.messageText, " ");
      let n = sf;
      for (let m = n; m; n = m) { m = undefined; ts.forEachChild(n, c => { if (c.getStart() <= d.start && d.start + d.length <= c.getEnd()) m = m || c; }); if (!m) break; }
      const lib = t => t && t.symbol && (t.symbol.declarations || []).some(x => x.getSourceFile().fileName === prelude) || !!t && !!(t.flags & (ts.TypeFlags.NumberLike | ts.TypeFlags.StringLike | ts.TypeFlags.BooleanLike));
      const unsup = w => { throw new Unsup(`${path.basename(f)} line ${line + 1}: ${w}`); };
      if ((d.code === 2304 || d.code === 2552) && BUILTINS.has(n.getText())) unsup(text);
      if (d.code === 2339 || d.code === 2551) { const e = n.parent && ts.isPropertyAccessExpression(n.parent) ? n.parent.expression : null; if (e && (lib(ck.getTypeAtLocation(e)) || BUILTINS.has(e.getText()))) unsup(text); }
      if (d.code === 2554) { let e = n; while (e && !ts.isCallExpression(e) && !ts.isNewExpression(e)) e = e.parent; const g = e && sig(e); if (g && g.getSourceFile().fileName === prelude) unsup(text); }
      diags.push(`${path.basename(f)}:${line + 1}: error: ${text}`);
    }
    const r = ts.transform(sf, [transformer], opts);
    const text = ts.createPrinter().printFile(r.transformed[0]);
    const js = ts.transpileModule(text, { compilerOptions: opts }).outputText;
    fs.writeFileSync(path.join(outdir, path.basename(f).replace(/\.ts$/, ".js")),
      'const { u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, $, DataView, String, Uint8Array, ArrayBuffer, Error, RangeError } = require("./asrt");\n' + js + "\nexports.$shapes = " + JSON.stringify(shapes(sf)) + ";\n");
  }
  return diags;
}

const [, , outdir, ...files] = process.argv;
let d;
try { d = compile(files, outdir); }
catch (e) { process.stdout.write("not emulated " + (e instanceof Unsup ? e.message : e.stack).replace(/[.\/\\:]/g, "-") + "\n"); process.exit(2); }
if (d.length) { process.stdout.write(d.join("\n") + "\n"); process.exit(1); }
