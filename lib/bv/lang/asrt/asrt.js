// AssemblyScript's scalars and the parts of its standard library that generated code uses
"use strict";
const N = globalThis;
const int = x => typeof x === "number" ? Math.trunc(x) : x === true ? 1 : x === false ? 0 : x;
const s32 = x => typeof x === "bigint" ? Number(N.BigInt.asIntN(32, x)) : N.Number.isFinite(x = int(x)) && Math.abs(x) > 2 ** 53 ? Number(N.BigInt.asIntN(32, N.BigInt(x))) : x | 0;
const b64 = x => { if (typeof x === "bigint") return x; x = int(x); return N.BigInt(N.Number.isFinite(x) ? x : 0); };
const bad = x => { if (x === undefined || x === null || typeof x === "string" || typeof x === "object") throw new N.TypeError("not a number: " + x); return x; };
const $ = {
  u8: x => s32(bad(x)) & 0xff, i8: x => s32(bad(x)) << 24 >> 24, u16: x => s32(bad(x)) & 0xffff, i16: x => s32(bad(x)) << 16 >> 16,
  u32: x => s32(bad(x)) >>> 0, i32: x => s32(bad(x)), usize: x => s32(bad(x)) >>> 0, isize: x => s32(bad(x)),
  u64: x => N.BigInt.asUintN(64, b64(bad(x))), i64: x => N.BigInt.asIntN(64, b64(bad(x))),
  f32: x => Math.fround(Number(bad(x))), f64: x => Number(bad(x)), bool: x => !!bad(x),
  newArray(n, t) {
    if (n < 0 || n > 0x3ffffffc >>> (({ u8: 0, i8: 0, bool: 0, u16: 1, i16: 1, u64: 3, i64: 3, f64: 3 })[t] ?? 2)) throw new N.RangeError("Invalid array length");
    const a = new N.Array(n);
    if (t !== "ref" && n <= 1 << 20) a.fill($[t](0));
    return a;
  },
  index(i, a) {
    i = typeof i === "bigint" ? Number(i) : i;
    if (a !== null && a !== undefined && a.length !== undefined && (i < 0 || i > a.length || !N.Number.isInteger(i))) throw new N.RangeError("Index out of range");
    return i;
  },
};
const ranges = {};
for (const [t, n, sg] of [["u8", 8], ["i8", 8, 1], ["u16", 16], ["i16", 16, 1], ["u32", 32], ["i32", 32, 1], ["usize", 32], ["isize", 32, 1]]) ranges[t] = { MIN_VALUE: sg ? -(2 ** (n - 1)) : 0, MAX_VALUE: 2 ** (sg ? n - 1 : n) - 1 };
ranges.u64 = { MIN_VALUE: 0n, MAX_VALUE: 2n ** 64n - 1n }; ranges.i64 = { MIN_VALUE: -(2n ** 63n), MAX_VALUE: 2n ** 63n - 1n };
class DataView extends N.DataView {
  constructor(b, off = 0, len = N.Number.MIN_SAFE_INTEGER) {
    if (len === N.Number.MIN_SAFE_INTEGER) len = b.byteLength - off;
    if (off < 0 || len < 0 || off + len > b.byteLength) throw new N.RangeError("Invalid length");
    super(b, off, len);
  }
  getUint64(o, le) { return super.getBigUint64(o, le); }
  getInt64(o, le) { return super.getBigInt64(o, le); }
  setUint64(o, v, le) { super.setBigUint64(o, v, le); }
  setInt64(o, v, le) { super.setBigInt64(o, v, le); }
}
const String = { UTF8: {
  encode(s, nul) { const b = N.Buffer.from(s, "utf8"); const r = new N.Uint8Array(b.length + (nul ? 1 : 0)); r.set(b); return r.buffer; },
  decode(b, nul) { let u = N.Buffer.from(b); if (nul) { const z = u.indexOf(0); if (z >= 0) u = u.subarray(0, z); } return u.toString("utf8"); },
  byteLength(s, nul) { return N.Buffer.byteLength(s, "utf8") + (nul ? 1 : 0); },
} };
class Uint8Array extends N.Uint8Array {
  constructor(n, ...r) { if (typeof n === "number" && n < 0) throw new N.RangeError("Invalid length"); super(n, ...r); }
  static wrap(b, off = 0, len) { return new Uint8Array(b, off, len); }
}
module.exports = { ...ranges, $, DataView, String, Uint8Array, ArrayBuffer: N.ArrayBuffer, Error: N.Error, RangeError: N.RangeError };
