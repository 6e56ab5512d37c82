// what AssemblyScript's standard library offers to generated code; types of scalars are read off these declarations
type u8 = number; type i8 = number; type u16 = number; type i16 = number; type u32 = number; type i32 = number;
type usize = number; type isize = number; type f32 = number; type f64 = number; type u64 = number; type i64 = number; type bool = boolean;
interface Object { toString(): string; }
interface Function {} interface CallableFunction extends Function {} interface NewableFunction extends Function {} interface IArguments {}
interface RegExp {} interface Boolean {} interface Number {} interface Symbol {} interface BigInt {}
interface String { readonly length: i32; charCodeAt(i: i32): i32; substring(a: i32, b?: i32): string; indexOf(s: string): i32; startsWith(s: string): bool; includes(s: string): bool; toString(): string; }
declare namespace String { namespace UTF8 {
  function encode(s: string, nullTerminated?: bool): ArrayBuffer; function decode(b: ArrayBuffer, nullTerminated?: bool): string; function byteLength(s: string, nullTerminated?: bool): i32; } }
interface ArrayBuffer { readonly byteLength: i32; slice(a?: i32, b?: i32): ArrayBuffer; }
declare var ArrayBuffer: { new (n: i32): ArrayBuffer; };
interface Uint8Array { readonly buffer: ArrayBuffer; readonly byteOffset: i32; readonly byteLength: i32; readonly length: i32; [i: number]: u8; fill(v: u8): Uint8Array; subarray(a?: i32, b?: i32): Uint8Array; slice(a?: i32, b?: i32): Uint8Array; set(a: any, o?: i32): void; }
declare var Uint8Array: { new (n: i32): Uint8Array; wrap(b: ArrayBuffer, off?: i32, len?: i32): Uint8Array; };
interface Array<T> { length: i32; [i: number]: T; push(v: T): i32; pop(): T; indexOf(v: T): i32; includes(v: T): bool; slice(a?: i32, b?: i32): T[]; concat(v: T[]): T[]; fill(v: T): T[]; }
interface ReadonlyArray<T> { readonly length: i32; [i: number]: T; }
declare var Array: { new <T>(n?: i32): T[]; isArray(x: any): bool; };
interface DataView {
  readonly buffer: ArrayBuffer; readonly byteOffset: i32; readonly byteLength: i32;
  getUint8(o: i32): u8; getInt8(o: i32): i8; getUint16(o: i32, le?: bool): u16; getInt16(o: i32, le?: bool): i16; getUint32(o: i32, le?: bool): u32; getInt32(o: i32, le?: bool): i32;
  getUint64(o: i32, le?: bool): u64; getInt64(o: i32, le?: bool): i64; getFloat32(o: i32, le?: bool): f32; getFloat64(o: i32, le?: bool): f64;
  setUint8(o: i32, v: u8): void; setInt8(o: i32, v: i8): void; setUint16(o: i32, v: u16, le?: bool): void; setInt16(o: i32, v: i16, le?: bool): void; setUint32(o: i32, v: u32, le?: bool): void; setInt32(o: i32, v: i32, le?: bool): void;
  setUint64(o: i32, v: u64, le?: bool): void; setInt64(o: i32, v: i64, le?: bool): void; setFloat32(o: i32, v: f32, le?: bool): void; setFloat64(o: i32, v: f64, le?: bool): void;
}
declare var DataView: { new (b: ArrayBuffer, off?: i32, len?: i32): DataView; };
interface Error { message: string; name: string; }
declare var Error: { new (m?: string): Error; };
interface RangeError extends Error {}
declare var RangeError: { new (m?: string): RangeError; };
declare namespace u8 { const MAX_VALUE: u8; const MIN_VALUE: u8; }
declare namespace i8 { const MAX_VALUE: i8; const MIN_VALUE: i8; }
declare namespace u16 { const MAX_VALUE: u16; const MIN_VALUE: u16; }
declare namespace i16 { const MAX_VALUE: i16; const MIN_VALUE: i16; }
declare namespace u32 { const MAX_VALUE: u32; const MIN_VALUE: u32; }
declare namespace i32 { const MAX_VALUE: i32; const MIN_VALUE: i32; }
declare namespace u64 { const MAX_VALUE: u64; const MIN_VALUE: u64; }
declare namespace i64 { const MAX_VALUE: i64; const MIN_VALUE: i64; }
declare namespace usize { const MAX_VALUE: usize; const MIN_VALUE: usize; }
declare namespace isize { const MAX_VALUE: isize; const MIN_VALUE: isize; }
