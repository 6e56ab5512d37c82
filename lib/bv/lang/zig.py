import os, re
from .base import Lang, W

ZT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32",
      "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64", "string": "[]const u8"}

RT = r'''
const std = @import("std");
pub const A = std.mem.Allocator;
pub var w: std.mem.TokenIterator(u8, .scalar) = undefined;
pub var out: std.ArrayList(u8) = undefined;
pub fn t() []const u8 { return w.next() orelse @panic("HARNESS tokens"); }
pub fn i() i64 { return std.fmt.parseInt(i64, t(), 10) catch @panic("HARNESS int"); }
pub fn u() u64 { return std.fmt.parseInt(u64, t(), 10) catch @panic("HARNESS uint"); }
pub fn us() usize { return @intCast(u()); }
pub fn f() f32 { return @bitCast(std.fmt.parseInt(u32, t(), 16) catch @panic("HARNESS f")); }
pub fn d() f64 { return @bitCast(std.fmt.parseInt(u64, t(), 16) catch @panic("HARNESS d")); }
pub fn unhex(a: A, h: []const u8) []u8 { const b = a.alloc(u8, h.len / 2) catch @panic("HARNESS oom"); _ = std.fmt.hexToBytes(b, h) catch @panic("HARNESS hex"); return b; }
pub fn s(a: A) []const u8 { return unhex(a, t()[1..]); }
pub fn hex(a: A) []u8 { const h = t(); if (std.mem.eql(u8, h, "-")) return a.alloc(u8, 0) catch @panic("HARNESS oom"); return unhex(a, h); }
pub fn o(comptime fmt: []const u8, args: anytype) void { out.writer().print(fmt, args) catch @panic("HARNESS out"); }
pub fn oh(b: []const u8) void { if (b.len == 0) { o("-", .{}); } else { o("{s}", .{std.fmt.fmtSliceHexLower(b)}); } }
pub fn os(b: []const u8) void { o(" s{s}", .{std.fmt.fmtSliceHexLower(b)}); }
pub fn of(v: f32) void { o(" {x:0>8}", .{@as(u32, @bitCast(v))}); }
pub fn od(v: f64) void { o(" {x:0>16}", .{@as(u64, @bitCast(v))}); }
pub fn ob(v: bool) void { o(" {d}", .{@as(u8, if (v) 1 else 0)}); }
// the allocator handed to the generated code: counts, refuses huge requests, fails on demand
pub var fail_at: usize = 0;
pub var count: usize = 0;
pub var failed: usize = 0;
pub var live: i64 = 0;
pub var back: A = undefined;
pub var hook: ?*const fn () void = null;        // called inside allocations
pub var inside = false;
pub var hooked: usize = 0;
fn al(_: *anyopaque, n: usize, l: u8, ra: usize) ?[*]u8 { if (hook) |h| { if (!inside) { hooked += 1; if (hooked % 64 < 32 and hooked < 512) { inside = true; h(); inside = false; } } } count += 1; if (fail_at != 0 and count == fail_at) { failed += 1; return null; } if (n > 1 << 28) return null;
    const r = back.rawAlloc(n, l, ra); if (r != null) live += 1; return r; }
fn rs(_: *anyopaque, b: []u8, l: u8, n: usize, ra: usize) bool { return back.rawResize(b, l, n, ra); }
fn fr(_: *anyopaque, b: []u8, l: u8, ra: usize) void { live -= 1; back.rawFree(b, l, ra); }
const vt = A.VTable{ .alloc = al, .resize = rs, .free = fr };
pub fn testAlloc() A { return .{ .ptr = undefined, .vtable = &vt }; }
pub fn needsAlloc(comptime T: type) bool { return @typeInfo(@TypeOf(T.fromBytes)).Fn.params.len == 3; }
pub fn read(comptime T: type, a: A, off: usize, buf: []const u8) !struct { v: T, n: usize } {
    if (comptime needsAlloc(T)) { const r = try T.fromBytes(a, off, buf); return .{ .v = r.value, .n = r.bytes_read }; }
    else { const r = try T.fromBytes(off, buf); return .{ .v = r.value, .n = r.bytes_read }; }
}
pub fn drop(comptime T: type, a: A, v: *T) void { if (comptime @hasDecl(T, "deinit")) v.deinit(a); }
'''
MAIN = r'''
const std = @import("std");
const r = @import("rt.zig");
pub const std_options = .{ .logFn = nolog };
fn nolog(comptime _: std.log.Level, comptime _: @TypeOf(.EnumLiteral), comptime _: []const u8, _: anytype) void {}
@IMPORTS@
pub fn main() !void {
    const page = std.heap.page_allocator;
    const inp = std.io.getStdIn();
    const all = try inp.readToEndAlloc(page, 1 << 30);
    r.out = std.ArrayList(u8).init(page);
    var lines = std.mem.tokenizeScalar(u8, all, '\n');
    var arena = std.heap.ArenaAllocator.init(page);
    while (lines.next()) |line| {
        var gpa = std.heap.GeneralPurposeAllocator(.{ .stack_trace_frames = 0 }){};
        r.back = gpa.allocator();
        r.w = std.mem.tokenizeScalar(u8, line, ' ');
        r.out.clearRetainingCapacity();
        r.count = 0; r.failed = 0; r.live = 0;
        r.fail_at = 0; r.hook = null; r.inside = false;
        var c = r.t()[0];
        if (c == 'F') { r.fail_at = r.us(); c = r.t()[0]; }
        {
            const pid = r.t();
            if (false) {}
@DISPATCH@
            else r.o("ERR nopid", .{});
        }
        const leak = gpa.deinit();
        r.o(" # live={d} failed={d} gpa={s}\n", .{ r.live, r.failed, @tagName(leak) });
        try std.io.getStdOut().writeAll(r.out.items);
        _ = arena.reset(.retain_capacity);
    }
}
'''


class Zig(Lang):
    name = "zig"
    cli_name = "zig"
    ext = ".zig"

    def write_sources(self):
        self.put("rt.zig", RT)
        self.put("main.zig", MAIN.replace("@IMPORTS@", "".join(f'const h_{p} = @import("h_{p}.zig");\n' for p in self.protos))
                 .replace("@DISPATCH@", "".join(f'            else if (std.mem.eql(u8, pid, "{p}")) h_{p}.cmd(c, arena.allocator()) catch |e| {{ r.out.clearRetainingCapacity(); r.o("ERR {{s}}", .{{@errorName(e)}}); }}\n' for p in self.protos)))
        for p, proto in self.protos.items():
            self.put(f"{p}.zig", self.code[p])
            self.put(f"h_{p}.zig", adapter(p, proto))

    def compile(self):
        rc, out = self.sh(["zig", "build-exe", "main.zig", "--name", "harness", "-ODebug", "--cache-dir", os.path.join(self.dir, ".zc")] )
        if rc:
            return False, out
        self.exe = os.path.join(self.dir, "harness")
        return True, out

    def pids_in(self, text):
        bad = []
        for m in re.finditer(r"^(?:\./)?(?:h_)?(\w+)\.zig:\d+:\d+: error", text, re.M):
            if m.group(1) in self.protos and m.group(1) not in bad:
                bad.append(m.group(1))
        return bad or super().pids_in(text)

    def command(self):
        return [self.exe]


def adapter(pid, P):
    w = W()
    w('const std = @import("std");')
    w('const r = @import("rt.zig");')
    w(f'const q = @import("{pid}.zig");')
    w("const A = std.mem.Allocator;")

    def zt(t):
        return ZT.get(t) or "q." + t

    def build(t):
        k = P.kind(t)
        if k == "num":
            return {"float": "r.f()", "double": "r.d()", "bool": "(r.i() != 0)", "uint64": "r.u()"}.get(t) or f"@as({ZT[t]}, @intCast(r.i()))"
        if k == "string":
            return "r.s(a)"
        if k == "enum":
            return f"be_{t}()"
        return f"b_{t}(a)"

    def dump(t, x, ptr=False):
        k = P.kind(t)
        v = x + ".*" if ptr else x
        if k == "num":
            return {"float": f"r.of({v});", "double": f"r.od({v});", "bool": f"r.ob({v});"}.get(t) or f'r.o(" {{d}}", .{{{v}}});'
        if k == "string":
            return f"r.os({v});"
        if k == "enum":
            return f"de_{t}({v});"
        return f"d_{t}({x if ptr else '&' + x});"

    for e in P.enums:
        w(f"fn be_{e.name}() q.{e.name} {{ return switch (r.i()) {{ " + " ".join(f"{i} => q.{e.name}.{n}," for i, (n, _) in enumerate(e.values)) + " else => unreachable }; }")
        w(f"fn de_{e.name}(v: q.{e.name}) void {{ " + " ".join(f'if (v == q.{e.name}.{n}) {{ r.o(" {i}", .{{}}); return; }}' for i, (n, _) in enumerate(e.values)) + ' r.o(" ?", .{}); }')
    for s in P.structs + P.messages:
        w(f"fn b_{s.name}(a: A) q.{s.name} {{ var v = q.{s.name}{{}}; p_{s.name}(&v, a); return v; }}")
        with w.block(f"fn p_{s.name}(v: *q.{s.name}, a: A) void {{"):
            w("_ = &a; _ = &v;")
            for m in s.members:
                nested = P.kind(m.type) not in ("num", "string", "enum")
                if m.is_list:
                    w(f"{{ const n = r.us(); const l = if (v.{m.name}.len == n) v.{m.name} else a.alloc({zt(m.type)}, n) catch @panic(\"HARNESS oom\"); for (0..n) |k| {{ " + (f"if (v.{m.name}.len != n) {{ l[k] = q.{m.type}{{}}; }} p_{m.type}(&l[k], a);" if nested else f"l[k] = {build(m.type)};") + f" }} v.{m.name} = l; }}")
                elif nested:
                    w(f"p_{m.type}(&v.{m.name}, a);")
                else:
                    w(f"v.{m.name} = {build(m.type)};")
        with w.block(f"fn d_{s.name}(v: *const q.{s.name}) void {{"):
            w("_ = &v;")
            for m in s.members:
                if m.is_list:
                    w(f"r.o(\" {{d}}\", .{{v.{m.name}.len}}); for (v.{m.name}) |*el| {{ {dump(m.type, 'el', True)} }}")
                else:
                    w(dump(m.type, f"v.{m.name}"))
    ms = P.messages
    w("fn make(mid: i64, a: A) q.Message { return switch (mid) { " + " ".join(f"{i} => q.Message{{ .{s.name} = b_{s.name}(a) }}," for i, s in enumerate(ms)) + " else => unreachable }; }")
    w("fn dump(m: *const q.Message, mid: bool) void { switch (m.*) { " + " ".join(f".{s.name} => |*x| {{ if (mid) r.o(\" {i}\", .{{}}); d_{s.name}(x); }}," for i, s in enumerate(ms)) + " } }")
    w("fn drop(m: *q.Message, ta: A) void { switch (m.*) { inline else => |*x| r.drop(@TypeOf(x.*), ta, x), } }")
    w("const RM = struct { v: q.Message, n: usize };")
    w("fn read(mid: i64, ta: A, off: usize, buf: []const u8) !RM { switch (mid) { " + " ".join(f"{i} => {{ const x = try r.read(q.{s.name}, ta, off, buf); return .{{ .v = q.Message{{ .{s.name} = x.v }}, .n = x.n }}; }}," for i, s in enumerate(ms)) + " else => unreachable } }")
    w("fn def(mid: i64) q.Message { return switch (mid) { " + " ".join(f"{i} => q.Message{{ .{s.name} = q.{s.name}{{}} }}," for i, s in enumerate(ms)) + " else => unreachable }; }")
    w("""fn enc(al: A, m: *const q.Message) []u8 {
  const buf = al.alloc(u8, m.getSizeInBytes()) catch @panic("HARNESS oom"); @memset(buf, 0xAA);
  const n = m.writeBytes(0, buf, false); if (n != buf.len) @panic("size and bytes written differ"); return buf; }
fn same(al: A, m: *const q.Message, want: []const u8) bool { const b = enc(al, m); defer al.free(b); return std.mem.eql(u8, b, want); }
const Job = struct { mid: i64, m: *const q.Message, want: []const u8, bad: i64 = 0 };
fn again(al: A, j: *Job) void {
  const c = al.dupe(u8, j.want) catch @panic("HARNESS oom");
  if (read(j.mid, al, 0, c)) |x| { var y = x.v; @memset(c, 0x55); if (!same(al, &y, j.want)) j.bad += 1; drop(&y, al); } else |_| { j.bad += 1; }
  al.free(c);
  if (!same(al, j.m, j.want)) j.bad += 1; }
fn work(j: *Job) void { for (0..6) |_| again(r.back, j); }
var hooked: Job = undefined;
fn hook() void { again(r.back, &hooked); }
fn indep(a: A, ta: A) !void {
  const ia = r.i(); const ma = make(ia, a); const ib = r.i(); const mb = make(ib, a);
  const ea = enc(a, &ma); const eb = enc(a, &mb);
  const ca = try std.mem.concat(a, u8, &.{ ea, ea }); const cb = try std.mem.concat(a, u8, &.{ eb, eb });
  var pa: usize = 0; var pb: usize = 0; var bad: i64 = 0;
  var l = std.ArrayList(q.Message).init(a); defer for (l.items) |*m| drop(m, ta);
  for (0..2) |_| { const x = try read(ia, ta, pa, ca); try l.append(x.v); pa += x.n; const y = try read(ib, ta, pb, cb); try l.append(y.v); pb += y.n; }
  @memset(ca, 0x55); @memset(cb, 0x55);
  for (0..2) |_| { var m = l.orderedRemove(0); drop(&m, ta); }
  hooked = .{ .mid = ib, .m = &mb, .want = eb }; r.hooked = 0; r.hook = &hook;
  if (read(ia, ta, 0, ea)) |x| { r.hook = null; var y = x.v; if (!same(ta, &y, ea)) bad += 1; drop(&y, ta); } else |_| { r.hook = null; bad += 1; }
  bad += hooked.bad;
  var js: [4]Job = undefined; var ts: [4]std.Thread = undefined;
  for (&js, 0..) |*j, k| { j.* = if (k % 2 == 0) .{ .mid = ia, .m = &ma, .want = ea } else .{ .mid = ib, .m = &mb, .want = eb }; }
  for (&js, 0..) |*j, k| ts[k] = try std.Thread.spawn(.{}, work, .{j});
  for (&js, 0..) |*j, k| { ts[k].join(); bad += j.bad; }
  const na = def(ia); const nb = def(ib);
  r.o("OK ", .{}); r.oh(ea); r.o(" ", .{}); r.oh(enc(a, &ma)); r.o(" ", .{}); r.oh(enc(a, &na)); r.o(" ", .{}); r.oh(eb); r.o(" ", .{}); r.oh(enc(a, &mb)); r.o(" ", .{}); r.oh(enc(a, &nb));
  dump(&ma, false); dump(&mb, false); dump(&l.items[0], false); dump(&l.items[1], false); r.o(" {d}", .{bad}); }""")
    with w.block("fn types() void {"):
        w('r.o("OK", .{});')
        n = 0
        for s in P.structs + P.messages:
            for m in s.members:
                n += 1
                w(f'if (@TypeOf(@as(q.{s.name}, undefined).{m.name}) != {"[]" if m.is_list else ""}{zt(m.type)}) r.o(" {s.name}.{m.name}:type", .{{}});')
        w(f'r.o(" {n}", .{{}});')
    w(f"""pub fn cmd(c: u8, a: A) !void {{
  const ta = r.testAlloc();
  switch (c) {{
    'W' => {{
      const off = r.us(); const cp = r.us(); const n = r.us(); const buf = try a.alloc(u8, cp); @memset(buf, 0xAA);
      var pos = off; const sz = try a.alloc(usize, n); const ty = try a.alloc(usize, n);
      for (0..n) |k| {{ const mid = r.i(); const tag = r.i(); const m = make(mid, a); ty[k] = @as(usize, @intFromEnum(std.meta.activeTag(m))) + 1;
        if (tag & 2 != 0) {{ sz[k] = m.getSizeInBytes(); if (k % 2 == 0) {{ pos += q.writeBytes(&m, pos, buf, tag & 1 != 0); }} else {{ pos += m.writeBytes(pos, buf, tag & 1 != 0); }} }}
        else {{ switch (m) {{ inline else => |x| {{ sz[k] = x.getSizeInBytes(); pos += x.writeBytes(pos, buf, tag & 1 != 0); }} }} }} }}
      r.o("OK {{d}} ", .{{pos}}); r.oh(buf); for (0..n) |k| r.o(" {{d}} {{d}}", .{{ sz[k], ty[k] }});
    }},
    'R' => {{
      const off = r.us(); const n = r.us(); const mids = try a.alloc(i64, n); for (mids) |*m| m.* = r.i(); const buf = r.hex(a);
      var pos = off; var l = std.ArrayList(q.Message).init(a); defer for (l.items) |*m| drop(m, ta);
      for (mids) |mid| {{ const x = try read(mid, ta, pos, buf); try l.append(x.v); pos += x.n; }}
      @memset(buf, 0x55);
      r.o("OK {{d}}", .{{pos}}); for (l.items) |*m| dump(m, false);
    }},
    'D' => {{
      switch (r.i()) {{ {' '.join(f'{i} => {{ const m = q.{s.name}{{}}; const sz = m.getSizeInBytes(); const buf = try a.alloc(u8, sz); _ = m.writeBytes(0, buf, false); r.o("OK {{d}} ", .{{@as(usize, @intFromEnum(q.MessageType.{s.name})) + 1}}); r.oh(buf); d_{s.name}(&m); }},' for i, s in enumerate(ms))} else => unreachable }}
    }},
    'P', 'U' => {{
      const off = r.us(); const max: i32 = if (c == 'P') @intCast(r.i()) else 0; const buf = r.hex(a);
      const l = if (c == 'P') try q.processRawBytes(ta, buf[off..], max) else try q.unpackMessages(ta, buf[off..]);
      defer {{ for (l) |*m| drop(m, ta); ta.free(l); }}
      @memset(buf, 0x55);
      r.o("OK -1 {{d}}", .{{l.len}}); for (l) |*m| dump(m, true);
    }},
    'K' => {{
      const off = r.us(); const cp = r.us(); const n = r.us(); const buf = try a.alloc(u8, cp); @memset(buf, 0xAA);
      const l = try a.alloc(q.Message, n); for (l) |*m| {{ const mid = r.i(); m.* = make(mid, a); }}
      const ps = q.getPackedSize(l); q.packMessages(l, buf[off..]);
      r.o("OK -1 ", .{{}}); r.oh(buf); r.o(" {{d}}", .{{ps}});
    }},
    'M' => {{
      const mid = r.i(); const cp = r.us(); const n = r.us(); const buf = try a.alloc(u8, cp); var m = make(mid, a); r.o("OK", .{{}});
      for (0..n) |k| {{
        if (k > 0) {{ switch (m) {{ {' '.join(f'.{s.name} => |*x| p_{s.name}(x, a),' for s in ms)} }} }}
        var sz: usize = 0; var len: usize = 0;
        if (k % 2 == 1) {{ sz = m.getSizeInBytes(); len = m.writeBytes(0, buf, false); }} else {{ switch (m) {{ inline else => |*x| {{ sz = x.getSizeInBytes(); len = x.writeBytes(0, buf, false); }} }} }}
        var one = [_]q.Message{{m}}; r.o(" {{d}} {{d}} ", .{{ sz, q.getPackedSize(&one) }}); r.oh(buf[0..len]);
        var x = try read(mid, ta, 0, buf); dump(&x.v, false); drop(&x.v, ta); }}
      dump(&m, false);
    }},
    'T' => types(),
    'I' => try indep(a, ta),
    'E' => {{ r.o("OK", .{{}}); {' '.join(f'r.o(" {{d}}", .{{@intFromEnum(q.{e.name}.{n})}});' for e in P.enums for n, _ in e.values)} }},
    else => r.o("ERR cmd", .{{}}),
  }}
}}""")
    return w.text()
