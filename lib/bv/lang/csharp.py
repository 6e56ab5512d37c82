import os, glob, json
from .base import Lang, W

CS = {"byte": "byte", "bool": "bool", "uint16": "ushort", "int16": "short", "uint32": "uint", "int32": "int",
      "uint64": "ulong", "int64": "long", "float": "float", "double": "double", "string": "string"}

MAIN = r'''
using System; using System.IO; using System.Text; using System.Collections.Generic; using System.Globalization;
// a stream that hands over its bytes in another way, see go.py
public class BVStream : Stream {
  MemoryStream s; int mode; ulong seed; Action hook; int calls;
  public BVStream(MemoryStream s, int mode, Action hook = null) { this.s = s; this.mode = mode; seed = (ulong)BV.Arg; this.hook = hook; }
  int Rnd(int n) { seed = seed * 6364136223846793005UL + 1442695040888963407UL; return (int)((seed >> 33) % (ulong)n); }
  void Hook() { if (hook != null) { calls++; if (calls % 64 < 32 && calls < 512) hook(); } }
  public override bool CanRead => s.CanRead; public override bool CanSeek => mode != 7; public override bool CanWrite => s.CanWrite;
  public override long Length => mode == 7 ? throw new NotSupportedException() : s.Length;
  public override long Position { get { if (mode == 7) throw new NotSupportedException(); return s.Position; } set { if (mode == 7) throw new NotSupportedException(); s.Position = value; } }
  public override void Flush() { } public override void SetLength(long n) { throw new NotSupportedException(); }
  public override long Seek(long o, SeekOrigin w) { if (mode == 7) throw new NotSupportedException(); return s.Seek(o, w); }
  public override void Write(byte[] b, int o, int n) { s.Write(b, o, n); Hook(); }
  public override int Read(byte[] b, int o, int n) {
    if (n == 0) return 0;
    switch (mode) {
      case 1: case 3: case 6: n = 1; break;
      case 2: case 5: n = Math.Min(n, 1 + Rnd(7)); break;
      case 4: if (s.Position >= BV.Arg) throw new IOException("bv reader failure"); n = (int)Math.Min(n, BV.Arg - s.Position); break;
    }
    int k = s.Read(b, o, n); Hook(); return k; }
}
public static class BV {
  public static int Mode; public static long Arg; public static bool Keep;
  public static Stream Wrap(MemoryStream s) { return Mode == 0 ? s : new BVStream(s, Mode); }
  static string[] w; static int wp; static StringBuilder sb = new StringBuilder();
  public static string T() { return w[wp++]; }
  public static int I() { return int.Parse(T(), CultureInfo.InvariantCulture); }
  public static long L() { return long.Parse(T(), CultureInfo.InvariantCulture); }
  public static ulong U() { return ulong.Parse(T(), CultureInfo.InvariantCulture); }
  public static float F() { return BitConverter.UInt32BitsToSingle(uint.Parse(T(), NumberStyles.HexNumber)); }
  public static double D() { return BitConverter.UInt64BitsToDouble(ulong.Parse(T(), NumberStyles.HexNumber)); }
  public static string S() { return new UTF8Encoding(false, true).GetString(Convert.FromHexString(T().Substring(1))); }
  public static byte[] Hex() { string s = T(); return s == "-" ? new byte[0] : Convert.FromHexString(s); }
  public static void O(string s) { sb.Append(s); }
  public static void Reset() { sb.Clear(); }
  public static void OH(byte[] b) { if (b.Length == 0) sb.Append('-'); else sb.Append(Convert.ToHexString(b).ToLowerInvariant()); }
  public static void ON(long v) { sb.Append(' ').Append(v.ToString(CultureInfo.InvariantCulture)); }
  public static void ON(ulong v) { sb.Append(' ').Append(v.ToString(CultureInfo.InvariantCulture)); }
  public static void OF(float f) { sb.Append(' ').Append(BitConverter.SingleToUInt32Bits(f).ToString("x8")); }
  public static void OD(double f) { sb.Append(' ').Append(BitConverter.DoubleToUInt64Bits(f).ToString("x16")); }
  public static void OS(string s) { sb.Append(" s");
    byte[] b; try { b = new UTF8Encoding(false, true).GetBytes(s); } catch (Exception) { sb.Append("!surrogate"); return; }
    if (b.Length > 0) OH(b); }
  static int same;
  public static void Same<A, B>(A a, B b, string what) { same++; if (typeof(A) != typeof(B)) O(" " + what); }
  public static void Types(Action f) { O("OK"); same = 0; f(); ON((long)same); }
  public static byte[] Fill(int n) { var b = new byte[n]; Array.Fill(b, (byte)0xAA); return b; }
  static void Main() {
    var inp = new StreamReader(Console.OpenStandardInput(), Encoding.UTF8, false, 1 << 16);
    var outp = new StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false), 1 << 16); outp.NewLine = "\n";
    string line;
    while ((line = inp.ReadLine()) != null) {
      w = line.Split(' ', StringSplitOptions.RemoveEmptyEntries); wp = 0; Reset(); Keep = false;
      try {
        var cw = T().Split(':'); char c = cw[0][0]; Mode = 0;
        if (cw.Length > 2) { Mode = int.Parse(cw[1]); Arg = long.Parse(cw[2]); }
        string pid = T();
        switch (pid) {
@DISPATCH@
          default: O("ERR nopid"); break;
        }
      } catch (OutOfMemoryException e) { Reset(); O("ERR " + e.GetType().Name); }
      catch (Exception e) { Reset(); O("ERR " + e.GetType().Name + " " + e.Message.Replace("\n", " ").Replace("\r", " ").Replace(" # ", " ")); }
      outp.Write(sb.ToString()); outp.Write('\n'); outp.Flush();
    }
  }
}
'''

SDK = None


def sdk():
    global SDK
    if SDK is None:
        csc = sorted(glob.glob("/usr/lib/dotnet/sdk/8.*/Roslyn/bincore/csc.dll"))[-1]
        refs = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/8.*/ref/net8.0"))[-1]
        ver = sorted(os.listdir("/usr/lib/dotnet/shared/Microsoft.NETCore.App"))[-1]
        SDK = csc, refs, ver
    return SDK


class CSharp(Lang):
    name = "csharp"
    cli_name = "csharp"
    ext = ".cs"
    warn = ["-nowarn:1701,1702"]

    def write_sources(self):
        self.put("main.cs", MAIN.replace("@DISPATCH@", "\n".join(f'          case "{p}": H_{p}.Cmd(c); break;' for p in self.protos)))
        for p, proto in self.protos.items():
            self.put(f"{p}.cs", self.code[p])
            self.put(f"h_{p}.cs", adapter(p, proto))

    def compile(self):
        csc, refs, ver = sdk()
        rsp = ["-nologo", "-target:exe", "-out:harness.dll", "-deterministic", "-optimize-", "-langversion:12", "-nostdlib", "-noconfig"] + self.warn
        rsp += [f'-r:"{r}"' for r in sorted(glob.glob(refs + "/*.dll"))]
        rsp += ["main.cs"] + [f for p in self.protos for f in (f"{p}.cs", f"h_{p}.cs")]
        self.put("h.rsp", "\n".join(rsp))
        rc, out = self.sh(["dotnet", "exec", csc, "@h.rsp"])
        if rc:
            return False, "\n".join(l for l in out.splitlines() if "error" in l) or out
        self.put("harness.runtimeconfig.json", json.dumps({"runtimeOptions": {"tfm": "net8.0", "framework": {
            "name": "Microsoft.NETCore.App", "version": ver},
            "configProperties": {"System.GC.Concurrent": False, "System.GC.HeapHardLimit": 1 << 30, "System.Globalization.Invariant": True}}}))
        self.exe = os.path.join(self.dir, "harness.dll")
        return True, out

    def command(self):
        return ["dotnet", "exec", self.exe]


def adapter(pid, P):
    g = f"global::{P.ns}." if P.ns else "global::"
    w = W()
    w("using System; using System.IO; using System.Collections.Generic;")
    w(f"static class H_{pid} {{")
    w.n += 1

    def ct(t):
        return CS.get(t) or g + t

    def build(t, old=None):
        k = P.kind(t)
        if k == "num":
            return {"float": "BV.F()", "double": "BV.D()", "bool": "(BV.I() != 0)", "uint64": "BV.U()"}.get(t) or f"({CS[t]})BV.L()"
        if k == "string":
            return "BV.S()"
        if k == "enum":
            return f"BE_{t}()"
        return f"B_{t}({old} : new {g}{t}())" if old else f"B_{t}(new {g}{t}())"

    def dump(t, x):
        k = P.kind(t)
        if k == "num":
            if t in ("float", "double"):
                return f"BV.O{t[0].upper()}({x});"
            if t == "bool":
                return f"BV.ON({x} ? 1L : 0L);"
            return f"BV.ON(({'ulong' if t == 'uint64' else 'long'}){x});"
        if k == "string":
            return f"BV.OS({x});"
        if k == "enum":
            return f"DE_{t}({x});"
        return f"D_{t}({x});"

    for e in P.enums:
        w(f"static {g}{e.name} BE_{e.name}() {{ switch (BV.I()) {{ " + " ".join(f"case {i}: return {g}{e.name}.{n};" for i, (n, _) in enumerate(e.values)) + " } throw new InvalidOperationException(); }")
        w(f"static void DE_{e.name}({g}{e.name} v) {{ " + " ".join(f"if (v == {g}{e.name}.{n}) {{ BV.ON({i}L); return; }}" for i, (n, _) in enumerate(e.values)) + ' BV.O(" ?" + ((long)v).ToString()); }')
    for s in P.structs + P.messages:
        with w.block(f"static {g}{s.name} B_{s.name}({g}{s.name} v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"{{ int n = BV.I(); var l = BV.Keep ? v.{m.name} : new List<{ct(m.type)}>(); for (int i = 0; i < n; i++) {{ var e = {build(m.type, 'i < l.Count ? l[i]')}; if (i < l.Count) l[i] = e; else l.Add(e); }} if (l.Count > n) l.RemoveRange(n, l.Count - n); v.{m.name} = l; }}")
                else:
                    w(f"v.{m.name} = {build(m.type, f'BV.Keep ? v.{m.name}')};")
            w("return v;")
        with w.block(f"static void D_{s.name}({g}{s.name} v) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"BV.ON((long)v.{m.name}.Count); foreach (var e in v.{m.name}) {{ {dump(m.type, 'e')} }}")
                else:
                    w(dump(m.type, f"v.{m.name}"))
    M = g + "Message"
    for s in P.structs + P.messages:
        with w.block(f"static void C_{s.name}({g}{s.name} v) {{"):        # change every member in place
            for m in s.members:
                x, k = f"v.{m.name}", P.kind(m.type)
                new = {"string": '"changed"', "bool": "true", "enum": None}.get(m.type if k == "num" else k) or (f"new {g}{m.type}()" if k == "struct" else f"({ct(m.type)})1")
                if m.is_list:
                    if k == "struct":
                        w(f"foreach (var e in {x}) C_{m.type}(e);")
                    else:
                        w(f"for (int i = 0; i < {x}.Count; i++) {x}[i] = {new};")
                    w(f"{x}.Add({new});")
                elif k == "struct":
                    w(f"C_{m.type}({x});")
                else:
                    w(f"{x} = {new};")
    w(f"static void Change({M} m) {{ switch (Mid(m)) {{ " + " ".join(f"case {i}: C_{s.name}(({g}{s.name})m); break;" for i, s in enumerate(P.messages)) + " } }")
    w(f"static {M} Def(int mid) {{ switch (mid) {{ " + " ".join(f"case {i}: return new {g}{s.name}();" for i, s in enumerate(P.messages)) + " } throw new InvalidOperationException(); }")
    w(f"static byte[] Enc({M} m) {{ var ms = new MemoryStream(); var bw = new BinaryWriter(ms); m.WriteBytes(bw, false); bw.Flush(); return ms.ToArray(); }}")
    w("static BinaryReader Rd(byte[] b, Action hook = null) { var ms = new MemoryStream(b, false); return hook == null ? new BinaryReader(ms) : new BinaryReader(new BVStream(ms, 6, hook)); }")
    w("static bool Eq(byte[] a, byte[] b) { return a.AsSpan().SequenceEqual(b); }")
    w(f"""static int Again(int mid, {M} m, byte[] want) {{ int bad = 0;
  try {{ if (!Eq(Enc(Read(mid, Rd(want))), want)) bad++; }} catch (Exception) {{ bad++; }}
  try {{ if (!Eq(Enc(m), want) || m.GetSizeInBytes() != want.Length) bad++; }} catch (Exception) {{ bad++; }}
  return bad; }}
static void Indep() {{
  int ia = BV.I(); var a = New(ia); int ib = BV.I(); var b = New(ib); int bad = 0;
  var ea = Enc(a); var eb = Enc(b); var da = (byte[])ea.Clone(); var db = (byte[])eb.Clone();
  var ta = new byte[2 * ea.Length]; ea.CopyTo(ta, 0); ea.CopyTo(ta, ea.Length); var tb = new byte[2 * eb.Length]; eb.CopyTo(tb, 0); eb.CopyTo(tb, eb.Length);
  var ra = Rd(ta); var rb = Rd(tb); var l = new List<{M}>();
  for (int i = 0; i < 4; i++) l.Add(i % 2 == 0 ? Read(ia, ra) : Read(ib, rb));
  Change(l[0]); Change(l[1]); Array.Fill(ta, (byte)0x55); Array.Fill(tb, (byte)0x55); Change(Def(ia)); Change(Def(ib));
  Action hook = () => {{ bad += Again(ib, b, eb); }};
  try {{ if (!Eq(Enc(Read(ia, Rd(ea, hook))), ea)) bad++; }} catch (Exception) {{ bad++; }}
  var hm = new MemoryStream(); var hw = new BinaryWriter(new BVStream(hm, 6, hook)); a.WriteBytes(hw, false); hw.Flush(); if (!Eq(hm.ToArray(), ea)) bad++;
  var counts = new int[4]; var ts = new List<System.Threading.Thread>();
  for (int t = 0; t < 4; t++) {{ int k = t; var th = new System.Threading.Thread(() => {{ for (int i = 0; i < 6; i++) counts[k] += k % 2 == 0 ? Again(ia, a, ea) : Again(ib, b, eb); }}); ts.Add(th); th.Start(); }}
  foreach (var th in ts) th.Join();
  foreach (int n in counts) bad += n;
  BV.O("OK "); BV.OH(da); BV.O(" "); BV.OH(Enc(a)); BV.O(" "); BV.OH(Enc(Def(ia))); BV.O(" "); BV.OH(db); BV.O(" "); BV.OH(Enc(b)); BV.O(" "); BV.OH(Enc(Def(ib)));
  foreach (var m in new[] {{ a, b, l[2], l[3] }}) Dump(m);
  BV.ON((long)bad);
}}""")
    w(f"static {M} New(int mid) {{ switch (mid) {{ " + " ".join(f"case {i}: return B_{s.name}(new {g}{s.name}());" for i, s in enumerate(P.messages)) + " } throw new InvalidOperationException(); }")
    w(f"static int Mid({M} m) {{ " + " ".join(f"if (m is {g}{s.name}) return {i};" for i, s in enumerate(P.messages)) + " return -1; }")
    w(f"static void Dump({M} m) {{ switch (Mid(m)) {{ " + " ".join(f"case {i}: D_{s.name}(({g}{s.name})m); break;" for i, s in enumerate(P.messages)) + " } }")
    w(f"static {M} Read(int mid, BinaryReader br) {{ switch (mid) {{ " + " ".join(f"case {i}: return {g}{s.name}.FromBytes(br);" for i, s in enumerate(P.messages)) + " } throw new InvalidOperationException(); }")
    with w.block("static void Types() {"):
        for s in P.structs + P.messages:
            w(f"{{ var v = new {g}{s.name}(); " + " ".join(f'BV.Same(v.{m.name}, default({f"List<{ct(m.type)}>" if m.is_list else ct(m.type)}), "{s.name}.{m.name}:type");' for m in s.members) + " }")
    w(f"""public static void Cmd(char c) {{
  if (c == 'W') {{
    int off = BV.I(), cap = BV.I(), n = BV.I(); var buf = BV.Fill(cap); var ms = new MemoryStream(buf, 0, cap, true); ms.Position = off; var bw = new BinaryWriter(BV.Mode == 0 ? ms : new BVStream(ms, 7));
    var sizes = new List<long>(); var types = new List<long>();
    for (int i = 0; i < n; i++) {{ int mid = BV.I(), tag = BV.I(); var m = New(mid); sizes.Add(m.GetSizeInBytes()); types.Add((long)m.GetMessageType());
      if ((tag & 2) != 0) m.WriteBytes(bw, (tag & 1) != 0); else switch (mid) {{ {' '.join(f'case {i}: (({g}{s.name})m).WriteBytes(bw, (tag & 1) != 0); break;' for i, s in enumerate(P.messages))} }} bw.Flush(); }}
    BV.O("OK " + ms.Position + " "); BV.OH(buf); for (int i = 0; i < n; i++) {{ BV.ON(sizes[i]); BV.ON(types[i]); }}
  }} else if (c == 'R') {{
    int off = BV.I(), n = BV.I(); var mids = new int[n]; for (int i = 0; i < n; i++) mids[i] = BV.I();
    var buf = BV.Hex(); var ms = new MemoryStream(buf, false); ms.Position = off; var br = new BinaryReader(BV.Wrap(ms)); var l = new List<{M}>();
    for (int i = 0; i < n; i++) l.Add(Read(mids[i], br));
    BV.O("OK " + ms.Position); foreach (var m in l) Dump(m);
  }} else if (c == 'D') {{
    int mid = BV.I(); {M} m = null; switch (mid) {{ {' '.join(f'case {i}: m = new {g}{s.name}(); break;' for i, s in enumerate(P.messages))} }}
    var ms = new MemoryStream(); var bw = new BinaryWriter(ms); m.WriteBytes(bw, false); bw.Flush();
    BV.O("OK " + (long)m.GetMessageType() + " "); BV.OH(ms.ToArray()); Dump(m);
  }} else if (c == 'P' || c == 'U') {{
    int off = BV.I(); int max = c == 'P' ? BV.I() : 0; var buf = BV.Hex(); var ms = new MemoryStream(buf, false); ms.Position = off; var br = new BinaryReader(BV.Wrap(ms));
    var l = c == 'P' ? {M}.ProcessRawBytes(br, max) : {M}.UnpackMessages(br);
    BV.O("OK " + ms.Position); BV.ON((long)l.Length); foreach (var m in l) {{ BV.ON((long)Mid(m)); Dump(m); }}
  }} else if (c == 'K') {{
    int off = BV.I(), cap = BV.I(), n = BV.I(); var buf = BV.Fill(cap); var ms = new MemoryStream(buf, 0, cap, true); ms.Position = off; var bw = new BinaryWriter(BV.Mode == 0 ? ms : new BVStream(ms, 7));
    var l = new List<{M}>(); for (int i = 0; i < n; i++) l.Add(New(BV.I()));
    long ps = {M}.GetPackedSize(l); {M}.PackMessages(l, bw); bw.Flush();
    BV.O("OK " + ms.Position + " "); BV.OH(buf); BV.ON(ps);
  }} else if (c == 'M') {{
    int mid = BV.I(), cap = BV.I(), n = BV.I(); var buf = new byte[cap]; var ms = new MemoryStream(buf, 0, cap, true); var bw = new BinaryWriter(ms); var br = new BinaryReader(ms); {M} m = null; BV.O("OK");
    for (int i = 0; i < n; i++) {{
      if (m == null) m = New(mid); else {{ BV.Keep = true; switch (mid) {{ {' '.join(f'case {i}: B_{s.name}(({g}{s.name})m); break;' for i, s in enumerate(P.messages))} }} BV.Keep = false; }}
      ms.Position = 0; BV.ON((long)m.GetSizeInBytes()); BV.ON((long){M}.GetPackedSize(new List<{M}> {{ m }}));
      if (i % 2 == 1) m.WriteBytes(bw, false); else switch (mid) {{ {' '.join(f'case {i}: (({g}{s.name})m).WriteBytes(bw, false); break;' for i, s in enumerate(P.messages))} }} bw.Flush();
      BV.O(" "); BV.OH(buf.AsSpan(0, (int)ms.Position).ToArray()); ms.Position = 0; Dump(Read(mid, br)); }}
    Dump(m);
  }} else if (c == 'T') {{ BV.Types(Types);
  }} else if (c == 'I') {{ Indep();
  }} else if (c == 'E') {{
    BV.O("OK"); {' '.join(f'BV.ON((long){g}{e.name}.{n});' for e in P.enums for n, _ in e.values)}
  }} else BV.O("ERR cmd");
}}""")
    w.n -= 1
    w("}")
    return w.text()
