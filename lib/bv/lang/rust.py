import os, re
from .base import Lang, W

RT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32",
      "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64", "string": "String"}

MAIN = r'''
use std::io::{BufRead, Write};
pub struct Tk { pub w: Vec<String>, pub p: usize, pub o: String, pub mode: usize }
impl Tk {
    pub fn t(&mut self) -> &str { self.p += 1; &self.w[self.p - 1] }
    pub fn i(&mut self) -> i64 { self.t().parse().unwrap() }
    pub fn u(&mut self) -> u64 { self.t().parse().unwrap() }
    pub fn f(&mut self) -> f32 { f32::from_bits(u32::from_str_radix(self.t(), 16).unwrap()) }
    pub fn d(&mut self) -> f64 { f64::from_bits(u64::from_str_radix(self.t(), 16).unwrap()) }
    pub fn s(&mut self) -> String { let h = self.t()[1..].to_string(); String::from_utf8(unhex(&h)).unwrap() }
    pub fn hex(&mut self) -> Vec<u8> { let h = self.t().to_string(); if h == "-" { Vec::new() } else { unhex(&h) } }
    pub fn oi(&mut self, v: i64) { self.o += &format!(" {}", v); }
    pub fn ou(&mut self, v: u64) { self.o += &format!(" {}", v); }
    pub fn ob(&mut self, v: bool) { self.o += if v { " 1" } else { " 0" }; }
    pub fn of(&mut self, v: f32) { self.o += &format!(" {:08x}", v.to_bits()); }
    pub fn od(&mut self, v: f64) { self.o += &format!(" {:016x}", v.to_bits()); }
    pub fn os(&mut self, v: &str) { self.o += " s"; for b in v.as_bytes() { self.o += &format!("{:02x}", b); } }
    pub fn oh(&mut self, v: &[u8]) { if v.is_empty() { self.o += "-"; } for b in v { self.o += &format!("{:02x}", b); } }
}
pub fn same<A: 'static, B: 'static>(_: &A, what: &str, tk: &mut Tk) { tk.mode += 1; if std::any::TypeId::of::<A>() != std::any::TypeId::of::<B>() { tk.o += " "; tk.o += what; } }
fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
@MODS@
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
        let r = std::panic::catch_unwind(|| {
            let mut tk = Tk { w, p: 0, o: String::new(), mode: 0 };
            let cw = tk.t().to_string(); let c = cw.as_bytes()[0]; tk.mode = cw.len() - 1;
            let pid = tk.t().to_string();
            match pid.as_str() {
@DISPATCH@
                _ => tk.o += "ERR nopid",
            }
            tk.o
        });
        let s = match r { Ok(s) => s, Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".to_string() };
            format!("PANIC {}", m.replace('\n', " ")) } };
        let mut l = stdout.lock();
        writeln!(l, "{}", s).unwrap();
        l.flush().unwrap();
    }
}
'''


def snake(n):
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", n).lower()


class Rust(Lang):
    name = "rust"
    cli_name = "rust"
    ext = ".rs"
    flags = ["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "codegen-units=8", "-A", "warnings"]
    no_rename = set()      # pids generated with --rust-no-rename

    def write_sources(self):
        mods = "".join(f"mod {p};\nmod h_{p};\n" for p in self.protos)
        disp = "\n".join(f'                "{p}" => h_{p}::cmd(c, &mut tk),' for p in self.protos)
        self.put("main.rs", MAIN.replace("@MODS@", mods).replace("@DISPATCH@", disp))
        for p, proto in self.protos.items():
            self.put(f"{p}.rs", self.code[p])
            self.put(f"h_{p}.rs", adapter(p, proto, (lambda n: n) if p in self.no_rename else snake))

    def compile(self):
        rc, out = self.sh(["rustc", "--edition", "2021"] + self.flags + ["-o", "harness", "main.rs"])
        if rc:
            return False, out
        self.exe = os.path.join(self.dir, "harness")
        return True, out

    def pids_in(self, text):
        # only files an error (not a note) points to
        bad = []
        for blk in re.split(r"\n(?=error)", text):
            if not blk.startswith("error"):
                continue
            m = re.search(r"--> (?:\./)?(?:h_)?(\w+)\.rs:", blk)
            if m and m.group(1) in self.protos and m.group(1) not in bad:
                bad.append(m.group(1))
        return bad

    def trim(self, out, pid):
        blks = [b for b in re.split(r"\n(?=error)", out) if re.search(r"--> (?:\./)?(?:h_)?%s\.rs:" % pid, b)]
        return "\n".join("\n".join(b.splitlines()[:6]) for b in blks[:3]) or out[:600]

    def command(self):
        return [self.exe]


def adapter(pid, P, nm):
    q = f"crate::{pid}::"
    w = W()
    w(f"#![allow(warnings)]")
    w(f"use crate::Tk; use crate::{pid}::MessageCodec;")

    def build(t):
        k = P.kind(t)
        if k == "num":
            return {"float": "tk.f()", "double": "tk.d()", "bool": "tk.i() != 0", "uint64": "tk.u()"}.get(t) or f"tk.i() as {RT[t]}"
        if k == "string":
            return "tk.s()"
        if k == "enum":
            return f"be_{t}(tk)"
        return f"b_{t}(tk)"

    def dump(t, x, ref=False):
        """x: a place of type &T when ref"""
        k = P.kind(t)
        v = f"*{x}" if ref else x
        if k == "num":
            if t in ("float", "double", "bool"):
                return f"tk.o{t[0]}({v});" if t != "bool" else f"tk.ob({v});"
            if t == "uint64":
                return f"tk.ou({v});"
            return f"tk.oi({v} as i64);"
        if k == "string":
            return f"tk.os({x if ref else '&' + x});"
        if k == "enum":
            return f"de_{t}({x if ref else '&' + x}, tk);"
        return f"d_{t}({x if ref else '&' + x}, tk);"

    for e in P.enums:
        w(f"fn be_{e.name}(tk: &mut Tk) -> {q}{e.name} {{ match tk.i() {{ " + " ".join(f"{i} => {q}{e.name}::{n}," for i, (n, _) in enumerate(e.values)) + " _ => unreachable!() } }")
        w(f"fn de_{e.name}(v: &{q}{e.name}, tk: &mut Tk) {{ match v {{ " + " ".join(f"{q}{e.name}::{n} => tk.oi({i})," for i, (n, _) in enumerate(e.values)) + " } }")
    for s in P.structs + P.messages:
        w(f"fn b_{s.name}(tk: &mut Tk) -> {q}{s.name} {{ let mut v = {q}{s.name}::default(); p_{s.name}(&mut v, tk); v }}")
        with w.block(f"fn p_{s.name}(v: &mut {q}{s.name}, tk: &mut Tk) {{"):
            for m in s.members:
                x = f"v.{nm(m.name)}"
                nested = P.kind(m.type) not in ("num", "string", "enum")
                if m.is_list:
                    w(f"{{ let n = tk.u() as usize; {x}.truncate(n); for i in 0..n {{ if i < {x}.len() {{ " + (f"p_{m.type}(&mut {x}[i], tk);" if nested else f"{x}[i] = {build(m.type)};") + f" }} else {{ {x}.push({build(m.type)}); }} }} }}")
                elif nested:
                    w(f"p_{m.type}(&mut {x}, tk);")
                else:
                    w(f"{x} = {build(m.type)};")
        with w.block(f"fn d_{s.name}(v: &{q}{s.name}, tk: &mut Tk) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"tk.ou(v.{nm(m.name)}.len() as u64); for e in &v.{nm(m.name)} {{ {dump(m.type, 'e', True)} }}")
                else:
                    w(dump(m.type, f"v.{nm(m.name)}"))
    ms = P.messages
    w(f"fn new(mid: i64, tk: &mut Tk) -> {q}Message {{ match mid {{ " + " ".join(f"{i} => {q}Message::{s.name}(b_{s.name}(tk))," for i, s in enumerate(ms)) + " _ => unreachable!() } }")
    w(f"fn dump(m: &{q}Message, tk: &mut Tk, mid: bool) {{ match m {{ " + " ".join(f"{q}Message::{s.name}(x) => {{ if mid {{ tk.oi({i}); }} d_{s.name}(x, tk) }}" for i, s in enumerate(ms)) + " } }")
    w(f"fn read(mid: i64, r: &mut {q}BufferReader) -> Result<{q}Message, String> {{ match mid {{ " +
      " ".join(f"{i} => match {q}{s.name}::from_bytes(r) {{ Ok(m) => Ok({q}Message::{s.name}(m)), Err(e) => Err(format!(\"{{:?}}\", e)) }}," for i, s in enumerate(ms)) + " _ => unreachable!() } }")
    w(f"fn def(mid: i64) -> {q}Message {{ match mid {{ " + " ".join(f"{i} => {q}Message::{s.name}({q}{s.name}::default())," for i, s in enumerate(ms)) + " _ => unreachable!() } }")
    w(f"""fn enc(m: &{q}Message) -> Vec<u8> {{ let mut b = Vec::new(); m.write_bytes(&mut b, false); b }}
fn again(mid: i64, m: &{q}Message, want: &Vec<u8>) -> i64 {{
  let mut bad = 0;
  let c = want.clone(); let mut r = {q}BufferReader::new(&c);
  match read(mid, &mut r) {{ Ok(x) => {{ if &enc(&x) != want {{ bad += 1; }} }} Err(_) => {{ bad += 1; }} }}
  let mut r = {q}BufferReader::from_vec(want.clone());
  match read(mid, &mut r) {{ Ok(x) => {{ if &enc(&x) != want || !r.is_finished() {{ bad += 1; }} }} Err(_) => {{ bad += 1; }} }}
  if &enc(m) != want || m.get_size_in_bytes() as usize != want.len() {{ bad += 1; }}
  bad }}
fn indep(tk: &mut Tk) {{
  let ia = tk.i(); let a = new(ia, tk); let ib = tk.i(); let b = new(ib, tk); let mut bad = 0;
  let ea = enc(&a); let eb = enc(&b); let da = ea.clone(); let db = eb.clone();
  let mut l = Vec::new();
  {{ let ta = [ea.clone(), ea.clone()].concat(); let tb = [eb.clone(), eb.clone()].concat(); let mut ra = {q}BufferReader::new(&ta); let mut rb = {q}BufferReader::new(&tb);
    for i in 0..4 {{ match if i % 2 == 0 {{ read(ia, &mut ra) }} else {{ read(ib, &mut rb) }} {{ Ok(m) => l.push(m), Err(e) => {{ tk.o += &format!("ERR {{}}", e); return; }} }} }} }}
  l.remove(0); l.remove(0);
  std::thread::scope(|s| {{
    let mut hs = Vec::new();
    for k in 0..4 {{ let (a, b, ea, eb) = (&a, &b, &ea, &eb); hs.push(s.spawn(move || {{ let mut n = 0; for _ in 0..6 {{ n += if k % 2 == 0 {{ again(ia, a, ea) }} else {{ again(ib, b, eb) }}; }} n }})); }}
    for h in hs {{ bad += h.join().unwrap_or(1000); }} }});
  tk.o += "OK "; tk.oh(&da); tk.o += " "; tk.oh(&enc(&a)); tk.o += " "; tk.oh(&enc(&def(ia))); tk.o += " "; tk.oh(&db); tk.o += " "; tk.oh(&enc(&b)); tk.o += " "; tk.oh(&enc(&def(ib)));
  dump(&a, tk, false); dump(&b, tk, false); dump(&l[0], tk, false); dump(&l[1], tk, false); tk.oi(bad);
}}""")
    with w.block("fn types(tk: &mut Tk) {"):
        w('tk.o += "OK"; tk.mode = 0;')
        for s in P.structs + P.messages:
            w(f"{{ let v = {q}{s.name}::default(); " + " ".join(
                f'crate::same::<_, {("Vec<%s>" if m.is_list else "%s") % (RT.get(m.type) or q + m.type)}>(&v.{nm(m.name)}, "{s.name}.{m.name}:type", tk);' for m in s.members) + " }")
        w("let n = tk.mode as i64; tk.oi(n);")
    w(f"""pub fn cmd(c: u8, tk: &mut Tk) {{ match c {{
  b'W' => {{
    let off = tk.u() as usize; let cap = tk.u() as usize; let n = tk.u();
    let mut buf: Vec<u8> = vec![0xAA; off]; let mut st = Vec::new();
    for _ in 0..n {{ let mid = tk.i(); let tag = tk.i(); let m = new(mid, tk);
      if tag & 2 != 0 {{ st.push((m.get_size_in_bytes(), m.get_message_type() as i64 + 1)); m.write_bytes(&mut buf, tag & 1 != 0); }}
      else {{ match &m {{ {' '.join(f'{q}Message::{s.name}(x) => {{ st.push((x.get_size_in_bytes(), x.get_message_type() as i64 + 1)); x.write_bytes(&mut buf, tag & 1 != 0); }}' for s in ms)} }} }} }}
    tk.o += &format!("OK {{}} ", buf.len()); while buf.len() < cap {{ buf.push(0xAA); }} tk.oh(&buf); for (a, b) in st {{ tk.ou(a as u64); tk.oi(b); }} }}
  b'R' => {{
    let off = tk.u() as usize; let n = tk.u(); let mids: Vec<i64> = (0..n).map(|_| tk.i()).collect(); let buf = tk.hex();
    let mut r = if tk.mode > 0 {{ {q}BufferReader::from_vec(buf.clone()) }} else {{ {q}BufferReader::new(&buf) }}; r.current_position = off; let mut l = Vec::new();
    for mid in mids {{ match read(mid, &mut r) {{ Ok(m) => l.push(m), Err(e) => {{ tk.o += &format!("ERR {{}}", e); return; }} }} }}
    tk.o += &format!("OK {{}}", r.current_position); for m in &l {{ dump(m, tk, false); }} }}
  b'D' => {{
    match tk.i() {{ {' '.join(f'{i} => {{ let m = {q}{s.name}::default(); let mut b = Vec::new(); m.write_bytes(&mut b, false); tk.o += &format!("OK {{}} ", m.get_message_type() as i64 + 1); tk.oh(&b); d_{s.name}(&m, tk); }}' for i, s in enumerate(ms))} _ => unreachable!() }} }}
  b'P' | b'U' => {{
    let off = tk.u() as usize; let max = if c == b'P' {{ tk.i() as i32 }} else {{ 0 }}; let buf = tk.hex();
    let mut r = if tk.mode > 0 {{ {q}BufferReader::from_vec(buf.clone()) }} else {{ {q}BufferReader::new(&buf) }}; r.current_position = off;
    let x = if c == b'P' {{ {q}process_raw_bytes(&mut r, max) }} else {{ {q}unpack_messages(&mut r) }};
    if c == b'P' && max < 0 {{
      let mut r2 = {q}BufferReader::new(&buf); r2.current_position = off; let mut l2 = Vec::new(); let mut bad = false;       // message by message, as documented for Message::from_bytes
      while !r2.is_finished() {{ if buf[r2.current_position] == 0 {{ r2.current_position += 1; break; }} match {q}Message::from_bytes(&mut r2) {{ Ok(m) => l2.push(m), Err(_) => {{ bad = true; break; }} }} }}
      let same = match &x {{ Ok(l) => !bad && r2.current_position == r.current_position && l.len() == l2.len() && l.iter().zip(&l2).all(|(a, b)| a.get_message_type() as i64 == b.get_message_type() as i64 && enc(a) == enc(b)), Err(_) => bad }};
      if !same {{ panic!("HARNESS Message::from_bytes and process_raw_bytes differ"); }} }}
    match x {{ Ok(l) => {{ tk.o += &format!("OK {{}}", r.current_position); tk.ou(l.len() as u64); for m in &l {{ dump(m, tk, true); }} }} Err(e) => {{ tk.o += &format!("ERR {{:?}}", e); }} }} }}
  b'K' => {{
    let off = tk.u() as usize; let cap = tk.u() as usize; let n = tk.u();
    let mut buf: Vec<u8> = vec![0xAA; off]; let mut l = Vec::new(); for _ in 0..n {{ let mid = tk.i(); l.push(new(mid, tk)); }}
    let ps = {q}get_packed_size(&l); {q}pack_messages(&l, &mut buf);
    tk.o += &format!("OK {{}} ", buf.len()); while buf.len() < cap {{ buf.push(0xAA); }} tk.oh(&buf); tk.ou(ps as u64); }}
  b'M' => {{
    let mid = tk.i(); tk.u(); let n = tk.u(); let mut m = new(mid, tk); let mut buf: Vec<u8> = Vec::new(); tk.o += "OK";
    for i in 0..n {{
      if i > 0 {{ match &mut m {{ {' '.join(f'{q}Message::{s.name}(x) => p_{s.name}(x, tk),' for s in ms)} }} }}
      buf.clear(); let sz = if i % 2 == 1 {{ let k = m.get_size_in_bytes(); m.write_bytes(&mut buf, false); k }} else {{ match &m {{ {' '.join(f'{q}Message::{s.name}(x) => {{ let k = x.get_size_in_bytes(); x.write_bytes(&mut buf, false); k }}' for s in ms)} }} }};
      tk.ou(sz as u64); let l = vec![m]; let ps = {q}get_packed_size(&l); m = l.into_iter().next().unwrap(); tk.ou(ps as u64); tk.o += " "; tk.oh(&buf);
      let mut r = {q}BufferReader::new(&buf); match read(mid, &mut r) {{ Ok(x) => dump(&x, tk, false), Err(e) => {{ tk.o = format!("ERR {{}}", e); return; }} }} }}
    dump(&m, tk, false); }}
  b'T' => {{ types(tk) }}
  b'I' => {{ indep(tk) }}
  b'E' => {{ tk.o += "OK"; {' '.join(f'tk.oi({q}{e.name}::{n} as i64);' for e in P.enums for n, _ in e.values)} }}
  _ => {{ tk.o += "ERR cmd"; }}
}} }}""")
    return w.text()
