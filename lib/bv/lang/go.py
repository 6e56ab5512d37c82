import os, re
from .base import Lang, W

GT = {"byte": "byte", "bool": "bool", "uint16": "uint16", "int16": "int16", "uint32": "uint32", "int32": "int32",
      "uint64": "uint64", "int64": "int64", "float": "float32", "double": "float64", "string": "string"}

HELPERS = r'''
import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
)

var _ sync.Mutex
var _ = bufio.NewReader
var _ = os.Stdin
var _ = debug.SetMemoryLimit

var bvW []string
var bvP int
var bvO strings.Builder

func tW() string { s := bvW[bvP]; bvP++; return s }
func tI() int64  { v, e := strconv.ParseInt(tW(), 10, 64); if e != nil { panic(e) }; return v }
func tU() uint64 { v, e := strconv.ParseUint(tW(), 10, 64); if e != nil { panic(e) }; return v }
func tF() float32 { v, e := strconv.ParseUint(tW(), 16, 32); if e != nil { panic(e) }; return math.Float32frombits(uint32(v)) }
func tD() float64 { v, e := strconv.ParseUint(tW(), 16, 64); if e != nil { panic(e) }; return math.Float64frombits(v) }
func tB() bool   { return tI() != 0 }
func unhex(s string) []byte { b, e := hex.DecodeString(s); if e != nil { panic(e) }; return b }
func tS() string { return string(unhex(tW()[1:])) }
func tHex() []byte { s := tW(); if s == "-" { return []byte{} }; return unhex(s) }
func o(s string) { bvO.WriteString(s) }
func oN(v int64) { o(" " + strconv.FormatInt(v, 10)) }
func oU(v uint64) { o(" " + strconv.FormatUint(v, 10)) }
func oB(v bool)  { if v { o(" 1") } else { o(" 0") } }
func oF(v float32) { o(fmt.Sprintf(" %08x", math.Float32bits(v))) }
func oD(v float64) { o(fmt.Sprintf(" %016x", math.Float64bits(v))) }
func oS(v string) { o(" s" + hex.EncodeToString([]byte(v))) }
func oH(b []byte) { if len(b) == 0 { o("-") } else { o(hex.EncodeToString(b)) } }
var bvSame int
func same[T any](x any, what string) { bvSame++; if _, ok := x.(T); !ok { o(" " + what) } }
func order(a, b uintptr, what string) { bvSame++; if a >= b { o(" " + what) } }
func fill(n int) []byte { b := make([]byte, n); for i := range b { b[i] = 0xAA }; return b }
func pad(b []byte, n int) []byte { if len(b) < n { return append(b, fill(n-len(b))...) }; return b }

// streams that hand over their bytes in other ways.  1: one at a time; 2: a few at a time, none now and then; 3: the end together with the last bytes;
// 4: an error after bvArg bytes; 5: a few at a time, can be positioned; 6: runs bvHook inside each call
var bvMode int
var bvKeep bool
var bvArg int64
type bvR struct { r *bytes.Reader; mode int; seed uint64; hook func() }
func (x *bvR) rnd() uint64 { x.seed = x.seed*6364136223846793005 + 1442695040888963407; return x.seed >> 33 }
func (x *bvR) Read(p []byte) (int, error) {
	if len(p) == 0 { return 0, nil }
	switch x.mode {
	case 1, 6:
		p = p[:1]
	case 2, 5:
		if x.rnd()%5 == 0 { return 0, nil }
		if k := int(1 + x.rnd()%7); k < len(p) { p = p[:k] }
	case 4:
		at, _ := x.r.Seek(0, io.SeekCurrent)
		if at >= bvArg { return 0, errors.New("bv reader failure") }
		if left := bvArg - at; int64(len(p)) > left { p = p[:left] }
	}
	n, err := x.r.Read(p)
	if x.hook != nil { x.hook() }
	if x.mode == 3 && err == nil && x.r.Len() == 0 { err = io.EOF }
	return n, err
}
type bvRS struct { bvR }
func (x *bvRS) Seek(o int64, w int) (int64, error) { return x.r.Seek(o, w) }
func bvReader(r *bytes.Reader) io.Reader {
	switch bvMode {
	case 0: return r
	case 5: return &bvRS{bvR{r: r, mode: 5, seed: uint64(bvArg)}}
	}
	return &bvR{r: r, mode: bvMode, seed: uint64(bvArg)}
}
type bvW_ struct { b *bytes.Buffer; hook func() }
func (x *bvW_) Write(p []byte) (int, error) { n, err := x.b.Write(p); if x.hook != nil { x.hook() }; return n, err }
func bvWriter(b *bytes.Buffer) io.Writer { if bvMode == 0 { return b }; return &bvW_{b: b} }

func serve(line string) {
	defer func() {
		if r := recover(); r != nil {
			bvO.Reset()
			o("PANIC " + strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
		}
	}()
	bvW = strings.Fields(line)
	bvP = 0
	bvO.Reset()
	cw := strings.Split(tW(), ":")
	c := cw[0][0]
	_ = c
	bvMode = 0
	bvKeep = false
	if len(cw) > 2 { bvMode, _ = strconv.Atoi(cw[1]); bvArg, _ = strconv.ParseInt(cw[2], 10, 64) }
	pid := tW()
	switch pid {
@DISPATCH@
	default:
		o("ERR nopid")
	}
}

'''
MAIN = "package main\n" + HELPERS + r'''
func main() {
	debug.SetMemoryLimit(2 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadString('\n')
		if line != "" {
			serve(strings.TrimRight(line, "\n"))
			out.WriteString(bvO.String())
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}
'''


class Go(Lang):
    name = "go"
    cli_name = "go"
    ext = ".go"
    no_rename = frozenset()      # protocols generated with --go-no-rename: their adapter lives inside the package

    def write_sources(self):
        self.put("go.mod", "module bv\n\ngo 1.21\n")
        inside = [p for p in self.protos if p in self.no_rename]
        disp = "\n".join(f'\tcase "{p}":\n\t\to(q{p}.BvServe(line))' if p in inside else f'\tcase "{p}":\n\t\tcmd_{p}(c)' for p in self.protos)
        main = MAIN.replace("@DISPATCH@", disp)
        self.put("main.go", main.replace("package main\n", "package main\n" + "".join(f'import q{p} "bv/{p}"\n' for p in inside), 1))
        for p, proto in self.protos.items():
            self.put(f"{p}/{p}.go", self.code[p])
            if p in inside:
                m = re.search(r"^package (\w+)", self.code[p], re.M)
                pkg = "package %s\n" % (m.group(1) if m else "unknown")
                self.put(f"{p}/bv_rt.go", pkg + HELPERS.replace("@DISPATCH@", f'\tcase "{p}":\n\t\tcmd_{p}(c)').replace("func serve(", "func bvServe(")
                         + "\nfunc BvServe(line string) string { bvServe(line); return bvO.String() }\n")
                self.put(f"{p}/bv_h.go", adapter(p, proto, True).replace("package main\n", pkg, 1))
            else:
                self.put(f"h_{p}.go", adapter(p, proto))

    def compile(self):
        rc, out = self.sh(["go", "build", "-gcflags=all=-e", "-o", "harness", "."])
        if rc:
            return False, out
        self.exe = os.path.join(self.dir, "harness")
        return True, out

    def command(self):
        return [self.exe]


def adapter(pid, P, inside=False):
    q = "" if inside else f"q{pid}."

    def cap(n):
        return n if inside else n[0].upper() + n[1:]
    w = W("\t")
    w("package main")
    w("import (")
    w('\t"bytes"')
    w('\t"io"')
    w('\t"sync"')
    w('\t"unsafe"')
    if not inside:
        w(f'\tq{pid} "bv/{pid}"')
    w(")")
    w("var _ = bytes.NewReader")
    w("var _ unsafe.Pointer")

    def gt(t):
        return GT.get(t) or q + t

    def build(t, x):
        k = P.kind(t)
        if k == "num":
            f = {"float": "tF()", "double": "tD()", "bool": "tB()", "uint64": "tU()"}.get(t) or f"{GT[t]}(tI())"
            w(f"{x} = {f}")
        elif k == "string":
            w(f"{x} = tS()")
        elif k == "enum":
            w(f"{x} = be_{pid}_{t}()")
        else:
            w(f"b_{pid}_{t}(&{x})")

    def dump(t, x):
        k = P.kind(t)
        if k == "num":
            if t in ("float", "double", "bool"):
                w(f"o{'F' if t == 'float' else t[0].upper()}({x})")
            elif t == "uint64":
                w(f"oU({x})")
            else:
                w(f"oN(int64({x}))")
        elif k == "string":
            w(f"oS({x})")
        elif k == "enum":
            w(f"de_{pid}_{t}({x})")
        else:
            w(f"d_{pid}_{t}(&{x})")

    for e in P.enums:
        w(f"func be_{pid}_{e.name}() {q}{e.name} {{ return []{q}{e.name}{{" + ", ".join(f"{q}{e.name}{n}" for n, _ in e.values) + "}[tI()] }")
        with w.block(f"func de_{pid}_{e.name}(v {q}{e.name}) {{"):
            for i, (n, _) in enumerate(e.values):
                w(f"if v == {q}{e.name}{n} {{ oN({i}); return }}")
            w('o(" ?"); oN(int64(v))')
    for s in P.structs + P.messages:
        with w.block(f"func b_{pid}_{s.name}(v *{q}{s.name}) {{"):
            for m in s.members:
                if m.is_list:
                    with w.block("{"):
                        w("n := int(tI())")
                        w(f"l := make([]{gt(m.type)}, n)")
                        w(f"if bvKeep {{ if old := v.{cap(m.name)}; len(old) >= n {{ l = old[:n] }} else {{ copy(l, old) }} }}")
                        with w.block("for i := 0; i < n; i++ {"):
                            build(m.type, "l[i]")
                        w(f"v.{cap(m.name)} = l")
                else:
                    build(m.type, f"v.{cap(m.name)}")
        with w.block(f"func d_{pid}_{s.name}(v *{q}{s.name}) {{"):
            for m in s.members:
                if m.is_list:
                    w(f"oN(int64(len(v.{cap(m.name)})))")
                    with w.block(f"for i := range v.{cap(m.name)} {{"):
                        dump(m.type, f"v.{cap(m.name)}[i]")
                else:
                    dump(m.type, f"v.{cap(m.name)}")
    ms = P.messages
    w(f"func new_{pid}(mid int) {q}Message {{ switch mid {{")
    for i, s in enumerate(ms):
        w(f"case {i}: m := &{q}{s.name}{{}}; b_{pid}_{s.name}(m); return m")
    w('}; panic("mid") }')
    w(f"func mid_{pid}(m {q}Message) int {{ switch m.(type) {{")
    for i, s in enumerate(ms):
        w(f"case *{q}{s.name}, {q}{s.name}: return {i}")
    w("}; return -1 }")
    w(f"func dump_{pid}(m {q}Message) {{ switch x := m.(type) {{")
    for i, s in enumerate(ms):
        w(f"case *{q}{s.name}: d_{pid}_{s.name}(x)")
        w(f"case {q}{s.name}: d_{pid}_{s.name}(&x)")
    w("} }")
    for s in P.structs + P.messages:
        with w.block(f"func m_{pid}_{s.name}(v *{q}{s.name}) {{"):      # change every member in place
            for m in s.members:
                x, k = f"v.{cap(m.name)}", P.kind(m.type)
                if m.is_list:
                    w(f"for i := range {x} {{ _ = i; " + (f"m_{pid}_{m.type}(&{x}[i])" if k == "struct" else f'{x}[i] = "changed"' if k == "string" else f"{x}[i] = !{x}[i]" if m.type == "bool" else f"{x}[i]++") + " }")
                    w(f"{{ var e {gt(m.type)}; {x} = append({x}, e) }}")
                elif k == "struct":
                    w(f"m_{pid}_{m.type}(&{x})")
                else:
                    w(f'{x} = "changed"' if k == "string" else f"{x} = !{x}" if m.type == "bool" else f"{x}++")
    w(f"func change_{pid}(m {q}Message) {{ switch x := m.(type) {{ " + " ".join(f"case *{q}{s.name}: m_{pid}_{s.name}(x);" for s in ms) + " } }")
    w(f"func def_{pid}(mid int) {q}Message {{ switch mid {{ " + " ".join(f"case {i}: x := {q}New{s.name}Default(); return &x;" for i, s in enumerate(ms)) + ' }; panic("mid") }')
    w(f"func enc_{pid}(m {q}Message) []byte {{ var b bytes.Buffer; m.WriteBytes(&b, false); return b.Bytes() }}")
    w(f"""func again_{pid}(mid int, m {q}Message, want []byte) int {{
	bad := 0
	x, err := read_{pid}(mid, bytes.NewReader(want))
	if err != nil || !bytes.Equal(enc_{pid}(x), want) {{ bad++ }}
	if !bytes.Equal(enc_{pid}(m), want) || m.GetSizeInBytes() != len(want) {{ bad++ }}
	return bad
}}
func indep_{pid}() {{
	ia := int(tI()); a := new_{pid}(ia)
	ib := int(tI()); b := new_{pid}(ib)
	ea, eb := enc_{pid}(a), enc_{pid}(b)
	da, db := append([]byte{{}}, ea...), append([]byte{{}}, eb...)
	ra := bytes.NewReader(append(append([]byte{{}}, ea...), ea...))
	tb := append(append([]byte{{}}, eb...), eb...)
	rb := bytes.NewReader(tb)
	var l []{q}Message
	bad := 0
	for i := 0; i < 4; i++ {{
		mid, r := ia, ra
		if i%2 == 1 {{ mid, r = ib, rb }}
		m, err := read_{pid}(mid, r)
		if err != nil {{ o("ERR " + err.Error()); return }}
		l = append(l, m)
	}}
	change_{pid}(l[0]); change_{pid}(l[1])
	for i := range tb {{ tb[i] = 0x55 }}
	change_{pid}(def_{pid}(ia)); change_{pid}(def_{pid}(ib))
	// calls inside calls
	calls := 0
	hook := func() {{ calls++; if calls%64 < 32 && calls < 512 {{ bad += again_{pid}(ib, b, eb) }} }}
	ha, err := read_{pid}(ia, &bvR{{r: bytes.NewReader(ea), mode: 6, hook: hook}})
	if err != nil || !bytes.Equal(enc_{pid}(ha), ea) {{ bad++ }}
	var hw bytes.Buffer
	calls = 0
	a.WriteBytes(&bvW_{{b: &hw, hook: hook}}, false)
	if !bytes.Equal(hw.Bytes(), ea) {{ bad++ }}
	// calls beside calls
	var wg sync.WaitGroup
	counts := make([]int, 4)
	for g := range counts {{
		wg.Add(1)
		go func(g int) {{
			defer wg.Done()
			defer func() {{ if recover() != nil {{ counts[g]++ }} }}()
			for k := 0; k < 6; k++ {{
				if g%2 == 0 {{ counts[g] += again_{pid}(ia, a, ea) }} else {{ counts[g] += again_{pid}(ib, b, eb) }}
			}}
		}}(g)
	}}
	wg.Wait()
	for _, n := range counts {{ bad += n }}
	fa, fb := enc_{pid}(a), enc_{pid}(b)
	o("OK ")
	oH(da); o(" "); oH(fa); o(" "); oH(enc_{pid}(def_{pid}(ia))); o(" "); oH(db); o(" "); oH(fb); o(" "); oH(enc_{pid}(def_{pid}(ib)))
	for _, m := range []{q}Message{{a, b, l[2], l[3]}} {{ dump_{pid}(m) }}
	oN(int64(bad))
}}""")
    w(f"func read_{pid}(mid int, r io.Reader) ({q}Message, error) {{ switch mid {{")
    for i, s in enumerate(ms):
        w(f"case {i}: m, err := {q}{s.name}FromBytes(r); if err != nil {{ return nil, err }}; return m, nil")
    w('}; panic("mid") }')
    with w.block(f"func types_{pid}() {{"):
        w('o("OK"); bvSame = 0')
        for s in P.structs + P.messages:
            with w.block("{"):
                w(f"var v {q}{s.name}")
                for k, m in enumerate(s.members):
                    x = f"v.{cap(m.name)}"
                    w(f'same[{"[]" if m.is_list else ""}{gt(m.type)}]({x}, "{s.name}.{m.name}:type")')
                    if k:
                        w(f'order(unsafe.Offsetof(v.{cap(s.members[k - 1].name)}), unsafe.Offsetof({x}), "{s.name}.{m.name}:order")')
                w("_ = v")
        w("oN(int64(bvSame))")
    w(f"""func cmd_{pid}(c byte) {{
	switch c {{
	case 'W':
		off, cp, n := int(tI()), int(tI()), int(tI())
		buf := bytes.NewBuffer(fill(off))
		bw := bvWriter(buf)
		sizes, types := []int64{{}}, []int64{{}}
		for i := 0; i < n; i++ {{
			mid, tag := int(tI()), int(tI())
			m := new_{pid}(mid)
			sizes = append(sizes, int64(m.GetSizeInBytes())); types = append(types, int64(m.GetMessageType()))
			if tag&2 != 0 {{ m.WriteBytes(bw, tag&1 != 0) }} else {{
				switch x := m.(type) {{
{chr(10).join(f'				case *{q}{s.name}: (*x).WriteBytes(bw, tag&1 != 0)' for s in ms)}
				}}
			}}
		}}
		b := buf.Bytes()
		o("OK"); oN(int64(len(b))); o(" "); oH(pad(b, cp))
		for i := range sizes {{ oN(sizes[i]); oN(types[i]) }}
	case 'R':
		off, n := tI(), int(tI())
		mids := make([]int, n)
		for i := range mids {{ mids[i] = int(tI()) }}
		r := bytes.NewReader(tHex())
		r.Seek(off, 0)
		rd := bvReader(r)
		l := []{q}Message{{}}
		for i := range mids {{ m, err := read_{pid}(mids[i], rd); if err != nil {{ o("ERR " + err.Error()); return }}; l = append(l, m) }}
		o("OK"); p, _ := r.Seek(0, 1); oN(p)
		for _, m := range l {{ dump_{pid}(m) }}
	case 'D':
		mid := int(tI())
		var m {q}Message
		switch mid {{
{chr(10).join(f'		case {i}: x := {q}New{s.name}Default(); m = &x' for i, s in enumerate(ms))}
		}}
		var buf bytes.Buffer
		m.WriteBytes(&buf, false)
		o("OK"); oN(int64(m.GetMessageType())); o(" "); oH(buf.Bytes()); dump_{pid}(m)
	case 'P', 'U':
		off := tI()
		max := 0
		if c == 'P' {{ max = int(tI()) }}
		r := bytes.NewReader(tHex())
		r.Seek(off, 0)
		rd := bvReader(r)
		var l []{q}Message
		var err error
		if c == 'P' {{ l, err = {q}ProcessRawBytes(rd, max) }} else {{ l, err = {q}UnpackMessages(rd) }}
		if err != nil {{ o("ERR " + err.Error()); return }}
		o("OK"); p, _ := r.Seek(0, 1); oN(p); oN(int64(len(l)))
		for _, m := range l {{ oN(int64(mid_{pid}(m))); dump_{pid}(m) }}
	case 'K':
		off, cp, n := int(tI()), int(tI()), int(tI())
		buf := bytes.NewBuffer(fill(off))
		l := []{q}Message{{}}
		for i := 0; i < n; i++ {{ l = append(l, new_{pid}(int(tI()))) }}
		ps := {q}GetPackedSize(l)
		{q}PackMessages(l, bvWriter(buf))
		b := buf.Bytes()
		o("OK"); oN(int64(len(b))); o(" "); oH(pad(b, cp)); oN(int64(ps))
	case 'M':
		mid, n := int(tI()), 0
		tI()
		n = int(tI())
		var m {q}Message
		buf := &bytes.Buffer{{}}
		o("OK")
		r := bytes.NewReader(nil)
		for i := 0; i < n; i++ {{
			if m == nil {{ m = new_{pid}(mid) }} else {{
				bvKeep = true
				switch x := m.(type) {{
{chr(10).join(f'				case *{q}{s.name}: b_{pid}_{s.name}(x)' for s in ms)}
				}}
				bvKeep = false
			}}
			buf.Reset()
			oN(int64(m.GetSizeInBytes())); oN(int64({q}GetPackedSize([]{q}Message{{m}})))
			if i%2 == 1 {{ m.WriteBytes(buf, false) }} else {{
				switch x := m.(type) {{
{chr(10).join(f'				case *{q}{s.name}: (*x).WriteBytes(buf, false)' for s in ms)}
				}}
			}}
			o(" "); oH(buf.Bytes())
			r.Reset(append([]byte{{}}, buf.Bytes()...))
			x, err := read_{pid}(mid, r)
			if err != nil {{ bvO.Reset(); o("ERR " + err.Error()); return }}
			dump_{pid}(x)
		}}
		dump_{pid}(m)
	case 'T':
		types_{pid}()
	case 'I':
		indep_{pid}()
	case 'E':
		o("OK")
{chr(10).join(f'		oN(int64({q}{e.name}{n}))' for e in P.enums for n, _ in e.values)}
	default:
		o("ERR cmd")
	}}
}}""")
    return w.text()
