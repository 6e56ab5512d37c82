import os, random
from concurrent.futures import ThreadPoolExecutor
from .base import Lang, W

CT = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t", "int32": "int32_t",
      "uint64": "uint64_t", "int64": "int64_t", "float": "float", "double": "double", "string": "char*"}

HARNESS_H = r'''
#ifndef BV_HARNESS_H
#define BV_HARNESS_H
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include <stdbool.h>
#include <inttypes.h>
#include <pthread.h>
extern void (*bv_hook)(void); extern int bv_hooked;
void* bv_malloc(size_t n);
void* bv_realloc(void* p, size_t n);
void bv_free(void* p);
void bv_suspend(void); void bv_resume(void);
const char* t_word(void);
int64_t t_i(void); uint64_t t_u(void); float t_f(void); double t_d(void);
char* t_s(size_t* len); uint8_t* t_hex(size_t* len);
void o(const char* fmt, ...); void o_hex(const uint8_t* p, size_t n);
void o_f(float f); void o_d(double d); void o_s(const char* p, size_t n);
void o_reset(void);
#endif
'''
MAIN = r'''
#include "bv_harness.h"
#include <stdarg.h>
#include <sys/resource.h>
static char* cur; static int nozero; static long live, failAt, failCount, failed; static __thread int suspended, inhook;
void (*bv_hook)(void); int bv_hooked;
static void hook(void){ if (bv_hook && !suspended && !inhook) { bv_hooked++; if (bv_hooked%64<32 && bv_hooked<512) { inhook=1; bv_hook(); inhook=0; } } }
void bv_suspend(void){suspended++;} void bv_resume(void){suspended--;}
static int fail_now(void){ if (suspended || !failAt) return 0; if (++failCount == failAt) { failed++; return 1; } return 0; }
void* bv_malloc(size_t n){ hook(); if (fail_now()) return NULL; if (!n && nozero && !suspended) return NULL; void* p = malloc(n); if (p) { __atomic_add_fetch(&live,1,__ATOMIC_RELAXED); if (n) memset(p, 0xA5, n < 65536 ? n : 65536); } return p; }
void* bv_realloc(void* p, size_t n){ if (fail_now()) return NULL; void* q = realloc(p, n); if (q && !p) __atomic_add_fetch(&live,1,__ATOMIC_RELAXED); return q; }
void bv_free(void* p){ if (p) __atomic_sub_fetch(&live,1,__ATOMIC_RELAXED); free(p); }
const char* t_word(void){ while (*cur==' ') cur++; char* s=cur; while (*cur && *cur!=' ') cur++; if (*cur) *cur++=0; return s; }
int64_t t_i(void){ return (int64_t)strtoll(t_word(),NULL,10); }
uint64_t t_u(void){ return strtoull(t_word(),NULL,10); }
float t_f(void){ uint32_t b=(uint32_t)strtoul(t_word(),NULL,16); float f; memcpy(&f,&b,4); return f; }
double t_d(void){ uint64_t b=strtoull(t_word(),NULL,16); double f; memcpy(&f,&b,8); return f; }
static int hv(int c){ return c<='9'?c-'0':c-'a'+10; }
static void unhex(const char* s, size_t n, uint8_t* d){ for(size_t i=0;i<n;i++) d[i]=(uint8_t)(hv(s[2*i])*16+hv(s[2*i+1])); }
char* t_s(size_t* len){ const char* w=t_word()+1; size_t n=strlen(w)/2; bv_suspend(); char* r=(char*)bv_malloc(n+1); bv_resume(); unhex(w,n,(uint8_t*)r); r[n]=0; *len=n; return r; }
uint8_t* t_hex(size_t* len){ const char* w=t_word(); size_t n=strcmp(w,"-")==0?0:strlen(w)/2; uint8_t* r=(uint8_t*)malloc(n); if(n) unhex(w,n,r); *len=n; return r; }
static char* ob; static size_t on, oc;
void o_reset(void){ on=0; }
static void need(size_t n){ if(on+n+1>oc){ oc=(on+n+1)*2; ob=(char*)realloc(ob,oc);} }
void o(const char* fmt, ...){ va_list a; char tmp[256]; va_start(a,fmt); int n=vsnprintf(tmp,sizeof tmp,fmt,a); va_end(a); need((size_t)n); memcpy(ob+on,tmp,(size_t)n); on+=(size_t)n; }
void o_hex(const uint8_t* p, size_t n){ static const char H[]="0123456789abcdef"; need(2*n+1); for(size_t i=0;i<n;i++){ ob[on++]=H[p[i]>>4]; ob[on++]=H[p[i]&15]; } if(n==0) o("-"); }
void o_f(float f){ uint32_t b; memcpy(&b,&f,4); o(" %08x",b); }
void o_d(double d){ uint64_t b; memcpy(&b,&d,8); o(" %016" PRIx64,b); }
void o_s(const char* p, size_t n){ o(" s"); if(n) o_hex((const uint8_t*)p,n); }
@DECLS@
int main(void){
  char* line=NULL; size_t cap=0; ssize_t n;
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  while((n=getline(&line,&cap,stdin))>0){
    if(line[n-1]=='\n') line[n-1]=0;
    nozero = n & 1;       /* for half of the requests an allocation of no bytes returns NULL, as malloc may */
    cur=line; o_reset(); live=0;
    char cmd=t_word()[0];
    failAt=0;
    if(cmd=='F'){ failAt=(long)t_i(); cmd=t_word()[0]; }
    {
      const char* pid=t_word(); failCount=0; failed=0;
      @DISPATCH@
      else o("ERR nopid");
      o(" # live=%ld failed=%ld", live, failed);
    }
    need(1); ob[on]=0; puts(ob); fflush(stdout);
  }
  return 0;
}
'''


class C(Lang):
    name = "c"
    cli_name = "c"
    ext = ".h"
    cc = "gcc-13"
    flags = ["-std=c99", "-D_GNU_SOURCE", "-O0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

    together = {}           # pid -> (pids of the protocols used together with it, how, seed)

    def write_sources(self):
        self.put("bv_harness.h", HARNESS_H)
        decls = "".join(f"void {p}_cmd(char c);\n" for p in self.protos)
        disp = "if(0){}\n" + "".join(f'      else if(!strcmp(pid,"{p}")) {p}_cmd(cmd);\n' for p in self.protos)
        self.put("main.c", MAIN.replace("@DECLS@", decls).replace("@DISPATCH@", disp))
        for p, proto in self.protos.items():
            self.put(f"{p}.h", self.code[p])
            self.put(f"h_{p}.c", adapter(p, proto, includes(p, self.together, self.protos)))
        for pids, how, seed in self.sets():
            ns = [(self.protos[p].ns or "beschi") for p in pids]
            self.put(f"{pids[0]}.x.cc", "".join(f'#include "{p}.h"\n' for p in pids) + f"int x_{pids[0]}() {{ int n = 0;\n" +
                     "".join(f"  {{ {x}_DataAccess a; a.buffer = 0; a.bufferSize = 0; a.position = 0; n += {x}_IsFinished(&a); }}\n" for x in ns) + "  return n; }\n")

    def sets(self):
        out = []
        for pids, how, seed in {id(x): x for x in self.together.values()}.values():
            pids = [p for p in pids if p in self.protos]
            if pids:
                out.append((pids, how, seed))
        return out

    def compile(self):
        srcs = ["main.c"] + [f"h_{p}.c" for p in self.protos] + [f"{s[0][0]}.x.cc" for s in self.sets()]

        def one(s):
            if s.endswith(".cc"):
                return self.sh(["g++-13" if self.cc == "gcc-13" else "g++", "-std=c++20", "-O0", "-w", "-c", s, "-o", s + ".o"])
            return self.sh([self.cc] + self.flags + ["-c", s, "-o", s + ".o"])
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, srcs))
        outs = [o for rc, o in res if rc != 0]
        if outs:
            return False, "\n".join(outs)
        rc, out = self.sh([self.cc] + self.flags + [s + ".o" for s in srcs] + ["-pthread", "-o", "harness"])
        if rc:
            return False, out
        self.exe = os.path.join(self.dir, "harness")
        return True, out

    def command(self):
        return [self.exe]

    def run_env(self):
        return {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:detect_stack_use_after_return=0:abort_on_error=0:symbolize=1",
                "UBSAN_OPTIONS": "print_stacktrace=1"}

    def crash_note(self, err):
        keep = [l.strip() for l in err.splitlines() if "ERROR:" in l or "runtime error" in l or l.strip().startswith("#") and ("p" in l)]
        return (" / ".join(keep[:6]) or super().crash_note(err))[:900]


def implementation(pid, P):
    U = (P.ns or "beschi").upper() + "_"
    return [f"#define {U}MALLOC(size) bv_malloc(size)", f"#define {U}REALLOC(p, n) bv_realloc(p, n)", f"#define {U}FREE(p) bv_free(p)", '#include "bv_harness.h"',
            f"#define {U}IMPLEMENTATION", f'#include "{pid}.h"']


HOW = ["each", "again", "cross", "one", "last"]


def includes(pid, together, protos):
    """the lines that bring the generated code into this protocol's source file.  Alone: its implementation.  With others, headers are included in any order and
    number, and each implementation once in the program, as the last inclusion of its header in that file:
    each: here its own; again: its own, after the plain headers; cross: another one's; one: all in the first file; last: all in the last file, in one go."""
    if pid not in together:
        return implementation(pid, protos[pid])
    pids, how, seed = together[pid]
    pids = [p for p in pids if p in protos]
    rng = random.Random("%s/%s" % (seed, pid))
    inc = lambda p: ['#include "%s.h"' % p]
    i = pids.index(pid)
    impl = {"each": [pid], "again": [pid], "cross": [pids[(i + 1) % len(pids)]], "one": pids if i == 0 else [], "last": pids if i == len(pids) - 1 else []}[how]
    out = []
    plain = [p for p in pids if p not in impl]
    if how == "again" or how != "last" and rng.random() < 0.5:
        plain += pids
    if rng.random() < 0.3:
        plain += plain
    rng.shuffle(plain)
    late = [p for p in plain if p not in impl]
    cut = rng.randint(0, len(plain))
    for p in plain[:cut]:
        out += inc(p)
    for p in plain[cut:]:
        if p in impl:
            out += inc(p)
    todo = list(impl)
    rng.shuffle(todo)
    if how == "last":               # all definitions first
        ls = [implementation(p, protos[p]) for p in todo]
        out += [x for l in ls for x in l[:-1]] + [l[-1] for l in ls]
    else:
        for p in todo:
            out += implementation(p, protos[p])
            if late and rng.random() < 0.5:
                out += inc(rng.choice(late))
    for p in plain[cut:]:
        if p not in impl:
            out += inc(p)
    if pid not in impl:
        out += inc(pid)
    return out + ['#include "bv_harness.h"']


def adapter(pid, P, head):
    ns = P.ns or "beschi"
    pf = ns + "_"
    U = ns.upper() + "_"
    w = W()
    for x in head:
        w(x)
    w()
    for e in P.enums:
        w(f"static {pf}{e.name} b_e_{e.name}(void) {{ static const {pf}{e.name} v[] = {{" +
          ", ".join(f"{pf}{e.name}_{n}" for n, _ in e.values) + "}; return v[t_i()]; }")
        with w.block(f"static void d_e_{e.name}({pf}{e.name} v) {{"):
            for i, (n, _) in enumerate(e.values):
                w(f'if (v == {pf}{e.name}_{n}) {{ o(" {i}"); return; }}')
            w('o(" ?%lld", (long long)v);')
    for s in P.structs + P.messages:
        w(f"static void b_{s.name}({pf}{s.name}* v); static void d_{s.name}(const {pf}{s.name}* v);")

    def ctype(t):
        return CT[t] if t in CT else pf + t

    def build(t, lv, lenlv):
        k = P.kind(t)
        if k == "num":
            f = {"float": "t_f()", "double": "t_d()", "bool": "(t_i() != 0)"}.get(t) or (f"({CT[t]})t_u()" if t in ("uint64", "uint32", "byte", "uint16") else f"({CT[t]})t_i()")
            w(f"{lv} = {f};")
        elif k == "string":
            w(f"{{ size_t n_; {lv} = t_s(&n_); {lenlv} = n_; }}")
        elif k == "enum":
            w(f"{lv} = b_e_{t}();")
        else:
            w(f"b_{t}(&({lv}));")

    def dump(t, lv, lenlv):
        k = P.kind(t)
        if k == "num":
            if t == "float":
                w(f"o_f({lv});")
            elif t == "double":
                w(f"o_d({lv});")
            elif t in ("uint64", "uint32", "uint16", "byte"):
                w(f'o(" %" PRIu64, (uint64_t)({lv}));')
            else:
                w(f'o(" %" PRId64, (int64_t)({lv}));')
        elif k == "string":
            w(f"o_s({lv}, (size_t)({lenlv}));")
        elif k == "enum":
            w(f"d_e_{t}({lv});")
        else:
            w(f"d_{t}(&({lv}));")

    for s in P.structs + P.messages:
        with w.block(f"static void b_{s.name}({pf}{s.name}* v) {{"):
            w("(void)v;")
            for m in s.members:
                if m.is_list:
                    w(f"{{ size_t n = (size_t)t_u(); v->{m.name}_len = n; v->{m.name} = NULL;")
                    w.n += 1
                    if m.type == "string":
                        w(f"v->{m.name}_els_len = NULL;")
                    w(f"bv_suspend(); if (n) {{ v->{m.name} = ({ctype(m.type)}*)bv_malloc(n * sizeof(*v->{m.name}));")
                    if m.type == "string":
                        w(f"v->{m.name}_els_len = bv_malloc(n * sizeof(*v->{m.name}_els_len));")
                    w("} bv_resume();")
                    with w.block("for (size_t i = 0; i < n; i++) {"):
                        build(m.type, f"v->{m.name}[i]", f"v->{m.name}_els_len[i]")
                    w.n -= 1
                    w("}")
                else:
                    build(m.type, f"v->{m.name}", f"v->{m.name}_len")
        with w.block(f"static void d_{s.name}(const {pf}{s.name}* v) {{"):
            w("(void)v;")
            for m in s.members:
                if m.is_list:
                    w(f'o(" %lld", (long long)v->{m.name}_len);')
                    with w.block(f"for (size_t i = 0; i < (size_t)v->{m.name}_len; i++) {{"):
                        dump(m.type, f"v->{m.name}[i]", f"v->{m.name}_els_len[i]")
                else:
                    dump(m.type, f"v->{m.name}", f"v->{m.name}_len")
    def drop(t, lv):
        k = P.kind(t)
        if k == "string":
            w(f"bv_free({lv});")
        elif k not in ("num", "enum"):
            w(f"k_{t}(&({lv}));")
    for s in P.structs + P.messages:
        w(f"static void k_{s.name}({pf}{s.name}* v);")
    for s in P.structs + P.messages:
        with w.block(f"static void k_{s.name}({pf}{s.name}* v) {{"):      # release what b_ allocated
            w("(void)v;")
            for m in s.members:
                if m.is_list:
                    with w.block(f"for (size_t i = 0; i < (size_t)v->{m.name}_len; i++) {{"):
                        drop(m.type, f"v->{m.name}[i]")
                    w(f"bv_free(v->{m.name});" + (f" bv_free(v->{m.name}_els_len);" if m.type == "string" else ""))
                else:
                    drop(m.type, f"v->{m.name}")
    msgs = P.messages
    with w.block("static void change(int mid, void* m) {"):
        with w.block("switch (mid) {"):
            for i, s in enumerate(msgs):
                w(f"case {i}: k_{s.name}(({pf}{s.name}*)m); b_{s.name}(({pf}{s.name}*)m); break;")
    with w.block("static void* b_msg(int mid) {"):
        w("bv_suspend(); void* r = NULL;")
        with w.block("switch (mid) {"):
            for i, s in enumerate(msgs):
                w(f"case {i}: {{ {pf}{s.name}* m = ({pf}{s.name}*)bv_malloc(sizeof({pf}{s.name})); memcpy(m, &{pf}{s.name}_default, sizeof(*m)); bv_resume(); b_{s.name}(m); bv_suspend(); r = m; break; }}")
        w("bv_resume(); return r;")
    with w.block("static void d_msg(int mid, const void* m) {"):
        with w.block("switch (mid) {"):
            for i, s in enumerate(msgs):
                w(f"case {i}: d_{s.name}((const {pf}{s.name}*)m); break;")
    with w.block("static void destroy(int mid, void* m, int generic) {"):
        w(f"if (generic == 1) {{ {pf}Destroy(m); return; }}")
        with w.block("switch (mid) {"):
            for i, s in enumerate(msgs):
                w(f"case {i}: if (generic == 2) {{ {pf}{s.name}_Cleanup(({pf}{s.name}*)m); memset(m, 0x5a, sizeof({pf}{s.name})); bv_free(m); }} else {pf}{s.name}_Destroy(({pf}{s.name}*)m); break;")
    with w.block("static int wr(int mid, int tag, void* m, void* da, size_t* sz) {"):
        w(f"{pf}DataAccess* d = ({pf}DataAccess*)da; int e;")
        w(f"if (tag & 2) {{ e = {pf}GetSizeInBytes(m, sz); if (e) return e; return {pf}WriteBytes(d, m, tag & 1); }}")
        with w.block("switch (mid) {"):
            for i, s in enumerate(msgs):
                w(f"case {i}: e = {pf}{s.name}_GetSizeInBytes(({pf}{s.name}*)m, sz); if (e) return e; return {pf}{s.name}_WriteBytes(d, ({pf}{s.name}*)m, tag & 1);")
        w("return 99;")
    with w.block("static int rd(int mid, void** m, void* da) {"):
        w(f"{pf}DataAccess* d = ({pf}DataAccess*)da;")
        with w.block("switch (mid) {"):
            for i, s in enumerate(msgs):
                w(f"case {i}: bv_suspend(); *m = bv_malloc(sizeof({pf}{s.name})); bv_resume(); return {pf}{s.name}_FromBytes(d, ({pf}{s.name}*)*m);")
        w("return 99;")
    with w.block("static uint8_t* enc(int mid, void* m, size_t* n) {"):
        w(f"size_t sz = 0; {pf}DataAccess d = {{ NULL, 0, 0 }}; *n = 0; if ({pf}GetSizeInBytes(m, &sz)) return NULL; d.buffer = (uint8_t*)malloc(sz + 1); d.bufferSize = sz;")
        w("size_t s2 = 0; if (wr(mid, 0, m, &d, &s2) || d.position != sz || s2 != sz) { free(d.buffer); return NULL; } *n = sz; return d.buffer;")
    with w.block("static void* again_read(int mid, const uint8_t* want, size_t n) {"):
        w(f"uint8_t* c = (uint8_t*)malloc(n); if (n) memcpy(c, want, n); {pf}DataAccess d = {{ c, n, 0 }}; void* x = NULL; int e = rd(mid, &x, &d); free(c); if (e) {{ destroy(mid, x, 1); return NULL; }} return x;")
    with w.block("static int same(int mid, void* m, const uint8_t* want, size_t n) {"):
        w("size_t k; uint8_t* b = enc(mid, m, &k); int ok = b && k == n && (!n || memcmp(b, want, n) == 0); free(b); return ok;")
    with w.block("static int again(int mid, void* m, const uint8_t* want, size_t n) {"):
        w("int bad = 0; void* x = again_read(mid, want, n); if (!x || !same(mid, x, want, n)) bad++; if (x) destroy(mid, x, 1); if (!same(mid, m, want, n)) bad++; return bad;")
    w("struct job { int mid; void* m; const uint8_t* want; size_t n; int bad; };")
    w("static struct job hooked;")
    w("static void hook(void) { hooked.bad += again(hooked.mid, hooked.m, hooked.want, hooked.n); }")
    w("static void* work(void* p) { struct job* j = (struct job*)p; for (int i = 0; i < 6; i++) j->bad += again(j->mid, j->m, j->want, j->n); return NULL; }")
    w("static void* create(int mid) { switch (mid) { " + " ".join(f"case {i}: return {pf}{s.name}_Create();" for i, s in enumerate(msgs)) + " } return NULL; }")
    with w.block("static void o_def(int mid) {"):
        w('size_t n; void* m = create(mid); uint8_t* b = m ? enc(mid, m, &n) : NULL; if (b) o_hex(b, n); else o("none"); free(b); if (m) destroy(mid, m, 1);')
    with w.block("static void indep(void) {"):
        w("int mid[2]; void* m[2]; uint8_t* e[2]; size_t n[2]; int bad = 0; void* l[4];")
        w('for (int i = 0; i < 2; i++) { mid[i] = (int)t_i(); m[i] = b_msg(mid[i]); e[i] = enc(mid[i], m[i], &n[i]); }')
        w('if (!e[0] || !e[1]) { o("ERR write"); for (int i = 0; i < 2; i++) { free(e[i]); destroy(mid[i], m[i], 1); } return; }')
        w(f"{pf}DataAccess d[2]; for (int i = 0; i < 2; i++) {{ d[i].buffer = (uint8_t*)malloc(2 * n[i]); d[i].bufferSize = 2 * n[i]; d[i].position = 0; if (n[i]) {{ memcpy(d[i].buffer, e[i], n[i]); memcpy(d[i].buffer + n[i], e[i], n[i]); }} }}")
        w("for (int i = 0; i < 4; i++) if (rd(mid[i % 2], &l[i], &d[i % 2])) bad += 1000;")
        w("free(d[0].buffer); free(d[1].buffer); for (int i = 0; i < 2; i++) { void* x = create(mid[i]); if (x) destroy(mid[i], x, 0); destroy(mid[i], l[i], 0); }")
        w("hooked.mid = mid[1]; hooked.m = m[1]; hooked.want = e[1]; hooked.n = n[1]; hooked.bad = 0; bv_hooked = 0; bv_hook = hook;")
        w("void* x = again_read(mid[0], e[0], n[0]); bv_hook = NULL; if (!x || !same(mid[0], x, e[0], n[0])) bad++; if (x) destroy(mid[0], x, 1); bad += hooked.bad;")
        w("struct job j[4]; pthread_t t[4]; for (int i = 0; i < 4; i++) { j[i].mid = mid[i % 2]; j[i].m = m[i % 2]; j[i].want = e[i % 2]; j[i].n = n[i % 2]; j[i].bad = 0; if (pthread_create(&t[i], NULL, work, &j[i])) abort(); }")
        w("for (int i = 0; i < 4; i++) { pthread_join(t[i], NULL); bad += j[i].bad; }")
        w('o("OK "); for (int i = 0; i < 2; i++) { size_t k; uint8_t* b = enc(mid[i], m[i], &k); if (i) o(" "); o_hex(e[i], n[i]); o(" "); if (b) o_hex(b, k); else o("none"); o(" "); free(b); o_def(mid[i]); }')
        w("d_msg(mid[0], m[0]); d_msg(mid[1], m[1]); if (bad < 1000) { d_msg(mid[0], l[2]); d_msg(mid[1], l[3]); }")
        w('o(" %d", bad); for (int i = 0; i < 2; i++) { free(e[i]); destroy(mid[i], m[i], 0); destroy(mid[i], l[2 + i], 1); }')
    with w.block("static void types(void) {"):
        w('o("OK"); int n = 0;')
        for s in P.structs + P.messages:
            S = f"{pf}{s.name}"
            last = None
            if s in P.messages:
                w(f'n++; if (offsetof({S}, _mt) != 0) o(" {s.name}._mt:place");')
                last = "_mt"
            for m in s.members:
                t = ctype(m.type) + ("*" if m.is_list else "")
                w(f'n++; if (!__builtin_types_compatible_p(__typeof__((({S}*)0)->{m.name}), {t})) o(" {s.name}.{m.name}:type");')
                if m.is_list or m.type == "string":
                    w(f'n++; if (offsetof({S}, {m.name}_len) >= offsetof({S}, {m.name})' + (f" || offsetof({S}, {m.name}_len) <= offsetof({S}, {last})" if last else "") + f') o(" {s.name}.{m.name}_len:order");')
                if last:
                    w(f'n++; if (offsetof({S}, {m.name}) <= offsetof({S}, {last})) o(" {s.name}.{m.name}:order");')
                last = m.name
        w('o(" %d", n);')
    with w.block(f"void {pid}_cmd(char c) {{"):
        with w.block("if (c == 'W') {"):
            w("size_t off = t_u(), cap = t_u(), n = t_u(); uint8_t* buf = (uint8_t*)malloc(cap); memset(buf, 0xAA, cap);")
            w(f"{pf}DataAccess d = {{ buf, cap, off }}; size_t sz[64]; int mt[64];")
            with w.block("for (size_t i = 0; i < n; i++) {"):
                w("int mid = (int)t_i(), tag = (int)t_i(); void* m = b_msg(mid); sz[i] = (size_t)-1;")
                w(f"int e = wr(mid, tag, m, &d, &sz[i]); mt[i] = (int){pf}GetMessageType(m); destroy(mid, m, tag & 2);")
                w('if (e) { o("ERR %d at %d size %lld pos %lld", e, (int)i, (long long)sz[i], (long long)d.position); free(buf); return; }')
            w('o("OK %lld ", (long long)d.position); o_hex(buf, cap); for (size_t i = 0; i < n; i++) o(" %lld %d", (long long)sz[i], mt[i]); free(buf);')
        with w.block("else if (c == 'R') {"):
            w("size_t off = t_u(), n = t_u(); int mids[64]; void* ms[64]; for (size_t i = 0; i < n; i++) mids[i] = (int)t_i();")
            w(f"size_t len; uint8_t* buf = t_hex(&len); {pf}DataAccess d = {{ buf, len, off }};")
            with w.block("for (size_t i = 0; i < n; i++) {"):
                w("int e = rd(mids[i], &ms[i], &d);")
                w('if (e) { free(buf); o("ERR %d", e); for (size_t j = 0; j <= i; j++) destroy(mids[j], ms[j], (int)((j + len) % 3)); return; }')
            w('free(buf); o("OK %lld", (long long)d.position);')
            w("for (size_t i = 0; i < n; i++) { d_msg(mids[i], ms[i]); }")
            w("for (size_t i = 0; i < n; i++) { destroy(mids[i], ms[i], (int)((i + len) % 3)); }")
        with w.block("else if (c == 'D') {"):
            w("int mid = (int)t_i();")
            with w.block("switch (mid) {"):
                for i, s in enumerate(msgs):
                    w(f"case {i}: {{ size_t sz = 0; {pf}{s.name} m = {pf}{s.name}_default; {pf}{s.name}_GetSizeInBytes(&m, &sz);")
                    w(f"  uint8_t* buf = (uint8_t*)malloc(sz); {pf}DataAccess d = {{ buf, sz, 0 }}; int e = {pf}{s.name}_WriteBytes(&d, &m, false);")
                    w(f'  if (e) {{ o("ERR %d", e); free(buf); return; }} o("OK %d ", (int){pf}GetMessageType(&m)); o_hex(buf, sz); free(buf); d_{s.name}(&m);')
                    w(f"  {pf}{s.name}* q = {pf}{s.name}_Create(); if (!q) {{ o_reset(); o(\"ERR create\"); return; }}")
                    w(f'  o(" | %d ", (int){pf}GetMessageType(q)); sz = 0; {pf}{s.name}_GetSizeInBytes(q, &sz); buf = (uint8_t*)malloc(sz); d.buffer = buf; d.bufferSize = sz; d.position = 0; e = {pf}{s.name}_WriteBytes(&d, q, false);')
                    w(f'  if (e) {{ o_reset(); o("ERR %d", e); free(buf); {pf}{s.name}_Destroy(q); return; }} o_hex(buf, sz); free(buf); d_{s.name}(q); {pf}{s.name}_Destroy(q); break; }}')
        for cmd in "PU":
            with w.block(f"else if (c == '{cmd}') {{"):
                w("size_t off = t_u();" + (" int32_t max = (int32_t)t_i();" if cmd == "P" else ""))
                w(f"size_t len; uint8_t* buf = t_hex(&len); {pf}DataAccess d = {{ buf, len, off }}; void** list = NULL; size_t n = 0;")
                w(f"int e = {pf}{'ProcessRawBytes(&d, max, &list, &n)' if cmd == 'P' else 'UnpackMessages(&d, &list, &n)'}; free(buf);")
                w(f'if (e) {{ o("ERR %d %lld", e, (long long)n); if (list) {pf}DestroyMessageList(list, n); return; }}')
                w('o("OK %lld %lld", (long long)d.position, (long long)n);')
                w(f'for (size_t i = 0; i < n; i++) {{ int mid = (int){pf}GetMessageType(list[i]) - 1; o(" %d", mid); d_msg(mid, list[i]); }}')
                w(f"{pf}DestroyMessageList(list, n);")
        with w.block("else if (c == 'K') {"):
            w("size_t off = t_u(), cap = t_u(), n = t_u(); uint8_t* buf = (uint8_t*)malloc(cap); memset(buf, 0xAA, cap);")
            w("bv_suspend(); void** list = (void**)bv_malloc(sizeof(void*) * (n + 1)); bv_resume(); for (size_t i = 0; i < n; i++) { int mid = (int)t_i(); list[i] = b_msg(mid); }")
            w(f"size_t ps = 0; int e0 = {pf}GetPackedSize(list, n, &ps); {pf}DataAccess d = {{ buf, cap, off }};")
            w(f"int e = {pf}PackMessages(list, n, &d); if (e0) e = 100 + e0; {pf}DestroyMessageList(list, n);")
            w('if (e) { o("ERR %d", e); } else { o("OK %lld ", (long long)d.position); o_hex(buf, cap); o(" %lld", (long long)ps); } free(buf);')
        with w.block("else if (c == 'E') {"):
            w('o("OK");')
            for e in P.enums:
                for n, _ in e.values:
                    w(f'o(" %lld", (long long){pf}{e.name}_{n});')
        with w.block("else if (c == 'M') {"):
            w(f'int mid = (int)t_i(), e = 0; size_t cap = t_u(), n = t_u(); uint8_t* buf = (uint8_t*)malloc(cap); {pf}DataAccess d = {{ buf, cap, 0 }}, r = {{ buf, cap, 0 }}; void *m = NULL, *x; o("OK");')
            with w.block("for (size_t i = 0; i < n && !e; i++) {"):
                w("if (m) change(mid, m); else m = b_msg(mid);")
                w(f"size_t sz = 0, ps = 0; d.position = 0; e = wr(mid, i & 1 ? 2 : 0, m, &d, &sz); if (!e) e = {pf}GetPackedSize((void*)&m, 1, &ps); if (e) break;")
                w('o(" %lld %lld ", (long long)sz, (long long)ps); o_hex(buf, d.position);')
                w("r.position = 0; e = rd(mid, &x, &r); if (!e) d_msg(mid, x); destroy(mid, x, (int)(i % 3));")
            w('if (e) { o_reset(); o("ERR %d", e); } else d_msg(mid, m); destroy(mid, m, 1); free(buf);')
        w("else if (c == 'I') indep(); else if (c == 'T') types();")
        w('else o("ERR cmd");')
    return w.text()
