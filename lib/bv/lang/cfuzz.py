"""The C harness as a libFuzzer target: coverage and the operands of comparisons in the generated C guide the generation of inputs.

An input is one byte for the operation, one for the message (or max), and the bytes to read.  The target serves the same requests as the harness and stops at
what a sanitizer reports and at blocks left over.  It judges nothing by itself: what it finds, and the corpus it builds, become cases of the ordinary harnesses."""
import os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from .c import C, MAIN

TARGET = r'''
@TABLE@
static uint8_t* copy; static char* text;
int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static int who = -1;
  if (who < 0) { who = 0; const char* p = getenv("BV_PID"); while (strcmp(NAMES[who], p)) who++; }
  if (n < 2 || n > 1 << 16) return 0;
  if (!text) text = (char*)malloc(1 << 18);
  int op = d[0] % 4, k; char c = "RRPU"[op];
  if (op < 2) k = sprintf(text, "0 1 %d ", d[1] % COUNTS[who]);
  else if (op == 2) k = sprintf(text, "0 %d ", d[1] < 200 ? -1 : d[1] - 200);
  else k = sprintf(text, "0 ");
  static const char H[] = "0123456789abcdef";
  for (size_t i = 2; i < n; i++) { text[k++] = H[d[i] >> 4]; text[k++] = H[d[i] & 15]; }
  if (n == 2) text[k++] = '-';
  text[k] = 0; cur = text; o_reset(); live = 0; failAt = 0;
  CMDS[who](c);
  if (live != 0) abort();
  return 0;
}
'''


def to_input(op, arg, data):
    """op R: arg is the message's index; P: max; U"""
    return bytes([{"R": 0, "P": 2, "U": 3}[op], arg % 256 if op == "R" else 0 if op == "U" or arg < 0 or arg > 55 else 200 + arg]) + data


def from_input(raw, n_messages):
    """-> (op, arg, data), or None"""
    if len(raw) < 2:
        return None
    op = "RRPU"[raw[0] % 4]
    return op, raw[1] % n_messages if op == "R" else -1 if raw[1] < 200 else raw[1] - 200, raw[2:]


class CFuzz(C):
    name = "cfuzz"
    cc = "clang"
    flags = ["-std=c99", "-D_GNU_SOURCE", "-O1", "-g1", "-w", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

    def write_sources(self):
        C.write_sources(self)
        head = MAIN[:MAIN.index("int main(void)")].replace("if (fail_now())", "if (n > (4u << 20) || fail_now())")
        decls = "".join(f"void {p}_cmd(char c);\n" for p in self.protos)
        table = "static const char* NAMES[] = {" + ", ".join('"%s"' % p for p in self.protos) + "};\nstatic const int COUNTS[] = {" + \
            ", ".join(str(len(p.messages)) for p in self.protos.values()) + "};\nstatic void (*CMDS[])(char) = {" + ", ".join(p + "_cmd" for p in self.protos) + "};\n"
        self.put("main.c", head.replace("@DECLS@", decls) + TARGET.replace("@TABLE@", table))

    def compile(self):
        srcs = ["main.c"] + [f"h_{p}.c" for p in self.protos]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda s: self.sh([self.cc] + self.flags + ["-c", s, "-o", s + ".o"]), srcs))
        outs = [o for rc, o in res if rc != 0]
        if outs:
            return False, "\n".join(outs)
        rc, out = self.sh([self.cc, "-fsanitize=address,undefined,fuzzer"] + [s + ".o" for s in srcs] + ["-pthread", "-o", "target"])
        if rc:
            return False, out
        self.exe = os.path.join(self.dir, "target")
        return True, out

    def explore(self, seeds, runs, seconds, seed, max_len=1200):
        """seeds: {pid: [(op, arg, data)]} -> {pid: {"found": [(op, arg, data)], "crashes": [...], "runs": n}}; the corpus without the seeds"""
        e = dict(self.run_env(), BV_PID="")
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("symbolize=1", "symbolize=0") + ":quarantine_size_mb=8"

        def one(pid):
            d = os.path.join(self.dir, "corpus_" + pid)
            start = os.path.join(d, "start")
            new = os.path.join(d, "new")
            os.makedirs(start)
            os.makedirs(new)
            for i, s in enumerate(seeds[pid]):
                with open(os.path.join(start, "%05d" % i), "wb") as f:
                    f.write(to_input(*s))
            cmd = [self.exe, "-runs=%d" % runs, "-max_total_time=%d" % seconds, "-seed=%d" % (seed % 2**31 or 1), "-max_len=%d" % max_len, "-len_control=0", "-use_value_profile=1", "-reduce_inputs=0",
                   "-timeout=20", "-rss_limit_mb=3000", "-detect_leaks=0", "-print_final_stats=1", "-verbosity=1", "-artifact_prefix=" + d + "/", new, start]
            try:
                r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **dict(e, BV_PID=pid)), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds + 90)
                err = r.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                err = ""
            done = [int(l.split()[-1]) for l in err.splitlines() if "number_of_executed_units" in l]
            n = len(self.protos[pid].messages)

            def read(path):
                with open(path, "rb") as f:
                    return from_input(f.read(), n)
            found = [read(os.path.join(new, x)) for x in sorted(os.listdir(new))]
            crashes = [read(os.path.join(d, x)) for x in sorted(os.listdir(d)) if x.startswith(("crash-", "leak-"))]
            shutil.rmtree(d, True)
            return pid, {"found": [x for x in found if x], "crashes": [x for x in crashes if x], "runs": done[0] if done else 0, "slow": "timeout-" in err or "oom-" in err, "err": err[-400:]}
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, [p for p in seeds if p in self.protos]))
