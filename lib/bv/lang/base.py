"""Common part of the per-language harnesses.

A harness is a program, generated from the protocol model (never from the generated code), that links
the generated code of several protocols and serves requests, one per line, on stdin:

  W pid off cap n {mid tag tokens}*n  write n messages with one writer at offset `off` of a buffer of `cap`
                                      bytes of 0xAA.  tag: bit0 = write the tag, bit1 = use the generic API.
                                      -> OK endpos hexbuffer {size type}*n
  R pid off n mid*n hex               read n untagged messages with one reader from `off` -> OK pos tokens...
  D pid mid                           default -> OK type hex tokens  (one group per way of getting one, "|" between)
  P pid off max hex                   ProcessRawBytes -> OK pos n {mid tokens}*
  K pid off cap n {mid tokens}*       PackMessages -> OK endpos hexbuffer packedsize
  U pid off hex                       UnpackMessages -> OK pos n {mid tokens}*
  E pid                               every enum constant's number, in declaration order -> OK ints
  I pid {mid tokens}*2               two messages used between and during each other's calls -> see ops.Independent
  M pid mid cap n tokens*n           one message given n values in turn -> see ops.Change
  T pid                              static types of the members -> see ops.Types
  R:mode:arg ... and W K P U alike    the same through a stream that hands over its bytes in another way (Go, C#)
  F k <any of the above>              the same while the k-th allocation of the generated code fails, C and Zig only

Replies: OK ... | ERR kind | PANIC text.  " # key=value ..." may follow.
A process that dies is reported as CRASH for the request it was serving.
"""
from __future__ import annotations
import os, subprocess, threading, time, re, shutil
from .. import env


class BuildError(Exception):
    """The build itself could not be judged (tool missing, timeout, killed)."""


MAX_RSS = 8 << 30
LATE = "out of time"


def resident(pid):
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * 4096
    except (OSError, IndexError, ValueError):
        return 0


class Lang:
    name = "?"
    cli_name = "?"
    ext = ""

    def __init__(self, workdir):
        self.dir = os.path.join(workdir, self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.protos = {}       # pid -> Proto
        self.code = {}         # pid -> generated code
        self.bad = {}          # pid -> compiler diagnostics
        self.skipped = {}      # pid -> why it could not be judged
        self.exe = None

    # -- to implement
    def write_sources(self):
        raise NotImplementedError

    def compile(self):
        """-> (ok, diagnostics)"""
        raise NotImplementedError

    def command(self):
        raise NotImplementedError

    # -- helpers
    def put(self, rel, text):
        path = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        return path

    def sh(self, cmd, timeout=400, cwd=None, extra_env=None):
        e = dict(env.ENV)
        if extra_env:
            e.update(extra_env)
        try:
            r = subprocess.run(cmd, cwd=cwd or self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise BuildError(f"{self.name}: compiler timed out: {cmd[:6]}")
        if r.returncode < 0:
            raise BuildError(f"{self.name}: compiler killed by signal {-r.returncode}")
        return r.returncode, r.stdout

    def pids_in(self, text):
        """protocol ids whose files are named in compiler output"""
        return [p for p in self.protos if re.search(r"\b(?:h_)?%s[./\\]" % p, text)]

    def build(self, items):
        """items: {pid: (proto, code)}.  Builds one program; protocols whose code does not compile end up in
        self.bad with the diagnostics, the rest is usable."""
        todo = dict(items)
        self.bad = {}
        for _ in range(len(items) + 1):
            if not todo:
                self.exe = None
                return
            self.protos = {k: v[0] for k, v in todo.items()}
            self.code = {k: v[1] for k, v in todo.items()}
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            self.write_sources()
            ok, out = self.compile()
            if ok:
                return
            bad = self.pids_in(out)
            if not bad:
                if len(todo) == 1:
                    bad = list(todo)
                else:
                    raise BuildError(f"{self.name}: unattributable build failure:\n{out[-3000:]}")
            for b in bad:
                self.bad[b] = self.trim(out, b)
                del todo[b]
        raise BuildError(f"{self.name}: build does not converge")

    def trim(self, out, pid):
        lines = [l for l in out.splitlines() if re.search(r"\b(?:h_)?%s[./\\]" % pid, l)]
        errs = [l for l in lines if "error" in l.lower()]
        return "\n".join((errs or lines or out.splitlines())[:12])

    # -- running
    def run(self, reqs, stall=60, max_crash=12, max_hang=2, deadline=None):
        """-> list of reply strings, same length as reqs (None where not attempted, or not before the deadline)."""
        replies = [None] * len(reqs)
        start = 0
        crashes = hangs = 0
        while start < len(reqs):
            n, note = self._run_once(reqs[start:], replies, start, stall, deadline)
            start += n
            if note == LATE:
                break
            if start < len(reqs):
                replies[start] = note
                start += 1
                crashes += 1
                hangs += note.startswith(("HANG", "CRASH used"))
                if crashes >= max_crash or hangs >= max_hang:
                    break
        return replies

    def _run_once(self, reqs, replies, base, stall, deadline=None):
        inp = os.path.join(self.dir, "req.%d.txt" % threading.get_ident())
        errp = inp + ".err"
        with open(inp, "w") as f:
            f.write("\n".join(reqs) + "\n")
        e = dict(env.ENV)
        e.update(self.run_env())
        with open(inp) as fin, open(errp, "wb") as ferr:
            p = subprocess.Popen(self.command(), stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=e, cwd=self.dir)
            got = 0
            last = [time.monotonic()]
            done = threading.Event()
            killed = [None]

            def watch():
                while not done.wait(1):
                    if time.monotonic() - last[0] > stall:
                        killed[0] = "HANG no reply within %d s" % stall
                    elif resident(p.pid) > MAX_RSS:
                        killed[0] = "CRASH used more than %d GB" % (MAX_RSS >> 30)
                    elif deadline and time.monotonic() > deadline:
                        killed[0] = LATE
                    if killed[0]:
                        p.kill()
                        return
            t = threading.Thread(target=watch, daemon=True)
            t.start()
            for line in p.stdout:
                if got >= len(reqs):
                    break
                replies[base + got] = line.decode("utf-8", "replace").rstrip("\n")
                got += 1
                last[0] = time.monotonic()
            p.stdout.close()
            rc = p.wait()
            done.set()
            t.join()
        err = open(errp, "rb").read()[-6000:].decode("utf-8", "replace")
        os.unlink(inp)
        os.unlink(errp)
        if got < len(reqs):
            if killed[0]:
                return got, killed[0]
            return got, "CRASH rc=%d %s" % (rc, self.crash_note(err))
        self.exit_note = (rc, err)
        return got, None

    def run_env(self):
        return {}

    def crash_note(self, err):
        return " / ".join(l.strip() for l in err.splitlines() if l.strip())[:1500]


def parse_reply(r):
    """-> (status, [tokens], {extras})"""
    if r is None:
        return "NONE", [], {}
    extra = {}
    if " # " in r:
        r, x = r.split(" # ", 1)
        for kv in x.split():
            if "=" in kv:
                k, v = kv.split("=", 1)
                extra[k] = v
    parts = r.split(" ")
    return parts[0], parts[1:], extra


class W:
    """indented text writer"""

    def __init__(self, tab="    "):
        self.l = []
        self.n = 0
        self.tab = tab

    def __call__(self, s=""):
        self.l.append(self.tab * self.n + s if s else "")
        return self

    def block(self, head, tail="}"):
        w = self

        class B:
            def __enter__(s):
                w(head)
                w.n += 1

            def __exit__(s, *a):
                w.n -= 1
                w(tail)
        return B()

    def text(self):
        return "\n".join(self.l) + "\n"
