"""Many runs of the Beschi command line, each in a fresh process forked from one that has already imported it."""
from __future__ import annotations
import json, os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from . import env, gen

WORKER = r'''
import sys, os, json, resource, signal, traceback
sys.path.insert(0, sys.argv[1])
d = sys.argv[2]
import beschi.cli
def child(req):
    for n, fd in (("out", 1), ("err", 2)):
        f = os.open(os.path.join(d, n), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(f, fd)
    z = os.open("/dev/null", os.O_RDONLY)
    os.dup2(z, 0)
    sys.stdin = open(0, closefd=False)
    sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
    sys.stderr = open(2, "w", encoding="utf-8", closefd=False, errors="backslashreplace")
    resource.setrlimit(resource.RLIMIT_CPU, (req["cpu"], req["cpu"] + 5))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if req.get("cwd"):
        os.chdir(req["cwd"])
    sys.argv = ["beschi"] + req["args"]
    rc = 0
    try:
        beschi.cli.main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if e.code is not None and not isinstance(e.code, int):
            sys.stderr.write(str(e.code) + "\n")
    except BaseException:
        traceback.print_exc()
        rc = 1
    try:
        sys.stdout.flush()
    except BaseException:
        traceback.print_exc()
        rc = 120
    sys.stderr.flush()
    os._exit(rc & 255)
real = sys.stdout
for line in sys.stdin:
    req = json.loads(line)
    pid = os.fork()
    if pid == 0:
        try:
            child(req)
        finally:
            os._exit(99)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        rc = None if sig in (signal.SIGXCPU, signal.SIGKILL) else -sig
    else:
        rc = os.WEXITSTATUS(st)
    out = open(os.path.join(d, "out"), "rb").read().decode("utf-8", "replace")
    err = open(os.path.join(d, "err"), "rb").read().decode("utf-8", "replace")
    real.write(json.dumps([rc, out, err]) + "\n")
    real.flush()
'''


class Worker:
    def __init__(self, i):
        self.d = os.path.join(env.scratch(), "w%d" % i)
        os.makedirs(self.d, exist_ok=True)
        e = dict(env.ENV)
        self.p = subprocess.Popen([gen.PY, "-c", WORKER, env.REPO, self.d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8", env=e, cwd=self.d)

    def run(self, args, cpu=20, cwd=None):
        self.p.stdin.write(json.dumps({"args": args, "cpu": cpu, "cwd": cwd}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the command line worker died")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Pool:
    def __init__(self, n=8):
        self.w = [Worker(i) for i in range(n)]
        self.free = list(self.w)
        self.lock = threading.Semaphore(n)
        self.m = threading.Lock()

    def run(self, args, cpu=20, cwd=None):
        """-> rc (None: CPU limit reached), stdout, stderr"""
        with self.lock:
            with self.m:
                w = self.free.pop()
            try:
                return w.run(args, cpu, cwd)
            finally:
                with self.m:
                    self.free.append(w)

    def map(self, f, items):
        with ThreadPoolExecutor(len(self.w)) as ex:
            return list(ex.map(f, items))

    def close(self):
        for w in self.w:
            w.close()
