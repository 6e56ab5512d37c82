"""Generate and build a batch of protocols in several languages, in parallel."""
import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import env, gen
from .lang import BY_NAME
from .lang.base import BuildError

WIRE = ["c", "csharp", "go", "rust", "typescript", "zig"]
if os.environ.get("BV_LANGS"):          # for experiments only
    WIRE = os.environ["BV_LANGS"].split(",")


class HarnessError(Exception):
    """The machinery could not judge (not a violation)."""


def generate(p, cli_name, extra=(), d=None, toml=None):
    """-> (rc, code, stderr) of the CLI on the protocol"""
    own = d is None
    if own:
        d = tempfile.mkdtemp(dir=env.scratch())
    fn = os.path.join(d, "p%d.toml" % (id(p) % 10**9))
    with open(fn, "w", encoding="utf-8") as f:
        f.write(toml if toml is not None else p.to_toml())
    rc, out, err = gen.cli(["-l", cli_name, "-p", fn] + list(extra))
    if own:
        shutil.rmtree(d, True)
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


class Batch:
    """protos: {pid: Proto}.  After build(): .lang[name] usable harnesses, .broken[(lang, pid)] = why."""

    def __init__(self, protos, langs=WIRE, extra=None, tomls=None):
        self.protos = protos
        self.langs = list(langs)
        self.extra = extra or {}       # (lang, pid) or pid or lang -> extra cli args
        self.tomls = tomls or {}
        self.dir = tempfile.mkdtemp(dir=env.scratch())
        self.broken = {}
        self.lang = {}
        self.code = {}

    def _extra(self, l, pid):
        for k in ((l, pid), pid, l):
            if k in self.extra:
                return self.extra[k]
        return ()

    def generate(self):
        jobs = [(l, pid) for l in self.langs for pid in self.protos if l not in getattr(self.protos[pid], "skip", ())]
        cache = {}

        def one(j):
            l, pid = j
            d = os.path.join(self.dir, "gen", l, pid)
            os.makedirs(d, exist_ok=True)
            return j, generate(self.protos[pid], BY_NAME[l].cli_name, self._extra(l, pid), d, self.tomls.get(pid))
        with ThreadPoolExecutor(8) as ex:
            for (l, pid), (rc, code, err) in ex.map(one, jobs):
                if rc is None:
                    raise HarnessError(f"generator did not finish for {l} {pid}")
                if rc != 0:
                    self.broken[(l, pid)] = "generator failed (status %s): %s" % (rc, err.strip()[-600:])
                else:
                    self.code[(l, pid)] = code
        return self

    def build(self, configure=None):
        if not self.code and not self.broken:
            self.generate()

        def one(l):
            h = BY_NAME[l](os.path.join(self.dir, "build"))
            if configure:
                configure(l, h)
            items = {pid: (p, self.code[(l, pid)]) for pid, p in self.protos.items() if (l, pid) in self.code}
            if items:
                h.build(items)
            return l, h
        try:
            with ThreadPoolExecutor(len(self.langs)) as ex:
                for l, h in ex.map(one, self.langs):
                    self.lang[l] = h
                    for pid, diag in h.bad.items():
                        self.broken[(l, pid)] = "generated code does not compile: " + diag
        except BuildError as e:
            raise HarnessError(str(e))
        return self

    def usable(self, l, pid):
        return (l, pid) not in self.broken and l in self.lang and self.lang[l].exe is not None and pid in self.lang[l].protos and (l, pid) in self.code

    def close(self):
        shutil.rmtree(self.dir, True)
