"""Run the code under test (the Beschi command line) on a protocol."""
import os, sys, io, subprocess, contextlib, threading
from . import env

LANGS = ["c", "csharp", "go", "rust", "swift", "typescript", "assemblyscript", "zig"]


class GenError(Exception):
    pass


def cli(args, cwd=None, timeout=60, stdin=None):
    """-> (rc, stdout, stderr) of `python -m beschi args`, in a fresh interpreter; rc None: no end within timeout."""
    e = dict(env.ENV)
    e["PYTHONPATH"] = env.REPO
    try:
        r = subprocess.run([PY, "-m", "beschi"] + args, cwd=cwd or env.scratch(), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        return None, b"", b""
    return r.returncode, r.stdout, r.stderr


PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
