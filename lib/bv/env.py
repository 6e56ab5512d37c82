"""Environment of every tool the checks start (the settings of /opt/vp/env.sh, offline)."""
import os, sys, tempfile, shutil, atexit, glob
REPO = os.environ.get("BV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = dict(os.environ)
for k in ("CFLAGS", "CPPFLAGS", "RUSTFLAGS", "GOFLAGS", "DOTNET_VERSION", "PYTHONPATH"):
    ENV.pop(k, None)
ENV.update({
    "HOME": "/root", "LANG": "C.UTF-8",
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "CARGO_NET_OFFLINE": "true", "GOFLAGS": "-mod=mod",
    "GOTELEMETRY": "off",
    "DOTNET_CLI_TELEMETRY_OPTOUT": "1", "DOTNET_NOLOGO": "1", "DOTNET_SKIP_FIRST_TIME_EXPERIENCE": "1",
    "DOTNET_CLI_HOME": "/root", "DOTNET_TieredPGO": "0",
})
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
_scratch = None


def scratch():
    """A scratch directory removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="bv-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch
