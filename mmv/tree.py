"""Where the code under test lives.

The checks run the code of /repo's *current* working tree.  The Python sources are imported from /repo directly when
the compiled extension modules that lie beside them were built from exactly the Cython/C sources of the tree (decided by
content hash, the way /opt/vp/build_ext.py decides it).  Otherwise the tree is copied to a scratch directory and the
extensions are rebuilt there with the project's own build.py; nothing is ever written into /repo.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MMV_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
GENERATED = b"/* Generated by Cython"
ENV = dict(
    HOME="/root", LANG="C.UTF-8", PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
    MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
)


class BuildError(Exception):
    pass


def _digest(path):
    with open(path, "rb") as f:
        data = f.read()
    return None if data.startswith(GENERATED) else hashlib.sha256(data).hexdigest()


def _without_trailing_comments(path):
    """Digests of the file without some of the comment and blank lines at its end: those compile to the same code."""
    if not path.endswith((".pyx", ".pxd")):
        return []
    with open(path, "rb") as f:
        data = f.read()
    found = []
    while data and len(found) < 20:
        head, _, last = data.rstrip(b"\n").rpartition(b"\n")
        if last.strip() and not last.startswith(b"#"):
            break
        data = head
        found += [hashlib.sha256(data).hexdigest(), hashlib.sha256(data + b"\n").hexdigest()]
        if not head.strip():
            break
    return found


def hashes(root):
    found = {"build.py": _digest(os.path.join(root, "build.py"))}
    for dirpath, _, names in os.walk(os.path.join(root, "mmcore")):
        for name in names:
            p = os.path.join(dirpath, name)
            if name.endswith((".pyx", ".pxd", ".h", ".c", ".cpp", ".hpp", ".pxi")):
                h = _digest(p)
                if h:
                    found[os.path.relpath(p, root)] = h
    return found


def _extensions_present(root):
    return len(glob.glob(os.path.join(root, "mmcore/**/*.cpython-*.so"), recursive=True)) > 0


def prepare(log=sys.stderr):
    """-> (root, cleanup).  `root` is the directory to put first on sys.path."""
    now = hashes(REPO)
    try:
        with open(os.path.join(REPO, "build/.vp-state.json")) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    running = os.path.exists(os.path.join(REPO, "build/.vp-running"))
    if old is not None and not running and _extensions_present(REPO) and set(old) == set(now) and all(
            old[p] == now[p] or old[p] in _without_trailing_comments(os.path.join(REPO, p)) for p in now):
        return REPO, (lambda: None)
    key = hashlib.sha256(json.dumps(now, sort_keys=True).encode()).hexdigest()[:20]
    cache = os.environ.get("MMV_BUILD_CACHE")  # development only: avoids rebuilding one tree for every check
    scratch = tempfile.mkdtemp(prefix="mmv-tree-")
    root = os.path.join(scratch, "tree")
    cleanup = lambda: shutil.rmtree(scratch, ignore_errors=True)
    try:
        shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        if cache:
            os.makedirs(cache, exist_ok=True)
            with open(os.path.join(cache, key + ".lock"), "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                store = os.path.join(cache, key)
                if not os.path.exists(os.path.join(store, "ok")):
                    _build(root, now, old, running, log)
                    shutil.rmtree(store, ignore_errors=True)
                    for p in glob.glob(os.path.join(root, "mmcore/**/*.cpython-*.so"), recursive=True):
                        d = os.path.join(store, os.path.relpath(p, root))
                        os.makedirs(os.path.dirname(d), exist_ok=True)
                        shutil.copy2(p, d)
                    open(os.path.join(store, "ok"), "w").close()
                else:
                    for p in glob.glob(os.path.join(store, "mmcore/**/*.cpython-*.so"), recursive=True):
                        shutil.copy2(p, os.path.join(root, os.path.relpath(p, store)))
        else:
            _build(root, now, old, running, log)
        return root, cleanup
    except BaseException:
        cleanup()
        raise


def _build(root, now, old, running, log):
    changed = [p for p in set(now) | set(old or {}) if (old or {}).get(p) != now.get(p)]
    full = old is None or running or any(
        not p.endswith(".pyx") and not (p.endswith((".pxd", "/triangle.c")) and p in now and p in (old or {}))
        for p in changed)
    print(f"mmv: rebuilding extensions in {root} ({'full' if full else ', '.join(sorted(changed))})", file=log, flush=True)
    # sources older than everything generated from them, except the ones that changed
    for p in now:
        t = 946684800.0 if p not in changed else None
        fp = os.path.join(root, p)
        os.utime(fp, None if t is None else (t, t))
    if full:
        shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
        for dirpath, _, names in os.walk(os.path.join(root, "mmcore")):
            for n in names:
                p = os.path.join(dirpath, n)
                if n.endswith((".c", ".cpp")) and _digest(p) is None and os.path.exists(os.path.splitext(p)[0] + ".pyx"):
                    os.remove(p)
                elif n.endswith(".so") and ".cpython-" in n:
                    os.remove(p)
    else:
        # the hashes of the changed Cython sources decide, not the clock: drop what was generated from them
        for p in changed:
            if p.endswith(".pyx"):
                for ext in (".c", ".cpp"):
                    c = os.path.join(root, p[:-4] + ext)
                    if os.path.exists(c) and _digest(c) is None:
                        os.remove(c)
    code = (
        "import os, runpy, sys\n"
        "import setuptools\n"
        "from setuptools.command.build_ext import build_ext\n"
        "init = build_ext.initialize_options\n"
        "one = build_ext.build_extension\n"
        "def initialize_options(self):\n"
        "    init(self)\n"
        "    self.parallel = os.cpu_count()\n"
        "def build_extension(self, ext):\n"
        "    ext.extra_compile_args = ['-O1' if a == '-O3' else a for a in ext.extra_compile_args]\n"  # the same arithmetic, sooner
        "    one(self, ext)\n"
        "build_ext.initialize_options = initialize_options\n"
        "build_ext.build_extension = build_extension\n"
        "sys.argv = ['build.py']\n"
        "runpy.run_path('build.py', run_name='__main__')\n"
    )
    env = {**os.environ, **ENV}
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "-c", code], cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not _extensions_present(root):
        raise BuildError("the extensions do not build:\n" + r.stdout[-4000:])
