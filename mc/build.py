"""Build the code under test from /repo's current working tree.

The sources of /repo/qdipole and /repo/eoxmagmod (never the build products) are
copied to a scratch directory, compiled there, and imported from there, so
/repo itself is not touched.  Builds are keyed by a hash over the copied
sources and kept in /verif/.build (ignored by git); a missing or different
hash always leads to a fresh build.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
PYTHON = "/opt/venv/bin/python"

SKIP_DIRS = {".git", "build", "__pycache__", ".pytest_cache", "tests"}
SKIP_SUFFIX = (".o", ".so", ".mod", ".pyc", ".a", ".log", ".status")
SKIP_NAMES = {
    "Makefile", "qdipole_conf.h", "mlt_test", "qdlatlon_test", "subsol_test",
    "qdipole_info", "config.status", "config.log",
}


def _sources(root):
    out = []
    for base in ("qdipole", "eoxmagmod"):
        for path, dirs, files in os.walk(os.path.join(root, base)):
            dirs[:] = sorted(
                d for d in dirs
                if d not in SKIP_DIRS and not d.endswith(".egg-info")
            )
            for name in sorted(files):
                if name.endswith(SKIP_SUFFIX):
                    continue
                rel = os.path.relpath(os.path.join(path, name), root)
                if name in SKIP_NAMES and rel.startswith("qdipole"):
                    continue
                out.append(rel)
    return sorted(out)


def source_hash(root, files, variant):
    digest = hashlib.sha256()
    digest.update(variant.encode())
    with open(os.path.abspath(__file__), "rb") as fin:
        digest.update(fin.read())
    for rel in files:
        digest.update(rel.encode() + b"\0")
        with open(os.path.join(root, rel), "rb") as fin:
            digest.update(hashlib.sha256(fin.read()).digest())
    return digest.hexdigest()[:24]


def base_env(tree):
    os.makedirs(os.path.join(CACHE, "spacepy"), exist_ok=True)
    env = dict(os.environ)
    env.update({
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "SPACEPY": os.path.join(CACHE, "spacepy"), "MPLBACKEND": "Agg",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "PATH": "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin"),
    })
    if tree:
        env["LD_LIBRARY_PATH"] = os.path.join(tree, "qdipole")
    return env


ASAN_FLAGS = "-fsanitize=address,bounds -fno-sanitize-recover=bounds -fno-omit-frame-pointer -g -O1"

NATIVE = os.path.join(VERIF, "mc", "native")


def helper(name):
    """ Build a helper library of the checkers themselves. """
    source = os.path.join(NATIVE, name + ".c")
    with open(source, "rb") as fin:
        key = hashlib.sha256(fin.read()).hexdigest()[:16]
    target = os.path.join(CACHE, f"lib{name}-{key}.so")
    if not os.path.exists(target):
        os.makedirs(CACHE, exist_ok=True)
        include = subprocess.check_output([
            PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], text=True).strip()
        work = f"{target}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-I" + include, "-o", work, source, "-ldl"], check=True)
        os.rename(work, target)
    return target


BUILD_EXT = r'''
import sys, setuptools
from distutils.core import run_setup
dist = run_setup("setup.py", ["build_ext", "--inplace", "--force", "-j", "4"],
                 stop_after="commandline")
dist.run_commands()
'''


def _run(cmd, cwd, env, log):
    proc = subprocess.run(
        cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, check=False,
    )
    log.append("$ %s\n%s" % (" ".join(cmd)[:200], proc.stdout.decode("utf8", "replace")))
    if proc.returncode:
        raise RuntimeError("build failed:\n" + "\n".join(log)[-6000:])


def build(variant="normal"):
    """Return the root directory of a built copy of the current tree."""
    files = _sources(REPO)
    key = source_hash(REPO, files, variant)
    os.makedirs(CACHE, exist_ok=True)
    target = os.path.join(CACHE, f"{variant}-{key}")
    lock_path = os.path.join(CACHE, f"lock-{variant}")
    with open(lock_path, "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(target, ".done")):
            os.utime(target)
            return target
        work = tempfile.mkdtemp(prefix="work-", dir=CACHE)
        try:
            for rel in files:
                dst = os.path.join(work, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy2(os.path.join(REPO, rel), dst)
            env = base_env(work)
            env.update({
                "CPATH": work, "LIBRARY_PATH": os.path.join(work, "qdipole"),
            })
            log = []
            qdir = os.path.join(work, "qdipole")
            _run(["bash", "./configure"], qdir, env, log)
            make = ["make", "-k", "build"]
            if variant == "asan":
                make += ["CFLAGS=-g -O1 -fPIC -fsanitize=address -fno-omit-frame-pointer",
                         f"LDFLAGS=-Wl,-rpath,{qdir} -fsanitize=address"]
            elif variant == "sched":
                make += ["CFLAGS=-g -O1 -fPIC -finstrument-functions"]
            _run(make, qdir, env, log)
            if variant == "asan":
                env["CFLAGS"] = ASAN_FLAGS
                env["LDFLAGS"] = "-fsanitize=address,bounds"
                env["CC"] = "gcc"
            elif variant == "sched":
                env["CFLAGS"] = "-g -O1 -finstrument-functions"
                env["LDFLAGS"] = "-Wl,--wrap=PyEval_SaveThread -Wl,--wrap=PyEval_RestoreThread"
            _run([PYTHON, "-c", BUILD_EXT], os.path.join(work, "eoxmagmod"), env, log)
            if os.path.exists(target):
                shutil.rmtree(target)
            with open(os.path.join(work, ".done"), "w") as fout:
                fout.write("ok\n")
            os.rename(work, target)
        finally:
            if os.path.exists(work):
                shutil.rmtree(work, ignore_errors=True)
        _prune(variant, keep=target)
        return target


def _prune(variant, keep, count=6):
    entries = []
    for name in os.listdir(CACHE):
        path = os.path.join(CACHE, name)
        if name.startswith(variant + "-") and path != keep:
            entries.append((os.path.getmtime(path), path))
    for _, path in sorted(entries, reverse=True)[count:]:
        shutil.rmtree(path, ignore_errors=True)


def python_env(tree, variant="normal"):
    """Environment of a Python process that imports the built copy."""
    env = base_env(tree)
    env["PYTHONPATH"] = os.path.join(tree, "eoxmagmod") + ":" + VERIF
    env["VERIF_TREE"] = tree
    if variant == "asan":
        libs = [
            subprocess.check_output(["gcc", "-print-file-name=" + lib], text=True).strip()
            for lib in ("libasan.so", "libubsan.so")
        ]
        env["VERIF_FAILALLOC"] = helper("failalloc")
        env["LD_PRELOAD"] = ":".join([env["VERIF_FAILALLOC"]] + libs)
        env["ASAN_OPTIONS"] = (
            "verify_asan_link_order=0:detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=500:"
            "detect_stack_use_after_return=0:handle_segv=1"
        )
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=0"
        env["PYTHONMALLOC"] = "malloc"
    elif variant == "sched":
        env["LD_PRELOAD"] = env["VERIF_SCHED"] = helper("sched")
    return env


if __name__ == "__main__":
    for var in sys.argv[1:] or ["normal"]:
        print(build(var))
