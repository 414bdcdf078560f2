"""Builds the MIR dumper and dumps the MIR of /repo's current working tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

# what each configuration compiles: (package, cargo arguments)
CONFIGS = {
    "core": ("stream-download", ["--no-default-features", "--features", "temp-storage,async-read"]),
    "http": ("stream-download", ["--no-default-features", "--features", "temp-storage,async-read,reqwest,reqwest-middleware"]),
    "process": ("stream-download", ["--no-default-features", "--features", "temp-storage,async-read,process"]),
    "registry": ("stream-download", ["--no-default-features", "--features", "temp-storage,async-read,registry"]),
    "opendal": ("stream-download-opendal", []),
    "all": ("stream-download", ["--all-features"]),
}


class BuildError(Exception):
    pass


def nightly_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    p = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("no nightly toolchain: " + p.stderr[-300:])
    env["LD_LIBRARY_PATH"] = p.stdout.strip() + "/lib:" + env.get("LD_LIBRARY_PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def driver(env):
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        p = subprocess.run(["rustc", "--edition", "2024", "-C", "debuginfo=0", "-o", tmp, src], env=env, capture_output=True, text=True)
        if p.returncode:
            raise BuildError("the analysis driver does not build: " + p.stderr[-2000:])
        os.rename(tmp, out)
    return out


def lockfile():
    """Cargo.lock is ignored by git in the repository; without one, offline resolution needs ours"""
    dst = os.path.join(REPO, "Cargo.lock")
    src = os.path.join(VERIF, "data", "Cargo.lock")
    if not os.path.exists(dst) and os.path.exists(src):
        shutil.copyfile(src, dst)
        return dst
    return None


def dump(config):
    """compiles the configuration with the dumping compiler; returns the path of the dump of its package"""
    env = nightly_env()
    drv = driver(env)
    pkg, args = CONFIGS[config]
    target = os.path.join(BUILD, "target-" + config)
    out = tempfile.mkdtemp(prefix="mir-", dir=BUILD)
    for fp in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("stream-download"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env.update(RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=out, CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    made = lockfile()
    try:
        p = subprocess.run(["cargo", "check", "-q", "--offline", "-p", pkg] + args, cwd=REPO, env=env, capture_output=True, text=True)
    finally:
        if made:
            os.unlink(made)
    f = os.path.join(out, pkg.replace("-", "_") + ".json")
    if p.returncode or not os.path.exists(f):
        shutil.rmtree(out, ignore_errors=True)
        err = [l for l in p.stderr.splitlines() if l.startswith("error") or "panicked" in l]
        raise BuildError(f"{pkg} ({config}) does not compile: " + " | ".join(err[:5] or p.stderr.splitlines()[-3:]))
    return f


def cleanup(f):
    shutil.rmtree(os.path.dirname(f), ignore_errors=True)
