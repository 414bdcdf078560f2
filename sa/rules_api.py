"""P39 (every combination of features type-checks and only adds to the public interface) and P40 (thread-safety witnesses): decided by the type checker."""
import concurrent.futures
import itertools
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import build
from .rules_misc import Facts

PKG = "stream-download"
HTTP = [(), ("http",), ("reqwest",), ("reqwest-middleware",)]
TEMP = [(), ("temp-storage",)]
READ = [(), ("async-read",), ("process",)]
REG = [(), ("registry",)]


def tool(name):
    """builds a driver from its source"""
    env = build.nightly_env()
    src = os.path.join(build.VERIF, "driver", "src", name + ".rs")
    import hashlib
    out = os.path.join(build.BUILD, f"{name}-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    os.makedirs(build.BUILD, exist_ok=True)
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}"
        p = subprocess.run(["rustc", "--edition", "2024", "-C", "debuginfo=0", "-o", tmp, src], env=env, capture_output=True, text=True)
        if p.returncode:
            raise build.BuildError(f"the {name} driver does not build: " + p.stderr[-2000:])
        os.rename(tmp, out)
    return out


def first_error(text):
    """(message, place) of the first error of a compiler run"""
    ls = text.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error"):
            at = next((re.sub(r"^\s*--> ", "", x).strip() for x in ls[i:i + 6] if "-->" in x), "-")
            return l, at
    return (ls[-1] if ls else "no output"), "-"


def compile_with(drv, features, group):
    """(error or None, place, public interface) of one combination of features"""
    env = build.nightly_env()
    target = os.path.join(build.BUILD, f"target-api-{group}")
    out = tempfile.mkdtemp(prefix="api-", dir=build.BUILD)
    fresh(target)
    env.update(RUSTC_WORKSPACE_WRAPPER=drv, API_OUT=out, CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    try:
        if features is None:
            args = ["-p", "stream-download-opendal"]
        elif "default" in features:
            args = ["-p", PKG]
        else:
            args = ["-p", PKG, "--no-default-features", "--features", ",".join(features)]
        p = subprocess.run(["cargo", "check", "-q", "--offline", "--lib"] + args, cwd=build.REPO, env=env, capture_output=True, text=True)
        if p.returncode:
            return (*first_error(p.stderr), None)
        f = os.path.join(out, ("stream_download_opendal" if features is None else "stream_download") + ".api")
        if not os.path.exists(f):
            raise build.BuildError(f"no interface for {features}: " + p.stderr[-300:])
        return None, "-", frozenset(open(f).read().splitlines())
    finally:
        shutil.rmtree(out, ignore_errors=True)


def fresh(target):
    """forgets what was compiled of the package itself, so that it is compiled again from the current source"""
    for fp in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("stream-download"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def feature_rules(prop, tier):
    F = Facts(prop)
    drv = tool("api")
    states = list(itertools.product(range(4), range(2), range(3), range(2)))
    feats = lambda s: HTTP[s[0]] + TEMP[s[1]] + READ[s[2]] + REG[s[3]]
    groups = {g: [s for s in states if s[2] == g] for g in range(3)}
    extra = [("default",), ("reqwest-native-tls",)] + ([("reqwest-rustls",), ("default", )] if tier == "thorough" else [])
    made = build.lockfile()
    res = {}

    def group(g):
        return [(s, compile_with(drv, feats(s), g)) for s in groups[g]] + ([(x, compile_with(drv, x, g)) for x in extra + [None]] if g == 0 else [])
    try:
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for l in ex.map(group, range(3)):
                res.update(l)
    finally:
        if made:
            os.unlink(made)
    show = lambda s: "stream-download-opendal" if s is None else ",".join(feats(s) if isinstance(s[0], int) else s) or "no features"
    for s, (err, at, api) in res.items():
        F.ob("builds", err is None, f"the crate does not build with {show(s)}: {err}", at)
    for s in states:
        for i in range(4):
            t = s[:i] + (s[i] + 1,) + s[i + 1:]
            if t in res and res[s][2] is not None and res[t][2] is not None:
                gone = sorted(res[s][2] - res[t][2])
                F.ob("adds", not gone, f"with {show(t)} the public interface lacks what it has with {show(s)}: {gone[0][:300] if gone else ''}", gone[0].split("<")[0].split("(")[0] if gone else "-")
    for x in (("default",), ("reqwest-native-tls",), ("reqwest-rustls",)):
        base = (2, 1, 0, 0) if x == ("default",) else (2, 0, 0, 0)
        if x in res and res[x][2] is not None and res[base][2] is not None:
            F.ob("same", res[x][2] == res[base][2], f"{show(x)} changes the public interface of {show(base)}", "-")
    F.r.extra = {"programs_checked": len(res), "combinations": [show(s) for s in res], "interface_items": {show(s): len(x[2]) for s, x in res.items() if x[2] is not None}}
    F.r.stats["roots"].append("crates/stream-download")
    return F.r


# ------------------------------------------------------------------------------------------------ P40
def parts():
    src = open(os.path.join(build.VERIF, "witness", "lib.rs")).read()
    l = re.findall(r'#\[cfg\(part = "(\w+)"\)\]', src)
    return [x for x in l if not x.startswith("not_")], [x for x in l if x.startswith("not_")]


MANIFEST = """[package]
name = "witness"
version = "0.0.0"
edition = "2024"
[lib]
path = "{lib}"
[dependencies]
stream-download = {{ path = "{repo}/crates/stream-download", features = ["reqwest", "reqwest-middleware", "temp-storage", "async-read", "process", "registry"] }}
stream-download-opendal = {{ path = "{repo}/crates/stream-download-opendal" }}
tokio = "1"
reqwest = {{ version = "{reqwest}", default-features = false }}
reqwest-middleware = {{ version = "{middleware}", default-features = false }}
[workspace]
"""


def witness_rules(prop, tier):
    F = Facts(prop)
    env = build.nightly_env()
    target = os.path.join(build.BUILD, "target-witness")
    lock = os.path.join(build.REPO, "Cargo.lock")
    lock = lock if os.path.exists(lock) else os.path.join(build.VERIF, "data", "Cargo.lock")
    text = open(lock).read()
    version = lambda n: re.search(f'name = "{n}"\nversion = "([^"]*)"', text).group(1)
    crate = tempfile.mkdtemp(prefix="witness-", dir=build.BUILD)
    lib = os.path.join(build.VERIF, "witness", "lib.rs")
    env.update(CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    fresh(target)

    def compile(names):
        args = [x for n in names for x in ("--cfg", f'part="{n}"')]
        p = subprocess.run(["cargo", "rustc", "-q", "--offline", "--lib", "--profile", "check", "--", "-A", "warnings"] + args, cwd=crate, env=env, capture_output=True, text=True)
        return p.returncode == 0, p.stderr
    try:
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write(MANIFEST.format(lib=lib, repo=build.REPO, reqwest=version("reqwest"), middleware=version("reqwest-middleware")))
        shutil.copyfile(lock, os.path.join(crate, "Cargo.lock"))
        ok, err = compile([])
        if not ok:
            raise build.BuildError("the witness crate does not build: " + " ".join(first_error(err)))
        good, bad = parts()
        for n in good:
            ok, err = compile([n])
            msg, at = first_error(err) if not ok else ("", "")
            err = err[err.find("\nerror") + 1:]
            note = "; ".join([re.sub(r"^\s*(= )?(help|note): ", "", l) for l in err.splitlines() if re.match(r"\s*(= )?(help|note): ", l)][:3])
            F.ob(n, ok, f"the witness '{n}' does not build: {msg} {note}", at)
        for n in bad:
            ok, err = compile([n])
            F.ob(n, not ok and "error[E0277]" in err or not ok and "cannot be sent between threads" in err, f"the witness '{n}', which must not build, does", "witness/lib.rs")
    finally:
        shutil.rmtree(crate, ignore_errors=True)
    F.r.extra = {"programs_checked": len(good) + len(bad), "must_build": good, "must_not_build": bad}
    F.r.stats["roots"].append("witness/lib.rs")
    return F.r
