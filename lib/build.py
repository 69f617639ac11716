"""Build the MIR facts of /repo's current working tree (driver -> mirror workspace -> cargo check -> JSON)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
REPO = "/repo"
CRATES = ["mega_evm", "mega_system_contracts", "state_test"]
TREES = {"": CRATES[:2], "state_test": CRATES[2:]}       # separately analysed: what lies outside a tree is opaque


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "crates"), os.path.join(ROOT, "driver", "src"), os.path.join(ROOT, "driver", "Cargo.toml")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), roots[2]]
    for r in roots[:2]:
        for base, dirs, names in os.walk(r):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests", "benches", "cache", "out"))
            files += [os.path.join(base, n) for n in sorted(names) if n.endswith((".rs", ".toml", ".json", ".lock"))]
    for f in files:
        try:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(f.encode() + b"\0missing")
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTUP_TOOLCHAIN", None)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def sh(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-4000:])
        raise BuildError(what + " failed")
    return p.stdout


def facts():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "facts-" + key)
        files = [os.path.join(out, c + ".json") for c in CRATES]
        if all(os.path.exists(f) for f in files):
            return files, key
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver-target")
        sh(["cargo", "+nightly", "build", "--offline", "--quiet"], os.path.join(ROOT, "driver"), e, "driver build")
        driver = os.path.join(BUILD, "driver-target", "debug", "mirdump")
        ws = os.path.join(BUILD, "ws")
        os.makedirs(ws, exist_ok=True)
        e["MIRROR_WS"] = ws
        sh([sys.executable, os.path.join(ROOT, "lib", "mirror.py")], BUILD, e, "mirror")
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], BUILD, e, "sysroot").strip()
        subprocess.run(["cargo", "+nightly", "clean", "-p", "mega-evm", "-p", "mega-system-contracts", "-p", "state-test", "--offline"], cwd=ws,
                       env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e["MIRDUMP_CRATES"] = ",".join(CRATES)
        e["MIRDUMP_OUT"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = driver
        sh(["cargo", "+nightly", "check", "-p", "mega-evm", "-p", "state-test", "--offline", "--lib"], ws, e, "cargo check of /repo")
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise BuildError("no facts for " + c)
        for d in os.listdir(BUILD):
            if d.startswith("facts-"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True) if os.path.join(BUILD, d) != tmp else None
        os.rename(tmp, out)
        return files, key


def tree(files, t):
    return [f for f in files if os.path.basename(f)[:-5] in TREES[t]]
