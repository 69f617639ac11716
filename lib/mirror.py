"""Mirrors the part of /repo that builds without the network into /opt/vp/offline/ws.

Every Rust source file of the mirror, but for those named below, is a symlink to the file in /repo, so cargo compiles /repo's
own code. What differs is listed here and nowhere else:

- Cargo.toml files: copied, minus the lines that name the unreachable git dependencies (salt,
  mega-evm-v1_0_1) and minus the member bin/mega-evme.
- Cargo.lock: /repo's, minus the packages that fell away; check_lock.py verifies that after.
- crates/system-contracts/artifacts/*.json: copied, because build.rs skips symlinks there.
- OMITTED files: empty modules. OMITTED_TARGETS: not mirrored at all.
- crates/system-contracts/build.rs: /repo's text unchanged, in a module, with an entry point
  that leaves out the forge step (forge and lib/forge-std are not there) and calls /repo's own
  functions for the rest.

Rerun before every build: it follows added, changed and removed files.
"""

import os
import re
import shutil
import sys

REPO = "/repo"
WS = os.environ.get("MIRROR_WS", "/verif/.build/ws")
CRATES = ["crates/mega-evm", "crates/state-test", "crates/system-contracts"]
SKIP_DIRS = {"target", ".git", "cache", "out"}

# Need the salt crate, or TestExternalEnvs, which is built on it.
OMITTED = [
    "crates/mega-evm/src/external/test_utils.rs",
    "crates/mega-evm/tests/mini_rex/block_env_gas_limit.rs",
    "crates/mega-evm/tests/mini_rex/gas.rs",
    "crates/mega-evm/tests/mini_rex/oracle.rs",
    "crates/mega-evm/tests/rex2/keyless_deploy.rs",
    "crates/mega-evm/tests/rex2/oracle_hint.rs",
]
# Test targets with nothing left once those that need TestExternalEnvs are gone.
OMITTED_TARGETS = [
    "crates/mega-evm/tests/block_executor",
    "crates/mega-evm/tests/rex",
    "crates/mega-evm/tests/rex3",
]

BUILD_MAIN = """//! Entry point of the mirror: see mirror.py.
#[allow(dead_code, missing_docs, unreachable_pub)]
#[path = "build_upstream.rs"]
mod upstream;

fn main() {
    upstream::generate_without_forge();
}
"""

BUILD_TAIL = """
/// Added by mirror.py: main() without the forge compile-and-compare step.
pub fn generate_without_forge() {
    let manifest_dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out_dir = env::var("OUT_DIR").unwrap();
    let crate_dir = Path::new(&manifest_dir);
    let out_path = Path::new(&out_dir);
%s
    let artifacts_dir = crate_dir.join("artifacts");
    println!("cargo::rerun-if-changed=build_upstream.rs");
    println!("cargo::rerun-if-changed={}", artifacts_dir.display());
    for entry in fs::read_dir(&artifacts_dir).unwrap() {
        println!("cargo::rerun-if-changed={}", entry.unwrap().path().display());
    }
    for config in &contracts {
        let latest_path = artifacts_dir.join(format!("{}-latest.json", config.name));
        let latest: ContractArtifact =
            serde_json::from_str(&fs::read_to_string(&latest_path).unwrap()).unwrap();
        let versions = collect_versioned_artifacts(&artifacts_dir, &format!("{}-", config.name));
        generate_rust_constants(out_path, config, &versions, &latest);
    }
}
"""


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def root_manifest():
    text = re.sub(r'^\s*"bin/mega-evme",\n', "", read("Cargo.toml"), flags=re.M)
    text = re.sub(r',\s*"bin/mega-evme"', "", text)
    return re.sub(r"^salt\s*=.*\n", "", text, flags=re.M)


def member_manifest(rel):
    text = re.sub(r"^salt(\.workspace)?\s*=.*\n", "", read(rel), flags=re.M)
    return text.replace('["dep:salt"]', "[]")


def build_upstream():
    text = read("crates/system-contracts/build.rs")
    found = re.search(r"^    let contracts = \[.*?^    \];$", text, flags=re.M | re.S)
    if not found:
        sys.exit("mirror.py: no contracts table in crates/system-contracts/build.rs")
    return text + BUILD_TAIL % found.group(0)


def wanted():
    """{path in the mirror: ("link", target) or ("text", content)}"""
    files = {"Cargo.toml": ("text", root_manifest()), "Cargo.lock": ("text", read("Cargo.lock"))}
    for name in ("clippy.toml", "rustfmt.toml"):
        if os.path.exists(os.path.join(REPO, name)):
            files[name] = ("link", os.path.join(REPO, name))
    for crate in CRATES:
        for base, dirs, names in os.walk(os.path.join(REPO, crate)):
            rel_base = os.path.relpath(base, REPO)
            dirs[:] = sorted(
                d for d in dirs
                if d not in SKIP_DIRS and os.path.join(rel_base, d) not in OMITTED_TARGETS
            )
            for name in names:
                rel = os.path.join(rel_base, name)
                src = os.path.join(base, name)
                if rel in OMITTED:
                    files[rel] = ("text", "")
                elif rel == "crates/system-contracts/build.rs":
                    files[rel] = ("text", BUILD_MAIN)
                elif name == "Cargo.toml":
                    files[rel] = ("text", member_manifest(rel))
                elif rel_base == "crates/system-contracts/artifacts" and not os.path.islink(src):
                    # build.rs skips symlinks here, so these are copies.
                    files[rel] = ("text", read(rel))
                elif os.path.islink(src):
                    files[rel] = ("link", os.readlink(src))
                else:
                    files[rel] = ("link", src)
    files["crates/system-contracts/build_upstream.rs"] = ("text", build_upstream())
    return files


def current(path):
    if os.path.islink(path):
        return ("link", os.readlink(path))
    if os.path.isfile(path):
        with open(path, encoding="utf-8") as f:
            return ("text", f.read())
    return None


def main():
    files = wanted()
    # cargo prunes the lock file in place; keep its result while /repo's is the same.
    lock_source = os.path.join(WS, ".lock-source")
    key = files["Cargo.lock"][1] + "".join(c for p, (k, c) in sorted(files.items()) if p.endswith("Cargo.toml"))
    if current(lock_source) == ("text", key) and os.path.exists(os.path.join(WS, "Cargo.lock")):
        files["Cargo.lock"] = current(os.path.join(WS, "Cargo.lock"))
    files[".lock-source"] = ("text", key)

    for base, dirs, names in os.walk(WS, topdown=False):
        for name in names + [d for d in dirs if os.path.islink(os.path.join(base, d))]:
            path = os.path.join(base, name)
            if os.path.relpath(path, WS) not in files:
                os.unlink(path)
        if base != WS and not os.listdir(base):
            os.rmdir(base)
    for rel, entry in files.items():
        path = os.path.join(WS, rel)
        if current(path) == entry:
            continue
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        elif os.path.lexists(path):
            os.unlink(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        kind, content = entry
        if kind == "link":
            os.symlink(content, path)
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(content)


main()
