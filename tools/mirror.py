#!/usr/bin/env python3
"""Mirror the part of /repo that builds without the network into /verif/.build/ws.

Same idea as the sandbox's own offline build: every Rust source file is a symlink to the file in
/repo, so cargo compiles /repo's current working tree.  What differs:
  * Cargo.toml files are copied minus the unreachable git dependency (salt) and minus bin/mega-evme;
  * src/external/test_utils.rs (needs salt) is an empty module;
  * system-contracts/build.rs keeps /repo's text, minus the forge step (forge is not installed);
  * system-contracts/artifacts/*.json are copied (build.rs skips symlinks there).
"""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build", "ws")
CRATES = ["crates/mega-evm", "crates/state-test", "crates/system-contracts"]
SKIP_DIRS = {"target", ".git", "cache", "out", "tests", "benches", "examples"}
OMITTED = {"crates/mega-evm/src/external/test_utils.rs"}

BUILD_MAIN = """//! Entry point of the mirror: see mirror.py.
#[allow(dead_code, missing_docs, unreachable_pub)]
#[path = "build_upstream.rs"]
mod upstream;

fn main() {
    upstream::generate_without_forge();
}
"""

BUILD_TAIL = """
/// Added by mirror.py: main() without the forge compile-and-compare step.
pub fn generate_without_forge() {
    let manifest_dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out_dir = env::var("OUT_DIR").unwrap();
    let crate_dir = Path::new(&manifest_dir);
    let out_path = Path::new(&out_dir);
%s
    let artifacts_dir = crate_dir.join("artifacts");
    println!("cargo::rerun-if-changed=build_upstream.rs");
    println!("cargo::rerun-if-changed={}", artifacts_dir.display());
    for entry in fs::read_dir(&artifacts_dir).unwrap() {
        println!("cargo::rerun-if-changed={}", entry.unwrap().path().display());
    }
    for config in &contracts {
        let latest_path = artifacts_dir.join(format!("{}-latest.json", config.name));
        let latest: ContractArtifact =
            serde_json::from_str(&fs::read_to_string(&latest_path).unwrap()).unwrap();
        let versions = collect_versioned_artifacts(&artifacts_dir, &format!("{}-", config.name));
        generate_rust_constants(out_path, config, &versions, &latest);
    }
}
"""


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def root_manifest():
    text = re.sub(r'^\s*"bin/mega-evme",\n', "", read("Cargo.toml"), flags=re.M)
    text = re.sub(r',\s*"bin/mega-evme"', "", text)
    return re.sub(r"^salt\s*=.*\n", "", text, flags=re.M)


def member_manifest(rel):
    text = re.sub(r"^salt(\.workspace)?\s*=.*\n", "", read(rel), flags=re.M)
    text = text.replace('["dep:salt"]', "[]")
    # benches/examples/tests are not mirrored
    return re.sub(r"^\[\[bench\]\]\nname = .*\nharness = .*\n", "", text, flags=re.M)


def build_upstream():
    text = read("crates/system-contracts/build.rs")
    found = re.search(r"^    let contracts = \[.*?^    \];$", text, flags=re.M | re.S)
    if not found:
        sys.exit("mirror.py: no contracts table in crates/system-contracts/build.rs")
    return text + BUILD_TAIL % found.group(0)


def wanted():
    files = {"Cargo.toml": ("text", root_manifest())}
    for crate in CRATES:
        for base, dirs, names in os.walk(os.path.join(REPO, crate)):
            rel_base = os.path.relpath(base, REPO)
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
            for name in names:
                rel = os.path.join(rel_base, name)
                src = os.path.join(base, name)
                if rel in OMITTED:
                    files[rel] = ("text", "")
                elif rel == "crates/system-contracts/build.rs":
                    files[rel] = ("text", BUILD_MAIN)
                elif name == "Cargo.toml":
                    files[rel] = ("text", member_manifest(rel))
                elif rel_base == "crates/system-contracts/artifacts" and not os.path.islink(src):
                    files[rel] = ("text", read(rel))
                elif os.path.islink(src):
                    files[rel] = ("link", os.readlink(src))
                else:
                    files[rel] = ("link", src)
    files["crates/system-contracts/build_upstream.rs"] = ("text", build_upstream())
    return files


def current(path):
    if os.path.islink(path):
        return ("link", os.readlink(path))
    if os.path.isfile(path):
        with open(path, encoding="utf-8") as f:
            return ("text", f.read())
    return None


def main():
    files = wanted()
    os.makedirs(WS, exist_ok=True)
    for base, dirs, names in os.walk(WS, topdown=False):
        for name in names + [d for d in dirs if os.path.islink(os.path.join(base, d))]:
            path = os.path.join(base, name)
            rel = os.path.relpath(path, WS)
            if rel not in files and rel != "Cargo.lock":
                os.unlink(path)
        if base != WS and not os.listdir(base):
            os.rmdir(base)
    for rel, entry in files.items():
        path = os.path.join(WS, rel)
        if current(path) == entry:
            continue
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        elif os.path.lexists(path):
            os.unlink(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        kind, content = entry
        if kind == "link":
            os.symlink(content, path)
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(content)


main()
