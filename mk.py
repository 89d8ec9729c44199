#!/usr/bin/env python3
"""Generates the build views of /repo used by the checks.

  core: the part of the crate that does not need `manul` (curve, paillier, params, tools, uint, zk).
  full: the whole crate, with `manul` (a git dependency that cannot be fetched) replaced by shim/manul.

The sources are symlinks into the repository; only Cargo.toml, Cargo.lock, and, in the core view,
lib.rs and tools.rs are derived files. Nothing is written to the repository."""
import os, re, sys, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYNEDRION_REPO", "/repo")
BUILD = os.environ.get("SYNEDRION_BUILD", os.path.join(VERIF, "build"))

ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"


def read(path):
    with open(os.path.join(REPO, path)) as f:
        return f.read()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and not os.path.islink(path) and open(path).read() == text:
        return
    if os.path.lexists(path):
        os.remove(path)
    with open(path, "w") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        os.remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)


def drop(text, names):
    for name in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + name + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(
            ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + name + r"::[^;]*;[^\n]*\n",
            "", text, flags=re.M)
    return text


def view(kind):
    out = os.path.join(BUILD, kind)
    derived = set()
    if kind == "core":
        write(f"{out}/src/lib.rs", drop(read("src/lib.rs"), ["entities", "protocols", "tests"]))
        write(f"{out}/src/tools.rs", drop(read("src/tools.rs"), ["protocol_shortcuts", "sss", "protocol_shortcuts_dev"]))
        derived = {"lib.rs", "tools.rs", "tests.rs", "tests", "protocols.rs", "protocols", "entities.rs", "entities"}
    want = {x for x in os.listdir(f"{REPO}/src") if x not in derived}
    os.makedirs(f"{out}/src", exist_ok=True)
    for old in os.listdir(f"{out}/src"):
        if os.path.islink(f"{out}/src/{old}") and old not in want:
            os.remove(f"{out}/src/{old}")
    for name in want:
        link(f"{REPO}/src/{name}", f"{out}/src/{name}")
    for name in ["README.md"]:
        if os.path.exists(f"{REPO}/{name}"):
            link(f"{REPO}/{name}", f"{out}/{name}")

    toml = read("Cargo.toml")
    manul = "" if kind == "core" else f'manul = {{ path = "{VERIF}/shim/manul" }}\n'
    toml = re.sub(r"^manul[ \t]*=.*\n", lambda m: "", toml, flags=re.M)
    toml = toml.replace(
        "[dependencies]\n",
        "[dependencies]\n" + manul + 'ciborium = "0.2"\nserde_json = "1"\n', 1)
    # benches and examples are not part of a view
    toml = re.sub(r"^\[\[(?:bench|example)\]\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    toml = re.sub(r"^\[package\]\n", "[package]\nautobins = false\nautobenches = false\nautoexamples = false\nautotests = false\n", toml, flags=re.M)
    # no dev-dependencies: the view is never built as a test
    toml = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    toml += f"""
[[bin]]
name = "mc-{kind}"
path = "{VERIF}/harness/main.rs"

[profile.release]
opt-level = 3
debug = false
debug-assertions = false
overflow-checks = true
incremental = false
codegen-units = 16
panic = "unwind"

[workspace]
"""
    write(f"{out}/Cargo.toml", toml)

    lock = read("Cargo.lock")
    blocks = [b for b in re.split(r"\n(?=\[\[package\]\]\n)", lock) if 'name = "manul"' not in b]
    lock = "\n".join(blocks).replace(' "manul",\n', "")
    lockpath, src = f"{out}/Cargo.lock", f"{out}/.lock-source"
    if not os.path.exists(lockpath) or not os.path.exists(src) or open(src).read() != lock:
        write(lockpath, lock)
        write(src, lock)


if __name__ == "__main__":
    for k in sys.argv[1:]:
        view(k)
