#!/usr/bin/env python3
"""Builds the tree in the working directory (less the parts that need the unavailable `manul`, or with
the `manul` stand-in if a folder `shim` lies beside this file) together with demo.rs, and runs demo.rs.
Exit 0: the demonstration found nothing wrong."""
import os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SHIM = os.path.join(HERE, "shim")
full = os.path.isdir(SHIM)


def read(p):
    with open(os.path.join(REPO, p)) as f:
        return f.read()


def drop(text, names):
    attrs, vis = r"(?:^[ \t]*#\[[^\n]*\]\n)*", r"(?:pub(?:\([^)]*\))?[ \t]+)?"
    for n in names:
        text = re.sub(attrs + r"^[ \t]*" + vis + r"mod[ \t]+" + n + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(attrs + r"^[ \t]*" + vis + r"use[ \t]+(?:crate::|self::)?" + n + r"::[^;]*;[^\n]*\n", "", text, flags=re.M)
    return text


with tempfile.TemporaryDirectory(prefix="demo-") as tmp:
    shutil.copytree(os.path.join(REPO, "src"), f"{tmp}/src")
    if os.path.exists(os.path.join(REPO, "README.md")):
        shutil.copy(os.path.join(REPO, "README.md"), tmp)
    if not full:
        for p, names in (("src/lib.rs", ["entities", "protocols", "tests"]),
                         ("src/tools.rs", ["protocol_shortcuts", "sss", "protocol_shortcuts_dev"])):
            with open(f"{tmp}/{p}", "w") as f:
                f.write(drop(read(p), names))
    toml = re.sub(r"^manul[ \t]*=.*\n", "", read("Cargo.toml"), flags=re.M)
    toml = re.sub(r"^\[\[(?:bench|example)\]\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    toml = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    deps = 'ciborium = "0.2"\nserde_json = "1"\n'
    if full:
        shutil.copytree(SHIM, f"{tmp}/shim")
        deps += f'manul = {{ path = "{tmp}/shim" }}\n'
    toml = toml.replace("[dependencies]\n", "[dependencies]\n" + deps, 1)
    toml = re.sub(r"^\[package\]\n", "[package]\nautobins = false\nautobenches = false\nautoexamples = false\nautotests = false\n", toml, flags=re.M)
    toml += (f'\n[[bin]]\nname = "demo"\npath = "{tmp}/main.rs"\n\n[profile.release]\nopt-level = 2\ndebug = false\n'
             'overflow-checks = true\nincremental = false\ncodegen-units = 16\n\n[workspace]\n')
    with open(f"{tmp}/Cargo.toml", "w") as f:
        f.write(toml)
    blocks = [b for b in re.split(r"\n(?=\[\[package\]\]\n)", read("Cargo.lock")) if 'name = "manul"' not in b]
    with open(f"{tmp}/Cargo.lock", "w") as f:
        f.write("\n".join(blocks).replace(' "manul",\n', ""))
    with open(f"{tmp}/main.rs", "w") as f:
        f.write("fn main() { std::process::exit(synedrion::verif::main()); }\n")
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{tmp}/target", RUSTFLAGS="--cfg synedrion_verif -Awarnings",
               SYNEDRION_VERIF_SRC=os.path.join(HERE, "demo.rs"))
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", "--features", "k256 bip32 dev", "--bin", "demo"], cwd=tmp, env=env)
    if r.returncode:
        print("the demonstration does not build")
        sys.exit(3)
    sys.exit(subprocess.run([f"{tmp}/target/release/demo"], cwd=tmp, timeout=200).returncode)
