#!/usr/bin/env python3
"""plant.py FILE...: each FILE is a Python file defining `bugs`, a list of dicts with keys
id, property, needs, breaks, edits=[(path, old, new)...], demo (Rust), full (bool).
Writes seeded/<id>/ and checks that each patch applies to SYNEDRION_REPO (default /repo)."""
import difflib, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYNEDRION_REPO", "/repo")
PRELUDE = open(os.path.join(V, "tools", "demo_prelude.rs")).read()
NETWORK = open(os.path.join(V, "tools", "demo_network.rs")).read()
for src in sys.argv[1:]:
    ns = {}
    exec(open(src).read(), ns)
    for b in ns["bugs"]:
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            for side in "ab":
                for path in {e[0] for e in b["edits"]}:
                    os.makedirs(os.path.dirname(f"{t}/{side}/{path}"), exist_ok=True)
                    shutil.copy(f"{REPO}/{path}", f"{t}/{side}/{path}")
            for path, old, new in b["edits"]:
                s = open(f"{t}/b/{path}").read()
                n = s.count(old)
                assert n == b.get("count", 1), f"{b['id']}: {path}: {n} matches of {old!r}"
                open(f"{t}/b/{path}", "w").write(s.replace(old, new))
            r = subprocess.run(["diff", "-ru", "a", "b"], cwd=t, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines(True) if not l.startswith("diff -ru")]
            patch = "".join(l.split("\t")[0] + "\n" if l[:4] in ("--- ", "+++ ") else l for l in lines)
        open(f"{d}/patch.diff", "w").write(patch)
        open(f"{d}/meta.json", "w").write(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        shutil.copy(f"{V}/tools/demo_run.py", f"{d}/run.py")
        open(f"{d}/demo.rs", "w").write((NETWORK if b.get("net") else PRELUDE) + b["demo"])
        shutil.rmtree(f"{d}/common", ignore_errors=True)
        if b.get("net"):
            b["full"] = True
            os.makedirs(f"{d}/common")
            for m in ("engine", "big", "util", "sp16", "tree", "proto", "scen", "deviate"): shutil.copy(f"{V}/harness/common/{m}.rs", f"{d}/common/")
        # only lines of the original repository
        base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
        for path, old, new in b["edits"]:
            s = open(f"{REPO}/{path}").read()
            blame = subprocess.run(["git", "-C", REPO, "blame", "-l", "--root", "-s", "HEAD", "--", path], capture_output=True, text=True).stdout.splitlines()
            for i, l in enumerate(difflib.ndiff(s.splitlines(), s.replace(old, new).splitlines())): pass
            n = 0
            for l in difflib.ndiff(s.splitlines(), s.replace(old, new).splitlines()):
                if l[:2] in ("  ", "- "):
                    if l[:2] == "- " and not blame[n].startswith(base): print(b["id"], "changes an added line:", l)
                    n += 1
        if b.get("full"):
            shutil.rmtree(f"{d}/shim", ignore_errors=True)
            shutil.copytree(f"{V}/shim/manul", f"{d}/shim", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            t = open(f"{d}/shim/Cargo.toml").read()
            open(f"{d}/shim/Cargo.toml", "w").write(t.replace("\n[workspace]\n", ""))
        subprocess.run(["git", "-C", REPO, "apply", "--check", f"{d}/patch.diff"], check=True)
        print("planted", b["id"])
