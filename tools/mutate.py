#!/usr/bin/env python3
"""mutate.py OUT [--workers N] FILE...: mechanical mutants of the non-test part of source files of the repository,
run against the quick checks of the properties the file belongs to, in private bind-mounted copies.
Prints and appends to OUT one line per mutant: killed by a check, by the tests, does not compile, or SURVIVES."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue, hashlib
V = "/verif"; REPO = "/repo"
CHECKS = [
 (r"uint/secret_signed|uint/public_signed", ["C04", "C10", "C05", "C11", "C01", "C03"]),
 (r"uint/secret_unsigned", ["C04", "C11", "C01", "C03"]),
 (r"uint/public_uint", ["C10", "C04"]),
 (r"uint/traits", ["C04", "C05", "C10", "C03", "C01", "C06"]),
 (r"paillier/encryption", ["C01", "C10", "C02", "Z04"]),
 (r"paillier/keys", ["C02", "C05", "C01", "C10", "C11", "C03"]),
 (r"paillier/rsa", ["C02", "C05", "C01", "C10", "C11"]),
 (r"paillier/ring_pedersen", ["C03", "C10", "C02", "C09"]),
 (r"paillier/params", ["C12", "C09", "C02", "C01"]),
 (r"curve/arithmetic", ["C06", "C08", "C10", "C05", "C11", "C09"]),
 (r"curve/bip32", ["C08"]), (r"curve/ecdsa", ["C07"]),
 (r"params/conversion", ["C06"]), (r"params/", ["C12", "C09", "C06", "C05"]),
 (r"tools/bitvec", ["C09", "C10"]), (r"tools/hashing", ["C09", "C05", "Z03"]), (r"tools/secret", ["C11", "C06", "C04"]),
 (r"tools/sss", ["S04", "C08"]),
 (r"zk/", ["Z01", "Z02", "Z03", "Z04", "Z05"]),
 (r"entities/", ["S02", "S04", "S09", "C08", "S03", "S01", "S08", "S06"]),
 (r"protocols/key_init", ["S02", "S08", "S06", "S05", "S07"]),
 (r"protocols/key_resh", ["S04", "S07"]),
 (r"protocols/(key_ref|aux)", ["S03", "S08", "S06", "S05", "S07"]),
 (r"protocols/inter", ["S01", "S08", "S06", "S05", "S07"]),
]
OPS = [
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" & ", [" | "]), (r" \| ", [" & "]),
 (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]),
 (r"\bmax\(", ["min("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.neg\(\)", [""]), (r"(?<![=&(,|!\w] )(?<=[(= ])-(?=[a-z(])", [""]), (r"(?<=if )!", [""]), (r"(?<=return )!", [""]),
 (r"::ONE\b", ["::ZERO"]), (r"::one\(\)", ["::zero()"]), (r"wrapping_neg\(\)", ["clone()"]), (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]),
 (r"\b\.\.=", [".."]), (r"\^", ["|"]), (r"\b1\.\.", ["0..", "2.."]), (r"\b0\.\.", ["1.."]), (r"\.skip\(1\)", [""]), (r"<< ", [">> "]), (r"Some\(", []),
 (r"\.invert\(\)", [], ), (r"\bcap_a1\b", ["cap_a2"]), (r"\bcap_b1\b", ["cap_b2"]), (r"\bpk0\b", ["pk1"]), (r"\bpk1\b", ["pk0"]), (r"\bcap_p\b", ["cap_q"]), (r"\bL_BOUND\b", ["LP_BOUND", "EPS_BOUND"]), (r"\bLP_BOUND\b", ["L_BOUND"]), (r"\bEPS_BOUND\b", ["L_BOUND"]),
 (r"\.map_values_ref\(", []), (r"num_bits\(\)", []), (r"\bmodulus\(\)", []),
]
STMT = re.compile(r"^\s*\.(chain|chain_curve|chain_type|chain_bytes|reduce|update|without|normalize_s)\b.*\)$")
def source(path):
    s = open(f"{REPO}/{path}").read()
    m = re.search(r"^#\[cfg\(test\)\]", s, flags=re.M)
    return s, (m.start() if m else len(s))
def mutants(path):
    s, end = source(path)
    lines = s[:end].split("\n")
    off = 0; out = []
    i = 0
    for n, line in enumerate(lines):
        code = line.split("//")[0]
        skip = code.strip().startswith(("#", "use ", "pub use", "impl", "where", "fn ", "pub fn", "pub(crate) fn", "pub struct", "struct", "type ", "*", "/*")) or "assert" in code or "expect(" in code and code.strip().startswith(".expect") or '"' in code and "chain" not in code
        if not skip:
            for pat, reps in OPS[:]:
                for m in re.finditer(pat, code):
                    if re.search(r"<[A-Z'][^ ]*$", code[:m.start()]) and pat in (r" > ", r" < "): continue
                    if pat in (r" \+ ", ) and re.search(r"[A-Z]\w*(<.*>)?$", code[:m.start()]): continue
                    for r in reps: out.append((n + 1, off + m.start(), off + m.end(), r, line.strip()))
            if STMT.match(code): out.append((n + 1, off, off + len(line), "", line.strip()))
        off += len(line) + 1
    # if ... { return false / Err } dropped
    for m in re.finditer(r"^( *)if (?:[^{}]|\{[^{}]*\})*?\{\n( *)(?:return (?:false|Err|None)[^;]*;|return Err\((?:[^;])*?\);)\n\1\}\n", s[:end], flags=re.M):
        out.append((s[:m.start()].count("\n") + 1, m.start(), m.end(), "", "DROP " + m.group(0).strip().split("\n")[0]))
    return s, out
class Worker:
    def __init__(self, k):
        self.d = d = f"{os.environ.get('MUT_DIR', '/tmp/mw')}/{k}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/verif/evidence")
        subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True); subprocess.run(["cp", "-a", "/opt/vp", d + "/vp"], check=True)
        for x in ("check.sh", "mk.py", "harness", "shim", "known_findings.txt", "properties.jsonl"): subprocess.run(["cp", "-a", f"{V}/{x}", f"{d}/verif/"], check=True)
        os.makedirs(d + "/verif/build")
    def sh(self, cmd, timeout):
        full = f"mount --bind {self.d}/repo /repo; mount --bind {self.d}/verif /verif; mount --bind {self.d}/vp /opt/vp; cd /repo; {cmd}"
        return subprocess.run(["nice", "-n", "15", "unshare", "-Urm", "timeout", "-k", "5", str(timeout), "bash", "-c", full], capture_output=True, text=True)
    def run(self, path, s, mut):
        n, a, b, r, line = mut
        with open(f"{self.d}/repo/{path}", "w") as f: f.write(s[:a] + r + s[b:])
        try:
            checks = os.environ.get("MUT_CHECKS", "").split() or next(c for p, c in CHECKS if re.search(p, path))
            notes = []
            for c in checks:
                p = self.sh(f"VERIF_FAILFAST=1 VERIF_SEED=1 bash /verif/check.sh {c} --tier quick", 600)
                if p.returncode == 1 and "VIOLATION" in p.stdout: return f"killed by {c}"
                if p.returncode == 2 and "does not build" in p.stdout: return "nocompile" if c == checks[0] else f"nobuild {c}"
                if p.returncode not in (0,): notes.append(f"{c}:{p.returncode}")
            p = self.sh("bash /opt/vp/build.sh >/dev/null 2>&1 || exit 9; bash /opt/vp/test.sh /tmp/mwt.$$.json >/dev/null 2>&1; cat /tmp/mwt.$$.json", 300)
            if p.returncode == 9: return "nocompile"
            try:
                t = json.loads(p.stdout); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                ok = set(t["passed"]) if isinstance(t.get("passed"), list) else {k for k, v in t.items() if v in ("passed", "pass", "ok", True)}
                miss = [x for x in base if x not in ok]
            except Exception as e: miss = [f"? {e}"]
            if miss: return f"killed by tests {miss[:2]}" + (f" {notes}" if notes else "")
            return "SURVIVES" + (f" {notes}" if notes else "")
        finally:
            with open(f"{self.d}/repo/{path}", "w") as f: f.write(s)
def main():
    args = sys.argv[1:]; out = args.pop(0); workers = 3; every = 1
    if args[0] == "--workers": args.pop(0); workers = int(args.pop(0))
    if args[0] == "--every": args.pop(0); every = int(args.pop(0))
    done = {l.split("\t")[0] for l in open(out)} if os.path.exists(out) else set()
    q = queue.Queue(); lock = threading.Lock()
    for path in args:
        s, ms = mutants(path)
        for k, m in enumerate(ms):
            if k % every: continue
            mid = hashlib.sha1(f"{path}{m[1]}{m[3]}{m[4]}".encode()).hexdigest()[:8]
            if mid not in done: q.put((mid, path, s, m))
    print(q.qsize(), "mutants", flush=True)
    if os.environ.get("LIST"):
        while not q.empty(): mid, path, s, m = q.get(); print(path, m[0], repr(s[m[1]:m[2]]), "->", repr(m[3]), m[4])
        return
    def work(k):
        w = Worker(k)
        while True:
            try: mid, path, s, m = q.get_nowait()
            except queue.Empty: return
            res = w.run(path, s, m)
            with lock:
                l = f"{mid}\t{res}\t{path}:{m[0]}\t{s[m[1]:m[2]]!r} -> {m[3]!r}\t{m[4]}"
                print(l, flush=True); open(out, "a").write(l + "\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__": main()
