#!/usr/bin/env python3
"""tryout.py OUT [--workers N] LIST.py...: hand-written semantic mutants (LIST.py defines TRIES = [(name, path, old, new)...]),
run like those of mutate.py, to find gaps of the checks before somebody else does."""
import os, sys, queue, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("MUT_DIR", "/tmp/mt")
import mutate
def main():
    args = sys.argv[1:]; out = args.pop(0); workers = 3
    if args[0] == "--workers": args.pop(0); workers = int(args.pop(0))
    done = {l.split("\t")[0] for l in open(out)} if os.path.exists(out) else set()
    q = queue.Queue(); lock = threading.Lock(); bad = 0
    for f in args:
        g = {}; exec(open(f).read(), g)
        for name, path, old, new, *last in g["TRIES"]:
            s = open(f"{mutate.REPO}/{path}").read()
            if s.count(old) < 1: print("NOT FOUND", name); bad += 1; continue
            if name not in done and (not os.environ.get("ONLY") or name in os.environ["ONLY"].split()):
                a = s.rindex(old) if last else s.index(old); q.put((name, path, s, (s[:a].count("\n") + 1, a, a + len(old), new, "")))
    print(q.qsize(), "mutants,", bad, "not found", flush=True)
    if os.environ.get("LIST"): return
    def work(k):
        w = mutate.Worker(k)
        while True:
            try: name, path, s, m = q.get_nowait()
            except queue.Empty: return
            try: res = w.run(path, s, m)
            except Exception as e: res = f"ERROR {e}"
            with lock:
                l = f"{name}\t{res}\t{path}:{m[0]}"; print(l, flush=True); open(out, "a").write(l + "\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
