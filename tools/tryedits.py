#!/usr/bin/env python3
"""tryedits.py <edits.py> <out.jsonl> <workers>

edits.py defines EDITS = [(id, "C01 C02", [(file, old, new), ...]), ...]. Each is applied in a scratch copy, built, put
through the stable tests and then through the checks of its properties.
"""
import sys, os, json, multiprocessing, time
sys.path.insert(0, os.path.dirname(__file__))
import mutate as M

def worker(w, q, out, lock):
    d = M.prepare(w)
    while True:
        e = q.get()
        if e is None: break
        ident, props, edits = e
        saved, r = {}, {"id": ident, "props": props}
        try:
            for f, old, new in edits:
                p = f"{d}/repo/{f}"
                s = open(p).read()
                saved.setdefault(p, s)
                if s.count(old) != 1:
                    raise Exception(f"{s.count(old)} matches in {f}: {old[:60]}")
                open(p, "w").write(s.replace(old, new))
            st, msg = M.test(d)
            r["status"] = st; r["msg"] = msg[-1500:]
            if st == "ok":
                r["status"] = "SURVIVED"; r["checks"] = {}
                for c in props.split():
                    t0 = time.time()
                    rc, o = M.sh(f"CASE_LIMIT=150 bash check.sh {c} quick", cwd=f"{d}/verif", timeout=890)
                    r["checks"][c] = [rc, round(time.time() - t0), [l for l in o.split("\n") if "VIOLATION" not in l][-6:-1] if rc == 1 else o[-400:]]
                    if rc == 1: r["status"] = "caught"
        except Exception as x:
            r["status"] = "BAD"; r["msg"] = str(x)
        for p, s in saved.items(): open(p, "w").write(s)
        with lock:
            open(out, "a").write(json.dumps(r) + "\n")
            print(r["status"], ident, r.get("msg", "")[-300:] if r["status"] in ("BAD", "nobuild", "testfail") else {c: v[:2] for c, v in r["checks"].items()}, flush=True)
    M.sh(f"rm -rf {d}")

if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    n = int(sys.argv[3])
    q, lock = multiprocessing.Queue(), multiprocessing.Lock()
    only = sys.argv[4:]
    for e in g["EDITS"]:
        if not only or e[0] in only: q.put(e)
    for _ in range(n): q.put(None)
    ps = [multiprocessing.Process(target=worker, args=(f"t{i}", q, sys.argv[2], lock)) for i in range(n)]
    for p in ps: p.start()
    for p in ps: p.join()
