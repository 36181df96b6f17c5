#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies of /repo and /verif.

mutate.py list <file glob>...                    prints the mutants of those files
mutate.py run <out.jsonl> <workers> <glob>...    tries them: builds, runs the stable tests, then the checks
"""
import sys, os, re, json, glob, subprocess, random, multiprocessing, shutil, time

CHECKS = [
 (r"goko/src/monomap/", "C02 C01 C13"),
 (r"goko/src/covertree/query_tools/knn", "C06 C07"),
 (r"goko/src/covertree/query_tools/", "C06 C07"),
 (r"goko/src/covertree/tree.rs", "C03 C08 C10 C06 C07 C12 C11 C13 C02 C01 C16"),
 (r"goko/src/covertree/builders.rs", "C03 C04 C08 C12 C20 C05"),
 (r"goko/src/covertree/data_caches.rs", "C03 C04 C08 C12 C05"),
 (r"goko/src/covertree/node.rs", "C03 C04 C08 C10 C14 C16 C12 C06 C07 C13"),
 (r"goko/src/covertree/layer.rs", "C03 C10 C02 C13 C01"),
 (r"goko/src/plugins/", "C14 C15 C16 C13 C21"),
 (r"goko/src/query_interface", "C09 C12"),
 (r"goko/src/utils.rs", "C10 C11 C20"),
 (r"pointcloud/src/metrics", "C17"),
 (r"pointcloud/src/loaders", "C20 C18"),
 (r"pointcloud/src/(summaries|label_sources)", "C19 C13"),
 (r"pointcloud/", "C18 C17 C19 C20 C12"),
 (r"serve_goko/", "C21 C22"),
 (r"", "C03 C06 C10"),
]

RULES = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "),
 (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
 (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
 (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b0\.5\b", "0.25"),
 (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.rev\(\)", ""), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
 (r"is_empty\(\)", "is_empty() == false"), (r"\bif !", "if "), (r"\bif ([a-z_.]+\()", r"if !\1"),
 (r"\.cloned\(\)\.rev\(\)", ".cloned()"), (r"and_modify\(\|e\| [^)]*\)\)?", "and_modify(|_e| ())"),
 (r"\.sqrt\(\)", ""), (r"\.ceil\(\)", ".floor()"), (r"\.abs\(\)", ""), (r"\.ln\(\)", ".log2()"), (r"break;", ""), (r"continue;", ""),
 (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"SeqCst", "Relaxed"), (r"Acquire|Release|AcqRel", "Relaxed"),
 (r"map_err\([^)]*\)\?", "unwrap_or_default()"), (r"\)\?;", ").ok();"),
 (r"\.len\(\)", ".len() - 1"), (r"\.len\(\)", ".len() + 1"), (r"or_insert_with", "or_insert_with"),
 (r"\.\.=", ".."), (r"(\w)\.\.(\w)", r"\1..=\2"), (r"chunks_exact", "chunks"), (r"\bf64\b", "f32"),
 (r"\.insert\(", ".remove(&"), (r"\.next\(\)", ".last()"), (r"entry\(([^)]*)\)\.or_insert\(", r"entry(\1).or_insert("),
]

def mutants(path):
    src = open("/repo/" + path).read().split("\n")
    end = next((i for i, l in enumerate(src) if l.strip().startswith("#[cfg(test)]") and i + 1 < len(src) and "mod" in src[i + 1]), len(src))
    out = []
    incomment = False
    for i, l in enumerate(src[:end]):
        s = l.strip()
        if "/*" in s and "*/" not in s: incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("*") or s.startswith("pub use") or "println!" in s or "debug_assert" in s:
            continue
        if re.match(r"(pub(\(crate\))? )?(unsafe )?(fn|struct|impl|trait|enum|mod|type|const|static)\b", s) or s.startswith("where") or "trace!" in s or "info!" in s or s.startswith("error!") or "'static" in s or re.match(r"(\.collect\(\)|[A-Z]\w*: )", s):
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                n = l[:m.start()] + re.sub(pat, rep, m.group(0)) + l[m.end():]
                if n != l and "//" not in l[:m.start()]:
                    out.append((path, i, l, n))
        if s.endswith(";") and not re.match(r"(let|return|use|type|const|static|\}|\)|\]|pub|break|continue)", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            out.append((path, i, l, ""))
        # a whole single-line-bodied if
    seen, res = set(), []
    for m in out:
        if (m[1], m[3]) not in seen:
            seen.add((m[1], m[3])); res.append(m)
    return res

def files(globs):
    r = []
    for g in globs:
        for f in sorted(glob.glob("/repo/" + g, recursive=True)):
            if f.endswith(".rs") and not re.search(r"target/|tree_file_format|verif_sync|windows.rs|metrics/old.rs|/examples/|/tests/|/build\.rs|/benches/|/errors.rs|pc_errors.rs", f):
                r.append(f[len("/repo/"):])
    return r

def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace", executable="/bin/bash")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

BASE = os.environ.get("MUT_DIR", "/tmp/mut")

def prepare(w):
    d = f"{BASE}/{w}"
    if os.path.exists(d):
        sh(f"rm -rf {d}")
    os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && mkdir {d}/verif && cd /verif && cp -a check.sh lib.sh setup.sh known_findings.txt harness loomcheck serve target {d}/verif/")
    sh(f"cd {d}/verif && sed -i 's#/repo#{d}/repo#g' lib.sh harness/Cargo.toml harness/src/main.rs loomcheck/src/main.rs serve/Cargo.toml")
    return d

def stable():
    return json.load(open("/opt/vp/BASELINE.json"))["stable"]

def test(d):
    env = f"set -a; PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0; set +a; cd {d}/repo;"
    rc, out = sh(env + "cargo test --workspace --exclude pygoko --all-targets --no-run --offline", timeout=300)
    if rc: return "nobuild", out[-300:]
    rc, out = sh(env + f"cargo test --workspace --exclude pygoko --no-fail-fast --offline -- --test-threads 8 > {d}/log 2>&1; python3 /opt/vp/results.py {d}/o.json cargo:{d}/log", timeout=150)
    if rc == 124: return "testfail", "timeout"
    try:
        o = json.load(open(f"{d}/o.json"))
    except Exception as e:
        return "testfail", str(e)
    miss = [x for x in stable() if (x if isinstance(x, str) else x["name"]) not in o["passed"]]
    return ("ok", "") if not miss else ("testfail", str(miss)[:200])

def worker(w, q, out, lock):
    d = prepare(w)
    while True:
        m = q.get()
        if m is None: break
        path, i, old, new = m
        p = f"{d}/repo/{path}"
        orig = open(p).read()
        lines = orig.split("\n")
        if lines[i] != old: continue
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        r = {"file": path, "line": i + 1, "old": old.strip(), "new": new.strip()}
        t0 = time.time()
        try:
            s, msg = test(d)
            r["status"] = s
            if s == "ok":
                r["status"] = "SURVIVED"
                cs = next(c for g, c in CHECKS if re.search(g, path)).split()
                r["tried"] = []
                for c in cs:
                    rc, o = sh(f"CASE_LIMIT=60 bash check.sh {c} quick", cwd=f"{d}/verif", timeout=890)
                    if rc == 1 and "VIOLATION property=" in o:
                        r["status"] = "caught"; r["by"] = c; r["msg"] = o[:250]; break
                    r["tried"].append((c, rc))
                    if rc != 0: r.setdefault("odd", []).append((c, rc, o[-200:]))
        finally:
            open(p, "w").write(orig)
        r["t"] = round(time.time() - t0)
        with lock:
            open(out, "a").write(json.dumps(r) + "\n")
    sh(f"rm -rf {BASE}/{w}")

def main():
    if sys.argv[1] == "list":
        n = 0
        for f in files(sys.argv[2:]):
            ms = mutants(f); n += len(ms); print(f, len(ms))
        print(n); return
    out, nw = sys.argv[2], int(sys.argv[3])
    allm = []
    for f in files(sys.argv[4:]):
        ms = mutants(f)
        random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(ms)
        allm += ms[:int(os.environ.get("MUT_PER", "1000"))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    allm = [m for m in allm if (m[0], m[1] + 1, m[3].strip()) not in done]
    random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(allm)
    lim = int(os.environ.get("MUT_MAX", "100000"))
    q = multiprocessing.Queue(); lock = multiprocessing.Lock()
    for m in allm[:lim]: q.put(m)
    for _ in range(nw): q.put(None)
    ps = [multiprocessing.Process(target=worker, args=(w, q, out, lock)) for w in range(nw)]
    [p.start() for p in ps]; [p.join() for p in ps]

if __name__ == "__main__":
    main()
