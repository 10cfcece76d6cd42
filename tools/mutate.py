#!/usr/bin/env python3
"""Development tool: mutation run. mutate.py <source path under src/>... ; works in scratch copies, reports surviving mutants.
Never touches /repo or /verif. Mutants = single token changes outside comments, strings and test modules."""
import os, re, subprocess, sys, shutil, json, queue, threading
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/mut"
PART = ["learning/toolkit/rand_utils.rs", "learning/toolkit/activ_fn.rs", "stats/dist/mod.rs", "stats/dist/gaussian.rs", "stats/dist/exponential.rs"]
NW = int(os.environ.get("MUT_WORKERS", "4"))

def code_lines(text):
    """line numbers that hold code, with comments and strings masked"""
    out = []; test = False
    for i, l in enumerate(text.split("\n")):
        if "#[cfg(test)]" in l: test = True
        if test: continue
        s = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group()), l)
        k = s.find("//")
        if k >= 0: s = s[:k]
        if s.strip().startswith(("use ", "pub use", "extern", "#", "mod ", "pub mod", "pub struct", "pub trait", "pub enum")): continue
        if s.strip(): out.append((i, s))
    return out
OPS = [(r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]),
       (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]), (r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|(?! )", []), (r"(?<= )\|\|(?= )", ["&&"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]),
       (r"(?<![\w.])\d+(?:\.\d*)?(?:f64|usize|_f64)?(?![\w.])", ["NUM"]), (r"\bif !", ["if "]), (r"\bif (?=[a-z(])(?!let)", ["IFNEG"]),
       (r"\.rows\(\)", [".cols()"]), (r"\.cols\(\)", [".rows()"]), (r"\bi\b(?=[\],)])", ["(i+1)"]), (r"\bj\b(?=[\],)])", ["(j+1)"]),
       (r"(?<=[=(, ])-(?=[\w(])", [""]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"Axes::Row\b", ["Axes::Col"]), (r"Axes::Col\b", ["Axes::Row"]),
       (r"\.transpose\(\)", [".clone()"]), (r"\.iter\(\)(?=\.)", [".iter().skip(1)"]), (r"\?;", []), (r"\.is_none\(\)", [".is_some()"]), (r"\.\.", []), (r"\.unwrap_or\(", [])]
def mutants(text):
    lines = text.split("\n"); out = []
    for i, s in code_lines(text):
        l = lines[i]
        for pat, reps in OPS:
            for m in re.finditer(pat, s):
                for r in reps:
                    a, b = m.span(); t = m.group()
                    if r == "NUM":
                        if re.match(r"\s*(pub )?fn |\s*impl", s): continue
                        v = re.match(r"[\d.]+", t).group(); suf = t[len(v):]
                        isf = "." in v or suf
                        n = float(v) if isf else int(v)
                        rs = [(str(n + 1), ), ] if n == 0 else [(str(n * 2 if isf and n != 1 else n + 1),), ("0.0" if isf else "0",)]
                        for (q,) in rs:
                            if suf and suf != "_f64": q = q.rstrip("0").rstrip(".") + suf if "." in q else q + suf
                            out.append((i, l[:a] + q + l[b:]))
                        continue
                    if r == "IFNEG":
                        k = s.rstrip().endswith("{")
                        if k: 
                            e = s.rstrip().rfind("{")
                            out.append((i, l[:b] + "!(" + l[b:e].rstrip() + ") {" + l[e+1:]))
                        continue
                    out.append((i, l[:a] + r + l[b:]))
        st = s.strip()
        if st.endswith(";") and not st.startswith(("let ", "return", "}", "type", "const", ")", "pub const")) and st.count("(") == st.count(")") and st.count("{") == st.count("}"):
            out.append((i, l.replace(l.strip(), "{ }")))
    seen = set(); res = []
    for x in out:
        if x not in seen and x[1] != lines[x[0]]: seen.add(x); res.append(x)
    return res

def worker_dir(w):
    d = f"{SCR}/w{w}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.makedirs(d + "/verif")
        for x in ["crates", "shim", "check.sh", "known-findings.txt"]: subprocess.run(["cp", "-a", f"{root}/{x}", f"{d}/verif/{x}"], check=True)
        for base, _, fs in os.walk(d + "/verif"):
            for f in fs:
                if f.endswith((".toml", ".rs", ".sh")):
                    p = os.path.join(base, f); s = open(p).read()
                    if "/repo" in s: open(p, "w").write(s.replace("/repo/", d + "/repo/"))
        p = d + "/verif/crates/mc/Cargo.toml"; s = open(p).read()
        open(p, "w").write(s.replace("opt-level = 2", "opt-level = 1\nincremental = true\ncodegen-units = 64"))
    return d
def sh(cmd, cwd, t, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=e)
    try: out, _ = p.communicate(timeout=t); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 99, "timeout"
PROPS = {
 "learning/toolkit/rand_utils.rs": "C01 C02", "learning/toolkit/activ_fn.rs": "C03", "stats/dist/mod.rs": "C04 C05", "stats/dist/gaussian.rs": "C04 C06", "stats/dist/exponential.rs": "C05 C06"}
ALL = ["C%02d" % i for i in range(7, 36)]
def run(w, rel, text, mut):
    d = worker_dir(w); i, new = mut
    lines = text.split("\n"); lines[i] = new
    p = f"{d}/repo/src/{rel}"
    open(p, "w").write("\n".join(lines))
    part = rel in PART
    crate = "mcpart" if part else "mc"
    try:
        env = {"RUSTFLAGS": "-Awarnings", "CARGO_TARGET_DIR": d + "/verif/target", "CARGO_BUILD_JOBS": "2"}
        rc, out = sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", f"{d}/verif/crates/{crate}/Cargo.toml"], d + "/verif", 300, env)
        if rc: return "nobuild", out[-200:]
        os.makedirs(d + "/verif/evidence", exist_ok=True)
        for c in (PROPS[rel].split() if part else PROPS_FULL(rel)):
            rc, out = sh([f"{d}/verif/target/release/{crate}", "check", c], d + "/verif", 120, {"MC_VERIF": d + "/verif", "VERIF_TIER": "quick", "VERIF_SEED": "1", "MC_EXEC_LIMIT": "4", "MC_THREADS": "2"})
            if rc == 1 and "VIOLATION" in out: return "killed", c
            if rc != 0: return "broken", f"{c} rc {rc} " + out[-300:]
        return "survived", ""
    finally:
        open(p, "w").write(text)
def PROPS_FULL(rel):
    first = FIRST.get(rel.split("/")[-1], []) + FIRST.get(rel.split("/")[-2], [])
    return first + ["C34", "C35"] if first else ALL
FIRST = json.loads(os.environ.get("MUT_FIRST", "{}"))
FIRST.update({"confusion_matrix.rs": ["C12"], "score.rs": ["C13"], "cross_validation.rs": ["C11"], "minmax.rs": ["C07"], "standardize.rs": ["C08"], "normalize.rs": ["C09"], "shuffle.rs": ["C10"], "knn": ["C14", "C15"], "k_means.rs": ["C16"], "dbscan.rs": ["C17"], "naive_bayes.rs": ["C18", "C19"], "gmm.rs": ["C20"], "lin_reg.rs": ["C21"], "logistic_reg.rs": ["C22"], "glm.rs": ["C23"], "optim": ["C32", "C33"], "cost_fn.rs": ["C26"], "regularization.rs": ["C27"], "kernel.rs": ["C28"], "svm.rs": ["C29"], "gp.rs": ["C30"], "pca.rs": ["C31"], "nnet": ["C24", "C25"]})
def main():
    shutil.rmtree(SCR, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    free = queue.Queue()
    for w in range(NW): free.put(w)
    log = open(os.environ.get("MUT_LOG", "/tmp/mut.log"), "a")
    lock = threading.Lock()
    jobs = []
    for rel in sys.argv[1:]:
        text = open(f"/repo/src/{rel}").read()
        ms = mutants(text)
        print(rel, len(ms), flush=True)
        jobs += [(rel, text, m) for m in ms]
    done = {tuple(x[2:]) for x in map(json.loads, open(os.environ["MUT_SKIP"]))} if os.environ.get("MUT_SKIP") else set()
    jobs = [j for j in jobs if (j[0], j[2][0] + 1, j[1].split("\n")[j[2][0]].strip(), j[2][1].strip()) not in done]
    def one(j):
        w = free.get()
        try: r, why = run(w, *j)
        except Exception as e: r, why = "error", repr(e)
        finally: free.put(w)
        rel, text, (i, new) = j
        with lock:
            log.write(json.dumps([r, why, rel, i + 1, text.split("\n")[i].strip(), new.strip()]) + "\n"); log.flush()
    with ThreadPoolExecutor(NW) as ex: list(ex.map(one, jobs))
main()
