#!/usr/bin/env python3
"""Development tool: turns tools/plants/<id>.py (FILE/OLD/NEW edits + demo body) into seeded/<id>/ and confirms it.
usage: plant.py <id>... | all      (needs /repo clean; applies and reverts the patch there)"""
import json, os, subprocess, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_PART = r'''#!/bin/bash
# compiles main.rs beside this file against the working tree's modules; exit 0 = property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cat > "$w/Cargo.toml" <<T
[package]
name = "rusty-machine"
version = "0.0.0"
edition = "2015"
[dependencies]
rand = "=0.4.6"
[lib]
name = "rusty_machine"
path = "src/lib.rs"
[[bin]]
name = "demo"
path = "src/main.rs"
[workspace]
T
cat > "$w/src/lib.rs" <<T
#![allow(warnings)]
extern crate rand;
pub mod learning { pub mod toolkit {
  #[path = "$repo/src/learning/toolkit/activ_fn.rs"] pub mod activ_fn;
  #[path = "$repo/src/learning/toolkit/rand_utils.rs"] pub mod rand_utils;
} }
pub mod stats { #[path = "$repo/src/stats/dist/mod.rs"] pub mod dist; }
T
cp "$here/main.rs" "$w/src/main.rs"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline --quiet --bin demo
'''
DEMO_FULL = r'''#!/bin/bash
# compiles main.rs beside this file against the whole crate (rulinalg stand-in in stub.tgz); exit 0 = property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; tar xzf "$here/stub.tgz" -C "$w"; sed -i "/^\[workspace\]/d" "$w"/*/Cargo.toml
cat > "$w/Cargo.toml" <<T
[package]
name = "rusty-machine"
version = "0.0.0"
edition = "2015"
[features]
default = ["stats", "datasets"]
stats = []
datasets = []
[dependencies]
rand = "=0.4.6"
num = { path = "num" }
rulinalg = { path = "rulinalg" }
[lib]
name = "rusty_machine"
path = "$repo/src/lib.rs"
[[bin]]
name = "demo"
path = "src/main.rs"
[workspace]
T
cp "$here/main.rs" "$w/src/main.rs"
cd "$w" && CARGO_TARGET_DIR="$w/target" RUSTFLAGS="-Awarnings" cargo run --offline --quiet --bin demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ids = sys.argv[1:]
    if ids == ["all"]: ids = sorted(f[:-3] for f in os.listdir(root + "/tools/plants") if f.endswith(".py"))
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo dirty"
    bad = []
    for i in ids:
        d = {}; exec(open(f"{root}/tools/plants/{i}.py").read(), d)
        out = f"{root}/seeded/{i}"; os.makedirs(out, exist_ok=True)
        w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
        try:
            sh(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm x")
            for f, o, n in d["EDITS"]:
                s = open(f"{w}/{f}").read(); assert s.count(o) == 1, (i, f, s.count(o), o)
                open(f"{w}/{f}", "w").write(s.replace(o, n))
            open(out + "/patch.diff", "w").write(sh(f"git -C {w} diff").stdout)
            base = sh("git -C /repo show 42b2edc:" + d["EDITS"][0][0]).stdout.split("\n")
            gone = [l[1:] for l in open(out + "/patch.diff").read().split("\n") if l.startswith("-") and not l.startswith("---")]
            if not any(l in base and l.strip() for l in gone): print(i, "NOTE: changes no line of the original repository")
            full = d.get("FULL", False)
            open(out + "/demo.sh", "w").write(DEMO_FULL if full else DEMO_PART); os.chmod(out + "/demo.sh", 0o755)
            if full: sh(f"tar czf {out}/stub.tgz --sort=name --mtime=@0 --owner=0 --group=0 -C {root}/shim rulinalg num")
            open(out + "/main.rs", "w").write(d["DEMO"].strip() + "\n")
            json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            a = sh(f"bash {out}/demo.sh", cwd="/repo")
            b = sh(f"bash {out}/demo.sh", cwd=w)
            ok = a.returncode == 0 and b.returncode != 0 and "could not compile" not in b.stdout
            t = sh(f"git -C /repo apply {out}/patch.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.out.json")
            res = json.load(open("/tmp/plant.out.json")) if t.returncode == 0 else None
            sh("git -C /repo checkout -- .")
            print(i, "base", a.returncode, "patched", b.returncode, "build+tests", t.returncode, "OK" if ok and t.returncode == 0 else "BAD")
            if not ok: print("  base:", a.stdout[-1500:], "\n  patched:", b.stdout[-1500:])
            if t.returncode: print(t.stdout[-1500:])
            if not ok or t.returncode: bad.append(i)
        finally:
            shutil.rmtree(w)
    print("bad:", bad)
    sys.exit(bool(bad))
main()
