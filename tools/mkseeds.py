"""Writes /verif/seeded/<id>/ for every planted change listed in tools/seeds/*.py (development aid; no check uses it).
Each entry: id, property, edits [(file, old, new)], demo (Rust main.rs body or shell), needs, breaks."""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_RS = '''#!/bin/bash
# builds demo.rs against the code in /repo and runs it: exit 0 if it behaves, nonzero if not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'find "$d" -delete' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
T
cd "$d" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || exit 8
timeout 60 "$d/target/debug/demo"
'''
DEPS = {"dandy": 'dandy = { path = "/repo/dandy" }', "draw": 'dandy-draw = { path = "/repo/dandy-draw", default-features = false }',
        "wasm": 'dandy-wasm = { path = "/repo/dandy-wasm" }'}
PRE = '''#![allow(unused)]
use dandy::{parser, dfa::Dfa, nfa::Nfa};
fn dfa(s: &str) -> Dfa { parser::dfa(s).unwrap().try_into().unwrap() }
fn nfa(s: &str) -> Nfa { parser::nfa(s).unwrap().try_into().unwrap() }
'''
only = set(sys.argv[1:])
for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            for fn in {e[0] for e in s["edits"]}:
                for side in "ab":
                    p = os.path.join(t, side, fn)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").write(open(os.path.join("/repo", fn)).read())
            for fn, old, new in s["edits"]:
                p = os.path.join(t, "b", fn)
                src = open(p).read()
                assert src.count(old) == 1, (s["id"], fn, src.count(old), old)
                open(p, "w").write(src.replace(old, new))
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
        out = []
        for ln in r.splitlines():
            if ln.startswith("diff --git "):
                fn = ln.split()[2][2:]
                ln = f"diff --git a/{fn} b/{fn}"
            out.append(ln)
        open(os.path.join(d, "patch.diff"), "w").write("\n".join(out) + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "demo" in s:
            deps = "\n".join(DEPS[x] for x in s.get("deps", ["dandy"]))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_RS % deps)
            open(os.path.join(d, "demo.rs"), "w").write(PRE + s["demo"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print("wrote", s["id"])
