#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeded_*.py (development only)."""
import os, sys, shutil, subprocess, json, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd = the htrpc tree; exit 0: behaves, nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$work/" || exit 3
sed -i "s|/repo|$repo|" "$work/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work" || exit 3
cargo build --offline >build.log 2>&1 || { tail -30 build.log; exit 3; }
timeout -k 5 120 ./target/debug/demo
"""
def load():
    bugs = {}
    for f in sorted(glob.glob(V + "/tools/seeded_*.py")):
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs
def make(b):
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for (f, old, new) in b["edits"]:
        p = w + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = V + "/seeded/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/src")
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    for x in ["Cargo.toml", "Cargo.lock", "src/common.rs"]:
        shutil.copy(V + "/tools/demo/" + x, d + "/" + x)
    open(d + "/src/main.rs", "w").write("mod common;\nuse common::*;\n" + b["main"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
bugs = load()
for i in (sys.argv[1:] or bugs):
    make(bugs[i]); print("made", i)
