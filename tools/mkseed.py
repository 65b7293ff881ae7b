#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], MAIN (rust source), optional DEPS, FEATURES.
Writes /verif/seeded/ID from a scratch copy of the repository given in SCRATCH (default /tmp/seed/repo)."""
import json, os, subprocess, sys
S = os.environ.get("SCRATCH", "/tmp/seed/repo")
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
for f, old, new in ns["EDITS"]:
    p = os.path.join(S, f)
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
diff = subprocess.check_output(["git", "-C", S, "diff"], text=True)
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
os.makedirs(d + "/demo", exist_ok=True)
open(d + "/demo/main.rs", "w").write(ns["MAIN"])
feats = ns.get("FEATURES", [])
deps = ns.get("DEPS", "")
toml = """[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
kompact = { path = "@REPO@/core", features = [%s] }
%s
[profile.dev]
debug = 0
""" % (", ".join('"%s"' % f for f in feats), deps)
open(d + "/demo/Cargo.toml.in", "w").write(toml)
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Builds a small program against the tree in the current directory and runs it: 0 = property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo/main.rs" "$work/src/main.rs"
sed "s|@REPO@|$repo|" "$here/demo/Cargo.toml.in" > "$work/Cargo.toml"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 9
unset RUST_BACKTRACE
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet || exit 9
timeout -k 5 100 "$work/target/debug/demo" > "$work/out" 2>&1
rc=$?
tail -n 15 "$work/out"
exit $rc
""")
os.chmod(d + "/demo.sh", 0o755)
print("wrote", d)
