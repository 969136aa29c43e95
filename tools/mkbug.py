#!/usr/bin/env python3
"""mkbug.py SPEC.py: (re)creates seeded bugs from a spec file defining BUGS, a list of dicts with
id, property, needs, breaks, edits [(file, old, new)], main (Rust demonstration source), deps (extra Cargo lines).
Works in the scratch copy /tmp/wt3 of /repo; writes /verif/seeded/<id>/."""
import json, os, subprocess, sys
WT, OUT = "/tmp/wt3", "/verif/seeded"
DEMO = r'''#!/bin/bash
# Builds and runs main.rs (beside this file) against the repository in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && { export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH" HOME=/root; }
work="$(mktemp -d /tmp/fenris-demo.XXXXXX)" || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/Cargo.lock"; else cp /opt/vp/Cargo.lock "$work/Cargo.lock"; fi
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 0
debug = false
incremental = false
[dependencies]
@DEPS@
EOF
cd "$work" || exit 9
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2>"$work/build.log" || { tail -40 "$work/build.log"; exit 9; }
timeout 200 "$work/target/debug/demo"
'''
ALL = {
 "fenris": 'fenris = { path = "$repo" }',
 "fenris-geometry": 'fenris-geometry = { path = "$repo/fenris-geometry" }',
 "fenris-paradis": 'fenris-paradis = { path = "$repo/fenris-paradis" }',
 "fenris-nested-vec": 'fenris-nested-vec = { path = "$repo/fenris-nested-vec" }',
 "polyquad-parse": 'polyquad-parse = { path = "$repo/polyquad-parse" }',
 "fenris-sparse": 'fenris-sparse = { path = "$repo/fenris-sparse" }',
 "fenris-optimize": 'fenris-optimize = { path = "$repo/fenris-optimize" }',
 "fenris-solid": 'fenris-solid = { path = "$repo/fenris-solid" }',
 "fenris-quadrature": 'fenris-quadrature = { path = "$repo/fenris-quadrature" }',
}
def sh(*a, **k): return subprocess.run(a, cwd=WT, check=True, capture_output=True, text=True, **k).stdout
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    sh("git", "checkout", "-q", "--", ".")
    for f, old, new in b["edits"]:
        s = open(f"{WT}/{f}").read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(f"{WT}/{f}", "w").write(s.replace(old, new))
    diff = sh("git", "diff")
    sh("git", "checkout", "-q", "--", ".")
    d = f"{OUT}/{b['id']}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    deps = "\n".join(ALL.get(x, x) for x in b.get("deps", ["fenris"]))
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@DEPS@", deps)); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(b["main"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", b["id"])
