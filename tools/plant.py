#!/usr/bin/env python3
"""Used as a module by throw-away scripts: plant(id, property, needs, what, edits, demo)
writes seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json).
edits: list of (file, old, new); demo: body of main.rs"""
import json, os, shutil, subprocess, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
web-audio-api = { path = "$repo", default-features = false, features = ["diagnostics"] }
futures = { version = "0.3", features = ["executor", "thread-pool"] }
[profile.dev]
opt-level = 1
debug = false
EOF
cd "$dir"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
unset RUSTFLAGS CARGO_BUILD_TARGET || true
cargo build --offline -q 2>"$dir/log" || { cat "$dir/log" >&2; exit 99; }
timeout 60 "$dir/target/debug/demo"
'''
def plant(id, prop, needs, what, edits, demo):
    d = f"{here}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", f"{tmp}/r"], check=True)
        for f, old, new in edits:
            p = f"{tmp}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", f"{tmp}/r", "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    print("planted", id)
