#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS CRATES(comma, name:features) RUSTFLAGS DEMO.rs FILE OLD NEW [FILE OLD NEW ...]
Writes seeded/ID/{patch.diff,demo.sh,main.rs,meta.json} from textual replacements in a scratch copy of /repo."""
import sys, os, json, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/sw/repo"
def mk(id, prop, needs, breaks, crates, rustflags, demo, edits, toolchain="stable-x86_64-unknown-linux-gnu", lock=None):
    subprocess.run(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"]); subprocess.run(["git", "-C", W, "checkout", "-q", "-f", "FETCH_HEAD"], check=True)
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read(); assert s.count(old) >= 1, (id, f, old, s.count(old)); open(p, "w").write(s.replace(old, new, 1))
    d = os.path.join(HERE, "seeded", id); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout)
    subprocess.run(["git", "-C", W, "checkout", "-q", "-f", "."])
    open(os.path.join(d, "main.rs"), "w").write(demo)
    if lock: open(os.path.join(d, "Cargo.lock"), "w").write(open(lock).read().replace('name = "native_par"', 'name = "demo"'))
    deps = "".join(f'{c} = {{ path = "/repo/crates/{c}", default-features = false, features = [{", ".join(chr(34) + x + chr(34) for x in fs)}] }}\n' for c, fs in crates)
    open(os.path.join(d, "demo.sh"), "w").write(f"""#!/bin/bash
# builds a small program against /repo in a scratch directory; exit 0 iff the property holds on the demonstrated input
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<'EOF'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
{deps}[workspace]
[profile.dev]
opt-level = 1
EOF
[ ! -f "$here/Cargo.lock" ] || cp "$here/Cargo.lock" "$w/Cargo.lock"
cd "$w"
export RUSTUP_TOOLCHAIN={toolchain} RUSTFLAGS="{rustflags}"
cargo build -q --offline --target-dir "$w/t"
timeout 120 "$w/t/debug/demo"
""")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
