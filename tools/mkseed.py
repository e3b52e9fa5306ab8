#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS  (stdin: demo main.rs body): saves /repo's working-tree diff as planted bug and writes its demo."""
import sys, os, json, subprocess
i, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
body = sys.stdin.read()
open(d + "/main.rs", "w").write(body)
for m in ("xml", "pkg"):
    if "mod %s;" % m in body: open(d + "/%s.rs" % m, "w").write(open("/verif/harness/src/%s.rs" % m).read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Builds main.rs against the crate in the current directory; exit 0 when the property holds.
set -u
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
T="$(mktemp -d /tmp/vdemo.XXXXXXXX)" || exit 3
trap 'rm -r -- "${T:?}"' EXIT
mkdir "$T/src" && cp "$D"/*.rs "$T/src/" && cp "$R/Cargo.lock" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<EOF
[package]
name = "vdemo"
version = "0.1.0"
edition = "2021"
[dependencies]
docx-rs = { path = "$R/docx-core" }
zip = { version = "*", default-features = false, features = ["deflate"] }
quick-xml = "*"
serde_json = "*"
[workspace]
EOF
CARGO_TARGET_DIR="$T/target" cargo build --offline -q --manifest-path "$T/Cargo.toml" || exit 3
timeout 120 "$T/target/debug/vdemo"
''')
os.chmod(d + "/demo.sh", 0o755)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
print("ok", i)
