#!/bin/bash
# tools/new_bug.sh <id> <property> <needs> <what_it_breaks>   saves the change in /tmp/pb/repo and /tmp/demo.rs as seeded/<id>
here="$(cd "$(dirname "$0")/.." && pwd)"
d="$here/seeded/$1"; mkdir -p $d
git -C /tmp/pb/repo diff > $d/patch.diff
cp /tmp/demo.rs $d/demo.rs
cat > $d/demo.sh <<'X'
#!/bin/bash
# builds demo.rs against the k crate in the current directory and runs it
repo="$PWD"; here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
k = { path = "$repo" }
urdf-rs = "*"
[workspace]
Y
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target" CARGO_TERM_COLOR=never
cd "$d" && cargo build -q --offline || { echo "demo does not build"; exit 3; }
timeout 120 "$d/target/debug/demo"
X
python3 - "$@" <<'Y'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
Y
git -C /tmp/pb/repo checkout -q -- .
