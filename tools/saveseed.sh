#!/bin/bash
# developer helper: saveseed.sh ID PROPERTY NEEDS BREAKS < main.rs : keeps the edit made in /tmp/w as a planted bug
id=$1; d=${V:-/verif}/seeded/$id; mkdir -p $d
git -C ${S:-/tmp/w} diff > $d/patch.diff; git -C ${S:-/tmp/w} checkout -q -- .
[ -s $d/patch.diff ] || { echo "EMPTY PATCH $id"; exit 1; }
cat > $d/main.rs
cat > $d/demo.sh <<'D'
#!/bin/bash
# exits 0 when the behaviour is right, nonzero otherwise; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[profile.dev]
debug = 0
[dependencies]
doodle = { path = "$repo" }
doodle-formats = { path = "$repo/doodle-formats" }
doodle_gencode = { path = "$repo/generated" }
smallsorts = { path = "$repo/smallsorts" }
num-bigint = "0.4"
serde_json = "1.0"
T
cd "$w" || exit 99
RUSTFLAGS=-Awarnings cargo build --offline -q --target-dir "$w/target" || exit 98
timeout 200 ./target/debug/demo
D
if ! grep -q doodle_gencode $d/main.rs; then sed -i '/doodle_gencode/d' $d/demo.sh; fi
if ! grep -q doodle_formats $d/main.rs; then sed -i '/doodle-formats/d' $d/demo.sh; fi
python3 - "$@" <<'P'
import json,sys,os
id,prop,needs,br=sys.argv[1:5]
json.dump({"property":prop,"needs":needs,"what_it_breaks":br},open(os.environ.get('V','/verif')+f'/seeded/{id}/meta.json','w'),indent=1)
P
