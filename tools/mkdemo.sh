#!/bin/bash
# dev helper: mkdemo.sh ID : lay out a demonstration crate in /verif/seeded/ID (main.rs must exist there)
d=/verif/seeded/$1
cat > $d/demo.sh <<'X'
#!/bin/bash
# exit 0: the behaviour is right; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src"
cp "$here/main.rs" "$work/demo/src/main.rs"
cp "$here/demo.lock" "$work/demo/Cargo.lock"
cat > "$work/demo/Cargo.toml" <<T
[package]
name = "replay"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
graphannis-core = { path = "$repo/core" }
graphannis = { path = "$repo/graphannis" }
serde_json = "1"
serde = "1"
bincode = "1.3"
tempfile = "3"
rustc-hash = "2"
smallvec = "1"
itertools = "0.14"
rayon = { version = "1.3", default-features = false }
transient-btree-index = "0.5"
[profile.dev]
debug = 0
opt-level = 0
incremental = false
T
cd "$work/demo"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true TMPDIR="$work"
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="--cfg graphannis_verif -Awarnings" timeout 280 cargo run --offline -q
X
cp /verif/replay/Cargo.lock $d/demo.lock
