#!/bin/bash
# Run from the root of the repository: builds a small program against its working tree and runs it.
# Exits 0 when the program is satisfied.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
for f in "$here"/*.json5; do
  if [ -e "$f" ]; then cp "$f" "$scratch/"; fi
done
for lock in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do
  if [ -e "$lock" ]; then cp "$lock" "$scratch/Cargo.lock"; break; fi
done
cat >"$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
bp3d-proto = { path = "$repo/runtime" }
bp3d-protoc = { path = "$repo/compiler" }

[build-dependencies]
bp3d-protoc = { path = "$repo/compiler" }
EOF
if [ -e "$here/generate.rs" ]; then
  cp "$here/generate.rs" "$scratch/build.rs"
else
  cat >"$scratch/build.rs" <<'EOF'
fn main() {
    let mut files: Vec<_> = std::fs::read_dir(".").unwrap().map(|v| v.unwrap().path())
        .filter(|v| v.extension().map(|v| v == "json5").unwrap_or(false)).collect();
    files.sort();
    bp3d_protoc::generate_rust(|loader| {
        for file in &files {
            loader.load(file)?;
        }
        Ok(())
    }, |protoc| protoc.set_reads_messages(true).set_writes_messages(true));
}
EOF
fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$scratch/target" CARGO_INCREMENTAL=0
cd "$scratch"
cargo run --offline --quiet
