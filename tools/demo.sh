#!/bin/bash
# Runs demo.rs (beside this file) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
adapton = { path = "$PWD" }
[workspace]
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset ADAPTON_NO_PURITY ADAPTON_STRUCTURAL ADAPTON_CHECK_DCG ADAPTON_WRITE_DCG ADAPTON_GMLOG_DCG
cd "$d" && timeout 200 cargo build --offline --quiet >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
