#!/bin/bash
# Builds the program beside this file against /repo's fcb_core: exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T="$(mktemp -d)" && mkdir "$T/src" || exit 3
trap 'rm -rf "$T"' EXIT
cp "$here"/*.rs "$T/src/" && cp /opt/vp/ws/Cargo.lock "$T/Cargo.lock" || exit 3
cat >"$T/Cargo.toml" <<'EOF'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fcb_core = { path = "/opt/vp/ws/fcb_core" }
cjseq = { package = "cjseq2", version = "0.1.0" }
serde_json = "1.0.133"
chrono = "0.4"
ordered-float = "4.6.0"
fallible-streaming-iterator = "0.1.9"
http-range-client = { version = "0.9.0", default-features = false }
bytes = "1.9.0"
async-trait = "0.1.85"
tokio = { version = "1", features = ["rt", "macros"] }
EOF
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}"
FCB_CLI="${CARGO_TARGET_DIR}-cli/debug/fcb"; export FCB_CLI SCRATCH="$T"
cargo build --offline --quiet --manifest-path /opt/vp/ws/Cargo.toml -p fcb_cli --target-dir "${CARGO_TARGET_DIR}-cli" 2>"$T/log" || { grep -A6 "^error" "$T/log"; exit 3; }
cd "$T" && cargo build --offline --quiet 2>"$T/log" || { grep -A6 "^error" "$T/log"; exit 3; }
timeout 200 "$CARGO_TARGET_DIR/debug/demo"
