#!/bin/bash
# tryseed.sh: runs the stable tests on /tmp/sr
cd /tmp/sr/rust && export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
cargo nextest run --workspace --no-fail-fast --offline 2>&1 | grep -E "FAIL|error|Summary" | sort -u | head -${1:-12}
