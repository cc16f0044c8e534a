#!/bin/bash
# Builds the simulator against /repo's current working tree. Output: build/target/x86_64-unknown-linux-gnu/debug/dst
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
B=${DST_BUILD:-$here/build}
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
python3 "$here/bin/mksubset.py" || exit 3
export CARGO_TARGET_DIR="$B/target" RUSTC_WRAPPER="$here/bin/rustc-wrap"
export RUSTFLAGS="-Crelocation-model=static -Clink-arg=-no-pie -Awarnings"
unset CARGO_INCREMENTAL
cd "$here/dst" || exit 3
cargo build --offline --locked --target x86_64-unknown-linux-gnu -p harness "$@" >"$B/build.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -n 60 "$B/build.log" >&2; echo "dst: build failed" >&2; exit 3; fi
exit 0
