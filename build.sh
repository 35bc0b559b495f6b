#!/bin/bash
# Builds everything the checks need from /repo's current working tree into /verif/target:
# the harness (release, with overflow checks), the two programs (dev profile, slightly optimised) and the fault shim.
# Goes by content, not by modification times: nothing is rebuilt only if no source file differs.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
V=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL RUSTFLAGS CARGO_BUILD_TARGET
T=$V/target
mkdir -p "$T" || exit 2
exec 9>"$T/.lock" && flock 9

stamp() {
    { find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f -print0
      find "$V/harness" "$V/shim" -name target -prune -o -type f -print0
      printf '%s\0' "$V/build.sh"; } | sort -z | xargs -0 sha256sum | sha256sum
}
now=$(stamp)
if [ "$(cat "$T/stamp" 2>/dev/null)" = "$now" ] && [ -x "$T/release/pbt" ] && [ -x "$T/repo/debug/pw_diff" ] &&
   [ -x "$T/repo/debug/pw_patch" ] && [ -f "$T/shim.so" ]; then
    exit 0
fi
rm -f "$T/stamp"
rm -rf "$T"/release/.fingerprint/pw_* "$T"/release/.fingerprint/pbt-* "$T"/repo/debug/.fingerprint/pw_*
{
    cc -O1 -fno-delete-null-pointer-checks -w -shared -fPIC -o "$T/shim.so" "$V/shim/shim.c" -ldl &&
    (cd /repo && CARGO_TARGET_DIR=$T/repo CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline -q -p pw_diff -p pw_patch) &&
    (cd "$V/harness" && CARGO_TARGET_DIR=$T cargo build --offline --release -q)
} >"$T/build.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    tail -40 "$T/build.log" >&2
    echo "build failed" >&2
    exit 2
fi
# building may have written /repo/Cargo.lock (ignored by git): stamp what is there now
stamp >"$T/stamp"
exit 0
