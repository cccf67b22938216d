#!/bin/bash
# check.sh PROPERTY quick|thorough   decide one property on /repo's working tree
# check.sh replay FILE [-v]          run a replay file again
# check.sh build                     only build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
sim="$here/sim"
build() {
  # cargo goes by time stamps; go by content
  local now
  now="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$sim/target/repo.hash" 2>/dev/null)" != "$now" ]; then
    rm -rf "$sim"/target/debug/.fingerprint/libfranka-rs-* "$sim"/target/debug/incremental/franka-*
  fi
  mkdir -p "$sim/target"
  if ! (cd "$sim" && cargo build --offline --locked) >"$sim/target/build.log" 2>&1; then
    # another cargo may have filled the lock file differently: try without --locked
    if ! (cd "$sim" && cargo build --offline) >"$sim/target/build.log" 2>&1; then
      grep -E -A7 '^error' "$sim/target/build.log" | head -40 >&2
      echo "harness: /repo does not build with the simulator" >&2
      exit 2
    fi
  fi
  echo "$now" >"$sim/target/repo.hash"
}
build
bin="$sim/target/debug/franka-sim"
case "${1:-}" in
  build) exit 0 ;;
  replay) shift; exec "$bin" replay "$@" ;;
esac
prop="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$prop" in
  C06) runs=14000 ;;
  C23) runs=1800 ;;
  C04|C05|C07|C08|C09|C10|C11) runs=30000 ;;
  *) runs=36000 ;;
esac
secs=100
if [ "$tier" = thorough ]; then
  runs=100000000
  secs="${VERIF_SECS:-700}"
fi
jobs="$(nproc 2>/dev/null || echo 4)"
exec "$bin" check "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --secs "$secs" --jobs "$jobs"
