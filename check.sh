#!/usr/bin/env bash
# check.sh <property>      decide one property on /repo's current tree (VERIF_SEED, VERIF_TIER)
# check.sh --build         only build the simulator against /repo's current tree
# check.sh --replay FILE   replay a recorded violation
# exit 0: held, 1: VIOLATION, anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
T=$V/target
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
mkdir -p "$T" || exit 3
build() {
  exec 9>"$T/.lock"
  flock 9
  # cargo goes by time stamps; the content decides here
  now=$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$T/.repo-hash" 2>/dev/null)" != "$now" ]; then
    rm -f "$T/.repo-hash"
    (cd sim/harness && cargo clean --offline --release -p htrpc --target-dir "$T" >/dev/null 2>&1)
  fi
  if ! (cd sim/harness && cargo build --release --offline --target-dir "$T" >"$T/build.log" 2>&1); then
    tail -40 "$T/build.log"
    echo "ERROR: the simulator does not build against /repo"
    exit 3
  fi
  echo "$now" >"$T/.repo-hash"
  exec 9>&-
}
case "${1:-}" in
  --build) build; exit 0 ;;
  --replay) build; exec "$T/release/harness" replay "$2" ;;
  C[0-9]*) ;;
  *) echo "usage: check.sh <property> | --build | --replay FILE"; exit 3 ;;
esac
build
case $tier in
  thorough) secs=${SIM_SECS:-600} ;;
  *) secs=${SIM_SECS:-50} ;;
esac
exec "$T/release/harness" check "$1" --tier "$tier" --seed "$seed" --secs "$secs" --dir "$V"
