#!/bin/bash
# trybug.sh ID...: (development) builds, tests and demonstrates a planted bug in a scratch copy of /repo
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/tryb/repo; mkdir -p /tmp/tryb
  rm -rf /tmp/tryb/repo; git clone -q /repo $w; cp /repo/Cargo.lock $w/
  export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/tryb/target RUSTFLAGS=-Awarnings
  # share the build of the demo's dependencies between demos
  demo() { ( mkdir -p /tmp/tryb/demo; cp -r $d/Cargo.toml $d/Cargo.lock $d/src /tmp/tryb/demo/; sed -i "s|/repo|$w|" /tmp/tryb/demo/Cargo.toml; cd /tmp/tryb/demo; CARGO_TARGET_DIR=/tmp/tryb/dtarget cargo build --offline >/tmp/tryb/log 2>&1 || { grep -A12 ^error /tmp/tryb/log; exit 3; }; timeout 120 /tmp/tryb/dtarget/debug/demo ) >/tmp/tryb/out 2>&1; }
  touch $w/src/*.rs; demo; a=$?; tail -3 /tmp/tryb/out > /tmp/tryb/out.a
  (cd $w && git apply $d/patch.diff) || { echo "$id: patch does not apply"; continue; }
  find $w/src -name '*.rs' -exec touch {} +
  (cd $w && timeout 300 cargo test --offline >/tmp/tryb/test.log 2>&1); t=$?
  n=$(grep -c "\.\.\. ok" /tmp/tryb/test.log)
  demo; b=$?
  echo "$id: clean demo $a, tests $t ($n ok), patched demo $b"
  if [ $a != 0 ]; then echo "-- clean:"; cat /tmp/tryb/out.a; fi
  if [ $b = 0 ] || [ $b = 3 ]; then echo "-- patched:"; tail -12 /tmp/tryb/out; fi
  if [ $t != 0 ]; then grep -E "^error|FAILED|failed" -A5 /tmp/tryb/test.log | head -30; fi
done
