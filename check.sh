#!/bin/bash
# check.sh setup | Cxx [quick|thorough] | replay FILE | trace Cxx N
cd /verif || exit 3
export CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH=$PATH:/root/.cargo/bin
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
export CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=/verif/sim/wrap.sh CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
BIN=/verif/target/release/dst
mkdir -p target work evidence

# Rebuild from /repo's working tree as it is now (never trust time stamps).
build() {
  exec 9>/verif/work/build.lock
  flock 9
  cargo +stable --version >/dev/null 2>&1 && T=+stable || T=
  for p in minisign shim dst; do
    find target/release/.fingerprint target/release/deps -maxdepth 1 \
      \( -name "$p-*" -o -name "lib$p-*" \) -prune -exec rm -rf {} + 2>/dev/null
  done
  (cd sim && cargo $T build --release --offline --locked) >work/build.log 2>&1
  local rc=$?
  [ $rc -eq 0 ] && cp "$BIN" "work/dst.$$"
  flock -u 9
  return $rc
}
trap 'rm -f "/verif/work/dst.$$"' EXIT

case "$1" in
setup)
  build || { tail -40 work/build.log; exit 3; }
  "work/dst.$$" list >/dev/null || exit 3
  exit 0 ;;
replay|trace)
  build || { tail -40 work/build.log; exit 3; }
  "work/dst.$$" "$@"
  exit $? ;;
C[0-9][0-9])
  build || { echo "the simulator does not build against /repo:"; tail -40 work/build.log; exit 3; }
  tier=${2:-${VERIF_TIER:-quick}}
  VERIF_TIER=$tier "work/dst.$$" check "$1" "$tier"
  exit $? ;;
*) echo "usage: check.sh setup | Cxx [quick|thorough] | replay FILE | trace Cxx N"; exit 2 ;;
esac
