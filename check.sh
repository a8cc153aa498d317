#!/bin/bash
# usage: check.sh PROPERTY | check.sh --replay FILE | check.sh --build
# Builds the machinery and the code under test from /repo's working tree, then runs the check of a property.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export BP_VERIF="$VERIF"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$VERIF/harness/target" CARGO_INCREMENTAL=0
[ "${1:-}" = --replay ] && set -- --replay "$(realpath "$2")"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
cd "$VERIF/harness" || exit 2
mkdir -p target || exit 2
exec 9>"$VERIF/harness/target/.verif-lock"
flock 9
# Cargo trusts modification times; the code under test is rebuilt whenever its content differs.
SUM="$(cd /repo && find runtime compiler Cargo.toml -type f ! -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$SUM" != "$(cat target/.repo-sum 2>/dev/null)" ]; then
  rm -f target/.repo-sum
  cargo clean --offline -p bp3d-proto -p bp3d-protoc >/dev/null 2>&1
fi
# One property looks at the members of the compiled protocols, in a program of its own.
PROGRAM=runner
if [ "${1:-}" = G01 ] || { [ "${1:-}" = --replay ] && grep -q '"property":"G01"' "$2"; }; then PROGRAM=inspect; fi
if ! cargo build -p oracle -p "$PROGRAM" --offline --locked --message-format=json-render-diagnostics >target/.build.json 2>target/.build.log; then
  grep -A6 -E "^error" target/.build.log | head -60 >&2
  echo "check error: the code under test or the machinery does not build" >&2
  exit 2
fi
[ "${1:-}" = --build ] && cargo build -p inspect --offline --locked >/dev/null 2>&1
echo "$SUM" >target/.repo-sum
BP_RUNTIME_RLIB="$(grep -oE '"[^"]*/libbp3d_proto-[0-9a-f]+\.rlib"' target/.build.json | tail -1 | tr -d '"')"
BP_ORACLE_RLIB="$(grep -oE '"[^"]*/liboracle(-[0-9a-f]+)?\.rlib"' target/.build.json | tail -1 | tr -d '"')"
: "${BP_RUNTIME_RLIB:=/none/none}"
export BP_RUNTIME_RLIB BP_ORACLE_RLIB
flock -u 9
exec 9>&-
case "${1:-}" in
  --build) exit 0 ;;
  --explore) exec target/debug/runner explore "$2" ;;
  --replay) exec target/debug/$PROGRAM replay "$2" ;;
  *) exec target/debug/$PROGRAM check "$1" ;;
esac
