#!/bin/bash
# build.sh [ID]: build what the check of property ID needs (everything without ID).
# build.sh --bin ID: print the binary that runs the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
hooked=" C06 C09 C10 C39 C40 "
if [ "${1:-}" = "--bin" ]; then
  case "$hooked" in
    *" $2 "*) echo "$here/target/hooked/debug/wa-hooked";;
    *) echo "$here/target/debug/wa-harness";;
  esac
  exit 0
fi
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET 2>/dev/null
# A copy of the tree may carry older time stamps than the build products: rebuild on content.
sum=$(cd /repo && find src Cargo.toml resources -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
build() { # crate target-dir
  local crate=$1 target=$2
  mkdir -p "$target"
  if [ "$(cat "$target/.repo-sum" 2>/dev/null)" != "$sum" ]; then
    [ -d "$target/debug" ] && (cd "$crate" && CARGO_TARGET_DIR=$target cargo clean --offline -q -p web-audio-api) >/dev/null 2>&1
  fi
  local log
  log=$(cd "$crate" && CARGO_TARGET_DIR=$target cargo build --offline -q 2>&1)
  local rc=$?
  if [ $rc -ne 0 ]; then printf '%s\n' "$log" >&2; echo "build of $crate failed" >&2; return 3; fi
  echo "$sum" > "$target/.repo-sum"
}
want() { [ -z "${1:-}" ] || case "$hooked" in *" $1 "*) [ "$2" = hooked ];; *) [ "$2" = plain ];; esac; }
if want "${1:-}" plain; then build "$here/harness" "$here/target" || exit 3; fi
if [ -d "$here/hooked" ] && want "${1:-}" hooked; then
  RUSTFLAGS="--cfg verif_hooks" build "$here/hooked" "$here/target/hooked" || exit 3
fi
exit 0
