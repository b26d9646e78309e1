#!/bin/bash
# run.sh <ID> [args]: build the check of one property against /repo's working tree and run it.
# Exit 0 held, 1 violation, anything else an error of the check itself.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$here/out"
build() { (cd "$here/$1" && cargo build --release --offline --locked --quiet --bin "$bin" 2>"$here/out/build-$id.log"); }
failed() {
  cat "$here/out/build-$id.log" >&2
  echo "build of check $id failed" >&2
  exit 3
}
if [ "$id" = C27 ]; then
  # this one runs on a copy of the library whose shared accesses can be intercepted; if the
  # copy does not build that way, on a plain one
  crate=shared
  bash "$here/shared/prepare.sh" /repo || exit 3
  if ! build shared; then
    export MC_PLAIN=1
    bash "$here/shared/prepare.sh" /repo plain || exit 3
    build shared || failed
  fi
else
  crate=harness
  build harness || failed
fi
cd "$here/$crate" || exit 3
exec "$here/$crate/target/release/$bin" "$@"
