#!/bin/bash
# run.sh ID quick|thorough        run the check of one property against /repo's working tree
# run.sh ID replay FILE           run one recorded case again
# run.sh build                    build every harness
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here" HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL
export PATH="/root/.cargo/bin:$PATH" CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target"
build() { # crate
  local log="$here/work/build-$1.log"
  mkdir -p "$here/work"
  if ! cargo build --offline --locked --manifest-path "$here/harness/$1/Cargo.toml" >"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "cannot build harness $1 against /repo" >&2
    exit 2
  fi
}
id=$1
case "$id" in
  build) for c in core editor render; do [ -d "$here/harness/$c" ] && build $c; done; exit 0;;
  C*) crate=core;;
  E*) crate=editor;;
  R*) crate=render;;
  *) echo "unknown property $id" >&2; exit 2;;
esac
build $crate
# the editor library prints a line for every refused incremental edit
exec "$here/target/debug/h$crate" "$@" 2> >(grep -av "^Incremental edit failed, falling back" >&2)
