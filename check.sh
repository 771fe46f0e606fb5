#!/bin/bash
# check.sh ID: builds from /repo's working tree and decides one property. check.sh build: only builds.
# check.sh replay FILE: runs a replay file (exit 1: the violation occurs again).
cd "$(dirname "$0")" || exit 2
export GQSIM_VERIF="$PWD"
sim="$PWD/sim"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$sim/rustc-wrap.sh" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

stamp() { # what the library under test is made of
  (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; rustc -V) | sha256sum | cut -d' ' -f1
}
build() { # flavour feature
  local dir="$PWD/target-$1" s
  mkdir -p "$dir"
  exec 9>"$dir/.lock"; flock 9
  s=$(stamp)
  export CARGO_TARGET_DIR="$dir"
  # modification times can mislead cargo (a restored or patched file may look old), so contents decide
  if [ "$(cat "$dir/.stamp" 2>/dev/null)" != "$s" ]; then
    rm -f "$dir/.stamp"
    [ -d "$dir/release" ] && (cd "$sim" && cargo clean --offline --release -p gauss-quad >/dev/null 2>&1)
  fi
  if ! (cd "$sim" && cargo build --offline --locked --release --features "$2" >"$dir/build.log" 2>&1); then
    echo "build of $1 failed:" >&2; tail -40 "$dir/build.log" >&2
    exit 2
  fi
  echo "$s" >"$dir/.stamp"
  exec 9>&-
}

build full full
export GQSIM_FULL="$PWD/target-full/release/gqsim" GQSIM_LIBM="$PWD/target-libm/release/gqsim"
case "$1" in
  build) build libm nostd; exit 0;;
  C02|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|replay|selftest) build libm nostd;;
esac
case "$1" in
  C[0-9]*) exec "$GQSIM_FULL" check "$1";;
  *) exec "$GQSIM_FULL" "$@";;
esac
