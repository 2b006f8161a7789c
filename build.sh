#!/bin/bash
# Builds what the checks run, from /repo's working tree, into /verif/target:
#   bin/bulloak  the real program (unmodified sources, debug assertions on)
#   shim.so      the seam between the program and the simulated system
#   sim          the simulator
# "build.sh setup" also builds optimised dependencies of the program once, so
# that later builds only compile /repo's own crates.
# Exits 3 if something does not build.
set -u
V=$(cd "$(dirname "$0")" && pwd)
T=$V/target
mkdir -p "$T/bin"
exec 9>"$T/lock"
flock 9
fail() { echo "HARNESS-ERROR: $*" >&2; exit 3; }

# The simulator and the shim.
gcc -O2 -fno-delete-null-pointer-checks -fPIC -shared -fvisibility=hidden -o "$T/shim.tmp" "$V/shim/shim.c" -ldl \
  && mv "$T/shim.tmp" "$T/shim.so" || fail "the shim does not build"
(
  cd "$V/sim" && unset RUSTC_WRAPPER RUSTFLAGS
  HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$T/sim-build \
    cargo build --release --offline --quiet 2>"$T/sim.log"
) || { cat "$T/sim.log" >&2; fail "the simulator does not build"; }
cp -f "$T/sim-build/release/sim" "$T/sim.tmp" && mv "$T/sim.tmp" "$T/sim"

# The program.  Cargo decides by modification time whether a source changed;
# here the content decides.
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
sum=$( (find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0; find . -maxdepth 2 -name '*.toml' -not -path './target/*' -print0) | sort -zu | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "${1:-}" = setup ] || [ -d "$T/opt/debug/.fingerprint" ]; then
  D=$T/opt
  export CARGO_PROFILE_DEV_OPT_LEVEL=2
  set -- -p bulloak
else
  # No optimised dependencies: reuse those that /opt/vp/build.sh left in
  # /repo/target, which takes seconds instead of minutes.
  D=$T/plain
  if [ ! -d "$D/debug/.fingerprint" ] && [ -d /repo/target/debug/.fingerprint ]; then
    mkdir -p "$D/debug/deps"
    export CARGO_PROFILE_DEV_DEBUG=line-tables-only
    cp -a /repo/target/debug/build /repo/target/debug/.fingerprint "$D/debug/" \
      && find /repo/target/debug/deps -maxdepth 1 -type f \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) \
        -not -name '*bulloak*' -exec cp -a -t "$D/debug/deps" {} + \
      && find "$D/debug/.fingerprint" -mindepth 1 -maxdepth 1 -name 'bulloak*' -exec rm -r {} +
    touch "$D/seeded"
  fi
  [ -f "$D/seeded" ] && export CARGO_PROFILE_DEV_DEBUG=line-tables-only
  set -- --workspace --all-targets
fi
if [ "$(cat "$D/sum" 2>/dev/null)" != "$sum" ] || [ ! -x "$D/debug/bulloak" ]; then
  [ -d "$D/debug/.fingerprint" ] && find "$D/debug/.fingerprint" -mindepth 1 -maxdepth 1 -name 'bulloak*' -exec rm -r {} +
  : >"$D.log"
  CARGO_TARGET_DIR=$D cargo build "$@" --offline --quiet >>"$D.log" 2>&1 \
    || { tail -50 "$D.log" >&2; fail "/repo does not build"; }
  echo "$sum" >"$D/sum"
fi
cp -f "$D/debug/bulloak" "$T/bin/bulloak.tmp" && mv "$T/bin/bulloak.tmp" "$T/bin/bulloak"
