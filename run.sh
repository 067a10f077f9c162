#!/bin/bash
# run.sh setup | run.sh check PROPERTY quick|thorough | run.sh replay FILE
# Builds the simulator against /repo's current working tree and runs it. Exit 0 held, 1 violation,
# 2 the check itself could not give an answer.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
PROG=$REPO/programs/token-bonding-curve
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_TARGET_DIR="$V/sim/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS SWAP_PROGRAM_OWNER_FEE_ADDRESS
cd "$V/sim" || exit 2

stamp() { # what the program is built from, by content
  (cd "$PROG" && find . -type f \( -name '*.rs' -o -name Cargo.toml \) -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum
   sha256sum "$V/sim/Cargo.toml" "$V/sim/Cargo.lock" "$V/known-findings.txt" "$V"/sim/src/*.rs) | sha256sum | cut -d' ' -f1
}
# build normal|production
build() {
  mkdir -p "$V/sim/bin"
  exec 9>"$V/sim/bin/lock"
  flock 9
  local now; now="$(stamp)"
  if [ "$(cat "$V/sim/bin/stamp" 2>/dev/null)" = "$now" ] && [ -x "$V/sim/bin/tbcsim" ] && { [ "$1" = normal ] || [ -x "$V/sim/bin/tbcsim-prod" ]; }; then
    flock -u 9; exec 9>&-; return
  fi
  # cargo looks at file times; contents may have changed without them
  if [ "$(cat "$V/sim/bin/stamp" 2>/dev/null)" != "$now" ]; then
    cargo clean --release --offline -p token-bonding-curve -p tbcsim >/dev/null 2>&1
    rm -f "$V/sim/bin/tbcsim" "$V/sim/bin/tbcsim-prod"
  fi
  cargo build --release --offline --locked >"$V/sim/bin/build.log" 2>&1 || { tail -40 "$V/sim/bin/build.log"; echo "build failed"; exit 2; }
  cp -f "$V/sim/target/release/tbcsim" "$V/sim/bin/tbcsim.new" && mv -f "$V/sim/bin/tbcsim.new" "$V/sim/bin/tbcsim" || exit 2
  if [ "$1" = production ]; then
    SWAP_PROGRAM_OWNER_FEE_ADDRESS="$("$V/sim/bin/tbcsim" owner-key)" \
      cargo build --release --offline --locked --features production >"$V/sim/bin/build.log" 2>&1 || { tail -40 "$V/sim/bin/build.log"; echo "build failed"; exit 2; }
    cp -f "$V/sim/target/release/tbcsim" "$V/sim/bin/tbcsim-prod.new" && mv -f "$V/sim/bin/tbcsim-prod.new" "$V/sim/bin/tbcsim-prod" || exit 2
  fi
  echo "$now" >"$V/sim/bin/stamp"
  flock -u 9
  exec 9>&-
}

case "${1:-}" in
  setup)
    build production
    ;;
  check)
    P="$2"; T="${3:-quick}"
    mkdir -p "$V/evidence" "$V/replays"
    PROD=()
    if [ "$P" = C17 ]; then build production; PROD=(--prod "$V/sim/bin/tbcsim-prod"); else build normal; fi
    exec "$V/sim/bin/tbcsim" check --prop "$P" --tier "$T" --seed "${VERIF_SEED:-1}" --level "${4:-exploration}" \
      --evidence "$V/evidence/$P.json" --dir "$V/replays" "${PROD[@]}"
    ;;
  replay)
    build production
    exec "$V/sim/bin/tbcsim" replay "$2"
    ;;
  *)
    echo "usage: run.sh setup | check PROPERTY quick|thorough | replay FILE"; exit 2
    ;;
esac
