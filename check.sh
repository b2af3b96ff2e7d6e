#!/bin/bash
# check.sh PROPERTY TIER: builds the simulator against /repo's working tree and
# runs the property's simulations. Exit 0 held, 1 violated, 2 no answer.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
case "$prop" in
  C01|C02|C03|C04|C05|C06|C07|C21) dir=sim bin=dst-tree ;;
  C18|C19|C22|C23|C24) dir=sim/page bin=dst-page ;;
  *) dir=sim/editor bin=dst-editor ;;
esac
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
if ! ./build.sh "$dir" 2>build.log; then
  cat build.log >&2
  echo "the simulator does not build against this tree" >&2
  exit 2
fi
exec "$dir/target/release/$bin" check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --both
