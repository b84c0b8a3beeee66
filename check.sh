#!/bin/bash
# check.sh <ID> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>           run a recorded violation again
# check.sh determinism <ID> [n]    run n plans twice in different processes and orders and compare
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" || { echo "the tree does not build with the simulator" >&2; exit 3; }
B=$V/target/sim/release/panacea-sim
export PANACEA_VERIF=$V
case "$1" in
  replay|determinism) exec "$B" "$@" ;;
  *) exec "$B" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
