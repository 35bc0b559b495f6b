#!/bin/bash
# check.sh ID [quick|thorough]: builds from /repo's current working tree, then decides one property.
# Exit 0: held; 1: VIOLATION; 2 and above: no answer (build failure, time out).
V=$(dirname "$(readlink -f "$0")")
"$V/build.sh" || exit 2
cd "$V" || exit 2
export PBT_VERIF_DIR=$V VERIF_SEED=${VERIF_SEED:-1}
exec "$V/target/release/pbt" run "$1" "${2:-${VERIF_TIER:-quick}}"
