#!/bin/bash
# run.sh PROPERTY quick|thorough   decide one property
# run.sh replay FILE               reproduce a violation
# run.sh build                     build only
here=$(cd "$(dirname "$0")" && pwd)
out=$here/build
"$here/sim/build.sh" "$out" >&2 || { echo "build failed" >&2; exit 2; }
case "$1" in
build) exit 0 ;;
replay) exec "$out/vsim" replay "$2" ;;
esac
tier=${2:-quick}
secs=40
[ "$tier" = thorough ] && secs=${VERIF_SECS:-420}
exec "$out/vsim" check -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -secs "${VERIF_SECS:-$secs}" -verif "$here"
