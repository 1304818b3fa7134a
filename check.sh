#!/bin/bash
# check.sh <property> [quick|thorough] [monitor options, e.g. --only CASE]
# Rebuilds the monitors from /repo's working tree and lets the property's monitor observe it.
# exit 0 held, 1 violated (VIOLATION line), 2 the tree does not build, 3 no verdict.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
seed=${VERIF_SEED:-1}
if [ "$id" = C33 ]; then exec python3 "$here/c33.py" "$tier" "$seed" "$@"; fi
case $id in
  C14|C15|C16|C29|C31|C32)
    exe=$here/harness/target/part/debug/part
    # (these modules may have come to need the rest of the library)
    if ! why=$(bash "$here/build.sh" part); then
      [ $id = C32 ] || bash "$here/build.sh" plain >/dev/null || { echo "$why"; exit 2; }
      [ $id = C32 ] && { echo "$why"; exit 2; }
      exe=$here/harness/target/plain/debug/monitor
    fi ;;
  C37) bash "$here/build.sh" plain tools || exit 2
    exe=$here/harness/target/plain/debug/monitor; export LLAMAPUN_TOOLS=$here/harness/target/tools/debug ;;
  *) bash "$here/build.sh" plain || exit 2; exe=$here/harness/target/plain/debug/monitor ;;
esac
scratch=$(mktemp -d /tmp/llamapun-check.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
TMPDIR=$scratch "$exe" "$id" --tier "$tier" --seed "$seed" \
  --evidence "$here/evidence/$id.json" --replay-dir "$here/evidence/replay" \
  --known "$here/known_findings.json" --scratch "$scratch" "$@"
