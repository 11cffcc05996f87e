#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]     checks a property on the current tree of /repo
#        check.sh replay FILE [-v]              replays the file a check has reported
# exit 0: held on everything explored; 1: violated (with a VIOLATION line); anything else: the check itself failed
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
if [ "$1" = C21 ] || { [ "$1" = replay ] && grep -q '"property": *"C21"' "$2"; }; then export SIM_RACE=1; fi
TMP=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
if ! bash "$HERE/build.sh" "$TMP" >"$TMP/build.log" 2>&1; then
  echo "the simulated build of /repo failed:"; tail -n 60 "$TMP/build.log"; exit 2
fi
if [ "$1" = replay ]; then
  shift; F=$1; shift
  "$TMP/sim.bin" replay -file "$F" "$@"; exit $?
fi
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
if [ "$TIER" = thorough ]; then SECS=${VERIF_SECS:-1500}; else SECS=${VERIF_SECS:-45}; fi
"$TMP/sim.bin" check -prop "$PROP" -seed "$SEED" -tier "$TIER" -secs "$SECS" -workers "${VERIF_WORKERS:-8}" \
  -evidence "$HERE/evidence" -known "$HERE/known-findings.jsonl"
exit $?
