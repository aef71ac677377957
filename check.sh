#!/bin/bash
# check.sh ID [--thorough]: rebuild from /repo's working tree, then run the
# simulation check of one property.
# check.sh --replay FILE: run one recorded simulated execution again.
cd "$(dirname "$0")" || exit 2
build() { SIM_ASAN=$2 python3 build.py "$1" >/dev/null || { echo "build of the simulated modules failed" >&2; exit 2; }; }
if [ "$1" = --replay ]; then
  if grep -q '"asan": 1' "$2"; then build build-asan 1; exec build-asan/sim --replay "$2"; fi
  build build ""; exec build/sim --replay "$2"
fi
id=$1; shift
opts=(--seed "${VERIF_SEED:-1}" --known known-findings.txt --max-wall "${SIM_MAX_WALL:-700}")
build build ""
extra=()
# Properties about crashes are also run with the code compiled with AddressSanitizer.
if build/sim "$id" --has-asan; then
  build build-asan 1
  build-asan/sim "$id" "$@" "${opts[@]}" --asan --evidence evidence --max-wall "${SIM_ASAN_WALL:-300}" > build-asan/log; rc=$?
  [ $rc = 0 ] || { cat build-asan/log; exit $rc; }
  mv evidence/"$id".json build-asan/"$id".json
  extra=(--extra build-asan/"$id".json)
fi
exec build/sim "$id" "$@" "${opts[@]}" --evidence evidence "${extra[@]}"
