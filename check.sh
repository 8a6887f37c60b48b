#!/bin/bash
# check.sh Cnn [quick|thorough] [engine flags]   decide one property
# check.sh --replay Cnn FILE                     run a reported counterexample against the real build
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
bin=$("$here/setup.sh" | tail -1)
[ -x "$bin" ] || { echo "cannot build the executor" >&2; exit 2; }
if [ "$1" = --replay ]; then
  exec "$bin" -verif "$here" -prop "$2" -replay "$3"
fi
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
exec "$bin" -verif "$here" -prop "$prop" -tier "$tier" "$@"
