#!/bin/bash
# run.sh PROP            rebuild and run the check of one property (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE     rebuild and replay a recorded violation
# run.sh CMD ...         any other simulator command (one, determinism, selftest, list)
cd /verif || exit 3
ulimit -c 0
ulimit -v 16000000
bash /verif/build.sh || exit 3
case "${1:-}" in
  [A-Z][0-9]*) exec /verif/target/debug/rcsim check "$1" ;;
  *) exec /verif/target/debug/rcsim "$@" ;;
esac
