#!/bin/bash
# run_check.sh PROPERTY: builds the simulator from /repo and searches. Exit 0: held, 1: violation, else: error.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V"
BIN=$("$V/build.sh") || exit 3
exec "$BIN" check "$1" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}"
