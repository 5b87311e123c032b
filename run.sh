#!/bin/bash
# run.sh check ID: builds what is needed from /repo's working tree and runs the check (VERIF_SEED, VERIF_TIER).
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
bash "$VERIF_DIR/setup.sh" || exit 2
exec "$VERIF_DIR/target/debug/ocav" "$@"
