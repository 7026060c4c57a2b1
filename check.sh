#!/bin/bash
# check.sh ID [SUB]: rebuild from /repo's working tree and decide one property. Exit 0 / 1 as MANIFEST.json describes; 2 on an error.
VERIF=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$VERIF
"$VERIF/tools/build.sh" || exit 2
case $1 in
C02) "$VERIF/tools/build_bind.sh" wasm || exit 2 ;;
C25) "$VERIF/tools/build_bind.sh" py wasm || exit 2 ;;
C28) "$VERIF/tools/build_bind.sh" c || exit 2 ;;
esac
cd "$VERIF" || exit 2
exec "$VERIF/target/debug/vharness" check "$@"
