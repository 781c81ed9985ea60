#!/bin/bash
# replay.sh FILE: run the case of a replay file against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$(grep -o '"property": *"[A-Z0-9]*"' "$1" | head -1 | grep -o 'C[0-9]*')
case $id in
  C12) what=async bin=async ;;
  C15 | C16 | C22) what=cli bin=lib ;;
  *) what=lib bin=lib ;;
esac
"$here/build.sh" $what || exit 2
export VERIF_DIR=$here TVH_TOON_BIN=$here/harness/target/toon/debug/toon
exec "$here/harness/target/$bin/debug/tvh" replay "$1"
