#!/bin/bash
# check.sh ID: decide one property (VERIF_SEED, VERIF_TIER from the environment).
# Exit 0: held; 1 with a VIOLATION line: broken; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
case $id in
  C12) what=async ;;
  C15 | C16 | C22) what=cli ;;
  *) what=lib ;;
esac
"$here/build.sh" $what || exit 2
bin=$what
[ $what = cli ] && bin=lib
export VERIF_DIR=$here TVH_TOON_BIN=$here/harness/target/toon/debug/toon
exec "$here/harness/target/$bin/debug/tvh" run "$id"
