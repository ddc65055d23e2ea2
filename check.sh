#!/bin/bash
# check.sh ID [main|mv|sched|net|cml|tools] : decides one property (see MANIFEST.json).  Exit 0 held, 1 VIOLATION, 2 error.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
id=$1
which=${2:-main}
bash "$here/tools/build.sh" "$which" || exit 2
bin=vh; [ "$which" = main ] || bin=vh-$which
exec "$here/build/target/debug/$bin" check "$id"
