#!/bin/bash
# replay.sh FILE : re-runs a replay file against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1") || exit 2
which=$(sed -n "s/.*\"quick_cmd\": \"bash check.sh $id \\?\\([a-z]*\\)\".*/\\1/p" "$here/MANIFEST.json")
which=${which:-main}
bash "$here/tools/build.sh" "$which" || exit 2
bin=vh; [ "$which" = main ] || bin=vh-$which
exec "$here/build/target/debug/$bin" replay "$1"
