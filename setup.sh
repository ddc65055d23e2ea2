#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
for which in main mv sched net cml tools; do
    bash "$here/tools/build.sh" $which || exit
done
