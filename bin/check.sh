#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED and VERIF_TIER select seed and budget)
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/bin/build.sh" || exit 2
exec "$here/target/release/harness" check "$1"
