#!/bin/bash
# usage: replay.sh <replay file>
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/bin/build.sh" || exit 2
exec "$here/target/release/harness" replay "$1"
