#!/bin/sh
# Builds demo.cpp with the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -I"$here" -I"$here/stubs" -I"$t" -Iinclude -Isrc "$here/demo.cpp" \
  src/SwerveTrajectoryGenerator.cpp src/path/SwervePathBuilder.cpp src/util/Cancellation.cpp -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
