ID = 'c01-empty-segment'
PROPERTY = 'C01'
NEEDS = 'a path with a segment of zero control intervals before the queried waypoint'
BREAKS = 'an empty segment is counted as one interval, so the samples after it are numbered with a gap'
EDITS = [('include/trajopt/util/TrajoptUtil.hpp', '    index += N.at(_wptIndex - 1);', '    auto count = N.at(_wptIndex - 1);\n    index += count ? count : 1;')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  std::vector<size_t> n{2, 0, 3};
  for (size_t w = 1, at = 1; w <= 4; w++) {
    if (trajopt::GetIndex(n, w, 0) != at) return std::printf("waypoint %zu: %zu, not %zu\n", w, trajopt::GetIndex(n, w, 0), at), 1;
    if (w <= 3) at += n[w - 1];
  }
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
