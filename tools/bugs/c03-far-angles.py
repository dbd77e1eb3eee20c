ID = 'c03-far-angles'
PROPERTY = 'C03'
NEEDS = 'headings more than one and a half revolutions apart'
BREAKS = 'the turn is wrapped only once, so accumulated headings make the robot spin full turns'
EDITS = [('include/trajopt/util/TrajoptUtil.hpp', '  const double numMax = std::trunc((diff - minimumInput) / modulus);\n  diff -= numMax * modulus;', '  if (diff > maximumInput) {\n    diff -= modulus;\n  }'), ('include/trajopt/util/TrajoptUtil.hpp', '  const double numMin = std::trunc((diff - maximumInput) / modulus);\n  diff -= numMin * modulus;', '  if (diff < minimumInput) {\n    diff += modulus;\n  }')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  for (double from : {0.1, 1.0, -2.0})
    for (double to : {0.5, 3.0, -3.0, 11.5, -11.5, 40.0}) {
      auto r = trajopt::AngleLinspace(from, to, 3);
      if (r.size() != 3 || std::fabs(r[2] - from) > std::numbers::pi + 1e-9 || std::fabs(std::sin((r[2] - to) / 2)) > 1e-9)
        return std::printf("from %g to %g ends at %g\n", from, to, r.back()), 1;
    }
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
